from term import *
from lin import *
from crate import *
from interp import *
from builtins_ import *
from loops import *


class AI(Loops, Builtins, Interp):
    pass
