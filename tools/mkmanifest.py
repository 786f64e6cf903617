"""Writes MANIFEST.json: a check per module in sa/checks, everything else not applicable with its reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of MIR'
T = {
 'C01': ('unsafe-operation audit: enumeration over MIR + abstract interpretation of the guarding conditions', 'every unsafe operation in both build configurations is enumerated; unchecked operations need a proof on every abstract path, anything unrecognised is reported'),
 'C02': ('interprocedural effect analysis over the MIR call graph', 'deny list of ambient effects over all function references, shared mutable state traced to its writers; rules self-tested on a witness crate'),
 'C03': ('compile witnesses in both profiles + MIR path counting of the expansions', 'client crates compiled against the current library in debug and release; call counts on every path of the expansion'),
 'C27': (AI + ' with symbolic token iterators', 'every path of every reader; token index and parsed value compared symbolically'),
 'C28': (AI + ' (forwarding terms)', 'all ten arities; exactly-once and argument order on every path'),
}
NA = {
 'C29': 'the part that can be decided is claimed elsewhere: refused positions and ranges (C10), empty inputs of the structures whose rules include them (C16, C17), unchecked accesses (C01), loops that the checks of C11 to C25, C31 and C32 interpret with their own invariants. As one statement over all modules it needs, for every index read out of an array (trie links, adjacency lists, recorded positions), a relation between all cells at once, which the linear domain does not hold.',
 'C30': 'a prototype (overflow checks of the MIR as obligations, interval bounds for products) decided the residue operations, safe_mod and pow_mod, but the nested loops of is_prime did not finish within its limit, so it was left out and the property is not claimed. Overflow that changes a value of residue arithmetic or of pow_mod is within C09.',
 'N01': 'optimality of shortest paths, flows and matchings quantifies over unbounded graph histories; it needs an inductive optimality argument (augmenting-path and triangle-inequality proofs) that no static dataflow argument in reach establishes. The local disciplines the algorithms rest on are C19 to C22.',
 'N02': 'exactness of the primality bases and of the primitive-root search are number-theoretic facts (which composites fool which bases; orders in the group) that no dataflow or type argument in reach establishes; the gcd, inverse and remainder parts are claimed as C33.',
 'N04': 'asymptotic cost is a quantitative property of unbounded executions; a static bound analysis with amortisation is out of reach here.',
}
PENDING = 'no check yet in this version of the framework'


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    try:
        from techniques import TECH
        T.update(TECH)
    except ImportError:
        pass
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(V, 'sa/checks', i.lower() + '.py')) and i in T:
            t, note = T[i]
            checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh ' + i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': note})
        else:
            na.append({'property': i, 'reason': NA.get(i, PENDING)})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not applicable')


main()
