pub enum J { Null, B(bool), N(i128), S(String), A(Vec<J>), O(Vec<(String, J)>) }
impl From<bool> for J { fn from(b: bool) -> J { J::B(b) } }
impl From<usize> for J { fn from(b: usize) -> J { J::N(b as i128) } }
impl From<String> for J { fn from(b: String) -> J { J::S(b) } }
impl From<&str> for J { fn from(b: &str) -> J { J::S(b.to_string()) } }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => o.push_str(&n.to_string()),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { o.push(',') }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(',') }
                    J::S(k.clone()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
    pub fn to_string(&self) -> String { let mut s = String::new(); self.w(&mut s); s }
}
