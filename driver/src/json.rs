pub enum J {
    S(String),
    I(i128),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
pub fn s(x: String) -> J {
    J::S(x)
}
pub fn int(x: i128) -> J {
    J::I(x)
}
pub fn arr(x: Vec<J>) -> J {
    J::A(x)
}
pub fn obj(x: Vec<(&'static str, J)>) -> J {
    J::O(x)
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::S(x) => esc(x, o),
            J::I(i) => o.push_str(&i.to_string()),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
