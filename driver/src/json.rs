//! Tiny JSON value + writer (no external dependency).
pub enum J {
    Null,
    Bool(bool),
    Num(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
    Map(Vec<(String, J)>),
}
pub fn s(x: impl Into<String>) -> J { J::Str(x.into()) }
pub fn n(x: impl TryInto<i128>) -> J { J::Num(x.try_into().ok().expect("int")) }
fn esc(o: &mut String, t: &str) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(i) => o.push_str(&i.to_string()),
            J::Str(t) => esc(o, t),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    esc(o, k);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
            J::Map(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push_str(",\n"); }
                    esc(o, k);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
