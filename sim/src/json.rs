//! Minimal JSON value, printer and parser.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}
pub fn num(x: u64) -> J {
    J::Num(x as f64)
}
impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            J::Num(n) => *n as u64,
            _ => 0,
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn print(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => {
                if n.fract() == 0.0 && n.abs() < 1e15 {
                    o.push_str(&format!("{}", *n as i64))
                } else {
                    o.push_str(&format!("{:.3}", n))
                }
            }
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                let flat = a.iter().all(|x| !matches!(x, J::Obj(_) | J::Arr(_)));
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !flat {
                        o.push('\n');
                        o.push_str(&" ".repeat(ind + 1));
                    }
                    x.print(o, ind + 1);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    if ind == 0 {
                        o.push_str("\n ");
                    }
                    J::Str(k.clone()).print(o, 0);
                    o.push_str(": ");
                    v.print(o, ind + 1);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.print(&mut o, 0);
        o.push('\n');
        o
    }
}
pub fn parse(t: &str) -> Option<J> {
    let b = t.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i)?;
    Some(v)
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'{' => {
            *i += 1;
            let mut o = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    b'}' => {
                        *i += 1;
                        return Some(J::Obj(o));
                    }
                    b',' => *i += 1,
                    _ => {
                        let J::Str(k) = val(b, i)? else { return None };
                        ws(b, i);
                        if *b.get(*i)? != b':' {
                            return None;
                        }
                        *i += 1;
                        o.push((k, val(b, i)?));
                    }
                }
            }
        }
        b'[' => {
            *i += 1;
            let mut o = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    b']' => {
                        *i += 1;
                        return Some(J::Arr(o));
                    }
                    b',' => *i += 1,
                    _ => o.push(val(b, i)?),
                }
            }
        }
        b'"' => {
            *i += 1;
            let mut o = vec![];
            loop {
                match *b.get(*i)? {
                    b'"' => {
                        *i += 1;
                        return Some(J::Str(String::from_utf8(o).ok()?));
                    }
                    b'\\' => {
                        *i += 1;
                        match *b.get(*i)? {
                            b'n' => o.push(b'\n'),
                            b't' => o.push(b'\t'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*i + 1..*i + 5)?).ok()?;
                                let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                                o.extend_from_slice(c.to_string().as_bytes());
                                *i += 4;
                            }
                            c => o.push(c),
                        }
                        *i += 1;
                    }
                    c => {
                        o.push(c);
                        *i += 1;
                    }
                }
            }
        }
        b't' => {
            *i += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *i += 5;
            Some(J::Bool(false))
        }
        b'n' => {
            *i += 4;
            Some(J::Null)
        }
        _ => {
            let st = *i;
            while *i < b.len() && matches!(b[*i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *i += 1;
            }
            std::str::from_utf8(&b[st..*i]).ok()?.parse().ok().map(J::Num)
        }
    }
}
