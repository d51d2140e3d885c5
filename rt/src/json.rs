//! A minimal JSON reader/writer (no dependencies, numbers kept as text).
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn n<T: ToString>(x: T) -> J { J::Num(x.to_string()) }
    pub fn s<T: ToString>(x: T) -> J { J::Str(x.to_string()) }
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(o) = self {
            for (a, b) in o {
                if a == k { return b; }
            }
        }
        &J::Null
    }
    pub fn arr(&self) -> &[J] { if let J::Arr(a) = self { a } else { &[] } }
    pub fn str(&self) -> &str { match self { J::Str(s) => s, J::Num(s) => s, _ => "" } }
    pub fn u(&self) -> u64 { self.str().parse().unwrap_or(0) }
    pub fn us(&self) -> usize { self.u() as usize }
    pub fn b(&self) -> bool { matches!(self, J::Bool(true)) }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(s) => out.push_str(s),
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f || (c as u32) > 0x7e => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) { out.push_str(&format!("\\u{:04x}", u)); }
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    J::Str(k.clone()).write(out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn parse(s: &str) -> J {
        let b: Vec<char> = s.chars().collect();
        let mut p = 0;
        let r = value(&b, &mut p);
        r
    }
}

fn ws(b: &[char], p: &mut usize) {
    while *p < b.len() && b[*p].is_whitespace() { *p += 1; }
}

fn value(b: &[char], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        'n' => { *p += 4; J::Null }
        't' => { *p += 4; J::Bool(true) }
        'f' => { *p += 5; J::Bool(false) }
        '"' => J::Str(string(b, p)),
        '[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == ']' { *p += 1; return J::Arr(v); }
                if b[*p] == ',' { *p += 1; continue; }
                v.push(value(b, p));
            }
        }
        '{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == '}' { *p += 1; return J::Obj(v); }
                if b[*p] == ',' { *p += 1; continue; }
                let k = string(b, p);
                ws(b, p);
                assert!(b[*p] == ':');
                *p += 1;
                v.push((k, value(b, p)));
            }
        }
        _ => {
            let st = *p;
            while *p < b.len() && !",]} \n\r\t".contains(b[*p]) { *p += 1; }
            J::Num(b[st..*p].iter().collect())
        }
    }
}

fn string(b: &[char], p: &mut usize) -> String {
    assert!(b[*p] == '"');
    *p += 1;
    let mut u: Vec<u16> = vec![];
    while b[*p] != '"' {
        if b[*p] == '\\' {
            *p += 1;
            match b[*p] {
                'n' => u.push(10),
                't' => u.push(9),
                'r' => u.push(13),
                'b' => u.push(8),
                'f' => u.push(12),
                'u' => {
                    let h: String = b[*p + 1..*p + 5].iter().collect();
                    u.push(u16::from_str_radix(&h, 16).unwrap());
                    *p += 4;
                }
                c => u.push(c as u16),
            }
            *p += 1;
        } else {
            let mut t = [0u16; 2];
            u.extend_from_slice(b[*p].encode_utf16(&mut t));
            *p += 1;
        }
    }
    *p += 1;
    String::from_utf16_lossy(&u)
}
