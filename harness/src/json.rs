//! Minimal JSON reader/writer (the sandbox's serde_json does not pair with the serde /repo pins).
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s<S: Into<String>>(s: S) -> J {
        J::Str(s.into())
    }
    pub fn cps(s: &str) -> J {
        J::Arr(s.chars().map(|c| J::Int(c as u32 as i64)).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            // ToJson in TLC prints an empty function as {}
            J::Obj(v) if v.is_empty() => &[],
            _ => panic!("harness: array expected, got {}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("harness: string expected, got {}", self),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => panic!("harness: int expected, got {}", self),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => panic!("harness: bool expected, got {}", self),
        }
    }
    /// Text is an array of code points (or, for hand-written requests, a JSON string)
    pub fn text(&self) -> String {
        match self {
            J::Str(s) => s.clone(),
            J::Obj(v) if v.is_empty() => String::new(),
            J::Arr(v) => v
                .iter()
                .map(|c| std::char::from_u32(c.int() as u32).expect("harness: bad code point"))
                .collect(),
            _ => panic!("harness: text expected"),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|c| c.int() as u8).collect()
    }
}

impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            J::Null => f.write_str("null"),
            J::Bool(b) => write!(f, "{}", b),
            J::Int(i) => write!(f, "{}", i),
            J::Str(s) => {
                f.write_char('"')?;
                for c in s.chars() {
                    match c {
                        '"' => f.write_str("\\\"")?,
                        '\\' => f.write_str("\\\\")?,
                        c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                write!(f, "\\u{:04x}", u)?;
                            }
                        }
                        c => f.write_char(c)?,
                    }
                }
                f.write_char('"')
            }
            J::Arr(v) => {
                f.write_char('[')?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_char(',')?;
                    }
                    write!(f, "{}", x)?;
                }
                f.write_char(']')
            }
            J::Obj(v) => {
                f.write_char('{')?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_char(',')?;
                    }
                    write!(f, "{}:{}", J::s(k.as_str()), x)?;
                }
                f.write_char('}')
            }
        }
    }
}

pub fn parse(s: &str) -> J {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = val(&b, &mut i);
    ws(&b, &mut i);
    assert!(i == b.len(), "harness: trailing json");
    v
}

fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn val(b: &[char], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        'n' => {
            *i += 4;
            J::Null
        }
        't' => {
            *i += 4;
            J::Bool(true)
        }
        'f' => {
            *i += 5;
            J::Bool(false)
        }
        '"' => J::Str(string(b, i)),
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == ']' {
                    *i += 1;
                    return J::Arr(v);
                }
                if b[*i] == ',' {
                    *i += 1;
                }
                v.push(val(b, i));
            }
        }
        '{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == '}' {
                    *i += 1;
                    return J::Obj(v);
                }
                if b[*i] == ',' {
                    *i += 1;
                    ws(b, i);
                }
                let k = string(b, i);
                ws(b, i);
                assert!(b[*i] == ':', "harness: json colon");
                *i += 1;
                v.push((k, val(b, i)));
            }
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == '-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            let t: String = b[st..*i].iter().collect();
            J::Int(t.parse().expect("harness: json int"))
        }
    }
}

fn string(b: &[char], i: &mut usize) -> String {
    assert!(b[*i] == '"', "harness: json string");
    *i += 1;
    let mut units: Vec<u16> = vec![];
    while b[*i] != '"' {
        if b[*i] == '\\' {
            *i += 1;
            match b[*i] {
                'n' => units.push(10),
                'r' => units.push(13),
                't' => units.push(9),
                'b' => units.push(8),
                'f' => units.push(12),
                'u' => {
                    let h: String = b[*i + 1..*i + 5].iter().collect();
                    units.push(u16::from_str_radix(&h, 16).expect("harness: json \\u"));
                    *i += 4;
                }
                c => units.push(c as u16),
            }
        } else {
            let mut t = [0u16; 2];
            units.extend_from_slice(b[*i].encode_utf16(&mut t));
        }
        *i += 1;
    }
    *i += 1;
    String::from_utf16(&units).expect("harness: json surrogate")
}
