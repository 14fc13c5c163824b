//! Numbers: literals, conversions, equality, construction from machine numbers.
use crate::json::J;
use crate::proj::{self, tag};
use ferrous_chloride::nom::types::CompleteStr;
use ferrous_chloride::parser::expression::Expression;
use ferrous_chloride::parser::number::{number, Number};
use ferrous_chloride::value::{self, Value};
use ferrous_chloride::AsOwned;

/// digits (no leading zeros) of m * 2^e as a decimal: (digits, power of ten)
fn decimal(m: u64, e: i32) -> (Vec<i64>, i64) {
    // least significant first, base 10^9
    let mut n: Vec<u64> = vec![m % 1_000_000_000, m / 1_000_000_000 % 1_000_000_000, m / 1_000_000_000_000_000_000];
    let (times, by) = if e >= 0 { (e, 2u64) } else { (-e, 5u64) };
    for _ in 0..times {
        let mut carry = 0;
        for d in n.iter_mut() {
            let x = *d * by + carry;
            *d = x % 1_000_000_000;
            carry = x / 1_000_000_000;
        }
        if carry > 0 {
            n.push(carry);
        }
    }
    let mut s = String::new();
    for d in n.iter().rev() {
        s.push_str(&format!("{:09}", d));
    }
    let s = s.trim_start_matches('0');
    (s.bytes().map(|b| (b - b'0') as i64).collect(), if e >= 0 { 0 } else { e as i64 })
}

fn dec(m: u64, e: i32) -> J {
    let (d, x) = decimal(m, e);
    J::Arr(vec![J::Arr(d.into_iter().map(J::Int).collect()), J::Int(x)])
}

/// The real numbers that round to a float with mantissa bits `p` (53 or 24), least exponent
/// `emin`: sign, whether the ends are included, lower and upper end.
fn interval(neg: bool, biased: u64, frac: u64, p: u32, emin: i32, top: u64) -> J {
    if biased == top {
        if frac != 0 {
            return tag("nan", vec![]);
        }
        // from (2^p - 1/2) * 2^emax on
        let emax = emin + (top as i32 - 2);
        return tag("inf", vec![J::Bool(neg), dec((1u64 << (p + 1)) - 1, emax - 1)]);
    }
    let (m, e) = if biased == 0 { (frac, emin) } else { (frac | (1u64 << (p - 1)), emin + biased as i32 - 1) };
    let incl = m % 2 == 0;
    let lo = if m == 0 {
        J::Arr(vec![J::Arr(vec![]), J::Int(0)])
    } else if frac == 0 && biased > 1 {
        dec(4 * m - 1, e - 2)
    } else {
        dec(2 * m - 1, e - 1)
    };
    tag("in", vec![J::Bool(neg), J::Bool(incl), lo, dec(2 * m + 1, e - 1), J::Bool(m == 0)])
}

pub fn f64i(f: f64) -> J {
    let b = f.to_bits();
    interval(b >> 63 == 1, (b >> 52) & 0x7ff, b & ((1 << 52) - 1), 53, -1074, 0x7ff)
}

pub fn f32i(f: f32) -> J {
    let b = f.to_bits() as u64;
    interval(b >> 31 == 1, (b >> 23) & 0xff, b & ((1 << 23) - 1), 24, -149, 0xff)
}

fn lit<'a>(t: &'a str) -> Option<Number<'a>> {
    match number(CompleteStr(t)) {
        Ok((rest, n)) => {
            if rest.0.is_empty() {
                Some(n)
            } else {
                None
            }
        }
        Err(_) => None,
    }
}

fn e() -> J {
    J::Obj(vec![("r".into(), J::s("err"))])
}

fn int<T: ToString, E>(r: Result<T, E>) -> J {
    match r {
        Ok(v) => J::cps(&v.to_string()),
        Err(_) => J::Arr(vec![]),
    }
}

fn convs(n: &Number) -> J {
    let f32v = n.as_f32().map(f32i).unwrap_or_else(|_| tag("err", vec![]));
    let f64v = n.as_f64().map(f64i).unwrap_or_else(|_| tag("err", vec![]));
    let pairs = vec![
        ("u8", int(n.as_u8())),
        ("u16", int(n.as_u16())),
        ("u32", int(n.as_u32())),
        ("u64", int(n.as_u64())),
        ("u128", int(n.as_u128())),
        ("i8", int(n.as_i8())),
        ("i16", int(n.as_i16())),
        ("i32", int(n.as_i32())),
        ("i64", int(n.as_i64())),
        ("i128", int(n.as_i128())),
    ];
    J::Obj(vec![
        ("text".into(), J::cps(n)),
        ("ints".into(), J::Arr(pairs.into_iter().map(|(k, v)| J::Arr(vec![J::s(k), v])).collect())),
        ("f32".into(), f32v),
        ("f64".into(), f64v),
        ("signed".into(), J::Bool(n.is_signed())),
        ("unsigned".into(), J::Bool(n.is_unsigned())),
        ("float".into(), J::Bool(n.is_float())),
        ("refl".into(), J::Bool(same(n))),
    ])
}

/// equal to itself, its clone and its owned copy, in both directions
fn same(n: &Number) -> bool {
    let o = n.as_owned();
    #[allow(clippy::eq_op)]
    {
        *n == *n && *n == n.clone() && *n == o && o == *n && o.as_f64() == n.as_f64() && &*o == &**n
    }
}

macro_rules! made {
    ($t:expr, $ty:ty, $as:ident) => {{
        let v: $ty = $t.parse().expect("harness: machine integer");
        let n = Number::from(v);
        let l = lit($t).expect("harness: integer literal");
        let back = n.$as();
        J::Obj(vec![
            ("text".into(), J::cps(&n)),
            ("back".into(), int(back)),
            ("same".into(), J::Bool(n == l && l == n)),
            ("expr".into(), J::Bool(Expression::from(n.clone()) == Expression::Number(l))),
            ("c".into(), convs(&n)),
        ])
    }};
}

pub fn from(j: &J) -> J {
    let t = j.get("n").unwrap().text();
    let t: &str = &t;
    proj::ok(match j.get("ty").unwrap().str() {
        "u8" => made!(t, u8, as_u8),
        "u16" => made!(t, u16, as_u16),
        "u32" => made!(t, u32, as_u32),
        "u64" => made!(t, u64, as_u64),
        "u128" => made!(t, u128, as_u128),
        "i8" => made!(t, i8, as_i8),
        "i16" => made!(t, i16, as_i16),
        "i32" => made!(t, i32, as_i32),
        "i64" => made!(t, i64, as_i64),
        "i128" => made!(t, i128, as_i128),
        o => panic!("harness: type {}", o),
    })
}

pub fn from_float(j: &J) -> J {
    let b = j.get("b").unwrap().arr();
    let bits = ((b[0].int() as u64) << 48) | ((b[1].int() as u64) << 32) | ((b[2].int() as u64) << 16) | b[3].int() as u64;
    let (n, given, back) = if j.get("ty").unwrap().str() == "f64" {
        let f = f64::from_bits(bits);
        let n = Number::from(f);
        let b = n.as_f64().map(f64i).unwrap_or_else(|_| tag("err", vec![]));
        (n, f64i(f), b)
    } else {
        let f = f32::from_bits(bits as u32);
        let n = Number::from(f);
        let b = n.as_f32().map(f32i).unwrap_or_else(|_| tag("err", vec![]));
        (n, f32i(f), b)
    };
    proj::ok(J::Obj(vec![
        ("given".into(), given),
        ("back".into(), back),
        ("text".into(), J::cps(&n)),
        ("refl".into(), J::Bool(same(&n))),
        ("lit".into(), J::Bool(lit(&n).map(|l| l == n && n == l).unwrap_or(true))),
    ]))
}

pub fn num(t: &str) -> J {
    match lit(t) {
        Some(n) => proj::ok(convs(&n)),
        None => e(),
    }
}

pub fn eq(a: &str, b: &str) -> J {
    match (lit(a), lit(b)) {
        (Some(a), Some(b)) => proj::ok(J::Obj(vec![
            ("ab".into(), J::Bool(a == b)),
            ("ba".into(), J::Bool(b == a)),
            ("own".into(), J::Bool(a.as_owned() == b)),
            ("ne".into(), J::Bool(a != b)),
            ("expr".into(), J::Bool(Expression::Number(a) == Expression::Number(b))),
        ])),
        _ => e(),
    }
}

/// the number as a leaf of a value tree, alone, in a list and below a key
pub fn val(t: &str) -> J {
    let doc = format!("a = {}\nb = [{}]\n", t, t);
    match value::from_str(&doc, None) {
        Ok(m) => {
            let leaf = |v: &Value| match v {
                Value::Integer(i) => tag("int", vec![J::cps(&i.to_string())]),
                Value::Float(f) => tag("flt", vec![f64i(*f)]),
                _ => tag("other", vec![]),
            };
            let a = leaf(m.get_single("a").expect("harness: a"));
            let b = match m.get_single("b") {
                Some(Value::List(l)) if l.len() == 1 => leaf(&l[0]),
                _ => tag("other", vec![]),
            };
            proj::ok(J::Arr(vec![a, b]))
        }
        Err(e) => proj::err(&e),
    }
}
