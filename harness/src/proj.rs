//! Projections of the library's public types onto the abstract values the specification uses.
use crate::json::J;
use ferrous_chloride::parser::block::{Block, BlockLabel};
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::expression::Expression;
use ferrous_chloride::parser::object::ObjectElementIdentifier;
use ferrous_chloride::value::{Block as VBlock, MapValues, Value};
use ferrous_chloride::KeyValuePairs;

pub fn tag(t: &str, rest: Vec<J>) -> J {
    let mut v = vec![J::s(t)];
    v.extend(rest);
    J::Arr(v)
}

pub fn config(b: &[BodyElement]) -> J {
    J::Arr(b.iter().map(element).collect())
}

pub fn element(e: &BodyElement) -> J {
    match e {
        BodyElement::Attribute((k, v)) => tag("A", vec![J::cps(k), expr(v)]),
        BodyElement::Block(b) => block(b),
    }
}

pub fn label(l: &BlockLabel) -> J {
    match l {
        BlockLabel::StringLiteral(s) => tag("S", vec![J::cps(s)]),
        BlockLabel::Identifier(s) => tag("I", vec![J::cps(s)]),
    }
}

pub fn block(b: &Block) -> J {
    tag(
        "B",
        vec![
            J::cps(&b.r#type),
            J::Arr(b.labels.iter().map(label).collect()),
            config(&b.body),
        ],
    )
}

pub fn okey(k: &ObjectElementIdentifier) -> (J, J) {
    match k {
        ObjectElementIdentifier::Identifier(i) => (J::s("I"), J::cps(i)),
        ObjectElementIdentifier::Expression(i) => (J::s("X"), J::cps(i)),
    }
}

pub fn expr(e: &Expression) -> J {
    match e {
        Expression::Null => tag("null", vec![]),
        Expression::Boolean(b) => tag("bool", vec![J::Bool(*b)]),
        Expression::Number(n) => tag("num", vec![J::cps(n)]),
        Expression::String(s) => tag("str", vec![J::cps(s)]),
        Expression::Tuple(t) => tag("tup", vec![J::Arr(t.iter().map(expr).collect())]),
        Expression::Object(o) => tag(
            "obj",
            vec![J::Arr(
                o.iter()
                    .map(|(k, v)| {
                        let (a, b) = okey(k);
                        J::Arr(vec![a, b, expr(v)])
                    })
                    .collect(),
            )],
        ),
    }
}

/// A float as sign, significant decimal digits and decimal exponent of its shortest
/// representation (canonical for literals of at most 15 significant digits).
pub fn float(f: f64) -> J {
    if f.is_nan() {
        return tag("nan", vec![]);
    }
    if f.is_infinite() {
        return tag("inf", vec![J::Bool(f < 0.0)]);
    }
    let s = format!("{:e}", f.abs());
    let mut it = s.split('e');
    let mant = it.next().unwrap();
    let mut exp: i64 = it.next().unwrap().parse().unwrap();
    let mut digits: Vec<i64> = vec![];
    let mut seen = false;
    for c in mant.chars() {
        if c == '.' {
            seen = true;
        } else {
            digits.push(c as i64 - 48);
            if seen {
                exp -= 1;
            }
        }
    }
    while digits.len() > 1 && *digits.last().unwrap() == 0 {
        digits.pop();
        exp += 1;
    }
    let zero = digits.iter().all(|d| *d == 0);
    tag(
        "flt",
        vec![
            J::Bool(f < 0.0 && !zero),
            J::Arr(if zero { vec![J::Int(0)] } else { digits.into_iter().map(J::Int).collect() }),
            J::Int(if zero { 0 } else { exp }),
        ],
    )
}

/// `Key` is not nameable outside the crate: its kind is read off `Debug`
pub fn key_kind<K: std::fmt::Debug>(k: &K) -> J {
    let d = format!("{:?}", k);
    if d.starts_with("Identifier") {
        J::s("I")
    } else if d.starts_with("String") {
        J::s("S")
    } else {
        J::s("?")
    }
}

pub fn sorted(mut v: Vec<J>) -> Vec<J> {
    v.sort_by_key(|j| j.to_string());
    v
}

pub fn map(m: &MapValues) -> J {
    let items: Vec<J> = m
        .iter()
        .map(|(k, v)| J::Arr(vec![key_kind(k), J::cps(k), value(v)]))
        .collect();
    match m {
        KeyValuePairs::Unmerged(_) => tag("U", vec![J::Arr(items)]),
        KeyValuePairs::Merged(_) => tag("M", vec![J::Arr(sorted(items))]),
    }
}

pub fn vblock(m: &VBlock) -> J {
    let items: Vec<J> = m
        .iter()
        .map(|(k, v)| J::Arr(vec![J::Arr(k.iter().map(|s| J::cps(s)).collect()), map(v)]))
        .collect();
    match m {
        KeyValuePairs::Unmerged(_) => tag("U", vec![J::Arr(items)]),
        KeyValuePairs::Merged(_) => tag("M", vec![J::Arr(sorted(items))]),
    }
}

pub fn value(v: &Value) -> J {
    match v {
        Value::Null => tag("null", vec![]),
        Value::Integer(i) => tag("int", vec![J::cps(&i.to_string())]),
        Value::Float(f) => float(*f),
        Value::Boolean(b) => tag("bool", vec![J::Bool(*b)]),
        Value::String(s) => tag("str", vec![J::cps(s)]),
        Value::List(l) => tag("list", vec![J::Arr(l.iter().map(value).collect())]),
        Value::Object(l) => tag("objs", vec![J::Arr(l.iter().map(map).collect())]),
        Value::Block(b) => tag("blk", vec![vblock(b)]),
    }
}

pub fn err(e: &ferrous_chloride::Error) -> J {
    use ferrous_chloride::Error::*;
    let k = match e {
        InvalidUnicodeCodePoint(_) => "InvalidUnicodeCodePoint",
        InvalidNumber(_) => "InvalidNumber",
        InvalidUnicode(_) => "InvalidUnicode",
        ParseError(_) => "ParseError",
        IllegalMultipleEntries { .. } => "IllegalMultipleEntries",
        ErrorMergingKeys { .. } => "ErrorMergingKeys",
        UnexpectedVariant { .. } => "UnexpectedVariant",
        IOError(_) => "IOError",
        InvalidUnicodeToParse(_) => "InvalidUnicodeToParse",
        UnexpectedRemainingInput(_) => "UnexpectedRemainingInput",
        Bug(_) => "Bug",
    };
    J::Obj(vec![("r".into(), J::s("err")), ("k".into(), J::s(k))])
}

pub fn ok(v: J) -> J {
    J::Obj(vec![("r".into(), J::s("ok")), ("v".into(), v)])
}

pub fn res(r: Result<J, ferrous_chloride::Error>) -> J {
    match r {
        Ok(v) => ok(v),
        Err(e) => err(&e),
    }
}
