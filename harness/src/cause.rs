//! What a failing call says about its failure.
use crate::json::J;
use crate::proj::tag;
use crate::source::Script;
use ferrous_chloride::parser::expression::Expression;
use ferrous_chloride::{parse_reader, parse_slice, parse_str, value, Error, MergeBehaviour};

/// The message gives this text under its name
fn tells(m: &str, name: &str, what: &str) -> bool {
    let low = m.to_lowercase();
    if low.len() != m.len() {
        return m.contains(what);
    }
    low.match_indices(name).any(|(i, _)| {
        let rest = m.get(i + name.len()..).unwrap_or("").trim_start_matches(|c| " :=`'\"".contains(c));
        rest.starts_with(what.trim_start_matches(|c| " :=`'\"".contains(c)))
    })
}

/// The cause, and whether the message mentions all of it
pub fn of(e: &Error) -> (J, bool) {
    let m = e.to_string();
    let has = |s: &str| m.contains(s);
    let said = !m.trim().is_empty();
    match e {
        Error::InvalidUnicodeCodePoint(s) => (tag("escape", vec![J::cps(s)]), has(s)),
        Error::UnexpectedRemainingInput(s) => (tag("rest", vec![J::cps(s)]), has(s)),
        Error::IllegalMultipleEntries { key, variant } => (
            tag("multi", vec![J::cps(key), J::s(variant.to_lowercase())]),
            tells(&m, "key", key) && tells(&m, "variant", variant),
        ),
        Error::ErrorMergingKeys { key, existing_variant, incoming_variant } => (
            tag(
                "merge",
                vec![J::cps(key), J::s(existing_variant.to_lowercase()), J::s(incoming_variant.to_lowercase())],
            ),
            tells(&m, "key", key)
                && match (m.rfind(existing_variant), m.rfind(incoming_variant)) {
                    (Some(a), Some(b)) => a < b,
                    _ => false,
                },
        ),
        Error::IOError(i) => (tag("io", vec![J::s(format!("{:?}", i.kind()))]), has(&i.to_string())),
        Error::InvalidUnicodeToParse(u) => (tag("utf8", vec![J::Int(u.valid_up_to() as i64)]), has(&u.to_string())),
        Error::ParseError(_) => (tag("syntax", vec![]), said),
        Error::InvalidNumber(s) => (tag("number", vec![J::cps(s)]), has(s)),
        Error::InvalidUnicode(_) => (tag("unicode", vec![]), said),
        Error::UnexpectedVariant { .. } => (tag("variant", vec![]), said),
        Error::Bug(_) => (tag("bug", vec![]), said),
    }
}

pub fn j(c: (J, bool)) -> J {
    J::Obj(vec![("r".into(), J::s("err")), ("c".into(), c.0), ("shown".into(), J::Bool(c.1))])
}

fn res<X>(r: Result<X, Error>) -> J {
    match r {
        Ok(_) => J::Obj(vec![("r".into(), J::s("ok"))]),
        Err(e) => j(of(&e)),
    }
}

fn mb(g: &str) -> Option<MergeBehaviour> {
    if g == "mrg" {
        Some(MergeBehaviour::Error)
    } else {
        None
    }
}

pub fn text(q: &J) -> J {
    let t = q.get("t").unwrap().text();
    match q.get("g").unwrap().str() {
        "hcl" => res(parse_str(&t)),
        "expr" => res(Expression::parse(&t)),
        g => res(value::from_str(&t, mb(g))),
    }
}

pub fn bytes(q: &J) -> J {
    let data = q.get("b").unwrap().bytes();
    let ev: Vec<i64> = q.get("ev").unwrap().arr().iter().map(|e| e.int()).collect();
    let mut script = Script { data: data.clone(), at: 0, ev, i: 0 };
    let (sl, rd) = match q.get("g").unwrap().str() {
        "hcl" => (res(parse_slice(&data)), res(parse_reader(&mut script))),
        g => (res(value::from_slice(&data, mb(g))), res(value::from_reader(&mut script, mb(g)))),
    };
    J::Obj(vec![("r".into(), J::s("x")), ("sl".into(), sl), ("rd".into(), rd)])
}

/// Failures of deserialization
pub fn de(e: &ferrous_chloride::serde::de::Error) -> (J, bool) {
    use ferrous_chloride::serde::de::Error as E;
    let m = e.to_string();
    let has = |s: &str| m.contains(s);
    let quoted = |s: &str, lead: &str| -> Option<String> {
        if !s.starts_with(lead) {
            return None;
        }
        let r = &s[lead.len()..];
        r.find('`').map(|i| r[..i].to_string())
    };
    match e {
        E::ParseError(p) => {
            let (c, shown) = of(p);
            (tag("in", vec![c]), shown && has(&p.to_string()))
        }
        E::ParseIntError(_) => (tag("int", vec![]), true),
        E::ParseFloatError(_) => (tag("float", vec![]), true),
        E::TrailingCharacters => (tag("trailing", vec![]), true),
        E::Overflow(_) => (tag("overflow", vec![]), true),
        E::InvalidTupleLength { expected, actual } => (
            tag("tuplen", vec![J::Int(*expected as i64), J::Int(*actual as i64)]),
            match (m.find(&expected.to_string()), m.rfind(&actual.to_string())) {
                (Some(a), Some(b)) => a < b,
                _ => false,
            },
        ),
        E::ObjectDuplicateKey(k) => (tag("objdup", vec![J::cps(k)]), has(k)),
        E::BodyDuplicateKey(k) => (tag("bodydup", vec![J::cps(k)]), has(k)),
        E::Custom(s) => (
            if let Some(f) = quoted(s, "missing field `") {
                tag("missing", vec![J::cps(&f)])
            } else if let Some(f) = quoted(s, "unknown field `") {
                tag("unknown", vec![J::cps(&f)])
            } else if let Some(f) = quoted(s, "duplicate field `") {
                tag("dupfield", vec![J::cps(&f)])
            } else {
                tag("custom", vec![])
            },
            has(s) && !s.trim().is_empty(),
        ),
    }
}

