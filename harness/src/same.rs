//! Equality, hashing and construction: do trees that say the same compare equal?
use crate::json::J;
use crate::vtree;
use ferrous_chloride::parser::block::{Block, BlockLabel};
use ferrous_chloride::parser::body::{Body, BodyElement};
use ferrous_chloride::parser::expression::Expression;
use ferrous_chloride::parser::object::ObjectElementIdentifier;
use ferrous_chloride::value::{self, MapValues, Value};
use ferrous_chloride::{parse_str, AsOwned, KeyValuePairs, MergeBehaviour};
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

fn b(x: bool) -> J {
    J::Bool(x)
}

fn text(s: String) -> Cow<'static, str> {
    Cow::Owned(s)
}

fn stat(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// A literal as a machine number, where there is one that holds it
fn number(t: &str, w: usize) -> Expression<'static> {
    macro_rules! try_all {
        ($($n:ty)*) => {
            [$((|t: &str| t.parse::<$n>().ok().map(Expression::from)) as fn(&str) -> Option<Expression<'static>>),*]
        };
    }
    let ints = try_all!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128);
    let floats = try_all!(f64);
    let found: Vec<_> = ints.iter().filter_map(|f| f(t)).collect();
    if !found.is_empty() {
        return found[w % found.len()].clone();
    }
    if t.contains(|c| c == '.' || c == 'e' || c == 'E') {
        return floats[0](t).expect("harness: float");
    }
    Expression::parse(t).expect("harness: number").as_owned()
}

fn okey(j: &[J], w: usize) -> ObjectElementIdentifier<'static> {
    let s = j[1].text();
    match j[0].str() {
        "I" if w % 2 == 0 => ObjectElementIdentifier::from(stat(s)),
        "I" => ObjectElementIdentifier::Identifier(text(s)),
        _ => ObjectElementIdentifier::Expression(text(s)),
    }
}

/// An expression from the constructors; `w` chooses among them
pub fn expr(j: &J, w: usize) -> Expression<'static> {
    let a = j.arr();
    match a[0].str() {
        "null" if w % 2 == 0 => Expression::from(()),
        "null" => Expression::Null,
        "bool" if w % 2 == 0 => Expression::from(a[1].bool()),
        "bool" => Expression::Boolean(a[1].bool()),
        "num" => number(&a[1].text(), w),
        "str" => match w % 3 {
            0 => Expression::from(text(a[1].text())),
            1 => Expression::from(stat(a[1].text())),
            _ => Expression::String(text(a[1].text())),
        },
        "tup" => {
            let es: Vec<_> = a[1].arr().iter().map(|e| expr(e, w)).collect();
            match w % 4 {
                0 => Expression::new_tuple(es),
                1 => es.into_iter().collect(),
                2 => Expression::from(es),
                _ => Expression::Tuple(es),
            }
        }
        "obj" => {
            let es = a[1].arr().iter().map(|e| e.arr()).collect::<Vec<_>>();
            if w % 3 == 0 {
                Expression::new_object(es.iter().map(|e| (okey(e, w), expr(&e[2], w))))
            } else if w % 3 == 1 && es.iter().all(|e| e[0].str() == "I") {
                Expression::new_object(es.iter().map(|e| (stat(e[1].text()), expr(&e[2], w))))
            } else {
                Expression::Object(es.iter().map(|e| (okey(e, w), expr(&e[2], w))).collect())
            }
        }
        _ => panic!("harness: expression {}", j),
    }
}

fn label(j: &J, w: usize) -> BlockLabel<'static> {
    let s = j.arr()[1].text();
    match j.arr()[0].str() {
        "S" => BlockLabel::StringLiteral(s),
        _ if w % 2 == 0 => BlockLabel::from(stat(s)),
        _ => BlockLabel::Identifier(text(s)),
    }
}

fn element(j: &J, w: usize) -> BodyElement<'static> {
    let a = j.arr();
    if a[0].str() == "A" {
        let at = (text(a[1].text()), expr(&a[2], w));
        let e = if w % 2 == 0 { BodyElement::from(at.clone()) } else { BodyElement::Attribute(at.clone()) };
        assert!(e.is_attribute() && !e.is_block(), "kind of an attribute");
        assert!(e.clone().unwrap_attribute() == at, "content of an attribute");
        e
    } else {
        let labels: Vec<_> = a[2].arr().iter().map(|l| label(l, w)).collect();
        let inner = a[3].arr();
        let one = inner.len() <= 1 && inner.iter().all(|e| e.arr()[0].str() == "A");
        let blk = if one && w % 2 == 1 {
            let at = inner.get(0).map(|e| (text(e.arr()[1].text()), expr(&e.arr()[2], w)));
            Block::new_one_line(text(a[1].text()), labels, at)
        } else {
            Block::new(text(a[1].text()), labels, body(&a[3], w))
        };
        let e = if w % 2 == 0 { BodyElement::from(blk.clone()) } else { BodyElement::Block(blk.clone()) };
        assert!(e.is_block() && !e.is_attribute(), "kind of a block");
        assert!(e.clone().unwrap_block() == blk, "content of a block");
        e
    }
}

pub fn body(j: &J, w: usize) -> Body<'static> {
    j.arr().iter().map(|e| element(e, w)).collect()
}

/// A value from the constructors and conversions; `w` chooses among them
fn value(j: &J, w: usize) -> Value<'static> {
    let a = j.arr();
    match a[0].str() {
        "str" if w % 2 == 0 => Value::from(a[1].text().as_str()),
        "int" if w % 2 == 0 => Value::from(&a[1].text().parse::<i64>().unwrap()),
        "bool" if w % 2 == 0 => Value::from(&a[1].bool()),
        "list" => {
            let es: Vec<_> = a[1].arr().iter().map(|e| value(e, w)).collect();
            match w % 4 {
                0 => es.into_iter().collect(),
                1 if es.is_empty() => Value::from(None::<Vec<Value>>),
                1 => Value::from(Some(es)),
                2 => Value::new_list(es),
                _ => Value::List(es),
            }
        }
        "objs" => {
            let es: Vec<_> = a[1].arr().iter().map(|e| map(e, w)).collect();
            let unmerged = a[1].arr().iter().all(|e| e.arr()[0].str() == "U");
            match w % 4 {
                0 if unmerged => Value::new_map(es),
                1 if unmerged && es.len() == 1 => Value::new_single_map(es.into_iter().next().unwrap()),
                1 if es.len() == 1 => Value::from(es.into_iter().next().unwrap()),
                2 => Value::from(&es),
                _ => Value::from(es),
            }
        }
        "blk" => {
            let es: Vec<_> = a[1].arr()[1]
                .arr()
                .iter()
                .map(|e| (vtree::labels(&e.arr()[0]), map(&e.arr()[1], w)))
                .collect();
            if a[1].arr()[0].str() == "M" {
                if w % 2 == 0 {
                    Value::Block(value::Block::new_merged(es).expect("harness: merged block"))
                } else {
                    Value::from(KeyValuePairs::Merged(es.into_iter().collect()))
                }
            } else if w % 3 == 0 && es.len() == 1 && es[0].1.is_unmerged_map() {
                let (ls, m) = es.into_iter().next().unwrap();
                let ls: &'static [String] = Box::leak(ls.into_boxed_slice());
                Value::new_block(ls, m)
            } else if w % 3 == 1 {
                Value::from(es.into_iter().collect::<value::Block>())
            } else {
                Value::Block(value::Block::new_unmerged(es))
            }
        }
        _ => vtree::build(j),
    }
}

trait Unmerged {
    fn is_unmerged_map(&self) -> bool;
}
impl<'a> Unmerged for MapValues<'a> {
    fn is_unmerged_map(&self) -> bool {
        match self {
            KeyValuePairs::Unmerged(_) => true,
            _ => false,
        }
    }
}

fn map(j: &J, w: usize) -> MapValues<'static> {
    let mut all = MapValues::new_unmerged(vec![]);
    for it in j.arr()[1].arr() {
        all.extend(vtree::item(it.arr()[0].str(), &it.arr()[1].text(), value(&it.arr()[2], w)));
    }
    if j.arr()[0].str() == "M" {
        KeyValuePairs::Merged(all.into_iter().collect())
    } else if w % 2 == 0 {
        all
    } else {
        all.into_iter().collect()
    }
}

/// Everything that is asked about two trees; `x` was parsed from the first text, `y` from the second
macro_rules! answers {
    ($x:expr, $y:expr, $built:expr) => {{
        let (x, y, built) = ($x, $y, $built);
        let (p, q) = (x.as_owned(), y.as_owned());
        #[allow(clippy::eq_op)]
        J::Obj(vec![
            ("r".into(), J::s("ok")),
            ("eq".into(), J::Arr(vec![b(x == y), b(y == x), b(!(x != y)), b(p == *y), b(*y == p), b(p == q), b(x.clone() == *y)])),
            ("refl".into(), J::Arr(vec![b(x == x), b(y == y), b(p == *x), b(*y == q), b(p == p)])),
            ("built".into(), J::Arr(built.iter().map(|z| b(z == y && y == z)).collect())),
            ("made".into(), J::Arr(built.iter().map(|z| b(z == x && x == z)).collect())),
        ])
    }};
}

pub fn same(j: &J) -> J {
    let (s, t) = (j.get("a").unwrap().text(), j.get("b").unwrap().text());
    let v = j.get("v").unwrap();
    let none = || J::Obj(vec![("r".into(), J::s("err"))]);
    match j.get("g").unwrap().str() {
        "expr" => match (Expression::parse(&s), Expression::parse(&t)) {
            (Ok(x), Ok(y)) => {
                let r = answers!(&x, &y, (0..12).map(|w| expr(v, w)).collect::<Vec<_>>());
                let name = x.variant_name().to_string();
                with(r, "name", J::s(name))
            }
            _ => none(),
        },
        "hcl" => match (parse_str(&s), parse_str(&t)) {
            (Ok(x), Ok(y)) => answers!(&x, &y, (0..6).map(|w| body(v, w)).collect::<Vec<_>>()),
            _ => none(),
        },
        g => {
            let m = if g == "mrg" { Some(MergeBehaviour::Error) } else { None };
            match (value::from_str(&s, m), value::from_str(&t, m)) {
                (Ok(x), Ok(y)) => answers!(&x, &y, (0..12).map(|w| map(v, w)).collect::<Vec<_>>()),
                _ => none(),
            }
        }
    }
}

fn with(j: J, k: &str, v: J) -> J {
    match j {
        J::Obj(mut o) => {
            o.push((k.into(), v));
            J::Obj(o)
        }
        j => j,
    }
}

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn names<T>(x: T, y: T, t: &str, texts: Vec<bool>) -> J
where
    T: Hash + Eq + std::borrow::Borrow<str> + Clone,
{
    let mut m = HashMap::new();
    m.insert(x.clone(), 1);
    let found = m.get::<str>(t) == Some(&1) && m.contains_key::<str>(t);
    let same = m.contains_key::<T>(&y);
    m.insert(y.clone(), 2);
    J::Obj(vec![
        ("r".into(), J::s("ok")),
        ("eq".into(), J::Arr(vec![b(x == y), b(y == x), b(!(x != y)), b(same), b(m.len() == 1)])),
        ("hash".into(), b(hash(&x) == hash(&y))),
        ("own".into(), b(x == x.clone() && hash(&x) == hash(&x.clone()))),
        ("found".into(), b(found)),
        ("text".into(), J::Arr(texts.into_iter().map(b).collect())),
    ])
}

/// Two names: labels, keys of value trees or keys of objects
pub fn name(j: &J) -> J {
    let (a, c) = (j.get("a").unwrap(), j.get("b").unwrap());
    let t = c.arr()[1].text();
    match j.get("w").unwrap().str() {
        "label" => {
            let (x, y) = (label(a, 0), label(c, 1));
            assert!(x.as_owned() == x && hash(&x.as_owned()) == hash(&x), "owned label");
            let u = vec![x == t.as_str(), x == t, x == Cow::from(t.as_str()), x.as_str() == t, x.as_cow() == t];
            names(x, y, &t, u)
        }
        "oei" => {
            let (x, y) = (okey(a.arr(), 0), okey(c.arr(), 1));
            assert!(x.as_owned() == x && hash(&x.as_owned()) == hash(&x), "owned key");
            let mut u = vec![x == t.as_str(), x == t, x == Cow::from(t.as_str())];
            if a.arr()[0].str() == "I" {
                u.push(x.as_str() == t);
            }
            names(x, y, &t, u)
        }
        _ => {
            let k = |j: &J| {
                vtree::item(j.arr()[0].str(), &j.arr()[1].text(), Value::Null)
                    .into_iter()
                    .next()
                    .unwrap()
                    .0
            };
            let (x, y) = (k(a), k(c));
            assert!(x.as_owned() == x && hash(&AsOwned::as_owned(&x)) == hash(&x), "owned key");
            let u = vec![&*x == t.as_str(), x.clone().unwrap() == t];
            names(x, y, &t, u)
        }
    }
}
