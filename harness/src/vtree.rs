//! Builds value trees from their abstract form and asks them everything.
use crate::json::J;
use crate::proj;
use ferrous_chloride::value::{self, Block, MapValues, Value};
use ferrous_chloride::{AsOwned, Error, KeyValuePairs, Mergeable, OneOrMany, ScalarLength};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A key that was written in quotes exists only as the result of parsing
pub fn quoted(t: &str) -> MapValues<'static> {
    let esc: String = t.chars().map(|c| format!("\\U{:08x}", c as u32)).collect();
    let doc = format!("\"{}\" = 0\n", esc);
    let m = value::from_str(&doc, None).expect("harness: quoted key").as_owned();
    m
}

pub fn item(kind: &str, key: &str, v: Value<'static>) -> MapValues<'static> {
    if kind == "S" {
        let m = quoted(key);
        m.into_iter().map(|(k, _)| (k, v.clone())).collect()
    } else {
        MapValues::new_unmerged(vec![(key.to_string().into(), v)])
    }
}

pub fn map(j: &J) -> MapValues<'static> {
    let mut all = MapValues::new_unmerged(vec![]);
    for it in j.arr()[1].arr() {
        all.extend(item(it.arr()[0].str(), &it.arr()[1].text(), build(&it.arr()[2])));
    }
    if j.arr()[0].str() == "M" {
        KeyValuePairs::Merged(all.into_iter().collect())
    } else {
        all
    }
}

pub fn labels(j: &J) -> Vec<String> {
    j.arr().iter().map(|l| l.text()).collect()
}

pub fn block(j: &J) -> Block<'static> {
    let es: Vec<_> = j.arr()[1]
        .arr()
        .iter()
        .map(|e| (labels(&e.arr()[0]), map(&e.arr()[1])))
        .collect();
    if j.arr()[0].str() == "M" {
        KeyValuePairs::Merged(es.into_iter().collect())
    } else {
        Block::new_unmerged(es)
    }
}

pub fn build(j: &J) -> Value<'static> {
    let a = j.arr();
    match a[0].str() {
        "null" => Value::Null,
        "bool" => Value::from(a[1].bool()),
        "int" => Value::from(a[1].text().parse::<i64>().expect("harness: int")),
        "flt" => {
            let d: String = a[2].arr().iter().map(|d| d.int().to_string()).collect();
            let s = format!("{}{}e{}", if a[1].bool() { "-" } else { "" }, d, a[3].int());
            Value::from(s.parse::<f64>().expect("harness: float"))
        }
        "str" => Value::from(a[1].text()),
        "list" => Value::new_list(a[1].arr().iter().map(build)),
        "objs" => Value::from(a[1].arr().iter().map(map).collect::<Vec<_>>()),
        "blk" => Value::from(block(&a[1])),
        _ => panic!("harness: value {}", j),
    }
}

fn e(e: &Error) -> J {
    match e {
        Error::UnexpectedVariant {
            enum_type,
            expected,
            actual,
        } => J::Arr(vec![J::s("err"), J::s(*enum_type), J::s(*expected), J::s(*actual)]),
        _ => J::Arr(vec![J::s("err")]),
    }
}

fn ok(v: J) -> J {
    J::Arr(vec![J::s("ok"), v])
}

/// The panicking twin has to agree with the accessor
fn twin<T>(good: bool, f: impl FnOnce() -> T) -> Option<T> {
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    assert!(r.is_some() == good, "unwrap and accessor disagree");
    r
}

fn b(x: bool) -> J {
    J::Bool(x)
}
fn n(x: usize) -> J {
    J::Int(x as i64)
}
fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn tag(t: &str, v: J) -> J {
    J::Arr(vec![J::s(t), v])
}

fn map_answer(m: &MapValues) -> J {
    let o = m.as_owned();
    assert!(&o == m && proj::map(&o) == proj::map(m), "owned map differs");
    obj(vec![
        ("len", n(m.len())),
        ("empty", b(m.is_empty())),
        ("scalars", n(m.len_scalar())),
        ("noscalars", b(m.is_empty_scalar())),
        ("merged", b(m.is_merged())),
        ("unmerged", b(m.is_unmerged())),
    ])
}
fn block_answer(m: &Block) -> J {
    obj(vec![
        ("len", n(m.len())),
        ("empty", b(m.is_empty())),
        ("scalars", n(m.len_scalar())),
        ("noscalars", b(m.is_empty_scalar())),
        ("merged", b(m.is_merged())),
        ("unmerged", b(m.is_unmerged())),
    ])
}

pub fn answers(v: &Value<'static>) -> J {
    let whole = proj::value(v);
    let owned = v.as_owned();
    let same = &owned == v && proj::value(&owned) == whole && &v.clone() == v;
    let is = vec![
        v.is_null(),
        v.is_integer(),
        v.is_float(),
        v.is_boolean(),
        v.is_string(),
        v.is_list(),
        v.is_map(),
        v.is_block(),
    ];
    let mut acc = vec![];
    macro_rules! get {
        ($f:ident, $u:ident, $p:expr) => {
            acc.push(match v.$f() {
                Ok(x) => {
                    let y = twin(true, || v.$u()).unwrap();
                    assert!($p(&x) == $p(&y), "unwrap yields something else");
                    ok($p(&x))
                }
                Err(x) => {
                    twin(false, || {
                        let _ = v.$u();
                    });
                    e(&x)
                }
            });
        };
    }
    macro_rules! take {
        ($f:ident, $u:ident, $p:expr) => {
            acc.push(match v.clone().$f() {
                Ok(x) => {
                    let y = twin(true, || v.clone().$u()).unwrap();
                    assert!($p(&x) == $p(&y), "unwrap yields something else");
                    ok($p(&x))
                }
                Err((x, back)) => {
                    assert!(proj::value(&back) == whole, "the value handed back differs");
                    twin(false, || {
                        let _ = v.clone().$u();
                    });
                    e(&x)
                }
            });
        };
    }
    let list = |l: &Vec<Value>| tag("list", J::Arr(l.iter().map(proj::value).collect()));
    let maps = |l: &Vec<MapValues>| tag("objs", J::Arr(l.iter().map(proj::map).collect()));
    let blk = |l: &Block| tag("blk", proj::vblock(l));
    get!(integer, unwrap_integer, |i: &i64| tag("int", J::cps(&i.to_string())));
    get!(float, unwrap_float, |f: &f64| proj::float(*f));
    get!(boolean, unwrap_boolean, |f: &bool| tag("bool", b(*f)));
    get!(borrow_str, unwrap_borrow_str, |f: &&str| tag("str", J::cps(f)));
    take!(string, unwrap_string, |f: &String| tag("str", J::cps(f)));
    get!(borrow_list, unwrap_borrow_list, |f: &&Vec<Value>| list(f));
    take!(list, unwrap_list, list);
    get!(borrow_map, unwrap_borrow_map, |f: &&Vec<MapValues>| maps(f));
    take!(map, unwrap_map, maps);
    get!(borrow_block, unwrap_borrow_block, |f: &&Block| blk(f));
    take!(block, unwrap_block, blk);
    let mut mt = vec![];
    macro_rules! change {
        ($f:ident, $u:ident, $c:expr) => {
            let mut w = v.clone();
            let r = match w.$f() {
                Ok(x) => {
                    $c(x);
                    None
                }
                Err(x) => Some(e(&x)),
            };
            let mut w2 = v.clone();
            twin(r.is_none(), || $c(w2.$u()));
            assert!(proj::value(&w) == proj::value(&w2), "unwrap changes something else");
            mt.push(match r {
                None => ok(proj::value(&w)),
                Some(x) => {
                    assert!(proj::value(&w) == whole, "the value was changed");
                    x
                }
            });
        };
    }
    change!(borrow_string_mut, unwrap_borrow_string_mut, |s: &mut String| s.push('!'));
    change!(borrow_list_mut, unwrap_borrow_list_mut, |s: &mut Vec<Value>| s.push(Value::Null));
    change!(borrow_map_mut, unwrap_borrow_map_mut, |s: &mut Vec<MapValues>| s
        .push(MapValues::new_unmerged(vec![])));
    change!(borrow_block_mut, unwrap_borrow_block_mut, |s: &mut Block| s
        .extend(vec![(vec!["new".to_string()], MapValues::new_unmerged(vec![]))]));
    // the same questions to collections of values
    let two = vec![v.clone(), Value::Null];
    assert!(
        two.is_merged() == v.is_merged() && two.is_unmerged() == v.is_unmerged() && two.len_scalar() == v.len_scalar() + 1,
        "a vector answers differently"
    );
    let one = OneOrMany::One(v.clone());
    let many = OneOrMany::Many(two.clone());
    assert!(
        one.is_merged() == v.is_merged()
            && one.is_unmerged() == v.is_unmerged()
            && many.is_merged() == v.is_merged()
            && many.is_unmerged() == v.is_unmerged(),
        "one or many answers differently"
    );
    let hm: std::collections::HashMap<u8, Value> = vec![(1, v.clone()), (2, Value::Null)].into_iter().collect();
    let hr: std::collections::HashMap<u8, &Value> = hm.iter().map(|(k, v)| (*k, v)).collect();
    assert!(
        hm.len_scalar() == two.len_scalar()
            && hr.len_scalar() == two.len_scalar()
            && hm.is_merged() == v.is_merged()
            && hm.is_unmerged() == v.is_unmerged()
            && [v.clone(), v.clone(), Value::Null].len_scalar() == 2 * v.len_scalar() + 1,
        "a map answers differently"
    );
    let ms = match v {
        Value::Object(l) => l.iter().map(map_answer).collect(),
        _ => vec![],
    };
    let bs = match v {
        Value::Block(l) => std::iter::once(block_answer(l))
            .chain({
                let mut x: Vec<_> = l.iter().map(|(k, m)| (k.clone(), map_answer(m))).collect();
                if let KeyValuePairs::Merged(_) = l {
                    x.sort_by(|a, b| a.0.cmp(&b.0));
                }
                x.into_iter().map(|x| x.1)
            })
            .collect(),
        _ => vec![],
    };
    obj(vec![
        ("whole", whole),
        ("is", J::Arr(is.into_iter().map(b).collect())),
        ("body", b(v.is_body())),
        ("name", J::s(v.variant_name())),
        ("scalar", b(v.is_scalar())),
        ("aggregate", b(v.is_aggregate())),
        ("len", n(v.len())),
        ("empty", b(v.is_empty())),
        ("scalars", n(v.len_scalar())),
        ("noscalars", b(v.is_empty_scalar())),
        ("merged", b(v.is_merged())),
        ("unmerged", b(v.is_unmerged())),
        ("acc", J::Arr(acc)),
        ("mut", J::Arr(mt)),
        ("maps", J::Arr(ms)),
        ("blocks", J::Arr(bs)),
        ("own", b(same)),
    ])
}

pub fn vq(j: &J) -> J {
    proj::ok(answers(&build(j.get("v").unwrap())))
}
