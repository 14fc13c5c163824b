//! Histories of key-value collections.
use crate::json::J;
use crate::{proj, vtree};
use ferrous_chloride::value::{Block, MapValues};
use ferrous_chloride::{AsOwned, KeyValuePairs, OneOrMany};
use std::borrow::Borrow;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

/// Drains an iterator, checking what it says about its length at every step
fn drain<I: Iterator>(mut it: I, total: usize, exact: bool, who: &str) -> Vec<I::Item> {
    let mut out = vec![];
    loop {
        let (lo, hi) = it.size_hint();
        let left = total.wrapping_sub(out.len());
        assert!(lo <= left && hi.map_or(true, |h| h >= left), "{}: wrong size hint", who);
        assert!(!exact || (lo == left && hi == Some(left)), "{}: inexact length", who);
        match it.next() {
            Some(x) => out.push(x),
            None => break,
        }
        assert!(out.len() <= total, "{}: too many items", who);
    }
    assert!(out.len() == total, "{}: items missing", who);
    out
}

fn fails<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn lookups<'a, K, V, Q, P>(c: &KeyValuePairs<K, V>, key: &Q, pv: P) -> J
where
    K: Hash + Eq + Borrow<Q>,
    Q: Hash + Eq + ?Sized,
    V: Clone + PartialEq + Debug,
    P: Fn(&V) -> J,
{
    let single = c.get_single(key);
    let first = catch_unwind(AssertUnwindSafe(|| pv(&c[key]))).ok();
    match c.get(key) {
        None => {
            assert!(single.is_none(), "single look-up finds what look-up does not");
            assert!(first.is_none(), "indexing finds what look-up does not");
            obj(vec![("found", J::Bool(false))])
        }
        Some(all) => {
            let n = all.len();
            assert!(n > 0 && !all.is_empty(), "an empty answer");
            let isone = all.is_one();
            assert!(all.is_many() != isone, "one and many");
            let many: Vec<J> = drain(all.iter(), n, true, "answer").into_iter().map(|v| pv(v)).collect();
            let many2: Vec<J> = drain((&all).into_iter(), n, true, "answer by reference").into_iter().map(|v| pv(v)).collect();
            let copy: OneOrMany<V> = match &all {
                OneOrMany::One(v) => OneOrMany::One((*v).clone()),
                OneOrMany::Many(v) => OneOrMany::Many(v.iter().map(|v| (*v).clone()).collect()),
            };
            assert!(copy.len() == n && copy.is_one() == isone, "copy of an answer");
            let many3: Vec<J> = drain(copy.clone().into_iter(), n, true, "consumed answer").iter().map(|v| pv(v)).collect();
            if isone {
                assert!(pv(&copy.clone().unwrap_one()) == many[0], "unwrap_one");
                assert!(fails(|| copy.clone().unwrap_many()), "unwrap_many of one");
            } else {
                let l: Vec<J> = copy.clone().unwrap_many().iter().map(|v| pv(v)).collect();
                assert!(l == many, "unwrap_many");
                assert!(fails(|| copy.clone().unwrap_one()), "unwrap_one of many");
            }
            assert!(many == many2 && many == many3, "iterations over an answer disagree");
            let single = pv(single.expect("single look-up does not find what look-up does"));
            assert!(first == Some(single.clone()), "indexing and single look-up disagree");
            obj(vec![
                ("found", J::Bool(true)),
                ("many", J::Arr(many)),
                ("isone", J::Bool(isone)),
                ("first", single),
            ])
        }
    }
}

/// Everything a collection says, `pe` projects an entry
fn all<K, V, E>(c: &KeyValuePairs<K, V>, pe: E, gets: Vec<J>) -> J
where
    K: Hash + Eq + Clone + Debug,
    V: Clone + PartialEq + Debug,
    E: Fn(&K, &V) -> Vec<J>,
{
    let n = c.len();
    let merged = match c {
        KeyValuePairs::Merged(_) => true,
        KeyValuePairs::Unmerged(_) => false,
    };
    let es: Vec<J> = drain(c.iter(), n, true, "iter").into_iter().map(|(k, v)| J::Arr(pe(k, v))).collect();
    let er: Vec<J> = drain(c.into_iter(), n, true, "iter by reference").into_iter().map(|(k, v)| J::Arr(pe(k, v))).collect();
    assert!(es == er, "iter and iteration by reference disagree");
    let ks = drain(c.keys(), n, false, "keys");
    let vs = drain(c.values(), n, false, "values");
    let kv: Vec<J> = ks.into_iter().zip(vs).map(|(k, v)| J::Arr(pe(k, v))).collect();
    assert!(es == kv, "keys and values disagree with iter");
    let set = |mut l: Vec<J>| {
        if merged {
            l.sort_by_key(|j| j.to_string());
        }
        l
    };
    let own: Vec<J> = drain(c.clone().into_iter(), n, true, "into_iter").iter().map(|(k, v)| J::Arr(pe(k, v))).collect();
    assert!(set(own) == set(es.clone()), "consuming iteration disagrees");
    if merged {
        let m: HashMap<K, V> = c.clone().unwrap_merged();
        assert!(set(m.iter().map(|(k, v)| J::Arr(pe(k, v))).collect()) == set(es.clone()), "unwrap_merged");
        assert!(fails(|| c.clone().unwrap_unmerged()), "unwrap_unmerged of a merged collection");
    } else {
        let m: Vec<(K, V)> = c.clone().unwrap_unmerged();
        assert!(m.iter().map(|(k, v)| J::Arr(pe(k, v))).collect::<Vec<_>>() == es, "unwrap_unmerged");
        assert!(fails(|| c.clone().unwrap_merged()), "unwrap_merged of an unmerged collection");
    }
    assert!(&c.clone() == c, "a copy differs");
    obj(vec![
        ("rep", J::s(if merged { "M" } else { "U" })),
        ("es", J::Arr(es)),
        ("len", J::Int(n as i64)),
        ("empty", J::Bool(c.is_empty())),
        ("gets", J::Arr(gets)),
    ])
}

fn finish(outs: Vec<J>, all: Option<J>) -> J {
    let all = all.unwrap_or_else(|| obj(vec![("rep", J::s("fail"))]));
    proj::ok(obj(vec![("outs", J::Arr(outs)), ("all", all)]))
}

fn gen(ops: &[J], q: &[J]) -> J {
    type C = KeyValuePairs<String, i64>;
    let entries = |j: &J| -> Vec<(String, i64)> { j.arr().iter().map(|e| (e.arr()[0].text(), e.arr()[1].int())).collect() };
    let mut c: C = KeyValuePairs::Unmerged(vec![]);
    let mut outs = vec![];
    for o in ops {
        let o = o.arr();
        match o[0].str() {
            "new" => {
                let l = entries(&o[2]);
                c = if o[1].str() == "M" {
                    KeyValuePairs::Merged(l.into_iter().collect())
                } else {
                    KeyValuePairs::Unmerged(l)
                };
            }
            "ext" => c.extend(entries(&o[1])),
            "clone" => c = c.clone(),
            "rewrap" => {
                c = match c {
                    KeyValuePairs::Merged(_) => KeyValuePairs::Unmerged(c.unwrap_merged().into_iter().collect()),
                    KeyValuePairs::Unmerged(_) => KeyValuePairs::Merged(c.unwrap_unmerged().into_iter().collect()),
                }
            }
            x => panic!("harness: {}", x),
        }
        outs.push(J::s("ok"));
    }
    let gets = q
        .iter()
        .map(|k| {
            let k = k.text();
            let a = lookups::<String, i64, str, _>(&c, &k, |v| J::Int(*v));
            assert!(a == lookups::<String, i64, String, _>(&c, &k, |v| J::Int(*v)), "look-up by another key type");
            a
        })
        .collect();
    finish(outs, Some(all(&c, |k, v| vec![J::cps(k), J::Int(*v)], gets)))
}

macro_rules! history {
    ($c:ident, $outs:ident, $ops:ident, $show:expr, $new_u:expr, $new_m:expr, $collect:expr, $entries:expr) => {
        for o in $ops {
            let o = o.arr();
            let old = $c.take();
            let mut out = "ok";
            $c = match o[0].str() {
                "new" => match o[1].str() {
                    "U" => Some($new_u($entries(&o[2]))),
                    "C" => Some($collect($entries(&o[2]))),
                    _ => $new_m($entries(&o[2])).ok(),
                },
                "ext" => {
                    let mut x = old.unwrap();
                    x.extend($entries(&o[1]));
                    Some(x)
                }
                "clone" => Some(old.unwrap().clone()),
                "owned" => Some(old.unwrap().as_owned()),
                "merge" => old.unwrap().merge().ok(),
                "unmerge" => Some(old.unwrap().unmerge()),
                "as_merged" => {
                    let x = old.unwrap();
                    let before = $show(&x);
                    let r = x.as_merged();
                    assert!($show(&x) == before, "as_merged changes the original");
                    match r {
                        Ok(y) => Some(y),
                        Err(_) => {
                            out = "err";
                            Some(x)
                        }
                    }
                }
                "as_unmerged" => {
                    let x = old.unwrap();
                    let before = $show(&x);
                    let r = x.as_unmerged();
                    assert!($show(&x) == before, "as_unmerged changes the original");
                    Some(r)
                }
                x => panic!("harness: {}", x),
            };
            if $c.is_none() {
                out = "err";
            }
            $outs.push(J::s(out));
        }
    };
}

fn map(ops: &[J], q: &[J]) -> J {
    let mut c: Option<MapValues<'static>> = None;
    let mut outs = vec![];
    let entries = |j: &J| vtree::map(&J::Arr(vec![J::s("U"), j.clone()]));
    history!(c, outs, ops, proj::map, MapValues::new_unmerged, MapValues::new_merged, |l: MapValues<'static>| l
        .into_iter()
        .collect::<MapValues>(), entries);
    let a = c.map(|c| {
        let gets = q.iter().map(|k| lookups::<_, _, str, _>(&c, &k.text(), proj::value)).collect();
        all(&c, |k, v| vec![proj::key_kind(k), J::cps(k), proj::value(v)], gets)
    });
    finish(outs, a)
}

fn blk(ops: &[J], q: &[J]) -> J {
    let mut c: Option<Block<'static>> = None;
    let mut outs = vec![];
    let entries = |j: &J| -> Vec<(Vec<String>, MapValues<'static>)> {
        j.arr().iter().map(|e| (vtree::labels(&e.arr()[0]), vtree::map(&e.arr()[1]))).collect()
    };
    history!(c, outs, ops, proj::vblock, Block::new_unmerged, Block::new_merged, |l: Vec<(Vec<String>, MapValues<'static>)>| l
        .into_iter()
        .collect::<Block>(), entries);
    let a = c.map(|c| {
        let pl = |k: &[String]| J::Arr(k.iter().map(|s| J::cps(s)).collect());
        let bk = c.borrow_keys();
        let gets = q
            .iter()
            .map(|k| {
                let k = vtree::labels(k);
                let r: Vec<&str> = k.iter().map(String::as_str).collect();
                let a = lookups::<_, _, [String], _>(&c, &k, proj::map);
                let b = lookups::<Vec<&str>, &MapValues, [&str], _>(&bk, &r[..], |m| proj::map(m));
                assert!(a == b, "borrowed keys answer differently");
                a
            })
            .collect();
        let x = all(&c, |k, v| vec![pl(k), proj::map(v)], gets);
        assert!(bk.len() == c.len() && bk.is_empty() == c.is_empty(), "borrowed keys: length");
        x
    });
    finish(outs, a)
}

pub fn run(j: &J) -> J {
    let ops = j.get("ops").unwrap().arr();
    let q = j.get("q").unwrap().arr();
    match j.get("c").unwrap().str() {
        "gen" => gen(ops, q),
        "map" => map(ops, q),
        _ => blk(ops, q),
    }
}
