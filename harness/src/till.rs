//! Searching every kind of input for the first match.
use crate::json::J;
use ferrous_chloride::nom::types::{CompleteByteSlice, CompleteStr, Input};
use ferrous_chloride::nom::{self, alt, call, tag};
use ferrous_chloride::take_till_match;
use ferrous_chloride::utils::SafeIndexing;

fn bs(b: &[u8]) -> J {
    J::Arr(b.iter().map(|c| J::Int(i64::from(*c))).collect())
}

/// The outcome of one kind of input
fn one<I: Copy + SafeIndexing>(i: I, len: usize, raw: fn(&I) -> &[u8], p: &str, f: fn(I, &str) -> Result<(I, (I, I)), ()>) -> J {
    // an endless supply of places is cut off
    let ix: Vec<usize> = i.safe_indices().take(len + 3).collect();
    let r = match f(i, p) {
        Ok((rest, (before, m))) => J::Arr(vec![J::s("ok"), bs(raw(&before)), bs(raw(&m)), bs(raw(&rest))]),
        Err(()) => J::Arr(vec![J::s("none")]),
    };
    J::Obj(vec![
        ("v".into(), r),
        ("ix".into(), J::Arr(ix.into_iter().map(|n| J::Int(n as i64)).collect())),
    ])
}

macro_rules! parsers {
    ($m:ident, $l:lifetime, $t:ty) => {
        mod $m {
            use super::*;
            type R<T> = nom::IResult<T, (T, T)>;
            fn a<$l>(i: $t) -> R<$t> {
                take_till_match!(i, tag!("a"))
            }
            fn ab<$l>(i: $t) -> R<$t> {
                take_till_match!(i, tag!("ab"))
            }
            fn ba_b<$l>(i: $t) -> R<$t> {
                take_till_match!(i, alt!(tag!("ba") | tag!("b")))
            }
            fn b_ba<$l>(i: $t) -> R<$t> {
                take_till_match!(i, alt!(tag!("b") | tag!("ba")))
            }
            fn e<$l>(i: $t) -> R<$t> {
                take_till_match!(i, tag!("é"))
            }
            fn ea_u<$l>(i: $t) -> R<$t> {
                take_till_match!(i, alt!(tag!("éa") | tag!("\u{1F600}")))
            }
            fn aab_parser<$l>(i: $t) -> nom::IResult<$t, $t> {
                tag!(i, "aab")
            }
            fn aab<$l>(i: $t) -> R<$t> {
                take_till_match!(i, aab_parser)
            }
            #[allow(clippy::type_complexity)]
            pub fn go<$l>(i: $t, p: &str) -> Result<($t, ($t, $t)), ()> {
                match p {
                    "a" => a(i),
                    "ab" => ab(i),
                    "ba|b" => ba_b(i),
                    "b|ba" => b_ba(i),
                    "e" => e(i),
                    "ea|U" => ea_u(i),
                    "aab" => aab(i),
                    x => panic!("harness: {}", x),
                }
                .map_err(|_| ())
            }
        }
    };
}
parsers!(s, 'a, &'a str);
parsers!(cs, 'a, CompleteStr<'a>);
parsers!(is, 'a, Input<&'a str>);
parsers!(b, 'a, &'a [u8]);
parsers!(cb, 'a, CompleteByteSlice<'a>);
parsers!(ib, 'a, Input<&'a [u8]>);

pub fn run(j: &J) -> J {
    let data = j.get("b").unwrap().bytes();
    let p = j.get("p").unwrap().str();
    let n = data.len();
    let text = std::str::from_utf8(&data).expect("harness: text");
    let mut out = vec![("r".to_string(), J::s("x"))];
    let mut put = |k: &str, v: J| out.push((k.to_string(), v));
    if j.get("k").unwrap().str() == "chars" {
        put("part", one(text, n, |i| i.as_bytes(), p, s::go));
        put("whole", one(CompleteStr(text), n, |i| i.0.as_bytes(), p, cs::go));
        for &at_eof in &[true, false] {
            put(if at_eof { "end" } else { "more" }, one(Input { inner: text, at_eof }, n, |i| i.inner.as_bytes(), p, is::go));
        }
    } else {
        put("part", one(&data[..], n, |i| i, p, b::go));
        put("whole", one(CompleteByteSlice(&data), n, |i| i.0, p, cb::go));
        for &at_eof in &[true, false] {
            put(if at_eof { "end" } else { "more" }, one(Input { inner: &data[..], at_eof }, n, |i| i.inner, p, ib::go));
        }
    }
    J::Obj(out)
}
