//! Deserialization into targets given at run time, and into derived types.
use crate::json::J;
use crate::proj;
use ferrous_chloride::parser::expression::Expression;
use ferrous_chloride::serde::de::body::Deserializer as Doc;
use serde::de::{self, DeserializeSeed, Deserializer, Error as _, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::Deserialize;
use std::collections::HashMap;
use std::fmt;

#[derive(Clone, Debug)]
pub enum T {
    Prim(String),
    Opt(Box<T>),
    Nt(Box<T>),
    Vec(Box<T>),
    Tup(Vec<T>),
    Ts(Vec<T>),
    Map(Box<T>),
    /// keys that are not strings
    Kmap(Box<T>, Box<T>),
    Rec(Vec<(&'static str, T)>, &'static [&'static str], bool),
}

thread_local! {
    static NAMES: std::cell::RefCell<HashMap<String, &'static str>> = Default::default();
}

fn intern(s: String) -> &'static str {
    NAMES.with(|n| {
        *n.borrow_mut()
            .entry(s.clone())
            .or_insert_with(|| Box::leak(s.into_boxed_str()))
    })
}

pub fn ty(j: &J) -> T {
    let a = j.arr();
    let one = || Box::new(ty(&a[1]));
    let many = || a[1].arr().iter().map(ty).collect::<Vec<_>>();
    match a[0].str() {
        "opt" => T::Opt(one()),
        "nt" => T::Nt(one()),
        "vec" => T::Vec(one()),
        "tup" => T::Tup(many()),
        "ts" => T::Ts(many()),
        "map" => T::Map(one()),
        "kmap" => T::Kmap(one(), Box::new(ty(&a[2]))),
        "rec" => {
            let fs: Vec<_> = a[1]
                .arr()
                .iter()
                .map(|f| (intern(f.arr()[0].text()), ty(&f.arr()[1])))
                .collect();
            let names: Vec<&'static str> = fs.iter().map(|f| f.0).collect();
            T::Rec(fs, Box::leak(names.into_boxed_slice()), a[2].bool())
        }
        p => T::Prim(p.to_string()),
    }
}

fn tag(t: &str, v: J) -> J {
    J::Arr(vec![J::s(t), v])
}
fn bare(t: &str) -> J {
    J::Arr(vec![J::s(t)])
}
fn int<I: ToString>(i: I) -> J {
    tag("int", J::cps(&i.to_string()))
}
fn text(s: &str) -> J {
    tag("str", J::cps(s))
}
/// Shortest decimal digits
fn f32j(f: f32) -> J {
    if f.is_infinite() {
        return tag("inf", J::Bool(f < 0.0));
    }
    let s = format!("{}", f);
    proj::float(s.parse::<f64>().unwrap())
}

#[derive(Deserialize, Debug)]
#[allow(non_camel_case_types)]
enum Kind {
    a,
    x(u8),
    b { x: u8 },
    c(u8, u8),
}

struct Seed<'t>(&'t T);
struct V<'t>(&'t T);

impl<'t, 'de> DeserializeSeed<'de> for Seed<'t> {
    type Value = J;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        match self.0 {
            T::Prim(p) => match &p[..] {
                "u8" => u8::deserialize(d).map(int),
                "u16" => u16::deserialize(d).map(int),
                "u32" => u32::deserialize(d).map(int),
                "u64" => u64::deserialize(d).map(int),
                "u128" => u128::deserialize(d).map(int),
                "i8" => i8::deserialize(d).map(int),
                "i16" => i16::deserialize(d).map(int),
                "i32" => i32::deserialize(d).map(int),
                "i64" => i64::deserialize(d).map(int),
                "i128" => i128::deserialize(d).map(int),
                "f32" => f32::deserialize(d).map(f32j),
                "f64" => f64::deserialize(d).map(proj::float),
                "bool" => bool::deserialize(d).map(|b| tag("bool", J::Bool(b))),
                "str" => String::deserialize(d).map(|s| text(&s)),
                "char" => char::deserialize(d).map(|s| text(&s.to_string())),
                "unit" => <()>::deserialize(d).map(|_| bare("unit")),
                "ustruct" => {
                    #[derive(Deserialize)]
                    struct Unit;
                    Unit::deserialize(d).map(|_| bare("unit"))
                }
                "ign" => IgnoredAny::deserialize(d).map(|_| bare("ign")),
                "any" => d.deserialize_any(V(self.0)),
                "bstr" => <&str>::deserialize(d).map(text),
                "bytes" => d.deserialize_byte_buf(V(self.0)),
                "enum" => Kind::deserialize(d).map(|k| text(&format!("{:?}", k))),
                "ident" => Ident.deserialize(d).map(|s| text(&s)),
                x => panic!("harness: type {}", x),
            },
            T::Opt(_) => d.deserialize_option(V(self.0)),
            T::Nt(_) => d.deserialize_newtype_struct("Newtype", V(self.0)),
            T::Vec(_) => d.deserialize_seq(V(self.0)),
            T::Tup(ts) => d.deserialize_tuple(ts.len(), V(self.0)),
            T::Ts(ts) => d.deserialize_tuple_struct("Ts", ts.len(), V(self.0)),
            T::Map(_) | T::Kmap(..) => d.deserialize_map(V(self.0)),
            T::Rec(_, names, _) => d.deserialize_struct("Rec", names, V(self.0)),
        }
    }
}

/// The field names of a record, as a derived implementation asks for them
struct Ident;
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        struct IV;
        impl<'de> Visitor<'de> for IV {
            type Value = String;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("field identifier")
            }
            fn visit_str<E: de::Error>(self, s: &str) -> Result<String, E> {
                Ok(s.to_string())
            }
        }
        d.deserialize_identifier(IV)
    }
}

impl<'t, 'de> Visitor<'de> for V<'t> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_none<E: de::Error>(self) -> Result<J, E> {
        match self.0 {
            T::Opt(_) => Ok(bare("none")),
            T::Prim(p) if p == "any" => Ok(bare("unit")),
            _ => Err(E::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<J, E> {
        match self.0 {
            T::Opt(_) => Ok(bare("none")),
            T::Prim(p) if p == "any" => Ok(bare("unit")),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        match self.0 {
            T::Opt(t) => Seed(t).deserialize(d).map(|v| tag("some", v)),
            T::Prim(p) if p == "any" => Seed(self.0).deserialize(d),
            _ => Err(D::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        match self.0 {
            T::Nt(t) => Seed(t).deserialize(d).map(|v| tag("nt", v)),
            _ => Err(D::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<J, E> {
        match self.0 {
            T::Prim(p) if p == "any" => Ok(tag("bool", J::Bool(v))),
            _ => Err(E::invalid_type(de::Unexpected::Bool(v), &self)),
        }
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<J, E> {
        match self.0 {
            T::Prim(p) if p == "any" => Ok(int(v)),
            _ => Err(E::invalid_type(de::Unexpected::Signed(v), &self)),
        }
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<J, E> {
        match self.0 {
            T::Prim(p) if p == "any" => Ok(int(v)),
            _ => Err(E::invalid_type(de::Unexpected::Unsigned(v), &self)),
        }
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<J, E> {
        match self.0 {
            T::Prim(p) if p == "any" => Ok(int(v)),
            _ => Err(E::invalid_type(de::Unexpected::Other("i128"), &self)),
        }
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<J, E> {
        match self.0 {
            T::Prim(p) if p == "any" => Ok(int(v)),
            _ => Err(E::invalid_type(de::Unexpected::Other("u128"), &self)),
        }
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<J, E> {
        match self.0 {
            T::Prim(p) if p == "any" => Ok(proj::float(v)),
            _ => Err(E::invalid_type(de::Unexpected::Float(v), &self)),
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<J, E> {
        match self.0 {
            T::Prim(p) if p == "any" => Ok(text(v)),
            _ => Err(E::invalid_type(de::Unexpected::Str(v), &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut out = vec![];
        match self.0 {
            T::Prim(p) if p == "bytes" => {
                while let Some(v) = a.next_element::<u8>()? {
                    out.push(int(v));
                }
                Ok(tag("seq", J::Arr(out)))
            }
            T::Prim(_) => {
                while let Some(v) = a.next_element_seed(Seed(self.0))? {
                    out.push(v);
                }
                Ok(tag("seq", J::Arr(out)))
            }
            T::Vec(t) => {
                let hint = a.size_hint();
                while let Some(v) = a.next_element_seed(Seed(t))? {
                    out.push(v);
                }
                if let Some(h) = hint {
                    assert!(h == out.len(), "size hint of a sequence is wrong");
                }
                Ok(tag("seq", J::Arr(out)))
            }
            T::Tup(ts) | T::Ts(ts) => {
                for (i, t) in ts.iter().enumerate() {
                    match a.next_element_seed(Seed(t))? {
                        Some(v) => out.push(v),
                        None => return Err(A::Error::invalid_length(i, &self)),
                    }
                }
                Ok(tag("seq", J::Arr(out)))
            }
            T::Nt(t) => match a.next_element_seed(Seed(t))? {
                Some(v) => Ok(tag("nt", v)),
                None => Err(A::Error::invalid_length(0, &self)),
            },
            T::Rec(fs, _, _) => {
                for (i, (n, t)) in fs.iter().enumerate() {
                    match a.next_element_seed(Seed(t))? {
                        Some(v) => out.push(J::Arr(vec![J::cps(n), v])),
                        None => return Err(A::Error::invalid_length(i, &self)),
                    }
                }
                Ok(tag("rec", J::Arr(out)))
            }
            _ => Err(A::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut out = vec![];
        let hint = a.size_hint();
        match self.0 {
            T::Kmap(k, t) => {
                while let Some(k) = a.next_key_seed(Seed(k))? {
                    let v = a.next_value_seed(Seed(t))?;
                    out.push(J::Arr(vec![k, v]));
                }
                Ok(tag("kmap", J::Arr(out)))
            }
            T::Prim(p) if p != "any" => Err(A::Error::invalid_type(de::Unexpected::Map, &self)),
            T::Prim(_) | T::Map(_) => {
                let t = match self.0 {
                    T::Map(t) => &**t,
                    t => t,
                };
                while let Some(k) = a.next_key::<String>()? {
                    let v = a.next_value_seed(Seed(t))?;
                    out.push(J::Arr(vec![J::cps(&k), v]));
                }
                if let Some(h) = hint {
                    assert!(h == out.len(), "size hint of a map is wrong");
                }
                Ok(tag("map", J::Arr(out)))
            }
            T::Rec(fs, names, deny) => {
                let mut got: Vec<Option<J>> = vec![None; fs.len()];
                while let Some(k) = a.next_key_seed(Ident)? {
                    match fs.iter().position(|f| f.0 == k) {
                        Some(i) => {
                            if got[i].is_some() {
                                return Err(A::Error::duplicate_field(fs[i].0));
                            }
                            got[i] = Some(a.next_value_seed(Seed(&fs[i].1))?);
                        }
                        None if *deny => return Err(A::Error::unknown_field(&k, names)),
                        None => {
                            let _ = a.next_value::<IgnoredAny>()?;
                        }
                    }
                }
                for (i, g) in got.into_iter().enumerate() {
                    let v = match (g, &fs[i].1) {
                        (Some(v), _) => v,
                        (None, T::Opt(_)) => bare("none"),
                        _ => return Err(A::Error::missing_field(fs[i].0)),
                    };
                    out.push(J::Arr(vec![J::cps(fs[i].0), v]));
                }
                Ok(tag("rec", J::Arr(out)))
            }
            _ => Err(A::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
}

// ---- derived targets
trait Show {
    fn show(&self) -> J;
}
macro_rules! ints {
    ($($t:ty)*) => { $(impl Show for $t { fn show(&self) -> J { int(self) } })* };
}
ints! {u8 i8 i64 u64 u128 i128}
impl Show for f64 {
    fn show(&self) -> J {
        proj::float(*self)
    }
}
impl Show for bool {
    fn show(&self) -> J {
        tag("bool", J::Bool(*self))
    }
}
impl Show for String {
    fn show(&self) -> J {
        text(self)
    }
}
impl<X: Show> Show for Option<X> {
    fn show(&self) -> J {
        match self {
            None => bare("none"),
            Some(x) => tag("some", x.show()),
        }
    }
}
impl<X: Show> Show for Vec<X> {
    fn show(&self) -> J {
        tag("seq", J::Arr(self.iter().map(Show::show).collect()))
    }
}
impl<X: Show> Show for HashMap<String, X> {
    fn show(&self) -> J {
        tag("map", J::Arr(self.iter().map(|(k, v)| J::Arr(vec![J::cps(k), v.show()])).collect()))
    }
}
impl<X: Show, Y: Show> Show for (X, Y) {
    fn show(&self) -> J {
        tag("seq", J::Arr(vec![self.0.show(), self.1.show()]))
    }
}
macro_rules! target {
    ($(#[$m:meta])* $n:ident { $($f:ident : $t:ty),* }) => {
        #[derive(Deserialize)]
        $(#[$m])*
        struct $n { $($f: $t),* }
        impl Show for $n {
            fn show(&self) -> J {
                tag("rec", J::Arr(vec![$(J::Arr(vec![J::cps(stringify!($f)), self.$f.show()])),*]))
            }
        }
    };
}
target! {X1 { x: u8 }}
target! {XO { x: Option<u8> }}
target! {Plain { a: u8, b: String, x: Option<i64> }}
target! {Nested { a: X1, b: Option<X1>, x: Vec<X1> }}
target! {Lists { a: Vec<u8>, b: Option<Vec<String>>, x: (u8, bool) }}
target! {#[serde(deny_unknown_fields)] Strict { a: Option<u8>, b: Option<Vec<XO>> }}
target! {Maps { a: HashMap<String, i64>, b: Option<HashMap<String, Vec<u8>>> }}
#[derive(Deserialize)]
struct Nt<X>(X);
impl<X: Show> Show for Nt<X> {
    fn show(&self) -> J {
        tag("nt", self.0.show())
    }
}
#[derive(Deserialize)]
struct Two(u8, i8);
impl Show for Two {
    fn show(&self) -> J {
        tag("seq", J::Arr(vec![self.0.show(), self.1.show()]))
    }
}
target! {Wraps { a: Nt<u8>, b: Option<Nt<String>>, x: Option<Two> }}
target! {Big { a: Option<u128>, b: Option<i128>, x: Option<f64> }}
target! {DeepIn { a: Option<Vec<XO>>, b: String }}
target! {Deep { a: Option<Vec<DeepIn>>, b: bool }}

/// The errors of deserialization
pub trait Fails: fmt::Display {
    fn cause(&self) -> J;
}
impl Fails for ferrous_chloride::serde::de::Error {
    fn cause(&self) -> J {
        crate::cause::j(crate::cause::de(self))
    }
}
impl Fails for ferrous_chloride::serde::de::Compat {
    fn cause(&self) -> J {
        let (c, shown) = crate::cause::de(self.get_ref());
        crate::cause::j((c, shown && self.to_string() == self.get_ref().to_string()))
    }
}
impl Fails for ferrous_chloride::Error {
    fn cause(&self) -> J {
        let (c, shown) = crate::cause::of(self);
        crate::cause::j((proj::tag("in", vec![c]), shown))
    }
}

fn err(e: &dyn Fails) -> J {
    e.cause()
}

fn derived<'a, X: Deserialize<'a> + Show>(t: &'a str) -> Result<J, J> {
    let a = ferrous_chloride::from_str::<X>(t).map(|v| v.show()).map_err(|e| err(&e));
    let b = ferrous_chloride::serde::de::from_str::<X>(t).map(|v| v.show()).map_err(|e| err(&e));
    assert!(a.is_ok() == b.is_ok(), "two entry points disagree");
    a
}

/// Everything there is to deserialize a text into (for the checks that calls end)
pub fn everything(t: &str) {
    let p = |s: &str| T::Prim(s.to_string());
    let b = |t: T| Box::new(t);
    let any = || p("any");
    let mut ts = vec![];
    for n in &["u8", "i64", "u128", "i128", "f32", "f64", "bool", "str", "bstr", "bytes", "enum", "ident", "char", "unit", "ustruct", "ign", "any"] {
        ts.push(p(n));
        ts.push(T::Opt(b(p(n))));
        ts.push(T::Vec(b(p(n))));
        ts.push(T::Map(b(p(n))));
        ts.push(T::Map(b(T::Vec(b(p(n))))));
        ts.push(T::Kmap(b(p(n)), b(any())));
        ts.push(T::Tup(vec![p(n), p(n)]));
        ts.push(T::Nt(b(T::Opt(b(p(n))))));
    }
    ts.push(T::Tup(vec![]));
    ts.push(T::Map(b(T::Vec(b(T::Map(b(any())))))));
    ts.push(T::Map(b(T::Map(b(T::Vec(b(T::Vec(b(any())))))))));
    ts.push(T::Map(b(T::Tup(vec![any(), any()]))));
    ts.push(T::Map(b(T::Opt(b(T::Nt(b(T::Map(b(any())))))))));
    if let Ok(d) = Doc::from_str(t) {
        for s in &ts {
            let _ = Seed(s).deserialize(d.clone()).map_err(|e| err(&e));
        }
    }
    if let Ok(d) = Expression::parse(t) {
        for s in &ts {
            let _ = Seed(s).deserialize(d.clone()).map_err(|e| err(&e));
        }
    }
    let _ = derived::<Plain>(t);
    let _ = derived::<Nested>(t);
    let _ = derived::<Lists>(t);
    let _ = derived::<Strict>(t);
    let _ = derived::<Maps>(t);
    let _ = derived::<Wraps>(t);
    let _ = derived::<Big>(t);
    let _ = derived::<Deep>(t);
    let _ = derived::<HashMap<String, Kind2>>(t);
}
#[derive(Deserialize)]
#[serde(untagged)]
#[allow(dead_code)]
enum Kind2 {
    N(f64),
    S(String),
    L(Vec<Kind2>),
    M(HashMap<String, Kind2>),
}
impl Show for Kind2 {
    fn show(&self) -> J {
        J::Null
    }
}

pub fn run(j: &J) -> J {
    let t = j.get("t").unwrap().text();
    let schema = ty(j.get("ty").unwrap());
    let dynamic = || -> Result<J, J> {
        if j.get("src").unwrap().str() == "doc" {
            let d = Doc::from_str(&t).map_err(|e| err(&e))?;
            Seed(&schema).deserialize(d).map_err(|e| err(&e))
        } else {
            let d = Expression::parse(&t).map_err(|e| err(&e))?;
            Seed(&schema).deserialize(d).map_err(|e| err(&e))
        }
    };
    let name = j.get("d").map(|d| d.str()).unwrap_or("");
    let r = match name {
        "" => dynamic(),
        "Plain" => derived::<Plain>(&t),
        "Nested" => derived::<Nested>(&t),
        "Lists" => derived::<Lists>(&t),
        "Strict" => derived::<Strict>(&t),
        "Maps" => derived::<Maps>(&t),
        "Wraps" => derived::<Wraps>(&t),
        "Big" => derived::<Big>(&t),
        "MapAny" => derived::<HashMap<String, Option<u64>>>(&t),
        "Deep" => derived::<Deep>(&t),
        x => panic!("harness: derived {}", x),
    };
    match r {
        Ok(v) => proj::ok(v),
        Err(e) => e,
    }
}
