//! Errors of parsers, converted into errors of the library.
use crate::cause;
use crate::json::J;
use ferrous_chloride::nom::types::{CompleteByteSlice, CompleteStr};
use ferrous_chloride::nom::{self, verbose_errors::Context, AsBytes, Err as Fail, ErrorKind};
use ferrous_chloride::{parser, Error};
use std::fmt::Debug;

/// The code by which the parsers themselves say that an escape names no character
fn escape() -> ErrorKind<u32> {
    let kinds = match parser::string::string_literal(CompleteStr("\"\\U00110000\"")) {
        Err(Fail::Failure(Context::List(l))) | Err(Fail::Error(Context::List(l))) => l.into_iter().map(|(_, k)| k).collect(),
        Err(Fail::Failure(Context::Code(_, k))) | Err(Fail::Error(Context::Code(_, k))) => vec![k],
        _ => vec![],
    };
    kinds
        .into_iter()
        .find(|k| match k {
            ErrorKind::Custom(_) => true,
            _ => false,
        })
        .unwrap_or(ErrorKind::Tag)
}

fn kind(k: &str) -> ErrorKind<u32> {
    match k {
        "esc" => escape(),
        "tag" => ErrorKind::Tag,
        "alt" => ErrorKind::Alt,
        "many" => ErrorKind::Many1,
        _ => ErrorKind::Custom(4_000_000),
    }
}

fn error<I: Clone>(q: &J, texts: &[I]) -> Fail<I, u32> {
    let es = q.get("e").unwrap().arr();
    let mut l: Vec<(I, ErrorKind<u32>)> = es.iter().zip(texts).map(|(e, t)| (t.clone(), kind(e.arr()[0].str()))).collect();
    let ctx = if q.get("lst") == Some(&J::Bool(true)) {
        Context::List(l)
    } else {
        let (i, k) = l.remove(0);
        Context::Code(i, k)
    };
    if q.get("cls").unwrap().str() == "final" {
        Fail::Failure(ctx)
    } else {
        Fail::Error(ctx)
    }
}

fn shown<I: AsBytes>(e: Fail<I, Error>, texts: &[&[u8]], lst: bool) -> J {
    let (c, ctx) = match e {
        Fail::Incomplete(_) => return J::s("incomplete"),
        Fail::Error(c) => ("recoverable", c),
        Fail::Failure(c) => ("final", c),
    };
    let (is, l) = match ctx {
        Context::Code(i, k) => (false, vec![(i, k)]),
        Context::List(l) => (true, l),
    };
    let same = is == lst && l.len() == texts.len() && l.iter().zip(texts).all(|((i, _), t)| i.as_bytes() == *t);
    let list = l
        .iter()
        .map(|(_, k)| match k {
            ErrorKind::Custom(e) => cause::of(e).0,
            _ => J::s("plain"),
        })
        .collect();
    J::Obj(vec![("cls".into(), J::s(c)), ("same".into(), J::Bool(same)), ("list".into(), J::Arr(list))])
}

fn one(e: Error) -> J {
    let (c, said) = cause::of(&e);
    J::Arr(vec![c, J::Bool(said)])
}

fn strs<'a, I>(q: &J, texts: &'a [String], make: fn(&'a str) -> I) -> J
where
    I: AsBytes + AsRef<str> + Debug + Clone,
{
    let ins: Vec<I> = texts.iter().map(|t| make(t)).collect();
    let raw: Vec<&[u8]> = texts.iter().map(|t| t.as_bytes()).collect();
    let lst = q.get("lst") == Some(&J::Bool(true));
    J::Arr(vec![
        J::Obj(vec![("one".into(), one(Error::from_err_str(&error(q, &ins)))), ("all".into(), shown(Error::make_custom_err_str(error(q, &ins)), &raw, lst))]),
        bytes(q, &ins, &raw, lst),
    ])
}

fn bytes<I: AsBytes + Debug + Clone>(q: &J, ins: &[I], raw: &[&[u8]], lst: bool) -> J {
    J::Obj(vec![("one".into(), one(Error::from_err_bytes(&error(q, ins)))), ("all".into(), shown(Error::make_custom_err_bytes(error(q, ins)), raw, lst))])
}

pub fn run(q: &J) -> J {
    let texts: Vec<String> = q.get("e").unwrap().arr().iter().map(|e| e.arr()[1].text()).collect();
    let raw: Vec<&[u8]> = texts.iter().map(|t| t.as_bytes()).collect();
    let complete: Vec<CompleteByteSlice> = raw.iter().map(|b| CompleteByteSlice(b)).collect();
    let lst = q.get("lst") == Some(&J::Bool(true));
    let mut out = vec![];
    for a in vec![strs(q, &texts, CompleteStr), strs(q, &texts, |t| t)] {
        out.extend(a.arr().iter().cloned());
    }
    out.push(bytes(q, &raw, &raw, lst));
    out.push(bytes(q, &complete, &raw, lst));
    let inc = match (Error::make_custom_err_str::<&str>(Fail::Incomplete(nom::Needed::Size(3))), Error::make_custom_err_bytes::<&[u8]>(Fail::Incomplete(nom::Needed::Unknown))) {
        (Fail::Incomplete(nom::Needed::Size(3)), Fail::Incomplete(nom::Needed::Unknown)) => true,
        _ => false,
    };
    J::Obj(vec![("r".into(), J::s("ok")), ("v".into(), J::Arr(out)), ("inc".into(), J::Bool(inc))])
}
