//! The public sub-parsers: what they consume and what they return.
use crate::json::J;
use crate::proj;
use ferrous_chloride::nom;
use ferrous_chloride::parser::*;
use nom::types::CompleteStr;

fn tag(t: &str, v: Vec<J>) -> J {
    proj::tag(t, v)
}

fn none() -> J {
    tag("none", vec![])
}

fn attr(a: &Attribute) -> J {
    J::Arr(vec![J::cps(&a.0), proj::expr(&a.1)])
}

fn text(s: CompleteStr) -> J {
    J::cps(s.0)
}

pub const ALL: &[&str] = &[
    "inline_comment",
    "hash_comment",
    "slash_comment",
    "line_comment",
    "inline_whitespace",
    "whitespace",
    "newline",
    "identifier",
    "null",
    "boolean",
    "number",
    "string",
    "string_literal",
    "heredoc_begin",
    "heredoc_string",
    "tuple",
    "object",
    "bracket_expression",
    "expression",
    "attribute",
    "object_element_identifier",
    "object_element",
    "object_separator",
    "object_body",
    "block_label",
    "block_labels",
    "one_line_block_body",
    "one_line_block",
    "block",
    "body_element",
    "body",
];

pub fn run(p: &str, t: &str) -> J {
    macro_rules! go {
        ($f:expr, $v:expr) => {
            match $f(CompleteStr(t)) {
                Ok((rest, v)) => {
                    let f = $v;
                    done(t, rest.0, f(v))
                }
                Err(_) => J::Obj(vec![("r".into(), J::s("err"))]),
            }
        };
    }
    match p {
        "inline_comment" => go!(whitespace::inline_comment, text),
        "hash_comment" => go!(whitespace::hash_comment, text),
        "slash_comment" => go!(whitespace::slash_comment, text),
        "line_comment" => go!(whitespace::line_comment, text),
        "inline_whitespace" => go!(whitespace::inline_whitespace, |_| none()),
        "whitespace" => go!(whitespace::whitespace, |_| none()),
        "newline" => go!(whitespace::newline, |_| none()),
        "identifier" => go!(identifier::identifier, |s: std::borrow::Cow<str>| J::cps(&s)),
        "null" => go!(null::null, |_| none()),
        "boolean" => go!(boolean::boolean, |b| tag("bool", vec![J::Bool(b)])),
        "number" => go!(number::number, |n: number::Number| tag("num", vec![J::cps(&n)])),
        "string" => go!(string::string, |s: std::borrow::Cow<str>| tag("str", vec![J::cps(&s)])),
        "string_literal" => go!(string::string_literal, |s: String| J::cps(&s)),
        "heredoc_begin" => go!(string::heredoc_begin, |h: string::HereDoc| J::Arr(vec![
            J::cps(h.identifier.0),
            J::Bool(h.indented)
        ])),
        "heredoc_string" => go!(string::heredoc_string, |s: std::borrow::Cow<str>| tag("str", vec![J::cps(&s)])),
        "tuple" => go!(tuple::tuple, |v: Vec<Expression>| tag("tup", vec![J::Arr(v.iter().map(proj::expr).collect())])),
        "object" => go!(object::object, |o: object::Object| proj::expr(&Expression::Object(o))),
        "bracket_expression" => go!(expression::bracket_expression, |e: Expression| proj::expr(&e)),
        "expression" => go!(expression::expression, |e: Expression| proj::expr(&e)),
        "attribute" => go!(attribute::attribute, |a: Attribute| attr(&a)),
        "object_element_identifier" => go!(object::object_element_identifier, |k: object::ObjectElementIdentifier| {
            let (a, b) = proj::okey(&k);
            J::Arr(vec![a, b])
        }),
        "object_element" => go!(object::object_element, |k: object::ObjectElement| {
            let (a, b) = proj::okey(&k.0);
            J::Arr(vec![a, b, proj::expr(&k.1)])
        }),
        "object_separator" => go!(object::object_separator, |_| none()),
        "object_body" => go!(object::object_body, |o: object::Object| J::Arr(
            o.iter()
                .map(|(k, v)| {
                    let (a, b) = proj::okey(k);
                    J::Arr(vec![a, b, proj::expr(v)])
                })
                .collect()
        )),
        "block_label" => go!(block::block_label, |l: block::BlockLabel| proj::label(&l)),
        "block_labels" => go!(block::block_labels, |l: Vec<block::BlockLabel>| J::Arr(
            l.iter().map(proj::label).collect()
        )),
        "one_line_block_body" => go!(block::one_line_block_body, |a: Option<Attribute>| J::Arr(
            a.iter().map(attr).collect()
        )),
        "one_line_block" => go!(block::one_line_block, |b: Block| proj::block(&b)),
        "block" => go!(block::block, |b: Block| proj::block(&b)),
        "body_element" => go!(body::body_element, |b: body::BodyElement| proj::element(&b)),
        "body" => go!(body::body, |b: Body| proj::config(&b)),
        o => panic!("harness: unknown parser {}", o),
    }
}

fn done(t: &str, rest: &str, v: J) -> J {
    if !t.ends_with(rest) {
        return J::Obj(vec![("r".into(), J::s("ok")), ("n".into(), J::Int(-1)), ("v".into(), J::s("rest is no suffix"))]);
    }
    let n = t[..t.len() - rest.len()].chars().count();
    J::Obj(vec![("r".into(), J::s("ok")), ("n".into(), J::Int(n as i64)), ("v".into(), v)])
}
