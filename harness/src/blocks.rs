//! Histories of the block index.
use crate::json::J;
use crate::proj;
use ferrous_chloride::parser::block::{Block, BlockBody, BlockLabel, Blocks};
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::expression::Expression;
use ferrous_chloride::parser::number::Number;
use ferrous_chloride::parser::Body;
use ferrous_chloride::parse_str;
use std::borrow::Cow;

fn attr(name: &'static str, i: i64) -> BodyElement<'static> {
    BodyElement::Attribute((Cow::Borrowed(name), Expression::Number(Number::from(i))))
}

// every third block is empty
fn body_of(i: i64) -> Body<'static> {
    if i % 3 == 0 {
        vec![]
    } else {
        vec![attr("id", i)]
    }
}

fn labels(j: &J) -> Vec<BlockLabel<'static>> {
    j.arr()
        .iter()
        .map(|l| {
            let t = l.arr()[1].text();
            match l.arr()[0].str() {
                "S" => BlockLabel::StringLiteral(t),
                _ => BlockLabel::Identifier(Cow::Owned(t)),
            }
        })
        .collect()
}

fn block(j: &J) -> Block<'static> {
    let a = j.arr();
    Block::new(Cow::Owned(a[0].text()), labels(&a[1]), body_of(a[2].int()))
}

fn text(js: &[J]) -> String {
    let mut s = String::new();
    for j in js {
        let a = j.arr();
        s.push_str(&a[0].text());
        for l in a[1].arr() {
            let t = l.arr()[1].text();
            if l.arr()[0].str() == "S" {
                s.push_str(&format!(" \"{}\"", t));
            } else {
                s.push_str(&format!(" {}", t));
            }
        }
        match a[2].int() {
            i if i % 3 == 0 => s.push_str(" {}\n"),
            i => s.push_str(&format!(" {{ id = {} }}\n", i)),
        }
    }
    s
}

fn body(b: &Body) -> J {
    J::Arr(
        b.iter()
            .map(|e| match e {
                BodyElement::Attribute((_, Expression::Number(n))) => J::Int(n.as_i64().unwrap_or(-99)),
                _ => J::s("?"),
            })
            .collect(),
    )
}

fn path<'x, I: IntoIterator<Item = S>, S: AsRef<str> + 'x>(p: I) -> J {
    J::Arr(p.into_iter().map(|s| J::cps(s.as_ref())).collect())
}

fn opt(o: Option<usize>) -> J {
    J::Int(o.map(|n| n as i64).unwrap_or(-1))
}

fn set<'x, I: IntoIterator<Item = &'x usize>>(s: I) -> J {
    J::Arr(s.into_iter().map(|n| J::Int(*n as i64)).collect())
}

fn o(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn answer(b: &BlockBody) -> J {
    let own = b.clone();
    let flat = own.flat_iter().map(|(p, b)| J::Arr(vec![path(p), body(b)])).collect();
    let mut m = b.clone();
    let flatm = flat_mut(&mut m);
    let flati = b.clone().flat_into_iter().map(|(p, b)| J::Arr(vec![path(p), body(&b)])).collect();
    // put together anew from its parts
    let again: BlockBody = b
        .clone()
        .flat_into_iter()
        .map(|(p, b)| (p.into_iter().map(|l| BlockLabel::Identifier(Cow::Owned(l.as_ref().to_string()))).collect::<Vec<_>>(), b))
        .collect();
    let flatr = again.flat_iter().map(|(p, b)| J::Arr(vec![path(p), body(b)])).collect();
    o(vec![
        ("flatr", J::Arr(flatr)),
        ("found", J::Bool(true)),
        ("flat", J::Arr(flat)),
        ("flatm", flatm),
        ("flati", J::Arr(flati)),
        ("n", J::Int(b.len_blocks() as i64)),
        ("further", J::Bool(b.has_further_labels())),
        ("empty", J::Arr(b.get_empty().iter().map(body).collect())),
        ("labels", b.get_labels().map(|l| path(l.keys().map(|k| k.as_str()))).unwrap_or_else(|| J::Arr(vec![]))),
        ("lens", set(&b.label_lens())),
        ("uni", opt(b.label_lens_uniform())),
        ("isuni", J::Bool(b.is_label_lens_uniform())),
    ])
}

// the mutable walks borrow for as long as the labels live
fn flat_mut<'a>(b: &mut BlockBody<'a>) -> J {
    let b: &'static mut BlockBody<'static> = unsafe { std::mem::transmute(b) };
    J::Arr(b.flat_iter_mut().map(|(p, b)| J::Arr(vec![path(p), body(b)])).collect())
}

fn mark<'a>(b: &mut Blocks<'a>, m: i64) {
    let b: &'static mut Blocks<'static> = unsafe { std::mem::transmute(b) };
    for (_, _, body) in b.flat_iter_mut() {
        body.push(attr("mark", m));
    }
}

fn walk_mut<'a>(b: &mut Blocks<'a>) -> J {
    let b: &'static mut Blocks<'static> = unsafe { std::mem::transmute(b) };
    J::Arr(b.flat_iter_mut().map(|(t, p, b)| J::Arr(vec![J::cps(t), path(p), body(b)])).collect())
}

pub fn run(j: &J) -> J {
    let ops = j.get("ops").unwrap().arr();
    let doc = text(ops[0].arr()[1].arr());
    let first = ops[0].arr();
    let blks: Vec<Block> = first[1].arr().iter().map(block).collect();
    let mut b: Blocks = match first[0].str() {
        "new" => Blocks::new(blks),
        "collect" => blks.into_iter().collect(),
        "text" => {
            let v = parse_str(&doc).expect("harness: blocks");
            Blocks::new(v.into_iter().map(|e| match e {
                BodyElement::Block(b) => b,
                _ => panic!("harness: no block"),
            }))
        }
        x => panic!("harness: {}", x),
    };
    for op in &ops[1..] {
        let op = op.arr();
        match op[0].str() {
            "append" => b.append(block(&op[1])),
            "extend" => b.extend(op[1].arr().iter().map(block).collect::<Vec<_>>()),
            "into" => {
                let pre: Vec<String> = op[2].arr().iter().map(|l| l.text()).collect();
                if let Some(x) = b.get_mut(op[1].text(), &pre) {
                    let i = op[4].int();
                    if i % 2 == 0 {
                        x.append(labels(&op[3]), body_of(i));
                    } else {
                        x.extend(vec![(labels(&op[3]), body_of(i))]);
                    }
                }
            }
            "mark" => mark(&mut b, op[1].int()),
            x => panic!("harness: {}", x),
        }
    }
    let b2 = b.clone();
    let flat: Vec<J> = b2.flat_iter().map(|(t, p, b)| J::Arr(vec![J::cps(t), path(p), body(b)])).collect();
    let flatm = walk_mut(&mut b.clone());
    let flati: Vec<J> = b.clone().flat_into_iter().map(|(t, p, b)| J::Arr(vec![J::cps(&t), path(p), body(&b)])).collect();
    let types = |v: Vec<String>| J::Arr(v.iter().map(|s| J::cps(s)).collect());
    let all = o(vec![
        ("len", J::Int(b.len() as i64)),
        ("isempty", J::Bool(b.is_empty())),
        ("blocks", J::Int(b.len_blocks() as i64)),
        ("types", types(b.iter().map(|(t, _)| t.to_string()).collect())),
        ("types2", types(b.clone().iter_mut().map(|(t, _)| t.to_string()).collect())),
        ("types3", types(b.clone().into_iter().map(|(t, _)| t.to_string()).collect())),
        ("types4", types((&b).into_iter().map(|(t, _)| t.to_string()).collect())),
        ("flat", J::Arr(flat)),
        ("flatm", flatm),
        ("flati", J::Arr(flati)),
        ("lens", J::Arr(b.label_lens().iter().map(|(t, s)| J::Arr(vec![J::cps(t), set(s)])).collect())),
        ("uni", J::Arr(b.label_lens_uniform().iter().map(|(t, s)| J::Arr(vec![J::cps(t), opt(*s)])).collect())),
        ("isuni", J::Arr(b.is_label_lens_uniform().iter().map(|(t, s)| J::Arr(vec![J::cps(t), J::Bool(*s)])).collect())),
    ]);
    let mut qs = vec![];
    for q in j.get("q").unwrap().arr() {
        let pre: Vec<String> = q.arr()[1].arr().iter().map(|l| l.text()).collect();
        let ty = q.arr()[0].text();
        let a = b.get(&ty, &pre).map(|x| answer(x));
        let m = b.clone().get_mut(&ty, &pre).map(|x| answer(x));
        let same = canon(&a) == canon(&m);
        let r = a.unwrap_or_else(|| o(vec![("found", J::Bool(false))]));
        qs.push(if same { r } else { o(vec![("found", J::s("get and get_mut disagree"))]) });
    }
    proj::ok(o(vec![("all", all), ("qs", J::Arr(qs))]))
}

fn canon(a: &Option<J>) -> String {
    match a {
        None => String::new(),
        // maps iterate in any order
        Some(J::Obj(v)) => v
            .iter()
            .map(|(k, x)| match x {
                J::Arr(y) => format!("{}{:?}", k, proj::sorted(y.clone()).iter().map(|z| z.to_string()).collect::<Vec<_>>()),
                y => format!("{}{}", k, y),
            })
            .collect(),
        _ => unreachable!(),
    }
}
