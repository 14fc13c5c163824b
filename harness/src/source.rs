//! The entry points for strings, slices and readers, with scripted readers.
use crate::json::J;
use crate::proj;
use ferrous_chloride::{parse_reader, parse_slice, parse_str, value, AsOwned, MergeBehaviour};
use std::io::{self, Read};

pub struct Script {
    pub data: Vec<u8>,
    pub at: usize,
    pub ev: Vec<i64>,
    pub i: usize,
}

impl Read for Script {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let left = self.data.len() - self.at;
        let n = if self.i < self.ev.len() {
            let e = self.ev[self.i];
            match e {
                0 => {
                    self.i += 1;
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
                }
                -1 => return Err(io::Error::new(io::ErrorKind::Other, "broken")),
                -2 => return Ok(0),
                _ => {
                    let want = (e as usize).min(left);
                    let n = want.min(buf.len());
                    // a piece larger than the buffer is delivered in parts
                    if n < want {
                        self.ev[self.i] -= n as i64;
                    } else {
                        self.i += 1;
                        if want == 0 {
                            self.ev.truncate(self.i);
                            self.ev.push(-2);
                        }
                    }
                    n
                }
            }
        } else {
            left.min(buf.len())
        };
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// outcome, and whether the owned copy is equal to it
macro_rules! out {
    ($r:expr, $proj:path) => {
        match $r {
            Ok(v) => {
                let o = v.as_owned();
                #[allow(clippy::op_ref)]
                let same = &o == &v && $proj(&o) == $proj(&v);
                J::Obj(vec![
                    ("r".into(), J::s("ok")),
                    ("v".into(), $proj(&v)),
                    ("own".into(), J::Bool(same)),
                ])
            }
            Err(e) => proj::err(&e),
        }
    };
}

fn config(b: &ferrous_chloride::parser::Body) -> J {
    proj::config(b)
}

pub fn run(j: &J) -> J {
    let data = j.get("b").unwrap().bytes();
    let ev: Vec<i64> = j.get("ev").unwrap().arr().iter().map(|e| e.int()).collect();
    let g = j.get("g").unwrap().str();
    let merge = || if g == "mrg" { Some(MergeBehaviour::Error) } else { None };
    let mut script = Script { data: data.clone(), at: 0, ev, i: 0 };
    let none = J::Obj(vec![("r".into(), J::s("none"))]);
    let (s, sl, rd, rw) = if g == "hcl" {
        (
            std::str::from_utf8(&data).map(|t| out!(parse_str(t), config)).unwrap_or(none),
            out!(parse_slice(&data), config),
            out!(parse_reader(&mut script), config),
            out!(parse_reader(&data[..]), config),
        )
    } else {
        (
            std::str::from_utf8(&data).map(|t| out!(value::from_str(t, merge()), proj::map)).unwrap_or(none),
            out!(value::from_slice(&data, merge()), proj::map),
            out!(value::from_reader(&mut script, merge()), proj::map),
            out!(value::from_reader(&data[..], merge()), proj::map),
        )
    };
    J::Obj(vec![
        ("r".into(), J::s("x")),
        ("st".into(), s),
        ("sl".into(), sl),
        ("rd".into(), rd),
        ("rw".into(), rw),
    ])
}
