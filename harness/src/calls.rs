//! Calls of several threads, interleaved inside their sources as a schedule says, then all at once.
use crate::json::J;
use crate::proj;
use crate::source::Script;
use ferrous_chloride::{parse_reader, parse_slice, parse_str, value, Error, MergeBehaviour};
use std::io::{self, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Barrier};

enum Cmd {
    Call(usize),
    Ev(i64),
}
enum Msg {
    Waiting,
    Done(usize, J),
}

#[derive(Clone)]
struct Call {
    th: usize,
    g: String,
    how: String,
    data: Vec<u8>,
    ev: Vec<i64>,
}

/// A source that asks what to do whenever it is read
struct Asked<'a> {
    data: &'a [u8],
    rx: &'a Receiver<Cmd>,
    tx: &'a Sender<Msg>,
    have: usize,
    end: Option<i64>,
}

impl<'a> Read for Asked<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        loop {
            let n = self.have.min(self.data.len()).min(buf.len());
            if n > 0 {
                buf[..n].copy_from_slice(&self.data[..n]);
                self.data = &self.data[n..];
                self.have -= n;
                return Ok(n);
            }
            match self.end {
                Some(-1) => return Err(io::Error::new(io::ErrorKind::Other, "broken")),
                Some(_) => return Ok(0),
                None => {}
            }
            self.tx.send(Msg::Waiting).unwrap();
            match self.rx.recv() {
                Ok(Cmd::Ev(0)) => return Err(io::Error::new(io::ErrorKind::Interrupted, "again")),
                Ok(Cmd::Ev(99)) => {
                    self.have = self.data.len();
                    self.end = Some(99);
                }
                Ok(Cmd::Ev(e)) if e < 0 => self.end = Some(e),
                Ok(Cmd::Ev(n)) => self.have = n as usize,
                _ => self.end = Some(-1),
            }
        }
    }
}

fn of<X>(r: Result<X, Error>, p: fn(&X) -> J) -> J {
    match r {
        Ok(v) => J::Obj(vec![("r".into(), J::s("ok")), ("v".into(), p(&v))]),
        Err(_) => J::Obj(vec![("r".into(), J::s("err"))]),
    }
}

fn config(b: &ferrous_chloride::parser::Body) -> J {
    proj::config(b)
}

fn call<R: Read>(c: &Call, source: R) -> J {
    let m = if c.g == "mrg" { Some(MergeBehaviour::Error) } else { None };
    let r = catch_unwind(AssertUnwindSafe(|| match (c.g.as_str(), c.how.as_str()) {
        ("hcl", "rd") => of(parse_reader(source), config),
        ("hcl", "sl") => of(parse_slice(&c.data), config),
        (_, "rd") => of(value::from_reader(source, m), |v| proj::map(v)),
        (_, "sl") => of(value::from_slice(&c.data, m), |v| proj::map(v)),
        (g, _) => match std::str::from_utf8(&c.data) {
            Err(_) => J::Obj(vec![("r".into(), J::s("err"))]),
            Ok(t) if g == "hcl" => of(parse_str(t), config),
            Ok(t) => of(value::from_str(t, m), |v| proj::map(v)),
        },
    }));
    r.unwrap_or_else(|_| J::Obj(vec![("r".into(), J::s("panic"))]))
}

/// Up to the next question of the thread's source, or the end of its call
fn wait(rx: &Receiver<Msg>, out: &mut Vec<J>, busy: &mut bool) {
    match rx.recv().expect("harness: thread") {
        Msg::Waiting => {}
        Msg::Done(i, r) => {
            out[i] = r;
            *busy = false;
        }
    }
}

pub fn run(j: &J) -> J {
    let n = j.get("n").unwrap().int() as usize;
    let mut calls: Vec<Call> = vec![];
    for s in j.get("sch").unwrap().arr() {
        let s = s.arr();
        if s[0].str() == "open" {
            calls.push(Call { th: s[1].int() as usize - 1, g: s[2].str().into(), how: s[3].str().into(), data: s[4].bytes(), ev: vec![] });
        } else {
            let c = &mut calls[s[1].int() as usize - 1];
            if s[2].int() != 99 {
                c.ev.push(s[2].int());
            }
        }
    }
    let calls = Arc::new(calls);
    let mut out: Vec<J> = calls.iter().map(|_| J::Obj(vec![("r".into(), J::s("unfinished"))])).collect();
    let mut threads = vec![];
    for _ in 0..n {
        let (tx, cmds) = channel::<Cmd>();
        let (msgs, rx) = channel::<Msg>();
        let calls = calls.clone();
        let h = std::thread::spawn(move || {
            while let Ok(c) = cmds.recv() {
                if let Cmd::Call(i) = c {
                    let r = call(&calls[i], Asked { data: &calls[i].data, rx: &cmds, tx: &msgs, have: 0, end: None });
                    if msgs.send(Msg::Done(i, r)).is_err() {
                        return;
                    }
                }
            }
        });
        threads.push((tx, rx, false, h));
    }
    let mut k = 0;
    for s in j.get("sch").unwrap().arr() {
        let s = s.arr();
        if s[0].str() == "open" {
            let t = &mut threads[calls[k].th];
            // a call that does not stop reading gets no more
            while t.2 {
                t.0.send(Cmd::Ev(-1)).unwrap();
                wait(&t.1, &mut out, &mut t.2);
            }
            t.0.send(Cmd::Call(k)).unwrap();
            t.2 = true;
            wait(&t.1, &mut out, &mut t.2);
            k += 1;
        } else {
            let i = s[1].int() as usize - 1;
            let t = &mut threads[calls[i].th];
            if t.2 {
                t.0.send(Cmd::Ev(s[2].int())).unwrap();
                wait(&t.1, &mut out, &mut t.2);
            }
        }
    }
    for (tx, rx, mut busy, h) in threads {
        while busy {
            tx.send(Cmd::Ev(-1)).unwrap();
            wait(&rx, &mut out, &mut busy);
        }
        drop(tx);
        h.join().expect("harness: join");
    }
    // the same calls without a schedule: the threads run freely
    let mut free = J::Bool(true);
    if j.get("free").is_some() {
        let gate = Arc::new(Barrier::new(n));
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (calls, gate) = (calls.clone(), gate.clone());
                std::thread::spawn(move || {
                    let mut seen: Vec<(usize, J)> = vec![];
                    for _ in 0..6 {
                        gate.wait();
                        for (i, c) in calls.iter().enumerate().filter(|(_, c)| c.th == t) {
                            let r = call(c, Script { data: c.data.clone(), at: 0, ev: c.ev.clone(), i: 0 });
                            if seen.iter().all(|(k, s)| *k != i || s.to_string() != r.to_string()) {
                                seen.push((i, r));
                            }
                        }
                    }
                    seen
                })
            })
            .collect();
        let mut all: Vec<Vec<J>> = calls.iter().map(|_| vec![]).collect();
        for h in hs {
            for (i, r) in h.join().expect("harness: join") {
                all[i].push(r);
            }
        }
        free = J::Arr(all.into_iter().map(J::Arr).collect());
    }
    J::Obj(vec![("r".into(), J::s("ok")), ("v".into(), J::Arr(out)), ("free".into(), free)])
}
