//! Several decodings at once, taking turns as a schedule says.
//!
//! A turn is (session, bytes, ending).  The end of the input counts as one
//! more byte.  A turn is over when its session asks for more than it has been
//! granted, or is done; so between two turns exactly one session is at work.
use crate::source::{Injected, kind_of};
use std::cell::RefCell;
use std::io::{self, Read};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug)]
pub struct Turn {
    pub s: usize,
    pub n: usize,
    pub end: String,
}

struct Gone;

fn decode(r: impl Read, f: fn(&Result<wadec::Module, wadec::decode::DecodeModuleError>) -> String) -> String {
    match catch_unwind(AssertUnwindSafe(|| f(&wadec::decode_module(r)))) {
        Ok(s) => s,
        Err(p) if p.is::<Gone>() => "[\"abandoned\"]".into(),
        Err(_) => "[\"panic\"]".into(),
    }
}

enum Grant {
    Bytes(usize),
    Fail(String),
    Panic,
}

/// Where the schedule has got to.
struct State {
    turns: Vec<Turn>,
    at: usize,
    used: usize,
    ended: bool,
    done: Vec<bool>,
}

impl State {
    fn new(turns: Vec<Turn>, k: usize) -> Self {
        State { turns, at: 0, used: 0, ended: false, done: vec![false; k] }
    }
    /// Whose turn it is; afterwards the sessions are finished in order.
    fn turn(&mut self) -> Option<usize> {
        while self.at < self.turns.len() {
            let s = self.turns[self.at].s;
            if !self.done[s] {
                return Some(s);
            }
            self.advance();
        }
        self.done.iter().position(|d| !d)
    }
    fn advance(&mut self) {
        self.at += 1;
        self.used = 0;
        self.ended = false;
    }
    /// What session s, whose turn it is, may have; None: the turn is over.
    fn grant(&mut self, want: usize, left: usize) -> Option<Grant> {
        if self.at >= self.turns.len() {
            return Some(Grant::Bytes(want.min(left)));
        }
        let t = &self.turns[self.at];
        let room = t.n - self.used;
        if room == 0 {
            if t.end.is_empty() || self.ended {
                return None;
            }
            self.ended = true;
            return Some(if t.end == "panic" { Grant::Panic } else { Grant::Fail(t.end.clone()) });
        }
        if left == 0 {
            self.used += 1;
            return Some(Grant::Bytes(0));
        }
        let n = want.min(left).min(room);
        self.used += n;
        Some(Grant::Bytes(n))
    }
}

fn give(g: Grant, data: &[u8], pos: &mut usize, buf: &mut [u8]) -> io::Result<usize> {
    match g {
        Grant::Bytes(n) => {
            buf[..n].copy_from_slice(&data[*pos..*pos + n]);
            *pos += n;
            Ok(n)
        }
        Grant::Fail(k) => Err(io::Error::new(kind_of(&k), Injected)),
        Grant::Panic => std::panic::panic_any(Gone),
    }
}

// ------------------------------------------------------------- on threads

struct Gate {
    st: Mutex<State>,
    cv: Condvar,
}

impl Gate {
    fn await_turn(&self, s: usize) {
        let mut st = self.st.lock().unwrap();
        while st.turn() != Some(s) {
            st = self.cv.wait(st).unwrap();
        }
    }
    fn next(&self, s: usize, want: usize, left: usize) -> Grant {
        let mut st = self.st.lock().unwrap();
        loop {
            if st.turn() == Some(s) {
                if let Some(g) = st.grant(want, left) {
                    return g;
                }
                st.advance();
                self.cv.notify_all();
            } else {
                st = self.cv.wait(st).unwrap();
            }
        }
    }
    fn finish(&self, s: usize) {
        let mut st = self.st.lock().unwrap();
        st.done[s] = true;
        self.cv.notify_all();
    }
}

struct Gated<'a> {
    data: &'a [u8],
    pos: usize,
    s: usize,
    gate: Arc<Gate>,
}

impl Read for Gated<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let g = self.gate.next(self.s, buf.len(), self.data.len() - self.pos);
        give(g, self.data, &mut self.pos, buf)
    }
}

pub fn on_threads(inputs: &[Vec<u8>], turns: &[Turn], f: fn(&Result<wadec::Module, wadec::decode::DecodeModuleError>) -> String) -> Vec<String> {
    let gate = Arc::new(Gate { st: Mutex::new(State::new(turns.to_vec(), inputs.len())), cv: Condvar::new() });
    std::thread::scope(|sc| {
        let hs: Vec<_> = inputs
            .iter()
            .enumerate()
            .map(|(s, data)| {
                let gate = gate.clone();
                std::thread::Builder::new().stack_size(crate::STACK).spawn_scoped(sc, move || {
                    gate.await_turn(s);
                    let out = decode(Gated { data, pos: 0, s, gate: gate.clone() }, f);
                    gate.finish(s);
                    out
                }).unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or("[\"panic\"]".into())).collect()
    })
}

// -------------------------------------------------------- on a single thread

struct Nested<'a> {
    st: RefCell<State>,
    begun: RefCell<Vec<bool>>,
    outs: RefCell<Vec<String>>,
    inputs: &'a [Vec<u8>],
    f: fn(&Result<wadec::Module, wadec::decode::DecodeModuleError>) -> String,
}

impl Nested<'_> {
    fn begin(&self, s: usize) {
        self.begun.borrow_mut()[s] = true;
        let out = decode(Inner { all: self, s, pos: 0 }, self.f);
        self.outs.borrow_mut()[s] = out;
        self.st.borrow_mut().done[s] = true;
    }
}

struct Inner<'a, 'b> {
    all: &'a Nested<'b>,
    s: usize,
    pos: usize,
}

impl Read for Inner<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let data = &self.all.inputs[self.s];
        loop {
            let t = self.all.st.borrow_mut().turn();
            match t {
                Some(s) if s == self.s => {
                    let g = self.all.st.borrow_mut().grant(buf.len(), data.len() - self.pos);
                    if let Some(g) = g {
                        return give(g, data, &mut self.pos, buf);
                    }
                    self.all.st.borrow_mut().advance();
                }
                Some(s) if !self.all.begun.borrow()[s] => self.all.begin(s),
                // an outer session cannot go on before this one is done
                _ => {
                    let n = buf.len().min(data.len() - self.pos);
                    return give(Grant::Bytes(n), data, &mut self.pos, buf);
                }
            }
        }
    }
}

pub fn nested(inputs: &[Vec<u8>], turns: &[Turn], f: fn(&Result<wadec::Module, wadec::decode::DecodeModuleError>) -> String) -> Vec<String> {
    let k = inputs.len();
    let n = Nested {
        st: RefCell::new(State::new(turns.to_vec(), k)),
        begun: RefCell::new(vec![false; k]),
        outs: RefCell::new(vec![String::new(); k]),
        inputs,
        f,
    };
    loop {
        let t = n.st.borrow_mut().turn();
        match t {
            Some(s) => n.begin(s),
            None => break,
        }
    }
    n.outs.into_inner()
}
