//! A session: a tree of events over an append-only register file (see spec/Trace.tla).
use crate::wire::*;
use std::collections::HashMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const MAXLOG: usize = USUAL.1; // largest operands (in nodes) that are combined

pub struct Nd {
    pub parent: usize, // 0: root
    pub body: String,
    pub kids: Vec<usize>,
}

pub struct Sess {
    pub root: u64,
    pub cold: bool, // a process of its own for this root
    pub step: u64,
    pub nodes: Vec<Nd>, // 1-based through index()
    pub roots: Vec<usize>,
    pub skip: HashMap<(u64, u64), String>,
    pub progress: Option<std::fs::File>,
    pub late: Vec<(usize, String, Vec<E>, String)>, // C14: operations to repeat later
}

#[derive(Clone)]
pub struct Br {
    pub node: usize,
    pub regs: Vec<E>,
}

pub fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
pub fn nums<T: std::fmt::Display>(v: &[T]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    list(&s)
}
pub fn wires(v: &[E]) -> String {
    let s: Vec<String> = v.iter().map(wire).collect();
    list(&s)
}

impl Sess {
    pub fn new() -> Sess {
        Sess { root: 0, cold: false, step: 0, nodes: vec![], roots: vec![], skip: HashMap::new(), progress: None, late: vec![] }
    }
    pub fn begin(&mut self, root: u64) -> Br {
        self.root = root;
        self.step = 0;
        self.nodes.clear();
        self.roots.clear();
        self.late.clear();
        set_limits(USUAL);
        Br { node: 0, regs: vec![] }
    }

    /// Runs a piece of the code under test; a panic is data, a crash is replayed as data.
    pub fn run<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.step += 1;
        if let Some(why) = self.skip.get(&(self.root, self.step)) {
            return Err(why.clone());
        }
        if let Some(p) = &self.progress {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&self.root.to_le_bytes());
            b[8..].copy_from_slice(&self.step.to_le_bytes());
            let _ = p.write_at(&b, 0);
        }
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(x) => Ok(x),
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".into()
                };
                Err(format!("panic: {}", m.chars().take(80).collect::<String>()))
            }
        }
    }

    pub fn emit(&mut self, br: &mut Br, body: String) {
        let id = self.nodes.len() + 1;
        self.nodes.push(Nd { parent: br.node, body, kids: vec![] });
        if br.node == 0 {
            self.roots.push(id);
        } else {
            let p = br.node;
            self.nodes[p - 1].kids.push(id);
        }
        br.node = id;
    }

    pub fn body(o: &str, a: &[usize], rest: String) -> String {
        format!("\"o\":\"{}\",\"a\":{},\"bad\":\"\"{}{}", o, nums(a), if rest.is_empty() { "" } else { "," }, rest)
    }
    pub fn badbody(o: &str, a: &[usize], why: &str) -> String {
        format!("\"o\":\"{}\",\"a\":{},\"bad\":{}", o, nums(a), jstr(why))
    }

    /// Appends a term that was made outside the session.
    pub fn load(&mut self, br: &mut Br, e: E) -> usize {
        let b = Sess::body("load", &[], format!("\"r\":{}", wire(&e)));
        br.regs.push(e);
        self.emit(br, b);
        br.regs.len()
    }

    pub fn bad(&mut self, br: &Br, o: &str, a: &[usize], why: &str) {
        let mut b2 = br.clone();
        let body = Sess::badbody(o, a, why);
        self.emit(&mut b2, body);
    }

    /// One operation with all its forms; the first form is the result, others that differ are `alt`.
    pub fn op(&mut self, br: &mut Br, o: &str, a: &[usize], extra: &str, forms: Vec<Box<dyn FnOnce() -> E + '_>>) -> Option<E> {
        let mut first: Option<(E, String)> = None;
        let mut alt: Vec<String> = vec![];
        for f in forms {
            match self.run(f) {
                Err(why) => {
                    self.bad(br, o, a, &why);
                    return None;
                }
                Ok(x) => {
                    if nodes(&x) > limits().1 {
                        return None;
                    }
                    let w = wire(&x);
                    match &first {
                        None => first = Some((x, w)),
                        Some((_, w0)) => {
                            if *w0 != w && !alt.contains(&w) {
                                alt.push(w)
                            }
                        }
                    }
                }
            }
        }
        let (x, w) = first.unwrap();
        let body = Sess::body(o, a, format!("\"r\":{},\"alt\":{}{}", w, list(&alt), extra));
        br.regs.push(x.clone());
        self.emit(br, body);
        Some(x)
    }

    /// An observation: no register is appended, the branch does not advance.
    pub fn observe(&mut self, br: &Br, o: &str, a: &[usize], r: Result<String, String>) {
        let mut b2 = br.clone();
        match r {
            Ok(rest) => {
                let b = Sess::body(o, a, rest);
                self.emit(&mut b2, b)
            }
            Err(why) => {
                let b = Sess::badbody(o, a, &why);
                self.emit(&mut b2, b)
            }
        }
    }

    /// Writes the session to `out`; `line` is the number of lines written so far.
    pub fn flush(&mut self, out: &mut dyn Write, line: &mut usize) {
        let base = *line;
        for n in self.nodes.iter() {
            let k: Vec<usize> = n.kids.iter().map(|k| k + base).collect();
            let p = if n.parent == 0 { 0 } else { n.parent + base };
            writeln!(out, "{{\"p\":{},\"g\":{},{},\"k\":{}}}", p, self.root, n.body, nums(&k)).unwrap();
        }
        *line += self.nodes.len();
        out.flush().unwrap();
    }
}
