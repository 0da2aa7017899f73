//! Workloads: what each property's sessions do.
use crate::gen::*;
use crate::ops::*;
use crate::sess::*;
use crate::wire::*;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::symbol::Symbol;
use ncas::manipulation::simplification_rules::rational::rationals::Rational;
use num::bigint::BigInt;
use num::{Signed, Zero};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn hash(e: &E) -> u64 {
    let mut h = DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}
fn ordn(o: Ordering) -> i32 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
fn b(x: bool) -> i32 {
    if x {
        1
    } else {
        0
    }
}

// ------------------------------------------------------------------ TLC's behaviours
#[derive(Default)]
pub struct Trie {
    pub setup: Vec<J>,
    pub op: Vec<(String, Vec<usize>)>,
    pub want: Vec<String>,
    pub kids: Vec<Vec<usize>>,
    pub tops: Vec<usize>,
}

/// File: lines {"setup":[terms]} or {"ops":[[name,[args],want],...]} as plain arrays:
/// first line is the setup array, the others are arrays of [name,args,want].
pub fn read_programs(path: &str) -> Vec<Trie> {
    let txt = std::fs::read_to_string(path).unwrap();
    let mut t = Trie::default();
    let mut index: std::collections::HashMap<(usize, String), usize> = Default::default();
    for (n, l) in txt.lines().enumerate() {
        if n == 0 {
            t.setup = parse(l).arr().clone();
            continue;
        }
        if l.trim().is_empty() {
            continue;
        }
        let prog = parse(l);
        let mut cur = 0usize;
        for st in prog.arr() {
            let st = st.arr();
            let name = st[0].str().to_string();
            let args: Vec<usize> = st[1].arr().iter().map(|x| x.num() as usize).collect();
            let key = (cur, format!("{} {:?}", name, args));
            cur = match index.get(&key) {
                Some(i) => *i,
                None => {
                    t.op.push((name, args));
                    t.want.push(if st.len() > 2 { unparse(&st[2]) } else { "[]".into() });
                    t.kids.push(vec![]);
                    let id = t.op.len();
                    if cur == 0 {
                        t.tops.push(id)
                    } else {
                        t.kids[cur - 1].push(id)
                    }
                    index.insert(key, id);
                    id
                }
            };
        }
    }
    // one root per first operation
    t.tops
        .iter()
        .map(|top| {
            let mut n = Trie { setup: t.setup.clone(), ..Default::default() };
            fn copy(t: &Trie, id: usize, n: &mut Trie) -> usize {
                n.op.push(t.op[id - 1].clone());
                n.want.push(t.want[id - 1].clone());
                n.kids.push(vec![]);
                let me = n.op.len();
                for k in t.kids[id - 1].iter() {
                    let c = copy(t, *k, n);
                    n.kids[me - 1].push(c);
                }
                me
            }
            let c = copy(&t, *top, &mut n);
            n.tops.push(c);
            n
        })
        .collect()
}
fn unparse(j: &J) -> String {
    match j {
        J::N(n) => n.to_string(),
        J::S(s) => jstr(s),
        J::A(v) => list(&v.iter().map(unparse).collect::<Vec<_>>()),
    }
}

pub fn replay(s: &mut Sess, mut br: Br, t: &Trie, prop: &str, seed: u64) {
    if prop == "C16" {
        return replay_rationals(s, br, t);
    }
    for j in t.setup.iter() {
        match s.run(|| build(j)) {
            Ok(e) => {
                s.load(&mut br, e);
            }
            Err(why) => {
                s.bad(&br, "gen", &[], &why);
                return;
            }
        }
    }
    fn go(s: &mut Sess, br: &Br, t: &Trie, id: usize, prop: &str, seed: u64) {
        let (o, a) = &t.op[id - 1];
        let mut b2 = br.clone();
        let twice = (o == "expand" && prop == "C04") || (o == "simplify" && (prop == "C06" || prop == "C07"));
        if a.iter().any(|k| *k > br.regs.len()) || watch(s, br, o, a, seed + id as u64) {
            return;
        }
        let extra = format!(",\"w\":{}", t.want[id - 1]);
        let r = if twice { s.twice(&mut b2, o, a[0]) } else { s.apply(&mut b2, o, a, &extra) };
        if r.is_some() {
            for k in t.kids[id - 1].iter() {
                go(s, &b2, t, *k, prop, seed);
            }
        }
    }
    go(s, &br, t, t.tops[0], prop, seed);
}
/// The steps that only look at registers.
fn watch(s: &mut Sess, br: &Br, o: &str, a: &[usize], seed: u64) -> bool {
    let k = a[0];
    let l = a[a.len() - 1];
    let reg = |k: usize| br.regs[k - 1].clone();
    match o {
        "acsum" | "acprod" => ac(s, br, &mut Rng::new(seed, k as u64, l as u64), o, a),
        "order" => obs_order(s, br, a),
        "items" => obs_items(s, br, k),
        "preds" => obs_preds(s, br, k, l),
        "same" => obs_same(s, br, k, l),
        "ok.preds" => ok_preds(s, br, k, l),
        "ok.view" => ok_view(s, br, k, l),
        "query" => obs_query(s, br, a, a.iter().map(|k| reg(*k)).collect(), seed % 2 == 0),
        "show" => obs_show(s, br, k),
        "copies" => obs_copies(s, br, k, 3),
        "selfdiff" => obs_selfdiff(s, br, k),
        "fadd" | "fsub" | "fmul" | "fdiv" | "fcmp" => {
            if let (E::Real(x), E::Real(y)) = (reg(k), reg(l)) {
                obs_float(s, br, o, a, x.data, y.data)
            }
        }
        _ if o.starts_with("det.") => obs_det(s, br, &o[4..], a),
        _ if INT_OBS.contains(&o) || o == "ipow" => {
            if let (E::Integer(x), E::Integer(y)) = (reg(k), reg(l)) {
                obs_int(s, br, o, a, &x.data, &y.data)
            }
        }
        _ => return false,
    }
    true
}
fn replay_rationals(s: &mut Sess, br: Br, t: &Trie) {
    let mut vals = vec![];
    for j in t.setup.iter() {
        let (n, d) = (BigInt::from(j.arr()[1].num()), BigInt::from(j.arr()[2].num()));
        match s.run(|| Rational::from(sint(&n), sint(&d))) {
            Ok(q) => {
                s.observe(&br, "qfrom", &[], Ok(format!("\"x\":[{},{}],\"r\":{}", wint(&n), wint(&d), ratview(&q))));
                vals.push(q);
            }
            Err(why) => {
                s.bad(&br, "qfrom", &[], &why);
                return;
            }
        }
    }
    fn go(s: &mut Sess, br: &Br, vals: &[Rational], t: &Trie, id: usize) {
        let (o, a) = &t.op[id - 1];
        if a.iter().any(|k| *k > vals.len()) {
            return;
        }
        let (x, y) = (&vals[a[0] - 1], &vals[a[a.len() - 1] - 1]);
        if let Some(z) = obs_rat(s, br, o, &[], x, y) {
            let mut v2 = vals.to_vec();
            v2.push(z);
            for k in t.kids[id - 1].iter() {
                go(s, br, &v2, t, *k);
            }
        }
    }
    go(s, &br, &vals, t, t.tops[0]);
}

// ------------------------------------------------------------------ random sessions
fn loadgen(s: &mut Sess, br: &mut Br, g: &mut Gen, f: impl FnOnce(&mut Gen) -> E) -> Option<usize> {
    match s.run(|| f(g)) {
        Ok(e) => {
            if nodes(&e) > 220 {
                return None;
            }
            Some(s.load(br, e))
        }
        Err(why) => {
            s.bad(br, "gen", &[], &why);
            None
        }
    }
}

pub fn random(s: &mut Sess, mut br: Br, prop: &str, seed: u64, i: u64, deep: bool) {
    let pn: u64 = prop[1..].parse().unwrap_or(0);
    let r = Rng::new(seed, i + 1, pn + 100);
    let xd = if deep && i % 3 == 0 { 1 } else { 0 };
    match prop {
        "C01" => arith(s, &mut br, r, i, xd),
        "C02" => powlog(s, &mut br, r, i, xd),
        "C03" => target(s, &mut br, r, i, &["expand"], false, xd),
        "C04" => fullexpand(s, &mut br, r, i, xd),
        "C05" => target(s, &mut br, r, i, &["simplify"], true, xd),
        "C06" => polys(s, &mut br, r, i, xd),
        "C07" => rats(s, &mut br, r, i, xd),
        "C08" => acperm(s, &mut br, r, i),
        "C09" => program(s, &mut br, r, i, true, xd),
        "C10" => order(s, &mut br, r, i),
        "C11" => preds(s, &mut br, r, i, xd),
        "C12" => bigs(s, &mut br, r, i),
        "C13" => total(s, &mut br, r, i, xd),
        "C14" => determinism(s, &mut br, r, i),
        "C15" => rules(s, &mut br, r, i, xd),
        "C16" => rational(s, &mut br, r, i),
        "C17" => queries(s, &mut br, r, i),
        "C18" => shows(s, &mut br, r, i),
        "C19" => collect(s, &mut br, r, i, xd),
        "C20" => floats(s, &mut br, r, i),
        _ => panic!("no profile for {}", prop),
    }
}

fn arith(s: &mut Sess, br: &mut Br, r: Rng, i: u64, xd: usize) {
    let mix = match i % 5 {
        0 | 1 => GENERAL,
        2 => Mix { big: 30, logs: 0, ..GENERAL },
        3 => WITHREAL,
        _ => Mix { real: 35, neg: 40, logs: 0, trig: 0, ..GENERAL },
    };
    let mut g = Gen::new(r, mix);
    if i % 5 >= 3 {
        // float literals whose operations are exact
        for _ in 0..2 {
            let (x, y) = exact_pair(&mut g);
            let mut b2 = br.clone();
            let xi = s.load(&mut b2, real(x));
            let yi = s.load(&mut b2, real(y));
            for o in ["add", "sub", "mul", "div"] {
                let r = match o { "add" => x + y, "sub" => x - y, "mul" => x * y, _ => x / y };
                if allowed(o, &real(x), &real(y)) && r.is_finite() {
                    s.apply(&mut b2.clone(), o, &[xi, yi], &format!(",\"want\":{}", wreal(r)));
                }
            }
        }
    }
    let n = 2 + g.r.below(3);
    for k in 0..n {
        let d = g.r.weighted(&[45, 35, 20]) + xd;
        loadgen(s, br, &mut g, |g| if k == 0 && i % 2 == 0 { g.sweep(i / 2) } else { g.expr(d) });
    }
    for _ in 0..7 {
        if br.regs.is_empty() {
            return;
        }
        let m = br.regs.len();
        let pick = |g: &mut Gen| if g.r.chance(40) { m } else { 1 + g.r.below(m) };
        let o = ["add", "sub", "mul", "div", "neg", "sum", "prod"][g.r.weighted(&[18, 18, 18, 18, 6, 10, 12])];
        let a: Vec<usize> = match o {
            "neg" => vec![pick(&mut g)],
            "sum" | "prod" => {
                let k = g.count(&[0, 1, 2, 3, 3, 4, 5, 6, 8, 12], 100);
                (0..k).map(|_| pick(&mut g)).collect()
            }
            _ => vec![pick(&mut g), pick(&mut g)],
        };
        let mut b2 = br.clone();
        if let Some(e) = s.apply(&mut b2, o, &a, "") {
            if nodes(&e) <= 45 {
                *br = b2;
            }
        }
        if br.regs.len() >= 12 {
            break;
        }
    }
}

/// floats of which a sum, product or quotient is a float
fn exact_pair(g: &mut Gen) -> (f64, f64) {
    let n = |g: &mut Gen| {
        let k = 1 + g.r.below(26);
        let m = 1 + g.r.below(1 << k) as i64;
        (if g.r.chance(30) { -m } else { m }) as f64 * 2f64.powi(g.r.range(-20, 20) as i32)
    };
    let (x, y) = (n(g), n(g));
    match g.r.below(4) {
        0 => (x, y),
        1 => (x, x),
        _ => (x * y, y),
    }
}

fn powlog(s: &mut Sess, br: &mut Br, r: Rng, i: u64, xd: usize) {
    let mix = match i % 4 {
        0 | 1 => GENERAL,
        2 => Mix { real: 30, ..GENERAL },
        _ => Mix { big: 30, ..GENERAL },
    };
    let mut g = Gen::new(r, Mix { sympow: 45, logs: 12, ..mix });
    {
        // one kind of operand against another
        let n = Gen::KINDS as u64;
        let x = loadgen(s, br, &mut g, |g| g.kind((i % n) as usize));
        let y = loadgen(s, br, &mut g, |g| g.kind((i / n % n) as usize));
        if let (Some(x), Some(y)) = (x, y) {
            let mut b2 = br.clone();
            s.apply(&mut b2, "pow", &[x, y], "");
            let mut b2 = br.clone();
            s.apply(&mut b2, "log", &[x, y], "");
        }
    }
    for _ in 0..4 {
        let kind = g.r.below(8);
        let d = xd + g.r.below(2);
        match kind {
            0..=3 => {
                let bi = loadgen(s, br, &mut g, |g| g.base(d));
                let xi = loadgen(s, br, &mut g, |g| g.exponent(d));
                if let (Some(bi), Some(xi)) = (bi, xi) {
                    let mut b2 = br.clone();
                    if let Some(e) = s.apply(&mut b2, "pow", &[bi, xi], "") {
                        if nodes(&e) <= 45 {
                            *br = b2;
                            let k = br.regs.len();
                            let which = g.r.below(3);
                            let x2 = loadgen(s, br, &mut g, |g| if which == 0 { g.exponent(1) } else { g.exponent(0) });
                            if let Some(x2) = x2 {
                                s.apply(br, "pow", &[k, x2], "");
                            }
                            // logarithm to the base
                            let mut b3 = br.clone();
                            s.apply(&mut b3, "log", &[k, bi], "");
                        }
                    }
                }
            }
            4 => {
                // exact and nearly exact logarithms of integers
                let base = g.r.range(2, 20);
                let lim = if g.r.chance(50) { 12 } else { 60 };
                let k = g.r.below(lim);
                let off = *g.r.pick(&[0, 0, 0, 1, -1, 2]);
                let n = num::pow::pow(BigInt::from(base), k) + BigInt::from(off);
                if n >= BigInt::from(1) {
                    let xi = s.load(br, big(n));
                    let bi = s.load(br, int(base));
                    s.apply(br, "log", &[xi, bi], "");
                }
            }
            5 => {
                let xi = loadgen(s, br, &mut g, |g| g.base(d));
                let bi = loadgen(s, br, &mut g, |g| if g.r.chance(70) { g.var() } else { g.expr(1) });
                if let (Some(xi), Some(bi)) = (xi, bi) {
                    if s.apply(br, "log", &[xi, bi], "").is_some() {
                        let l = br.regs.len();
                        let mut b3 = br.clone();
                        s.apply(&mut b3, "pow", &[bi, l], "");
                        let mut b4 = br.clone();
                        s.apply(&mut b4, "pow", &[l, bi], "");
                    }
                }
            }
            6 => {
                // literal to literal
                let wide = g.r.chance(30);
                let lit = |g: &mut Gen| match g.r.below(4) {
                    0 => real(*g.r.pick(&[0.0, 0.5, 1.0, 2.0, 4.0, 2.5, 9.0, 0.25, 16.0, 1.5, 3.0, 100.0])),
                    _ => {
                        if wide {
                            big(g.integer())
                        } else {
                            int(g.r.range(-12, 12))
                        }
                    }
                };
                if g.r.chance(15) {
                    let b1 = s.load(br, int(g.r.range(-1, 1)));
                    let k = g.bigint();
                    let x1 = s.load(br, big(if g.r.chance(30) { -k } else { k }));
                    let mut b2 = br.clone();
                    s.apply(&mut b2, "pow", &[b1, x1], "");
                }
                let bi = loadgen(s, br, &mut g, lit);
                let xi = loadgen(s, br, &mut g, |g| if g.r.chance(70) { int(g.r.range(-9, 12)) } else { lit(g) });
                if let (Some(bi), Some(xi)) = (bi, xi) {
                    let mut b2 = br.clone();
                    s.apply(&mut b2, "pow", &[bi, xi], "");
                    let mut b3 = br.clone();
                    s.apply(&mut b3, "log", &[bi, xi], "");
                }
            }
            _ => {
                if br.regs.len() >= 2 {
                    let m = br.regs.len();
                    let (x, y) = (1 + g.r.below(m), 1 + g.r.below(m));
                    let o = if g.r.chance(60) { "pow" } else { "log" };
                    let mut b2 = br.clone();
                    s.apply(&mut b2, o, &[x, y], "");
                }
            }
        }
    }
}

/// shapes on which manipulation has something to do
fn busy(g: &mut Gen, xd: usize) -> E {
    match g.r.below(21) {
        20 => g.tower(),
        14 => g.wide(70),
        15 | 16 => {
            let d = 2 + g.r.below(2);
            g.atlas(d)
        }
        17 => g.powers(),
        18 => g.likes(),
        19 => {
            // a product or sum of several parts to any power
            let n = 3 + g.r.below(3);
            let v: Vec<E> = (0..n).map(|_| { let d = g.r.below(2); g.atlas(d) }).collect();
            let b = if g.r.chance(60) { g.prod(v) } else { g.sum(v) };
            let x = g.exponent(1);
            let x = if g.r.chance(50) { -x } else { x };
            let p = if Gen::is_zero(&b) { b } else { safe_pow(b, x) };
            if g.r.chance(60) { p } else { let y = g.atlas(1); p * y }
        }
        0..=4 => {
            let d = 1 + g.r.below(3) + xd;
            g.expr(d)
        }
        5 => {
            let n = 2 + g.r.below(4);
            let v: Vec<E> = (0..n).map(|_| g.expr(1)).collect();
            g.prod(v)
        }
        6 => {
            let n = 2 + g.r.below(5);
            let v: Vec<E> = (0..n).map(|_| { let k = g.int(); let x = g.expr(1); k * x }).collect();
            g.sum(v)
        }
        7 => {
            let n = 2 + g.r.below(2);
            let v: Vec<E> = (0..n).map(|_| g.leaf()).collect();
            let base = g.sum(v);
            let k = *g.r.pick(&[-3, -2, -1, 2, 2, 3, 3, 4, 5]);
            let p = safe_pow(base, int(k));
            if g.r.chance(50) {
                p
            } else {
                let x = g.expr(1);
                p * x
            }
        }
        8 => {
            // powers of the same base in one product
            let base = g.base(1);
            let n = 2 + g.r.below(3);
            let mut v: Vec<E> = (0..n).map(|_| { let x = g.exponent(1); safe_pow(base.clone(), x) }).collect();
            if g.r.chance(60) {
                v.push(g.expr(1));
            }
            if g.r.chance(40) {
                let x = g.base(1);
                if !Gen::is_zero(&x) {
                    v.push(int(1) / x);
                }
            }
            g.prod(v)
        }
        9 => {
            // rational mixture
            let n = 2 + g.r.below(3);
            let v: Vec<E> = (0..n)
                .map(|_| {
                    let d = g.nonzero();
                    let x = g.leaf();
                    if g.r.chance(60) { x / d } else { x }
                })
                .collect();
            if g.r.chance(60) { g.sum(v) } else { g.prod(v) }
        }
        10 => {
            let p = g.poly(2);
            let q = g.poly(1);
            if Gen::is_zero(&q) { p } else { p / q }
        }
        11 => {
            let x = g.expr(1);
            let y = g.expr(1);
            (&x + &y) * (&x - &y)
        }
        12 => {
            let x = g.expr(2);
            let y = g.expr(1);
            &x + &y - &x
        }
        _ => {
            let (p, q) = g.poly_pair();
            if g.r.chance(50) { p } else { q }
        }
    }
}

fn mixfor(i: u64) -> Mix {
    match i % 6 {
        0 | 1 | 2 => GENERAL,
        3 => Mix { logs: 14, sympow: 50, pows: 26, ..GENERAL },
        4 => Mix { big: 15, ..GENERAL },
        _ => WITHREAL,
    }
}

fn target(s: &mut Sess, br: &mut Br, r: Rng, i: u64, ops: &[&str], chain: bool, xd: usize) {
    let mut g = Gen::new(r, mixfor(i));
    if i % 97 == 41 {
        return high(s, br, &mut g, ops[0], xd);
    }
    if let Some(x) = loadgen(s, br, &mut g, |g| g.sweep(i)) {
        for o in ops {
            let mut b2 = br.clone();
            s.apply(&mut b2, o, &[x], "");
        }
    }
    for _ in 0..4 {
        if let Some(x) = loadgen(s, br, &mut g, |g| busy(g, xd)) {
            for o in ops {
                let mut b2 = br.clone();
                if s.apply(&mut b2, o, &[x], "").is_some() && chain && g.r.chance(25) {
                    // go on with the result
                    let k = b2.regs.len();
                    if nodes(&b2.regs[k - 1]) <= 30 {
                        if let Some(y) = loadgen(s, &mut b2, &mut g, |g| g.expr(1)) {
                            let oo = *g.r.pick(&["add", "sub", "mul", "div"]);
                            if s.apply(&mut b2, oo, &[k, y], "").is_some() {
                                let m = b2.regs.len();
                                s.apply(&mut b2, o, &[m], "");
                            }
                        }
                    }
                }
            }
        }
    }
}

/// expansions with hundreds of terms
fn high(s: &mut Sess, br: &mut Br, g: &mut Gen, o: &str, xd: usize) {
    let cap = 10 + xd;
    set_limits((2500.0, 20000));
    if let Some(x) = loadgen(s, br, g, |g| g.highpow(cap)) {
        let e = &br.regs[x - 1];
        if spread(e) > 1100.0 {
            return;
        }
        let mut b2 = br.clone();
        if o == "expand!" {
            s.twice(&mut b2, "expand", x);
        } else {
            s.apply(&mut b2, o, &[x], "");
        }
    }
}

fn fullexpand(s: &mut Sess, br: &mut Br, r: Rng, i: u64, xd: usize) {
    let mut g = Gen::new(r, Mix { real: if i % 5 == 0 { 8 } else { 0 }, ..mixfor(i % 5) });
    if i % 97 == 41 {
        return high(s, br, &mut g, "expand!", xd);
    }
    if let Some(x) = loadgen(s, br, &mut g, |g| g.sweep(i)) {
        let mut b2 = br.clone();
        s.twice(&mut b2, "expand", x);
    }
    for _ in 0..4 {
        if let Some(x) = loadgen(s, br, &mut g, |g| if g.r.chance(40) { g.poly(2 + xd) } else { busy(g, xd) }) {
            let mut b2 = br.clone();
            s.twice(&mut b2, "expand", x);
        }
    }
}

fn polys(s: &mut Sess, br: &mut Br, r: Rng, i: u64, xd: usize) {
    let mut g = Gen::new(r, Mix { big: if i % 4 == 0 { 25 } else { 3 }, ..GENERAL });
    let hi = i % 131 == 67;
    if hi {
        set_limits((1100.0, 800));
    }
    for _ in 0..if hi { 1 } else { 2 } {
        let pq = s.run(|| match if hi { 9 } else { g.r.below(10) } {
            8 => {
                // the same addends in another order, like terms split
                let n = g.count(&[6, 9, 12, 17], 40);
                let mut v: Vec<E> = (0..n).map(|_| g.monomial()).collect();
                let p = E::addition(v.clone());
                g.r.shuffle(&mut v);
                if g.r.chance(40) {
                    let m = g.monomial();
                    v.push(m.clone());
                    let at = g.r.below(v.len());
                    v.insert(at, -m);
                }
                let q = g.sum(v);
                (p, q)
            }
            9 => {
                // high degrees
                let x = g.var();
                let y = g.monomial();
                let k = if hi { g.r.range(7, 9) } else { g.r.range(4, 6) };
                let b = if g.r.chance(50) { x.clone() + y } else { x.clone() - y };
                let p = safe_pow(b.clone(), int(k));
                let j = g.r.range(1, k.max(2) - 1);
                (p, safe_pow(b.clone(), int(j)) * safe_pow(b, int(k - j)))
            }
            0..=4 => g.poly_pair(),
            5 => {
                let p = g.poly(2);
                let q = &p + &g.monomial();
                (p, q)
            }
            6 => {
                let p = g.flatpoly(8);
                let q = g.flatpoly(8);
                (p, q)
            }
            _ => (g.poly(2 + xd), g.poly(2)),
        });
        let (p, q) = match pq {
            Ok(x) => x,
            Err(why) => {
                s.bad(br, "gen", &[], &why);
                continue;
            }
        };
        if !moderate(&p) || !moderate(&q) || spread(&p) + spread(&q) > if hi { 1100.0 } else { 100.0 } {
            continue;
        }
        let mut b2 = br.clone();
        let i1 = s.load(&mut b2, p.clone());
        let i2 = s.load(&mut b2, q.clone());
        obs_same(s, &b2, i1, i2);
    }
}

/// simplifies two registers and compares the results
fn obs_same(s: &mut Sess, br: &Br, i1: usize, i2: usize) {
    let (p, q) = (br.regs[i1 - 1].clone(), br.regs[i2 - 1].clone());
    let mut b2 = br.clone();
    let sp = s.twice(&mut b2, "simplify", i1);
    let i3 = b2.regs.len();
    let sq = s.twice(&mut b2, "simplify", i2);
    let i4 = b2.regs.len();
    if let (Some(sp), Some(sq)) = (sp, sq) {
        let obs = s.run(|| {
            format!(
                "\"eq\":{},\"pred\":{},\"hs\":{},\"ne\":{}",
                b(sp == sq),
                b(p.equal(&q)),
                b(hash(&sp) == hash(&sq)),
                b(sp != sq)
            )
        });
        s.observe(&b2, "same", &[i1, i2, i3, i4], obs);
    }
}

fn rats(s: &mut Sess, br: &mut Br, r: Rng, i: u64, xd: usize) {
    let mut g = Gen::new(r, Mix { big: if i % 4 == 0 { 30 } else { 2 }, neg: 35, ..GENERAL });
    for _ in 0..4 {
        let d = g.r.below(3) + xd;
        let many = g.r.chance(6);
        if let Some(x) = loadgen(s, br, &mut g, |g| {
            if !many {
                return g.ratconst(d);
            }
            let n = g.count(&[6, 8, 9, 12], 40);
            let v: Vec<E> = (0..n).map(|_| g.ratconst(0)).collect();
            if g.r.chance(60) { g.sum(v) } else { g.prod(v) }
        }) {
            let mut b2 = br.clone();
            s.twice(&mut b2, "simplify", x);
        }
    }
}

fn acperm(s: &mut Sess, br: &mut Br, r: Rng, i: u64) {
    let mut g = Gen::new(r, Mix { neg: 35, reuse: 40, ..mixfor(i % 5) });
    let n = g.count(&[2, 3, 3, 3, 4, 4, 5, 6, 8, 11], 40);
    for _ in 0..n {
        let d = if n > 12 { 0 } else { g.r.weighted(&[60, 30, 10]) };
        loadgen(s, br, &mut g, |g| {
            let e = g.expr(d);
            if nodes(&e) > 16 { g.leaf() } else { e }
        });
    }
    let m = br.regs.len();
    if m < 2 {
        return;
    }
    let all: Vec<usize> = (1..=m).collect();
    for o in ["acsum", "acprod"] {
        ac(s, br, &mut g.r, o, &all);
    }
}

/// the same sum or product built in other orders and bracketings
fn ac(s: &mut Sess, br: &Br, r: &mut Rng, o: &str, a: &[usize]) {
    let ops: Vec<E> = a.iter().map(|i| br.regs[i - 1].clone()).collect();
    let obs = s.run(|| {
        let mk = |v: Vec<E>| if o == "acsum" { E::addition(v) } else { E::multiplication(v) };
        let two = |a: E, b: E| if o == "acsum" { a + b } else { a * b };
        let base = mk(ops.clone());
        let mut others: Vec<E> = vec![];
        if ops.len() == 3 {
            // every order and bracketing
            for p in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
                let u = |k: usize| ops[p[k]].clone();
                others.push(mk(vec![u(0), u(1), u(2)]));
                others.push(two(two(u(0), u(1)), u(2)));
                others.push(two(u(0), two(u(1), u(2))));
                others.push(mk(vec![mk(vec![u(0), u(1)]), u(2)]));
            }
        } else {
            for k in 0..6 {
                let mut v = ops.clone();
                r.shuffle(&mut v);
                others.push(match k {
                    0 => mk(v),
                    1 => v.into_iter().reduce(|a, b| two(a, b)).unwrap(),
                    2 => v.into_iter().rev().reduce(|a, b| two(b, a)).unwrap(),
                    _ => {
                        // random bracketing, n-ary or binary
                        while v.len() > 1 {
                            let k = (2 + r.below(3)).min(v.len());
                            let at = r.below(v.len() - k + 1);
                            let part: Vec<E> = v.drain(at..at + k).collect();
                            let x = if k == 2 && r.chance(60) { let mut it = part.into_iter(); let (p, q) = (it.next().unwrap(), it.next().unwrap()); two(p, q) } else { mk(part) };
                            v.insert(at, x);
                        }
                        v.pop().unwrap()
                    }
                });
            }
        }
        let alts: Vec<String> = others.iter().map(wire).filter(|w| *w != wire(&base)).collect();
        format!(
            "\"r\":{},\"alt\":{},\"eqs\":{},\"hs\":{},\"cs\":{},\"ss\":{}",
            wire(&base),
            list(&alts),
            nums(&others.iter().map(|x| b(*x == base && base == *x)).collect::<Vec<_>>()),
            nums(&others.iter().map(|x| b(hash(x) == hash(&base))).collect::<Vec<_>>()),
            nums(&others.iter().map(|x| ordn(x.cmp(&base))).collect::<Vec<_>>()),
            nums(&others.iter().map(|x| b(x.to_string() == base.to_string())).collect::<Vec<_>>())
        )
    });
    s.observe(br, o, a, obs);
}

/// a random program over all operations
fn program(s: &mut Sess, br: &mut Br, r: Rng, i: u64, rulestoo: bool, xd: usize) {
    let mut g = Gen::new(r, match i % 4 { 0 | 1 => GENERAL, 2 => Mix { real: 30, neg: 40, sympow: 45, wild_real: i % 8 == 2, ..GENERAL }, _ => Mix { big: 20, ..GENERAL } });
    let n = 2 + g.r.below(3);
    for k in 0..n {
        let d = g.r.weighted(&[50, 35, 15]) + xd;
        loadgen(s, br, &mut g, |g| if k == 0 { g.sweep(i) } else { g.expr(d) });
    }
    for _ in 0..8 {
        if br.regs.is_empty() {
            return;
        }
        let m = br.regs.len();
        let pick = |g: &mut Gen| if g.r.chance(50) { m } else { 1 + g.r.below(m) };
        let w = g.r.weighted(&[12, 12, 12, 12, 5, 8, 10, 14, 5, 10, 10, if rulestoo { 10 } else { 0 }]);
        let o = ["add", "sub", "mul", "div", "neg", "sum", "prod", "pow", "log", "expand", "simplify", "rule"][w];
        let o = if o == "rule" { format!("rule.{}", g.r.pick(&RULES)) } else { o.to_string() };
        let a: Vec<usize> = match o.as_str() {
            "sum" | "prod" => {
                let k = g.count(&[0, 1, 2, 3, 3, 4, 5, 8], 40);
                (0..k).map(|_| pick(&mut g)).collect()
            }
            "add" | "sub" | "mul" | "div" | "log" => vec![pick(&mut g), pick(&mut g)],
            "pow" => {
                let bi = pick(&mut g);
                if g.r.chance(70) {
                    match loadgen(s, br, &mut g, |g| g.exponent(0)) {
                        Some(x) => vec![bi, x],
                        None => continue,
                    }
                } else {
                    vec![bi, pick(&mut g)]
                }
            }
            _ => vec![pick(&mut g)],
        };
        let mut b2 = br.clone();
        if let Some(e) = s.apply(&mut b2, &o, &a, "") {
            if nodes(&e) <= 45 {
                *br = b2;
            }
        }
        if br.regs.len() >= 12 {
            break;
        }
    }
}

// ------------------------------------------------------------------ order, equality, hash
fn shake(g: &mut Gen, e: &E) -> E {
    // the same tree rebuilt with operands in another order, or with one leaf changed
    let change = g.r.chance(45);
    fn rec(g: &mut Gen, e: &E, change: bool) -> E {
        match e {
            E::Addition(a) | E::Multiplication(a) => {
                let mut v = a.items();
                if v.is_empty() {
                    return e.clone();
                }
                let k = g.r.below(v.len());
                for (i, x) in v.clone().iter().enumerate() {
                    v[i] = rec(g, x, change && i == k);
                }
                g.r.shuffle(&mut v);
                if change && g.r.chance(10) {
                    let i = g.r.below(v.len());
                    v.remove(i);
                } else if change && g.r.chance(10) {
                    let i = g.r.below(v.len());
                    v.push(v[i].clone());
                }
                if let E::Addition(_) = e {
                    E::Addition(assoc(v))
                } else {
                    E::Multiplication(assoc(v))
                }
            }
            E::Power(p) => {
                let w = g.r.chance(50);
                let (x, y) = (rec(g, &p.argument(), change && w), rec(g, &p.modifier(), change && !w));
                E::Power(ncas::base::associative_operation::AssociativeOperation::new(x, y))
            }
            E::Logarithm(p) => {
                let w = g.r.chance(50);
                let (x, y) = (rec(g, &p.argument(), change && w), rec(g, &p.modifier(), change && !w));
                E::Logarithm(ncas::base::associative_operation::AssociativeOperation::new(x, y))
            }
            E::Sine(o) => {
                let x = rec(g, &o.argument(), change);
                if change && g.r.chance(30) { cos(x) } else { sin(x) }
            }
            E::Cossine(o) => {
                let x = rec(g, &o.argument(), change);
                cos(x)
            }
            E::Integer(n) if change => match g.r.below(4) {
                0 => big(-n.data.clone()),
                1 => big(n.data.clone() + 1),
                2 => real(num::ToPrimitive::to_f64(&n.data).unwrap_or(0.0)),
                _ => g.leaf(),
            },
            E::Real(x) if change => match g.r.below(4) {
                0 => real(-x.data),
                1 => real(f64::from_bits(x.data.to_bits().wrapping_add(1))),
                2 => real(x.data * 2.0),
                _ => g.leaf(),
            },
            E::Variable(v) if change => match g.r.below(4) {
                0 | 1 => var(&relabel(g, &v.data)),
                2 => var(odd_label(g)),
                _ => g.leaf(),
            },
            _ => e.clone(),
        }
    }
    rec(g, e, change)
}

fn odd_label(g: &mut Gen) -> &'static str {
    let d = &dict().labels;
    if !d.is_empty() && g.r.chance(40) {
        let i = g.r.below(d.len());
        return &d[i];
    }
    *g.r.pick(&ODD_LABELS)
}

/// a label much like another
fn relabel(g: &mut Gen, l: &str) -> String {
    let head = l.trim_end_matches(|c: char| c.is_ascii_digit());
    let tail = &l[head.len()..];
    match g.r.below(12) {
        0 => format!("{}1", l),
        1 => format!("{}0{}", head, tail),
        2 => format!("{}{}", head, *g.r.pick(&["0", "00", "01", "10", "2"])),
        3 => l.to_uppercase(),
        4 => l.to_lowercase(),
        10 => format!("{}{}{}", *g.r.pick(&[" ", "\t", "\n", ""]), l, *g.r.pick(&["\t", "\n", "  ", " ,"])),
        11 => format!("{}{}{}", l, *g.r.pick(&["+", "*", "-", "/", ".", "(", ")", ",", "^", "0x"]), *g.r.pick(&["1", "x", "", " y"])),
        5 => format!("{} ", l),
        6 => format!(" {}", l),
        7 => format!("{}{}", l, *g.r.pick(&["_", "'", "\u{e9}", "\u{1d465}", "\u{3b1}"])),
        8 => l.chars().rev().collect(),
        _ => l.chars().skip(1).collect(),
    }
}

fn nan_free(e: &E) -> bool {
    match e {
        E::Real(r) => !r.data.is_nan(),
        E::Integer(_) | E::Variable(_) => true,
        E::Addition(a) | E::Multiplication(a) => a.items().iter().all(nan_free),
        E::Power(p) | E::Logarithm(p) => nan_free(&p.argument()) && nan_free(&p.modifier()),
        E::Sine(o) | E::Cossine(o) => nan_free(&o.argument()),
    }
}

fn order(s: &mut Sess, br: &mut Br, r: Rng, i: u64) {
    let mut g = Gen::new(r, Mix { real: 22, big: 12, trig: 8, wild_real: i % 2 == 0, neg: 35, ..GENERAL });
    let n = 6 + g.r.below(3);
    let first = s.run(|| {
        let mut v: Vec<E> = vec![];
        while v.len() < n {
            let e = if v.is_empty() || g.r.chance(35) {
                match g.r.below(10) {
                    9 => g.wide(24),
                    0 => real(g.double()),
                    1 => var(odd_label(&mut g)),
                    2 => g.int(),
                    3 => real(*g.r.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, 1.0])),
                    _ => {
                        let d = 1 + g.r.below(2);
                        g.expr(d)
                    }
                }
            } else {
                let w = v.clone();
                let x = g.r.pick(&w).clone();
                if g.r.chance(12) { twin(&mut g, &x) } else { shake(&mut g, &x) }
            };
            if nodes(&e) <= 60 && nan_free(&e) {
                v.push(e);
            }
        }
        v
    });
    let v = match first {
        Ok(v) => v,
        Err(why) => {
            s.bad(br, "gen", &[], &why);
            return;
        }
    };
    for e in v.iter() {
        s.load(br, e.clone());
    }
    let a: Vec<usize> = (1..=v.len()).collect();
    obs_order(s, br, &a);
    for k in a {
        obs_items(s, br, k);
    }
}

fn obs_order(s: &mut Sess, br: &Br, a: &[usize]) {
    let v: Vec<E> = a.iter().map(|i| br.regs[i - 1].clone()).collect();
    let obs = s.run(|| {
        let mat = |f: &dyn Fn(&E, &E) -> i32| list(&v.iter().map(|x| nums(&v.iter().map(|y| f(x, y)).collect::<Vec<_>>())).collect::<Vec<_>>());
        format!(
            "\"cmp\":{},\"pc\":{},\"eq\":{},\"ne\":{},\"hs\":{},\"lt\":{}",
            mat(&|x, y| ordn(x.cmp(y))),
            mat(&|x, y| x.partial_cmp(y).map(ordn).unwrap_or(2)),
            mat(&|x, y| b(x == y)),
            mat(&|x, y| b(x != y)),
            mat(&|x, y| b(hash(x) == hash(y))),
            mat(&|x, y| b(x < y))
        )
    });
    s.observe(br, "order", a, obs);
}

/// operands are listed in the total order
fn obs_items(s: &mut Sess, br: &Br, k: usize) {
    let e = br.regs[k - 1].clone();
    let obs = s.run(|| {
        let cs: Vec<i32> = match &e {
            E::Addition(a) | E::Multiplication(a) => a.items().windows(2).map(|w| ordn(w[0].cmp(&w[1]))).collect(),
            _ => vec![],
        };
        format!("\"cs\":{}", nums(&cs))
    });
    s.observe(br, "items", &[k], obs);
}

// ------------------------------------------------------------------ comparison predicates
fn seven(x: &E, y: &E) -> Vec<i32> {
    vec![
        b(x.comparable(y)),
        b(x.equal(y)),
        b(x.not_equal(y)),
        b(x.greater(y)),
        b(x.lesser(y)),
        b(x.greater_equal(y)),
        b(x.lesser_equal(y)),
    ]
}

fn obs_preds(s: &mut Sess, br: &Br, i: usize, j: usize) {
    let (p, q) = (br.regs[i - 1].clone(), br.regs[j - 1].clone());
    if !moderate(&p) || !moderate(&q) || spread(&p) + spread(&q) > 120.0 {
        return;
    }
    let obs = s.run(|| format!("\"xy\":{},\"yx\":{},\"xx\":{}", nums(&seven(&p, &q)), nums(&seven(&q, &p)), nums(&seven(&p, &p))));
    s.observe(br, "preds", &[i, j], obs);
}

fn preds(s: &mut Sess, br: &mut Br, r: Rng, i: u64, xd: usize) {
    let mut g = Gen::new(r, mixfor(i));
    for k in 0..3 {
        let pq = s.run(|| match if k == 0 { 12 + i as usize % 3 } else { g.r.below(12) } {
            12 => {
                let p = g.sweep(i / 3);
                (p.clone(), p)
            }
            13 => {
                let p = g.sweep(i / 3);
                let k = g.int();
                (p.clone(), p + k)
            }
            14 => {
                // the same amount written in several ways
                let n = g.r.range(-6, 9);
                let lits = |g: &mut Gen| {
                    let mut v: Vec<E> = (0..g.r.below(3)).map(|_| g.leaf1()).collect();
                    for _ in 0..1 + g.r.below(2) {
                        let k = g.r.range(-6, 9);
                        let d = *g.r.pick(&[1, 1, 2, 4]);
                        v.push(match g.r.below(3) { 0 => int(k), 1 => real(k as f64 / d as f64), _ => int(k) / int(d) });
                    }
                    g.r.shuffle(&mut v);
                    g.sum(v)
                };
                let p = lits(&mut g);
                let q = match g.r.below(4) {
                    0 => twin(&mut g, &p),
                    1 => p.clone() + real(n as f64) - int(n),
                    2 => p.clone() + real(n as f64),
                    _ => lits(&mut g),
                };
                (p, q)
            }
            11 => {
                let p = if g.r.chance(40) { g.leaf() } else { g.expr(1) };
                let q = twin(&mut g, &p);
                (p, q)
            }
            9 => {
                // quotients: equal, opposite or a constant apart
                let (p, q) = g.poly_pair();
                let d = if g.r.chance(50) { g.var() } else { g.flatpoly(2) };
                if Gen::is_zero(&d) {
                    (p, q)
                } else {
                    let k = int(g.r.range(-3, 3));
                    let x = p / &d;
                    let y = q / &d;
                    match g.r.below(3) { 0 => (x, y), 1 => (x + k, y), _ => (x, -y) }
                }
            }
            10 => {
                let mut h = g.wide(24);
                let k = g.int();
                if g.r.chance(50) { h = h + k; }
                let w = match &h { E::Addition(a) | E::Multiplication(a) => a.items(), _ => vec![h.clone()] };
                let mut w = w;
                g.r.shuffle(&mut w);
                let h2 = if let E::Multiplication(_) = h { g.prod(w) } else { g.sum(w) };
                (h, h2)
            }
            0 | 1 => {
                // polynomials with a constant difference
                let (p, q) = g.poly_pair();
                let k = g.r.range(-6, 6);
                (p, if g.r.chance(50) { q + int(k) } else { int(k) + q })
            }
            2 => {
                let (p, q) = g.poly_pair();
                let k = big(g.bigint());
                if g.r.chance(50) { (p + k, q) } else { (p, q + k) }
            }
            3 => {
                let p = busy(&mut g, xd);
                (p.clone(), p)
            }
            4 => {
                let p = g.expr(2);
                let k = if g.r.chance(50) { g.int() } else { real(g.dyadic()) };
                (p.clone(), p + k)
            }
            5 => {
                let lit = |g: &mut Gen| match g.r.below(3) {
                    0 => real(g.dyadic()),
                    1 => g.int(),
                    _ => g.ratconst(1),
                };
                (lit(&mut g), lit(&mut g))
            }
            6 => {
                let p = g.poly(2);
                let q = g.poly(1);
                (p, q)
            }
            7 => {
                let p = g.expr(2);
                if moderate(&p) && spread(&p) <= 60.0 && nodes(&p) <= 80 { (p.clone(), p.simplify()) } else { (p.clone(), p) }
            }
            _ => (busy(&mut g, 0), busy(&mut g, 0)),
        });
        let (p, q) = match pq {
            Ok(x) => x,
            Err(why) => {
                s.bad(br, "gen", &[], &why);
                continue;
            }
        };
        if !moderate(&p) || !moderate(&q) || spread(&p) + spread(&q) > if i % 16 == 0 { 120.0 } else { 40.0 } || nodes(&p) + nodes(&q) > if i % 16 == 0 { 160 } else { 110 } {
            continue;
        }
        let mut b2 = br.clone();
        let i1 = s.load(&mut b2, p.clone());
        let i2 = s.load(&mut b2, q.clone());
        obs_preds(s, &b2, i1, i2);
    }
}

// ------------------------------------------------------------------ integers
fn sint(n: &BigInt) -> Symbol<BigInt> {
    Symbol { data: n.clone() }
}
pub fn bezout(x: &BigInt, y: &BigInt) -> (BigInt, BigInt, BigInt) {
    // extended Euclid, independent of the code under test
    let (mut a, mut c) = (x.clone(), y.clone());
    let (mut s0, mut s1, mut t0, mut t1) = (BigInt::from(1), BigInt::from(0), BigInt::from(0), BigInt::from(1));
    while !c.is_zero() {
        let q = &a / &c;
        let r = &a - &q * &c;
        a = c;
        c = r;
        let s2 = &s0 - &q * &s1;
        s0 = s1;
        s1 = s2;
        let t2 = &t0 - &q * &t1;
        t0 = t1;
        t1 = t2;
    }
    if a.is_negative() {
        (-a, -s0, -t0)
    } else {
        (a, s0, t0)
    }
}

fn bigs(s: &mut Sess, br: &mut Br, r: Rng, i: u64) {
    if i % 3 == 2 {
        // expressions on integer literals
        let mut g = Gen::new(r, Mix { big: 60, neg: 35, ..GENERAL });
        for _ in 0..3 {
            let e = g.int();
            s.load(br, e);
        }
        for _ in 0..7 {
            let m = br.regs.len();
            let o = ["add", "sub", "mul", "div", "pow", "neg", "sum", "prod", "simplify", "log"][g.r.weighted(&[14, 14, 14, 14, 10, 6, 8, 8, 12, 4])];
            let a: Vec<usize> = match o {
                "neg" | "simplify" => vec![if g.r.chance(60) { m } else { 1 + g.r.below(m) }],
                "sum" | "prod" => {
                    let k = g.count(&[2, 3, 4, 5], 24);
                    (0..k).map(|_| 1 + g.r.below(m)).collect()
                }
                "pow" => {
                    let k = int(g.r.range(-3, 6));
                    let x = 1 + g.r.below(m);
                    let xi = s.load(br, k);
                    vec![x, xi]
                }
                _ => vec![1 + g.r.below(m), 1 + g.r.below(m)],
            };
            let mut b2 = br.clone();
            if let Some(e) = s.apply(&mut b2, o, &a, "") {
                if nodes(&e) <= 60 {
                    *br = b2;
                }
            }
            if br.regs.len() >= 12 {
                break;
            }
        }
        // like terms with big coefficients
        let p = s.run(|| {
            let x = g.var();
            let v: Vec<E> = (0..3).map(|_| g.int() * &x).collect();
            g.sum(v)
        });
        if let Ok(p) = p {
            let mut b2 = br.clone();
            let k = s.load(&mut b2, p);
            s.apply(&mut b2, "simplify", &[k], "");
        }
        return;
    }
    let mut g = Gen::new(r, Mix { big: 65, neg: 40, ..GENERAL });
    for _ in 0..3 {
        let x = g.integer();
        let y = match g.r.below(6) {
            0 => x.clone(),
            1 => -x.clone(),
            2 => &x * g.integer(),
            _ => g.integer(),
        };
        for o in INT_OBS {
            obs_int(s, br, o, &[], &x, &y);
        }
        let e = BigInt::from(if g.r.chance(85) { g.r.range(0, 12) } else { g.r.range(-5, 40) });
        obs_int(s, br, "ipow", &[], &x, &e);
        let k = g.bigint();
        obs_int(s, br, "ipow", &[], &BigInt::from(g.r.range(-1, 1)), &if g.r.chance(10) { -k } else { k });
    }
}
pub const INT_OBS: [&str; 6] = ["iadd", "isub", "imul", "idiv", "igcd", "imisc"];
fn obs_int(s: &mut Sess, br: &Br, o: &str, a: &[usize], x: &BigInt, y: &BigInt) {
    let (sx, sy) = (sint(x), sint(y));
    let w = |v: Vec<Symbol<BigInt>>| list(&v.iter().map(|n| wint(&n.data)).collect::<Vec<_>>());
    let xy = format!("\"x\":{},\"y\":{}", wint(x), wint(y));
    let obs = match o {
        "iadd" => s.run(|| w(vec![&sx + &sy, sx.clone() + sy.clone(), sx.clone() + &sy, &sx + sy.clone()])).map(|r| format!("{},\"rs\":{}", xy, r)),
        "isub" => s.run(|| w(vec![&sx - &sy, sx.clone() - sy.clone(), sx.clone() - &sy, &sx - sy.clone()])).map(|r| format!("{},\"rs\":{}", xy, r)),
        "imul" => s.run(|| w(vec![&sx * &sy, sx.clone() * sy.clone(), sx.clone() * &sy, &sx * sy.clone()])).map(|r| format!("{},\"rs\":{}", xy, r)),
        "idiv" => {
            if y.is_zero() {
                return;
            }
            s.run(|| {
                (
                    w(vec![&sx / &sy, sx.clone() / sy.clone(), sx.clone() / &sy, &sx / sy.clone()]),
                    w(vec![&sx % &sy, sx.clone() % sy.clone(), sx.clone() % &sy, &sx % sy.clone()]),
                )
            })
            .map(|(q, m)| format!("{},\"rs\":{},\"ms\":{}", xy, q, m))
        }
        "igcd" => {
            let (gg, u, v) = bezout(x, y);
            let (qx, qy) = if gg.is_zero() { (BigInt::from(0), BigInt::from(0)) } else { (x / &gg, y / &gg) };
            s.run(|| (Symbol::gcd(&sx, &sy), Symbol::lcm(&sx, &sy))).map(|(d, l)| {
                format!("{},\"rs\":[{}],\"l\":{},\"u\":{},\"v\":{},\"qx\":{},\"qy\":{}", xy, wint(&d.data), wint(&l.data), wint(&u), wint(&v), wint(&qx), wint(&qy))
            })
        }
        "ipow" => s.run(|| sx.pow(&sy)).map(|p| format!("{},\"rs\":[{}]", xy, match p { Some(p) => wint(&p.data), None => String::new() })),
        _ => s.run(|| {
            format!(
                "{},\"rs\":[{}],\"neg\":{},\"label\":{},\"eq\":{},\"cmp\":{},\"small\":{},\"same\":{}",
                xy,
                wint(&sx.opposite().data),
                b(sx.is_negative()),
                jstr(&sx.label()),
                b(sx == sy),
                ordn(sx.cmp(&sy)),
                // value(): Some exactly when it fits a machine word
                match sx.value() { Some(v) => if BigInt::from(v) == *x { 1 } else { 2 }, None => 0 },
                b(num::ToPrimitive::to_isize(x).is_some())
            )
        }),
    };
    s.observe(br, o, a, obs);
}

// ------------------------------------------------------------------ totality
fn total(s: &mut Sess, br: &mut Br, r: Rng, i: u64, xd: usize) {
    let mix = match i % 6 {
        0 => GENERAL,
        1 => Mix { big: 35, ..GENERAL },
        2 => Mix { real: 30, neg: 40, ..GENERAL },
        3 => Mix { real: 20, wild_real: true, big: 20, ..GENERAL },
        4 => Mix { logs: 16, sympow: 60, pows: 30, neg: 45, ..GENERAL },
        _ => Mix { real: 15, big: 15, sympow: 50, pows: 30, logs: 10, ..GENERAL },
    };
    let mut g = Gen::new(r, mix);
    for k in 0..4 {
        let shape = if k == 3 { 10 } else { g.r.below(10) };
        let x = loadgen(s, br, &mut g, |g| match shape {
            10 => g.sweep(i),
            0..=5 => busy(g, xd),
            6 => {
                // exponent products with literal factors
                let base = g.leaf();
                let mut v = vec![g.int(), g.var()];
                if g.r.chance(40) {
                    v.push(g.leaf());
                }
                let x = g.prod(v);
                if allowed("pow", &base, &x) { E::power(base, x) } else { base }
            }
            7 => {
                let a = g.leaf();
                let c = g.leaf();
                if g.r.chance(50) {
                    // powers that stay small however large the exponent is
                    let k = g.bigint();
                    let x = big(if g.r.chance(30) { -k } else { k });
                    let a = int(g.r.range(-1, 1));
                    return if allowed("pow", &a, &x) { E::power(a, x) } else { a };
                }
                safe_log(a, c)
            }
            8 => {
                // a tower, at times a high one of few kinds of floors
                let mut e = g.leaf();
                let few = g.r.chance(45);
                if few && g.r.chance(60) {
                    e = if g.r.chance(60) { g.sum2() * g.sum2() } else { g.expr(1) };
                }
                let (n, cap) = if few { (25 + g.r.below(60), 160) } else { (5 + g.r.below(20), 60) };
                let kinds: Vec<usize> = if few { (0..1 + g.r.below(2)).map(|_| g.r.below(9)).collect() } else { (0..9).collect() };
                for _ in 0..n {
                    let l = if few { g.var() } else { g.leaf() };
                    e = match *g.r.pick(&kinds) {
                        0 => e + l,
                        1 => e * l,
                        2 => if Gen::is_zero(&e) { e } else { l / e },
                        3 => if few { E::power(l, e) } else { safe_pow(l, e) },
                        4 => { let k = g.r.range(-2, 3); safe_pow(e, int(k)) }
                        5 => e - l,
                        6 => safe_log(e, l),
                        7 => safe_log(l, e),
                        _ => if g.r.chance(50) { sin(e) } else { cos(e) },
                    };
                    if nodes(&e) > cap {
                        break;
                    }
                }
                e
            }
            _ => {
                // wide
                if g.r.chance(30) {
                    return g.wide(100);
                }
                let n = 8 + g.r.below(20);
                let v: Vec<E> = (0..n).map(|_| g.leaf()).collect();
                if g.r.chance(50) { g.sum(v) } else { g.prod(v) }
            }
        });
        let x = match x {
            Some(x) => x,
            None => continue,
        };
        for o in ["expand", "simplify"] {
            let mut b2 = br.clone();
            s.apply(&mut b2, o, &[x], "");
        }
        let m = br.regs.len();
        let y = 1 + g.r.below(m);
        for _ in 0..2 {
            let o = *g.r.pick(&["add", "sub", "mul", "div", "pow", "log"]);
            let mut b2 = br.clone();
            s.apply(&mut b2, o, &[x, y], "");
        }
        let o = format!("rule.{}", g.r.pick(&RULES));
        let mut b2 = br.clone();
        s.apply(&mut b2, &o, &[x], "");
        ok_preds(s, br, x, y);
        ok_view(s, br, x, y);
    }
}
fn ok_preds(s: &mut Sess, br: &Br, i: usize, j: usize) {
    let (e, f) = (br.regs[i - 1].clone(), br.regs[j - 1].clone());
    if moderate(&e) && moderate(&f) && spread(&e) + spread(&f) < 120.0 {
        let obs = s.run(|| { seven(&e, &f); String::new() });
        s.observe(br, "ok.preds", &[i, j], obs);
    }
}
fn ok_view(s: &mut Sess, br: &Br, i: usize, j: usize) {
    let (e, f) = (br.regs[i - 1].clone(), br.regs[j - 1].clone());
    let obs = s.run(|| { let _ = (e.to_string(), hash(&e), e.cmp(&f), e == f, format!("{:?}", e).len()); String::new() });
    s.observe(br, "ok.view", &[i, j], obs);
}

// ------------------------------------------------------------------ determinism
fn determinism(s: &mut Sess, br: &mut Br, r: Rng, i: u64) {
    // the last third of the mixes stresses inexact float arithmetic, where order matters
    let mix = match i % 3 {
        0 => GENERAL,
        1 => Mix { real: 25, wild_real: true, ..GENERAL },
        _ => Mix { real: 45, wild_real: true, logs: 0, pows: 8, ..GENERAL },
    };
    let mut g = Gen::new(r, mix);
    let mut todo: Vec<(String, Vec<usize>)> = vec![];
    for k in 0..3 {
        let x = loadgen(s, br, &mut g, |g| {
            if k == 0 && g.r.chance(50) {
                g.sweep(i)
            } else if g.r.chance(40) {
                // many like terms with inexact coefficients
                let n = 3 + g.r.below(4);
                let mut v: Vec<E> = vec![];
                for _ in 0..n {
                    let l = g.real();
                    let k = int(g.r.range(1, 4));
                    v.push(&k * &l);
                    if g.r.chance(60) {
                        v.push(-l);
                    }
                    if g.r.chance(50) {
                        let x = g.var();
                        v.push(k * x);
                    }
                }
                g.sum(v)
            } else {
                busy(g, 0)
            }
        });
        let x2 = match x {
            Some(x) if g.r.chance(60) => {
                let e = br.regs[x - 1].clone();
                loadgen(s, br, &mut g, |g| twin(g, &e))
            }
            _ => None,
        };
        for x in x.into_iter().chain(x2) {
            todo.push(("simplify".into(), vec![x]));
            todo.push(("expand".into(), vec![x]));
            let o = format!("rule.{}", g.r.pick(&RULES));
            todo.push((o, vec![x]));
            let y = 1 + g.r.below(br.regs.len());
            todo.push((g.r.pick(&["add", "sub", "mul", "div", "pow", "log"]).to_string(), vec![x, y]));
        }
    }
    let mut got: Vec<Vec<Result<(String, String), String>>> = todo.iter().map(|_| vec![]).collect();
    // same operation, several times, at different points of the history
    for round in 0..4 {
        let mut idx: Vec<usize> = (0..todo.len()).collect();
        if round > 0 {
            g.r.shuffle(&mut idx);
        } else if s.cold {
            // another history than in the process of the other run
            idx.reverse();
        }
        for k in idx {
            if let Some(r) = once(s, br, &todo[k].0, &todo[k].1, round == 3) {
                got[k].push(r);
            }
        }
    }
    for (k, rs) in got.into_iter().enumerate() {
        report(s, br, &todo[k].0, &todo[k].1, rs);
    }
}
type Outcome = Result<(String, String), String>;
fn once(s: &mut Sess, br: &Br, o: &str, a: &[usize], apart: bool) -> Option<Outcome> {
    let x = br.regs[a[0] - 1].clone();
    let y = br.regs[a[a.len() - 1] - 1].clone();
    if a.len() == 2 && !allowed(o, &x, &y) || a.len() == 1 && !moderate(&x) {
        return None;
    }
    let two = a.len() == 2;
    let go = move |o: &str, x: E, y: E| {
        let e = match o {
            _ if two => bin(o, &x, &y),
            "expand" => x.expand(),
            "simplify" => x.simplify(),
            _ => rule(o.strip_prefix("rule.").unwrap(), &x),
        };
        (wire(&e), e.to_string())
    };
    if !apart {
        return Some(s.run(|| go(o, x, y)));
    }
    // in a thread that has computed nothing before
    let (o, wx, wy) = (o.to_string(), wire(&x), wire(&y));
    Some(s.run(|| {
        let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || go(&o, raw(&parse(&wx)), raw(&parse(&wy)))).unwrap();
        match h.join() {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    }))
}
/// how many different outcomes the repetitions of one operation had
fn report(s: &mut Sess, br: &Br, o: &str, a: &[usize], rs: Vec<Outcome>) {
    if rs.is_empty() {
        return;
    }
    let mut ws: Vec<String> = vec![];
    let mut ss: Vec<String> = vec![];
    let mut bads = 0;
    for r in rs.iter() {
        match r {
            Ok((w, t)) => {
                if !ws.contains(w) {
                    ws.push(w.clone());
                }
                if !ss.contains(t) {
                    ss.push(t.clone());
                }
            }
            Err(_) => bads += 1,
        }
    }
    if ws.is_empty() || ws.iter().any(|w| w.len() > 6000) {
        return;
    }
    let body = format!("\"op\":\"{}\",\"rs\":{},\"ns\":{},\"n\":{},\"bads\":{}", o, list(&ws), ss.len(), rs.len(), bads);
    s.observe(br, "det", a, Ok(body));
}
fn obs_det(s: &mut Sess, br: &Br, o: &str, a: &[usize]) {
    let mut rs = vec![];
    for k in 0..4 {
        if let Some(r) = once(s, br, o, a, k == 3) {
            rs.push(r);
        }
    }
    report(s, br, o, a, rs);
}

// ------------------------------------------------------------------ rules
fn rules(s: &mut Sess, br: &mut Br, r: Rng, i: u64, xd: usize) {
    let mut g = Gen::new(r, mixfor(i));
    if i % 97 == 41 {
        let o = *g.r.pick(&["rule.powsum", "rule.powsum", "rule.distribute"]);
        return high(s, br, &mut g, o, xd);
    }
    for k in 0..4 {
        let shape = if k == 3 { 9 } else { g.r.below(9) };
        let x = loadgen(s, br, &mut g, |g| match shape {
            9 => g.sweep(i),
            0..=3 => busy(g, xd),
            4 => {
                // x * a^(-2c) ... : denominators
                let n = 2 + g.r.below(3);
                let v: Vec<E> = (0..n)
                    .map(|_| {
                        let base = g.base(1);
                        let k = g.r.range(-4, 3);
                        let x = if g.r.chance(50) { int(k) } else { int(k) * g.var() };
                        let x = if g.r.chance(20) { x * g.var() } else { x };
                        if allowed("pow", &base, &x) { safe_pow(base, x) } else { base }
                    })
                    .collect();
                g.prod(v)
            }
            5 => {
                let n = g.count(&[2, 3, 4, 5], 24);
                let v: Vec<E> = (0..n).map(|_| g.ratconst(0)).collect();
                let y = g.expr(1);
                if g.r.chance(50) { g.sum(v) + y } else { g.prod(v) * y }
            }
            6 => {
                let n = 2 + g.r.below(2);
                let v: Vec<E> = (0..n).map(|_| g.leaf()).collect();
                let base = g.sum(v);
                let k = int(g.r.range(-4, 5));
                let x = if g.r.chance(50) { k } else { k * g.var() };
                safe_pow(base, x)
            }
            7 => {
                let n = 2 + g.r.below(2);
                let v: Vec<E> = (0..n).map(|_| g.base(1)).collect();
                let base = g.prod(v);
                let x = g.exponent(1);
                safe_pow(base, x)
            }
            _ => {
                let base = g.base(0);
                let y = g.base(1);
                let p = ncas::base::associative_operation::AssociativeOperation::new;
                // built as the rule's own tests build it: the node itself, unfolded
                let ok = |e: &E| !matches!(e, E::Integer(_) | E::Real(_));
                if ok(&base) && ok(&y) {
                    if g.r.chance(50) {
                        E::Power(p(base.clone(), E::Logarithm(p(y, base))))
                    } else {
                        E::Logarithm(p(E::Power(p(base.clone(), y)), base))
                    }
                } else {
                    y
                }
            }
        });
        if let Some(x) = x {
            for name in RULES.iter() {
                let mut b2 = br.clone();
                s.apply(&mut b2, &format!("rule.{}", name), &[x], "");
            }
        }
    }
}

// ------------------------------------------------------------------ rational numbers
fn parse_rat(t: &str) -> Option<(BigInt, BigInt)> {
    let p: Vec<&str> = t.split(" / ").collect();
    if p.len() != 2 {
        return None;
    }
    Some((p[0].parse().ok()?, p[1].parse().ok()?))
}
fn ratview(r: &Rational) -> String {
    let t = r.to_string();
    match parse_rat(&t) {
        Some((n, d)) => {
            let (g, u, v) = bezout(&n, &d);
            format!("[{},{},{},{},{},{}]", jstr(&t), wint(&n), wint(&d), wint(&u), wint(&v), wint(&g))
        }
        None => format!("[{},[\"I\",0],[\"I\",0],[\"I\",0],[\"I\",0],[\"I\",0]]", jstr(&t)),
    }
}
fn obs_rat(s: &mut Sess, br: &Br, o: &str, a: &[usize], x: &Rational, y: &Rational) -> Option<Rational> {
    let xy = format!("\"x\":{},\"y\":{}", ratview(x), ratview(y));
    match o {
        "qeq" => {
            let obs = s.run(|| format!("{},\"eq\":{},\"ne\":{}", xy, b(x == y), b(x != y)));
            s.observe(br, o, a, obs);
            None
        }
        "qexpr" => {
            let obs = s.run(|| {
                let e = x.clone().expr();
                let back = Rational::from_expression(e.clone());
                format!("{},\"e\":{},\"back\":{}", xy, wire(&e), match back { Some(z) => format!("[{},{}]", ratview(&z), b(z == *x)), None => "[]".into() })
            });
            s.observe(br, o, a, obs);
            None
        }
        _ => {
            let yz = parse_rat(&y.to_string()).map(|p| p.0.is_zero()).unwrap_or(true);
            if o == "qdiv" && yz {
                return None;
            }
            let obs = s.run(|| match o {
                "qadd" => x.clone() + y.clone(),
                "qsub" => x.clone() - y.clone(),
                "qmul" => x.clone() * y.clone(),
                _ => x.clone() / y.clone(),
            });
            match obs {
                Ok(z) => {
                    s.observe(br, o, a, Ok(format!("{},\"r\":{}", xy, ratview(&z))));
                    Some(z)
                }
                Err(why) => {
                    s.bad(br, o, a, &why);
                    None
                }
            }
        }
    }
}
fn rational(s: &mut Sess, br: &mut Br, r: Rng, i: u64) {
    let mut g = Gen::new(r, Mix { big: if i % 2 == 0 { 3 } else { 45 }, neg: 35, ..GENERAL });
    let mut vals: Vec<(Rational, BigInt, BigInt)> = vec![];
    for _ in 0..3 {
        let n = g.integer();
        let mut d = g.integer();
        if g.r.chance(30) {
            d = &n * g.integer();
        }
        if d.is_zero() {
            d = BigInt::from(g.r.range(1, 9));
        }
        let obs = s.run(|| Rational::from(sint(&n), sint(&d)));
        match obs {
            Ok(q) => {
                s.observe(br, "qfrom", &[], Ok(format!("\"x\":[{},{}],\"r\":{}", wint(&n), wint(&d), ratview(&q))));
                vals.push((q, n, d));
            }
            Err(why) => s.bad(br, "qfrom", &[], &why),
        }
    }
    for _ in 0..5 {
        if vals.is_empty() {
            return;
        }
        let k = g.r.below(vals.len());
        let l = g.r.below(vals.len());
        let (x, y) = (vals[k].0.clone(), vals[l].0.clone());
        let o = *g.r.pick(&["qadd", "qsub", "qmul", "qdiv", "qeq", "qexpr"]);
        if let Some(z) = obs_rat(s, br, o, &[], &x, &y) {
            let small = parse_rat(&z.to_string()).map(|p| p.0.bits() + p.1.bits() < 600).unwrap_or(false);
            if small && vals.len() < 8 {
                vals.push((z, BigInt::zero(), BigInt::zero()));
            }
        }
    }
    // conversion from constant expressions and refusal of others
    for _ in 0..2 {
        let c = s.run(|| match g.r.below(7) {
            0 => g.var(),
            1 => g.real(),
            2 => { let v = g.var(); v + g.int() }
            3 => { let v = g.var(); safe_pow(v, int(-1)) }
            4 => { let v = vec![g.ratconst(0), g.ratconst(0)]; g.prod(v) }
            _ => g.ratconst(0),
        });
        if let Ok(e) = c {
            let obs = s.run(|| match Rational::from_expression(e.clone()) {
                Some(z) => format!("\"e\":{},\"back\":[{},1]", wire(&e), ratview(&z)),
                None => format!("\"e\":{},\"back\":[]", wire(&e)),
            });
            s.observe(br, "qconv", &[], obs);
        }
    }
}

// ------------------------------------------------------------------ operand queries
fn queries(s: &mut Sess, br: &mut Br, r: Rng, i: u64) {
    let mut g = Gen::new(r, Mix { real: 25, neg: 30, big: 8, wild_real: i % 3 == 0, trig: 5, ..GENERAL });
    for _ in 0..2 {
        let n = g.count(&[0, 1, 2, 3, 4, 5, 6, 8, 10], 70);
        let src = s.run(|| {
            let mut v: Vec<E> = vec![];
            for _ in 0..n {
                let e = match g.r.below(10) {
                    0 => g.int(),
                    1 => g.real(),
                    2 => g.var(),
                    3 => { let d = g.nonzero(); safe_pow(d, int(-1)) }
                    4 => { let a = g.int(); let d = g.nonzero(); a / d }
                    5 => { let a = g.leaf(); let d = g.nonzero(); a / d }
                    6 => { let a = g.ratconst(0); let c = g.ratconst(0); a * c }
                    7 => { let v = g.var(); let k = g.exponent(0); safe_pow(v, k) }
                    8 if !v.is_empty() => { let w = v.clone(); g.r.pick(&w).clone() }
                    _ => g.expr(1),
                };
                if nodes(&e) <= 14 {
                    v.push(e);
                }
            }
            v
        });
        let src = match src {
            Ok(v) => v,
            Err(why) => {
                s.bad(br, "gen", &[], &why);
                continue;
            }
        };
        let viaexpr = g.r.chance(30);
        obs_query(s, br, &[], src, viaexpr);
    }
}

fn obs_query(s: &mut Sess, br: &Br, args: &[usize], src: Vec<E>, viaexpr: bool) {
        let obs = s.run(|| {
            let a = CommutativeAssociation::new(src.clone());
            let a = if viaexpr { a.clone() } else { a };
            let items = a.items();
            let is = |t: &'static str| move |e: &E| match (t, e) {
                ("I", E::Integer(_)) | ("R", E::Real(_)) | ("V", E::Variable(_)) | ("^", E::Power(_)) | ("+", E::Addition(_)) | ("*", E::Multiplication(_)) => true,
                _ => false,
            };
            let one = |t: &'static str| match a.get_one(&is(t)) { Some(e) => list(&[wire(&e)]), None => "[]".into() };
            format!(
                "\"src\":{},\"items\":{},\"cs\":{},\"reals\":{},\"nums\":{},\"dens\":{},\"rats\":{},\"nonrats\":{},\"syms\":{},\"gi\":{},\"gv\":{},\"gp\":{},\"gm\":{},\"all\":{},\"none\":{},\"oi\":{},\"ov\":{},\"op\":{},\"map\":{}",
                wires(&src),
                wires(&items),
                nums(&items.windows(2).map(|w| ordn(w[0].cmp(&w[1]))).collect::<Vec<_>>()),
                wires(&a.get_reals()),
                wires(&a.get_rational_numerators()),
                wires(&a.get_rational_denominators()),
                wires(&a.get_rationals()),
                wires(&a.get_non_rationals()),
                wires(&a.get_symbolics()),
                wires(&a.get(&is("I"))),
                wires(&a.get(&is("V"))),
                wires(&a.get(&is("^"))),
                wires(&a.get(&is("*"))),
                wires(&a.get(&|_| true)),
                wires(&a.get(&|_| false)),
                one("I"),
                one("V"),
                one("^"),
                wires(&a.map(&|x| sin(x.clone())))
            )
        });
    s.observe(br, "query", args, obs);
}

// ------------------------------------------------------------------ printed form
fn reals_of(e: &E, out: &mut Vec<f64>) {
    match e {
        E::Real(r) => out.push(r.data),
        E::Integer(_) | E::Variable(_) => {}
        E::Addition(a) | E::Multiplication(a) => a.items().iter().for_each(|x| reals_of(x, out)),
        E::Power(p) | E::Logarithm(p) => {
            reals_of(&p.argument(), out);
            reals_of(&p.modifier(), out)
        }
        E::Sine(o) | E::Cossine(o) => reals_of(&o.argument(), out),
    }
}
fn shows(s: &mut Sess, br: &mut Br, r: Rng, i: u64) {
    let mut g = Gen::new(r, Mix { real: 20, big: 10, trig: 8, logs: 10, wild_real: i % 2 == 0, ..GENERAL });
    for _ in 0..5 {
        let x = loadgen(s, br, &mut g, |g| match g.r.below(9) {
            8 => g.wide(70),
            0 => {
                let l = if g.r.chance(50) { odd_label(g) } else { *g.r.pick(&LABELS) };
                let mut l = l.to_string();
                for _ in 0..1 + g.r.below(3) {
                    l = relabel(g, &l);
                }
                let v = var(&l);
                match g.r.below(4) { 0 => v + g.leaf1(), 1 => v * g.leaf1(), 2 => safe_pow(g.leaf1(), v), _ => v }
            }
            1 => g.real(),
            2 => g.int(),
            3 => g.sweep(i),
            _ => {
                let d = 1 + g.r.below(3);
                let e = g.expr(d);
                if g.r.chance(15) { shake(g, &e) } else { e }
            }
        });
        if let Some(x) = x {
            obs_show(s, br, x);
        }
        if br.regs.len() >= 8 {
            break;
        }
    }
}

fn obs_show(s: &mut Sess, br: &Br, x: usize) {
    let e = br.regs[x - 1].clone();
    let mut rs = vec![];
    reals_of(&e, &mut rs);
    // the standard library's shortest round-trip form is the oracle for floats
    let tab: Vec<String> = rs.iter().map(|x| format!("[{},{},{}]", wreal(*x), jstr(&format!("{}", x)), b(x.is_sign_negative()))).collect();
    let obs = s.run(|| format!("\"s\":{},\"s2\":{},\"reals\":{}", jstr(&e.to_string()), jstr(&format!("{}", &e)), list(&tab)));
    s.observe(br, "show", &[x], obs);
}

// ------------------------------------------------------------------ like terms
fn collect(s: &mut Sess, br: &mut Br, r: Rng, i: u64, xd: usize) {
    let mut g = Gen::new(r, Mix { reuse: 45, ..mixfor(i % 5) });
    for k in 0..4 {
        if let Some(x) = loadgen(s, br, &mut g, |g| if k == 0 { g.sweep(i) } else { busy(g, xd) }) {
            let mut b2 = br.clone();
            s.apply(&mut b2, "simplify", &[x], "");
        }
    }
    // n copies, opposites, inverses
    let n = g.count(&[1, 2, 3, 4, 5, 6, 7], 40);
    let unit = s.run(|| match g.r.below(5) {
        0 => g.var(),
        1 => {
            let v = g.var();
            let k = *g.r.pick(&[2, 3, 4, -1, -2]);
            safe_pow(v, int(k))
        }
        2 => {
            let v = g.var();
            let w = g.var();
            safe_pow(v, w)
        }
        _ => {
            let n = 2 + g.r.below(2);
            let mut v = vec![];
            let mut used: Vec<E> = vec![];
            for _ in 0..n {
                let x = g.var();
                if used.contains(&x) {
                    continue;
                }
                used.push(x.clone());
                let k = *g.r.pick(&[1, 1, 2, 3, -1]);
                v.push(safe_pow(x, int(k)));
            }
            g.prod(v)
        }
    });
    if let Ok(u) = unit {
        let x = s.load(br, u.clone());
        obs_copies(s, br, x, n);
    }
    let m = br.regs.len();
    for k in 1..=m {
        obs_selfdiff(s, br, k);
    }
}

fn obs_copies(s: &mut Sess, br: &Br, x: usize, n: usize) {
    let u = br.regs[x - 1].clone();
    let obs = s.run(|| {
        let sum = E::addition((0..n).map(|_| u.clone()).collect()).simplify();
        let prod = E::multiplication((0..n).map(|_| u.clone()).collect()).simplify();
        let diff = (&u - &u).simplify();
        let quot = (&u / &u).simplify();
        format!("\"n\":{},\"sum\":{},\"prod\":{},\"diff\":{},\"quot\":{}", n, wire(&sum), wire(&prod), wire(&diff), wire(&quot))
    });
    s.observe(br, "copies", &[x], obs);
}

fn obs_selfdiff(s: &mut Sess, br: &Br, k: usize) {
    let e = br.regs[k - 1].clone();
    if moderate(&e) && spread(&e) < 60.0 && nodes(&e) < 60 {
        let obs = s.run(|| format!("\"diff\":{}", wire(&(&e - &e).simplify())));
        s.observe(br, "selfdiff", &[k], obs);
    }
}

// ------------------------------------------------------------------ floats
fn bits(x: f64) -> String {
    let v = x.to_bits();
    // every NaN is the same
    if x.is_nan() {
        return "[\"nan\"]".into();
    }
    format!("[{},{},{},{}]", v >> 48, (v >> 32) & 0xffff, (v >> 16) & 0xffff, v & 0xffff)
}
const FLOAT_OBS: [&str; 5] = ["fadd", "fsub", "fmul", "fdiv", "fcmp"];
fn obs_float(s: &mut Sess, br: &Br, o: &str, regs: &[usize], x: f64, y: f64) {
    let (a, c) = (Symbol::real(x), Symbol::real(y));
    let w = |v: Vec<Symbol<f64>>| list(&v.iter().map(|n| bits(n.data)).collect::<Vec<_>>());
    let hd = format!("\"x\":{},\"y\":{},\"wx\":{},\"wy\":{}", bits(x), bits(y), wreal(x), wreal(y));
    if o != "fcmp" {
        let obs = s.run(|| match o {
            "fadd" => w(vec![&a + &c, a.clone() + c.clone(), a.clone() + &c, &a + c.clone()]),
            "fsub" => w(vec![&a - &c, a.clone() - c.clone(), a.clone() - &c, &a - c.clone()]),
            "fmul" => w(vec![&a * &c, a.clone() * c.clone(), a.clone() * &c, &a * c.clone()]),
            _ => w(vec![&a / &c, a.clone() / c.clone(), a.clone() / &c, &a / c.clone()]),
        });
        let native = match o {
            "fadd" => x + y,
            "fsub" => x - y,
            "fmul" => x * y,
            _ => x / y,
        };
        s.observe(br, o, regs, obs.map(|r| format!("{},\"rs\":{},\"want\":{},\"wr\":{}", hd, r, bits(native), wreal(native))));
        return;
    }
    let obs = s.run(|| {
        format!(
            "{},\"eq\":{},\"lt\":{},\"gt\":{},\"le\":{},\"ge\":{},\"pc\":{},\"val\":{},\"want\":[{},{},{},{},{}]",
            hd,
            b(a == c),
            b(a < c),
            b(a > c),
            b(a <= c),
            b(a >= c),
            a.partial_cmp(&c).map(ordn).unwrap_or(2),
            bits(a.value().unwrap()),
            b(x == y),
            b(x < y),
            b(x > y),
            b(x <= y),
            b(x >= y)
        )
    });
    s.observe(br, "fcmp", regs, obs);
}
fn floats(s: &mut Sess, br: &mut Br, r: Rng, i: u64) {
    if i % 2 == 0 {
        let mut g = Gen::new(r, Mix { wild_real: true, neg: 40, ..GENERAL });
        for _ in 0..4 {
            let (x, y) = match g.r.below(3) {
                0 => (g.dyadic(), g.dyadic()),
                1 => {
                    // equal, opposite, or next to each other
                    let x = g.double();
                    let y = f64::from_bits(x.to_bits().wrapping_add(*g.r.pick(&[0, 0, 1, 2, u64::MAX])));
                    (x, if g.r.chance(50) { y } else { -y })
                }
                _ => (g.double(), g.double()),
            };
            for o in FLOAT_OBS {
                obs_float(s, br, o, &[], x, y);
            }
        }
        return;
    }
    // float literals in expressions
    let wild = i % 4 == 1;
    let mut g = Gen::new(r, Mix { wild_real: wild, real: 45, neg: 35, logs: 0, sympow: 10, trig: 0, ..GENERAL });
    let lit = |g: &mut Gen| {
        if wild {
            loop {
                let x = match g.r.below(3) {
                    0 => *g.r.pick(&[0.1, 0.2, 0.3, 0.7, 1.1, 2.2, 3.14159, 2.718281828, 1e10, 1.5e-7, 123456.789, 0.0, 1.0]),
                    _ => (g.r.range(-1000000, 1000000) as f64) / 1000.0,
                };
                if x.is_finite() {
                    return x;
                }
            }
        } else {
            g.dyadic()
        }
    };
    // literal folding against native arithmetic
    for _ in 0..4 {
        let (x, y) = (lit(&mut g), lit(&mut g));
        let (x, n) = if g.r.chance(30) {
            // long powers of floats near one
            let x = 1.0 + (g.r.range(-400, 400) as f64) / 2000.0;
            (x, *g.r.pick(&[11, 17, 33, 65, 130, 257, 401, 520, 777, 1000, 1025, 2047]) * *g.r.pick(&[1, 1, -1]))
        } else {
            (x, g.r.range(-6, 9))
        };
        let mut b2 = br.clone();
        let xi = s.load(&mut b2, real(x));
        let yi = s.load(&mut b2, real(y));
        let ni = s.load(&mut b2, int(n));
        for o in ["add", "sub", "mul", "div", "pow", "log"] {
            if !allowed(o, &real(x), &real(y)) || (o == "pow" && x < 0.0) {
                continue;
            }
            let native = match o {
                "add" => x + y,
                "sub" => x - y,
                "mul" => x * y,
                "div" => x / y,
                "pow" => x.powf(y),
                _ => x.ln() / y.ln(),
            };
            if !native.is_finite() {
                continue;
            }
            let mut b3 = b2.clone();
            s.apply(&mut b3, o, &[xi, yi], &format!(",\"want\":{}", wreal(native)));
        }
        if allowed("pow", &real(x), &int(n)) {
            let native = x.powf(n as f64);
            if native.is_finite() {
                let mut b3 = b2.clone();
                s.apply(&mut b3, "pow", &[xi, ni], &format!(",\"want\":{}", wreal(native)));
            }
        }
        if n > 0 {
            let native = (n as f64).powf(y);
            if native.is_finite() {
                let mut b3 = b2.clone();
                s.apply(&mut b3, "pow", &[ni, yi], &format!(",\"want\":{}", wreal(native)));
            }
        }
    }
    // one float of any size or precision among other operands
    for _ in 0..2 {
        let x = match g.r.below(6) {
            0 => 1.0 + *g.r.pick(&[f64::EPSILON, -f64::EPSILON / 2.0, 3.0 * f64::EPSILON, 1e-12, -1e-9, 1e-6]),
            1 => f64::from_bits(1 + g.r.next() % (1 << (1 + g.r.below(52)))),
            2 => 2f64.powi(g.r.range(-1022, 1023) as i32) * (1.0 + g.r.below(8) as f64 / 8.0),
            3 => 1.0 / g.r.range(2, 99) as f64,
            4 => g.r.range(-99, 99) as f64 + *g.r.pick(&[1e-15, 1e-12, 1e-9, 1e-7, -1e-10]),
            _ => g.double(),
        };
        if !x.is_finite() {
            continue;
        }
        let x = if g.r.chance(35) { -x } else { x };
        let mut b2 = br.clone();
        let mut a = vec![s.load(&mut b2, real(x))];
        let plain = Gen { mix: Mix { real: 0, ..g.mix.clone() }, r: Rng::new(g.r.next(), 1, 2), vars: g.vars.clone(), pool: vec![] };
        let mut h = plain;
        for _ in 0..1 + g.r.below(3) {
            let d = g.r.below(2);
            if let Some(y) = loadgen(s, &mut b2, &mut h, |g| if d == 0 { g.leaf1() } else { g.expr(1) }) {
                a.push(y);
            }
        }
        g.r.shuffle(&mut a);
        for o in ["sum", "prod", "add", "mul"] {
            let a = if a.len() > 2 && (o == "add" || o == "mul") { vec![1 + br.regs.len(), *a.iter().find(|k| **k != 1 + br.regs.len()).unwrap()] } else { a.clone() };
            if a.len() == 2 || o == "sum" || o == "prod" {
                s.apply(&mut b2.clone(), o, &a, "");
            }
        }
    }
    // float literals among symbolic operands
    let k = 2 + g.r.below(3);
    for _ in 0..k {
        let d = g.r.below(2);
        loadgen(s, br, &mut g, |g| if g.r.chance(50) { g.real() } else { g.expr(d) });
    }
    for _ in 0..5 {
        let m = br.regs.len();
        if m == 0 {
            return;
        }
        let o = *g.r.pick(&["add", "sub", "mul", "div", "neg", "sum", "prod"]);
        let p = |g: &mut Gen| 1 + g.r.below(m);
        let a = match o {
            "neg" => vec![p(&mut g)],
            "sum" | "prod" => { let k = g.count(&[2, 3, 4, 5], 20); (0..k).map(|_| p(&mut g)).collect() }
            _ => vec![p(&mut g), p(&mut g)],
        };
        let mut b2 = br.clone();
        if let Some(e) = s.apply(&mut b2, o, &a, "") {
            if nodes(&e) <= 40 {
                *br = b2;
            }
        }
    }
}
