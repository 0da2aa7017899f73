//! Seeded generation of literals and expressions.
use crate::wire::*;
use num::bigint::BigInt;
use num::pow::pow as npow;

pub struct Rng(u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Rng {
        let mut r = Rng(a ^ b.wrapping_mul(0x9E3779B97F4A7C15) ^ c.wrapping_mul(0xD1B54A32D192ED03));
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// index by weights
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let t: usize = ws.iter().sum();
        let mut k = self.below(t);
        for (i, w) in ws.iter().enumerate() {
            if k < *w {
                return i;
            }
            k -= w;
        }
        ws.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// Labels with values in spec/Sem.tla; keep both lists in step.
pub const LABELS: [&str; 16] = [
    "a", "b", "c", "d", "x", "y", "z", "x1", "x2", "xy", "ab", "A", "B", "theta", "n", "k",
];
pub const ODD_LABELS: [&str; 10] = ["", "pow", "a b", "(a + b)", "1", "log", "aa", "aB", "(a * b)", "pow(x, 2)"];

/// Literals found in the library's sources: the values its own case distinctions may turn on.
/// They steer the generation of inputs and nothing else.
pub struct Dict {
    pub ints: Vec<BigInt>,
    pub floats: Vec<f64>,
    pub labels: Vec<String>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { ints: vec![], floats: vec![], labels: vec![] };
        let t = std::env::var("NCAS_DICT").unwrap_or_default();
        if t.is_empty() {
            return d;
        }
        let j = parse(&t);
        let part = |k: usize| j.arr()[k].arr().iter().map(|x| x.str().to_string()).collect::<Vec<_>>();
        d.ints = part(0).iter().filter_map(|x| x.parse().ok()).collect();
        d.floats = part(1).iter().filter_map(|x| x.parse().ok()).filter(|x: &f64| x.is_finite()).collect();
        d.labels = part(2);
        d
    })
}

#[derive(Clone, Debug)]
pub struct Mix {
    pub big: usize,      // per cent of integer literals beyond small
    pub real: usize,     // per cent of leaves that are floats
    pub neg: usize,      // per cent of negative literals
    pub trig: usize,     // per cent of inner nodes sine/cosine
    pub logs: usize,     // weight of logarithm nodes
    pub pows: usize,     // weight of power nodes
    pub divs: usize,     // weight of divisions
    pub sympow: usize,   // per cent of powers with a non-literal exponent
    pub reuse: usize,    // per cent of leaves replaced by an earlier subexpression
    pub wild_real: bool, // arbitrary doubles rather than small dyadics
}
pub const GENERAL: Mix = Mix { big: 4, real: 0, neg: 25, trig: 2, logs: 5, pows: 18, divs: 10, sympow: 30, reuse: 30, wild_real: false };
pub const WITHREAL: Mix = Mix { real: 12, ..GENERAL };

pub struct Gen {
    pub r: Rng,
    pub vars: Vec<&'static str>,
    pub pool: Vec<E>,
    pub mix: Mix,
}

pub fn interesting_bigs() -> Vec<BigInt> {
    let two = BigInt::from(2);
    let mut v: Vec<BigInt> = vec![];
    for k in [15usize, 16, 30, 31, 32, 52, 53, 62, 63, 64, 65, 96, 127, 128] {
        for d in [-1i64, 0, 1] {
            v.push(npow(two.clone(), k) + BigInt::from(d));
        }
    }
    for k in [9usize, 10, 12, 18, 19, 20, 30, 40] {
        v.push(npow(BigInt::from(10), k));
    }
    v.push(npow(BigInt::from(3), 41));
    v.push(npow(BigInt::from(6), 30));
    v.push(npow(BigInt::from(10), 25) + 7);
    v
}

impl Gen {
    pub fn new(mut r: Rng, mix: Mix) -> Gen {
        let n = 1 + r.weighted(&[15, 33, 28, 16, 3, 3, 2]);
        let span = if r.chance(70) && n <= 5 { 5 } else { LABELS.len() };
        let odd = r.chance(7);
        let mut vars = vec![];
        while vars.len() < n {
            let l = if odd && r.chance(50) { ODD_LABELS[r.below(ODD_LABELS.len())] } else { LABELS[r.below(span)] };
            if !vars.contains(&l) {
                vars.push(l);
            }
        }
        Gen { r, vars, pool: vec![], mix }
    }

    pub fn var(&mut self) -> E {
        let v = self.vars.clone();
        var(self.r.pick(&v))
    }

    /// an integer of the dictionary or next to one
    fn known(&mut self, near: bool) -> Option<BigInt> {
        let d = &dict().ints;
        if d.is_empty() {
            return None;
        }
        let n = self.r.pick(d).clone();
        Some(if near { n + BigInt::from(*self.r.pick(&[0i64, 0, 1, -1])) } else { n })
    }

    /// how many operands: mostly one of `usual`, at times many more, at most `cap`
    pub fn count(&mut self, usual: &[usize], cap: usize) -> usize {
        let k = match self.r.below(100) {
            0..=6 => *self.r.pick(&[9, 10, 12, 13, 16, 17, 20, 24, 31, 32, 33, 40, 50, 64, 65, 70, 100]),
            7..=13 => self.known(true).and_then(|n| num::ToPrimitive::to_usize(&n)).unwrap_or(usize::MAX),
            _ => usize::MAX,
        };
        if k <= cap {
            k
        } else {
            *self.r.pick(usual)
        }
    }

    /// many small operands
    pub fn wide(&mut self, cap: usize) -> E {
        let n = self.count(&[8, 9, 11, 12, 15, 18, 22, 33], cap);
        let same = self.r.chance(25);
        let first = self.leaf1();
        let v: Vec<E> = (0..n)
            .map(|_| {
                if same && self.r.chance(70) {
                    return first.clone();
                }
                self.leaf1()
            })
            .collect();
        if self.r.chance(50) { self.sum(v) } else { self.prod(v) }
    }
    pub fn leaf1(&mut self) -> E {
        match self.r.below(8) {
            0 | 1 => self.var(),
            2 => {
                let k = self.int();
                let x = self.var();
                k * x
            }
            3 => {
                let x = self.var();
                let k = self.r.range(-3, 5);
                safe_pow(x, int(k))
            }
            4 => self.int(),
            5 => {
                let k = self.nonzero();
                let x = self.var();
                if self.r.chance(50) { x / k } else { int(1) / k }
            }
            6 if self.mix.real > 0 => self.real(),
            6 => {
                let x = self.var();
                let y = self.var();
                x * y
            }
            _ => {
                let x = self.var();
                -x
            }
        }
    }

    pub fn small(&mut self) -> i64 {
        if self.r.chance(5) {
            if let Some(n) = self.known(true).and_then(|n| num::ToPrimitive::to_i64(&n)) {
                if n > 0 && n < 1 << 20 {
                    return n;
                }
            }
        }
        match self.r.weighted(&[40, 35, 15, 10]) {
            0 => self.r.range(1, 4),
            1 => self.r.range(0, 10),
            2 => self.r.range(5, 30),
            _ => *self.r.pick(&[1, 12, 16, 27, 36, 64, 81, 97, 100, 125, 128, 1000, 1024, 4096, 10007]),
        }
    }

    pub fn bigint(&mut self) -> BigInt {
        if self.r.chance(12) {
            if let Some(n) = self.known(true) {
                return n;
            }
        }
        let n = match self.r.below(3) {
            0 => {
                let v = interesting_bigs();
                self.r.pick(&v).clone()
            }
            1 => {
                let k = 1 + self.r.below(5);
                let mut n = BigInt::from(0);
                for _ in 0..k {
                    n = n * BigInt::from(1u64 << 32) + BigInt::from(self.r.next() >> 32);
                }
                n
            }
            _ => BigInt::from(self.r.next() >> (self.r.below(50))),
        };
        n
    }

    pub fn integer(&mut self) -> BigInt {
        let n = if self.mix.big > 0 && self.r.chance(self.mix.big) { self.bigint() } else { BigInt::from(self.small()) };
        if self.mix.neg > 0 && self.r.chance(self.mix.neg) {
            -n
        } else {
            n
        }
    }

    pub fn int(&mut self) -> E {
        big(self.integer())
    }

    pub fn dyadic(&mut self) -> f64 {
        if self.r.chance(4) && !dict().floats.is_empty() {
            let x = *self.r.pick(&dict().floats);
            if (x * 1024.0).fract() == 0.0 && x.abs() < 1e6 {
                return if self.r.chance(20) { -x } else { x };
            }
        }
        let x = match self.r.below(10) {
            0 => *self.r.pick(&[0.0, 1.0, 2.0, 0.5, 4.0, 0.25, 8.0, 3.0, 16.0]),
            1..=4 => self.r.range(0, 12) as f64 / 2.0,
            5..=6 => self.r.range(0, 8) as f64,
            _ => self.r.range(0, 40) as f64 / 8.0,
        };
        if self.mix.neg > 0 && self.r.chance(self.mix.neg) {
            -x
        } else {
            x
        }
    }

    pub fn double(&mut self) -> f64 {
        if self.r.chance(6) && !dict().floats.is_empty() {
            let x = *self.r.pick(&dict().floats);
            return match self.r.below(5) {
                0 => -x,
                1 => f64::from_bits(x.to_bits().wrapping_add(1)),
                2 => f64::from_bits(x.to_bits().wrapping_sub(1)),
                _ => x,
            };
        }
        match self.r.below(9) {
            0 => f64::from_bits(self.r.next()),
            1 => *self.r.pick(&[
                0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::INFINITY,
                f64::NEG_INFINITY, f64::EPSILON, 1.0 + f64::EPSILON, 9007199254740993.0, 1e22, 1e23, 1e-5, 1e16, 1e300, 1e-300,
            ]),
            2 => *self.r.pick(&[0.1, 0.2, 0.3, 0.7, 1.1, 2.2, 3.14159, 2.718281828, 1e10, 1.5e-7, 123456.789]),
            3..=4 => self.dyadic(),
            5 => self.r.range(-1000, 1000) as f64,
            _ => (self.r.range(-1000000, 1000000) as f64) / 1000.0,
        }
    }

    pub fn real(&mut self) -> E {
        if self.mix.wild_real {
            loop {
                let x = self.double();
                if x.is_finite() {
                    return real(x);
                }
            }
        } else {
            real(self.dyadic())
        }
    }

    pub fn leaf(&mut self) -> E {
        if !self.pool.is_empty() && self.r.chance(self.mix.reuse) {
            let p = self.pool.clone();
            let e = self.r.pick(&p).clone();
            if nodes(&e) <= 25 {
                return e;
            }
        }
        if self.mix.real > 0 && self.r.chance(self.mix.real) {
            self.real()
        } else if self.r.chance(58) {
            self.var()
        } else {
            self.int()
        }
    }

    fn many(&mut self, depth: usize, lo: usize, hi: usize) -> Vec<E> {
        let n = if depth == 0 && self.r.chance(6) { self.count(&[5, 6, 7, 8], 20) } else { lo + self.r.below(hi - lo + 1) };
        let mut v: Vec<E> = vec![];
        for _ in 0..n {
            if !v.is_empty() && self.r.chance(12) {
                let w = v.clone();
                let x = self.r.pick(&w).clone();
                v.push(if self.r.chance(50) { x } else { -x });
            } else {
                let d = if self.r.chance(55) { depth.saturating_sub(1) } else { 0 };
                v.push(self.expr(d));
            }
        }
        v
    }

    pub fn is_zero(e: &E) -> bool {
        match e {
            E::Integer(n) => n.data == BigInt::from(0),
            E::Real(r) => r.data == 0.0,
            _ => false,
        }
    }

    /// exponent worth raising something to
    pub fn exponent(&mut self, depth: usize) -> E {
        if self.mix.big > 0 && self.r.chance(1 + self.mix.big / 6) {
            let k = self.bigint();
            return big(if self.r.chance(30) { -k } else { k });
        }
        if self.r.chance(self.mix.sympow) {
            match self.r.below(6) {
                0 => self.var(),
                1 => {
                    let n = self.r.range(-4, 5);
                    int(n) * self.var()
                }
                2 => {
                    let v = self.var();
                    v + int(self.r.range(-3, 3))
                }
                3 => int(self.r.range(1, 3)) / int(self.r.range(2, 4)),
                4 if self.mix.real > 0 => real(*self.r.pick(&[0.5, 2.0, 1.0, 1.5, -0.5, 3.0, 0.0, -1.0, -2.0])),
                _ => self.expr(depth.min(1)),
            }
        } else {
            if self.r.chance(4) {
                if let Some(k) = self.known(true).and_then(|n| num::ToPrimitive::to_i64(&n)) {
                    if k <= 40 {
                        return int(if self.r.chance(25) { -k } else { k });
                    }
                }
            }
            let k = *self.r.pick(&[-4, -3, -2, -2, -1, -1, -1, 0, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7]);
            int(k)
        }
    }

    /// a base whose powers obey the power laws more often than not
    pub fn base(&mut self, depth: usize) -> E {
        match self.r.below(8) {
            0..=2 => self.var(),
            3 => int(self.r.range(2, 9)),
            4 => self.var() * int(self.r.range(2, 9)),
            5 => self.var() * self.var(),
            _ => self.expr(depth),
        }
    }

    pub fn expr(&mut self, depth: usize) -> E {
        if depth == 0 {
            return self.leaf();
        }
        let m = self.mix.clone();
        let d = depth - 1;
        let e = match self.r.weighted(&[24, 24, m.pows, m.divs, m.logs, 8, 5, m.trig, 5]) {
            0 => {
                let v = self.many(d, 2, 4);
                self.sum(v)
            }
            1 => {
                let v = self.many(d, 2, 4);
                self.prod(v)
            }
            2 => {
                let b = self.base(d);
                let x = self.exponent(d);
                return self.keep(safe_pow(b, x));
            }
            3 => {
                let a = self.expr(d);
                let mut b = self.expr(d);
                if Self::is_zero(&b) {
                    b = int(self.r.range(1, 9));
                }
                a / b
            }
            4 => {
                // logarithms that often have a rational value under the assignments
                let a = match self.r.below(5) {
                    0 => self.var(),
                    1 => {
                        let v = self.var();
                        let k = self.exponent(0);
                        safe_pow(v, k)
                    }
                    2 => int(*self.r.pick(&[1, 2, 4, 8, 9, 16, 27, 64, 81, 100, 125, 1024])),
                    3 => self.var() * self.var(),
                    _ => self.expr(d),
                };
                let b = match self.r.below(5) {
                    0 => int(*self.r.pick(&[2, 2, 3, 4, 8, 10, 16])),
                    1 => self.expr(d),
                    _ => self.var(),
                };
                safe_log(a, b)
            }
            5 => self.expr(d) - self.expr(d),
            6 => -self.expr(d),
            7 => {
                let a = self.expr(d);
                if self.r.chance(50) {
                    sin(a)
                } else {
                    cos(a)
                }
            }
            _ => self.leaf(),
        };
        self.keep(e)
    }

    pub fn keep(&mut self, e: E) -> E {
        if nodes(&e) > 60 {
            return self.leaf();
        }
        if nodes(&e) > 1 && nodes(&e) <= 20 {
            if self.pool.len() < 8 {
                self.pool.push(e.clone());
            } else {
                let i = self.r.below(8);
                self.pool[i] = e.clone();
            }
        }
        e
    }

    pub fn sum(&mut self, mut v: Vec<E>) -> E {
        if self.r.chance(60) {
            E::addition(v)
        } else {
            let mut acc = v.pop().unwrap();
            for x in v {
                acc = if self.r.chance(50) { acc + x } else { x + acc };
            }
            acc
        }
    }
    pub fn prod(&mut self, mut v: Vec<E>) -> E {
        if self.r.chance(60) {
            E::multiplication(v)
        } else {
            let mut acc = v.pop().unwrap();
            for x in v {
                acc = if self.r.chance(50) { acc * x } else { x * acc };
            }
            acc
        }
    }

    // ------------------------------------------------------------- shapes
    /// sums to powers, or many sums, whose expansion has hundreds of terms
    pub fn highpow(&mut self, cap: usize) -> E {
        let atom = |g: &mut Gen| match g.r.below(4) {
            0 => int(*g.r.pick(&[1, 1, 2, -1, 3])),
            1 => g.leaf1(),
            _ => g.var(),
        };
        let sum = |g: &mut Gen, n: usize| {
            let v: Vec<E> = (0..n).map(|_| atom(g)).collect();
            g.sum(v)
        };
        let e = match self.r.below(6) {
            0..=2 => {
                let x = self.var();
                let y = atom(self);
                let k = cap - *self.r.pick(&[0, 0, 1, 2]);
                let k = if self.r.chance(20) { -(k as i64) } else { k as i64 };
                safe_pow(if self.r.chance(50) { x + y } else { x - y }, int(k))
            }
            3 => {
                let b = sum(self, 3);
                let k = (cap as f64 / 1.6) as i64;
                safe_pow(b, int(k - self.r.range(0, 1)))
            }
            4 => {
                let n = cap - self.r.below(3);
                let v: Vec<E> = (0..n).map(|_| sum(self, 2)).collect();
                self.prod(v)
            }
            _ => {
                let b = sum(self, 2);
                let c = sum(self, 2);
                let k = self.r.range(2, cap as i64 - 2);
                safe_pow(b, int(k)) * safe_pow(c, int(cap as i64 - k))
            }
        };
        match self.r.below(6) {
            0 => e * self.leaf1(),
            1 => e + self.leaf1(),
            2 => {
                let k = self.int();
                k * e
            }
            _ => e,
        }
    }

    /// a product of powers of many different variables, some of them more than once
    pub fn powers(&mut self) -> E {
        let n = self.count(&[3, 5, 6, 7, 8, 9, 12], 16);
        let mut ls: Vec<&str> = LABELS.to_vec();
        for i in (1..ls.len()).rev() {
            let j = self.r.below(i + 1);
            ls.swap(i, j);
        }
        let ls: Vec<&str> = ls[..n].to_vec();
        let expo = |g: &mut Gen| -> E {
            let v = g.var();
            match g.r.below(9) {
                0 | 1 => int(*g.r.pick(&[2, 3, -1, -2, 4, 5])),
                2 | 3 => v,
                4 => -v,
                5 => int(g.r.range(2, 5)) * v,
                6 => v + int(*g.r.pick(&[1, -1, 2])),
                7 => v.clone() * g.var(),
                _ => int(*g.r.pick(&[1, -1, 2, 3])) / int(*g.r.pick(&[2, 3])),
            }
        };
        let mut v: Vec<E> = vec![];
        for l in ls.iter() {
            let x = expo(self);
            v.push(if self.r.chance(25) { var(l) } else { E::power(var(l), x) });
        }
        for _ in 0..1 + self.r.below(4) {
            let l = *self.r.pick(&ls);
            let x = expo(self);
            v.push(if self.r.chance(25) { var(l) } else { E::power(var(l), x) });
        }
        if self.r.chance(30) {
            v.push(self.int());
        }
        if self.r.chance(20) {
            let d = self.nonzero();
            v.push(int(1) / d);
        }
        self.r.shuffle(&mut v);
        self.prod(v)
    }

    /// sums of monomials with symbolic parts, many like ones among them
    pub fn likes(&mut self) -> E {
        let n = self.count(&[3, 5, 6, 7, 8, 9, 12], 24);
        let m = 2 + self.r.below(n.max(3) - 1);
        let keys: Vec<E> = (0..m)
            .map(|_| {
                let a = self.base(0);
                let b = self.var();
                match self.r.below(7) {
                    0 => a,
                    1 => a * b,
                    2 => safe_pow(b, a),
                    3 => safe_log(a, b),
                    4 => safe_pow(a + b, int(self.r.range(-2, -1))),
                    5 => int(1) / (b * self.var()),
                    _ => safe_pow(b, int(self.r.range(2, 4))) * self.var(),
                }
            })
            .collect();
        let v: Vec<E> = (0..n)
            .map(|_| {
                let k = self.r.pick(&keys).clone();
                match self.r.below(5) {
                    0 => k,
                    1 => -k,
                    2 => k * self.int(),
                    3 => k / self.nonzero(),
                    _ => self.int() * k * self.int(),
                }
            })
            .collect();
        self.sum(v)
    }

    /// every kind of node under every kind of node, with all kinds equally likely
    pub fn atlas(&mut self, d: usize) -> E {
        let k = if d == 0 { self.r.below(8) } else { self.r.below(18) };
        let e = match k {
            0 => int(*self.r.pick(&[-1, 2, 3, -2, 1, 6, 0])),
            1 => self.int(),
            2 => self.int() / self.nonzero(),
            3 => int(1) / self.nonzero(),
            4 if self.mix.real > 0 => self.real(),
            5 => -self.var(),
            4 | 6 | 7 => self.var(),
            8..=10 => {
                let n = *self.r.pick(&[2, 2, 3, 3, 4, 5, 6]);
                let v: Vec<E> = (0..n).map(|_| self.atlas((d - 1).min(if n > 3 { 1 } else { 9 }))).collect();
                self.sum(v)
            }
            11..=13 => {
                let n = *self.r.pick(&[2, 2, 3, 3, 4, 5, 6]);
                let v: Vec<E> = (0..n).map(|_| self.atlas((d - 1).min(if n > 3 { 1 } else { 9 }))).collect();
                self.prod(v)
            }
            14 | 15 => {
                let b = self.atlas(d - 1);
                let x = self.atlas_exp(d - 1);
                if Self::is_zero(&b) { b } else { safe_pow(b, x) }
            }
            16 => {
                let a = self.atlas(d - 1);
                let b = self.atlas(d - 1);
                safe_log(a, b)
            }
            _ => {
                let a = self.atlas(d - 1);
                let b = self.atlas(d - 1);
                match self.r.below(8) {
                    0 => sin(a),
                    1 => cos(a),
                    2 | 3 => a - b,
                    _ => if Self::is_zero(&b) { a } else { a / b },
                }
            }
        };
        if nodes(&e) > 60 { self.leaf() } else { e }
    }
    /// logarithms and powers of powers
    pub fn tower(&mut self) -> E {
        let pw = |g: &mut Gen| {
            let b = if g.r.chance(60) { g.var() } else { g.base(1) };
            let x = g.atlas_exp(1);
            if Self::is_zero(&b) { b } else { safe_pow(b, x) }
        };
        let a = if self.r.chance(60) { pw(self) } else { self.atlas(1) };
        let b = if self.r.chance(60) { pw(self) } else { self.base(0) };
        let e = match self.r.below(4) {
            0 | 1 => safe_log(a, b),
            2 => {
                let l = safe_log(a, b.clone());
                safe_pow(b, l)
            }
            _ => if Self::is_zero(&a) { a } else { safe_pow(a, b) },
        };
        match self.r.below(4) {
            0 => {
                let y = self.atlas(1);
                e * y
            }
            1 => {
                let y = self.atlas(1);
                e + y
            }
            _ => e,
        }
    }
    fn atlas_exp(&mut self, d: usize) -> E {
        let v = self.var();
        match self.r.below(12) {
            0 => int(-1),
            1 => int(self.r.range(-4, 5)),
            2 => v,
            3 => -v,
            4 => self.int() * v,
            5 => v + int(self.r.range(-2, 2)),
            6 => v * self.var(),
            7 => v / self.nonzero(),
            8 => int(self.r.range(-3, 3)) / int(self.r.range(2, 4)),
            9 => int(1) / v,
            10 if self.mix.real > 0 => self.real(),
            _ => self.atlas(d),
        }
    }

    // ------------------------------------------------------------- sweep
    /// every kind of operand in every context, in turn
    pub const KINDS: usize = 47;
    pub const CONTEXTS: usize = 34;
    pub fn sweep(&mut self, n: u64) -> E {
        let all = (Self::KINDS * Self::CONTEXTS) as u64;
        // a stride prime to the number of combinations reaches all of them
        let at = ((n % all) * 601 % all) as usize;
        let (k, c) = (at / Self::CONTEXTS, at % Self::CONTEXTS);
        let e = self.kind(k);
        if nodes(&e) > 40 {
            return e;
        }
        self.context(c, e)
    }
    pub fn sum2(&mut self) -> E {
        let x = self.var();
        match self.r.below(7) {
            0 => x + self.nonzero(),
            1 => x - self.var(),
            2 => self.nonzero() * x + self.var(),
            3 => safe_pow(x, int(2)) + self.var(),
            4 => x + self.var() + self.var(),
            5 => self.var() * x + self.nonzero(),
            _ => x + self.var(),
        }
    }
    fn prod2(&mut self) -> E {
        let x = self.var();
        match self.r.below(5) {
            0 => self.nonzero() * x,
            1 => safe_pow(x, int(2)) * self.var(),
            2 => self.nonzero() * x * self.var(),
            3 => x * self.var() * self.var(),
            _ => x * self.var(),
        }
    }
    fn k(&mut self) -> E {
        let n = *self.r.pick(&[2, 3, 4, 5, 6, 7, 8, 12]);
        int(if self.r.chance(35) { -n } else { n })
    }
    fn fl(&mut self) -> E {
        let x = *self.r.pick(&[0.5, 2.0, 1.5, 4.0, 0.25, 3.0, 2.5, 0.75, 8.0, 1.0, 0.0]);
        real(if self.r.chance(35) { -x } else { x })
    }
    fn posfl(&mut self) -> E {
        real(*self.r.pick(&[0.5, 2.0, 1.5, 4.0, 0.25, 3.0, 0.75, 8.0, 16.0]))
    }
    pub fn kind(&mut self, k: usize) -> E {
        let v = self.var();
        let w = self.var();
        match k {
            0 => self.sum2(),
            1 => v * self.sum2(),
            2 => self.sum2() * self.sum2(),
            3 => { let n = int(self.r.range(2, 4)); let b = self.sum2(); safe_pow(b, n) }
            4 => { let n = int(self.r.range(-4, -1)); let b = self.sum2(); safe_pow(b, n) }
            5 => { let c = self.k(); let b = self.sum2(); safe_pow(b, c * v) }
            6 => { let c = self.k(); let b = self.sum2(); safe_pow(b, c * v * w) }
            7 => { let b = self.sum2(); safe_pow(b, v) }
            8 => { let b = self.prod2(); safe_pow(b, v) }
            9 => { let c = self.k(); let b = self.prod2(); safe_pow(b, c) }
            10 => { let (a, c) = (self.k(), self.k()); let b = safe_pow(v, a) * safe_pow(w, c); let n = self.k(); safe_pow(b, n) }
            11 => { let x = self.fl(); safe_pow(v, x) }
            12 => { let c = self.k(); safe_pow(v.clone(), c * w) }
            13 => int(*self.r.pick(&[2, 3, 4, 6, 10])).pow(v),
            14 => { let c = self.k(); int(*self.r.pick(&[2, 3, 4, 6, 10])).pow(c * v) }
            15 => { let x = self.posfl(); safe_pow(x, v) }
            16 => {
                // a base and its reciprocal
                let x = *self.r.pick(&[0.5, 2.0, 4.0, 0.25, 8.0]);
                safe_pow(real(x), v) * safe_pow(real(1.0 / x), w)
            }
            17 => safe_log(v, w),
            18 => { let (a, b) = (self.prod2(), self.sum2()); safe_log(a, b) }
            19 => { let (a, b) = (self.sum2(), self.prod2()); safe_log(a, b) }
            20 => { let (a, b) = (self.sum2(), self.sum2()); let x = self.var(); safe_log(a, x * b) }
            21 => { let (a, c) = (self.k(), self.k()); safe_log(safe_pow(v.clone(), a), safe_pow(if self.r.chance(60) { v } else { w }, c)) }
            22 => { let x = self.int(); let d = self.nonzero(); x / d }
            23 => { let n = self.bigint(); big(if self.r.chance(40) { -n } else { n }) }
            24 => self.fl(),
            25 => -v,
            26 => { let b = self.sum2(); -b }
            27 => v / w,
            28 => { let b = self.sum2(); v / b }
            29 => { let b = self.sum2(); self.sum2() / b }
            30 => { let p = int(*self.r.pick(&[1, 1, -1, 2, 3, -3])) / int(*self.r.pick(&[2, 3, 4])); safe_pow(v, p) }
            31 => { let p = int(*self.r.pick(&[1, 1, -1, 3])) / int(*self.r.pick(&[2, 3])); let b = self.prod2(); safe_pow(b, p) }
            32 => safe_pow(v, w + int(self.r.range(-2, 2))),
            33 => { let (a, c) = (self.fl(), self.fl()); safe_pow(safe_pow(v, a), c) }
            34 => { let z = self.var(); safe_pow(safe_pow(v, w), z) }
            35 => { let x = if self.r.chance(50) { v } else { self.sum2() }; if self.r.chance(50) { sin(x) } else { cos(x) } }
            36 => { let z = self.var(); let p = safe_pow(w, z); safe_pow(v, p) }
            37 => { let l = safe_log(w, if self.r.chance(60) { v.clone() } else { self.var() }); safe_pow(v, l) }
            38 => { let (a, b) = (self.nonzero(), self.nonzero()); a * &v + b * v }
            39 => { let n = self.k(); let c = self.nonzero(); safe_pow(c * v, n) }
            40 => { let c = self.nonzero(); safe_pow(-(c * v * w.clone()), w) }
            41 => { let x = self.fl(); x * v }
            42 => { let x = self.fl(); let b = self.sum2(); if self.r.chance(50) { x * b } else { x + b } }
            43 => { let x = self.fl(); let b = self.sum2(); safe_pow(b, x) }
            44 => { let e = self.prod2(); twin(self, &e) }
            45 => { let e = self.sum2(); let t = twin(self, &e); e * t }
            _ => { let n = *self.r.pick(&[8, 17, 33, 40, 64, 65, 67, 70, 100, 129]); safe_pow(v, int(if self.r.chance(25) { -n } else { n })) }
        }
    }
    fn context(&mut self, c: usize, e: E) -> E {
        let v = self.var();
        let w = self.var();
        let other = |g: &mut Gen| loop {
            let k = g.r.below(Self::KINDS);
            let f = g.kind(k);
            if nodes(&f) <= 20 && (real_free(&f) || !real_free(&e) || g.mix.real > 0) {
                return f;
            }
        };
        let zero = Self::is_zero(&e);
        match c {
            0 => e,
            1 => { let f = other(self); e + f }
            2 => { let f = other(self); e * f }
            3 if !zero => { let f = other(self); f / e }
            4 => { let f = other(self); e - f }
            5 => { let n = int(self.r.range(2, 4)); safe_pow(e, n) }
            6 if !zero => { let n = int(self.r.range(-4, -1)); safe_pow(e, n) }
            7 if !zero => { let n = self.k(); safe_pow(e, n * v) }
            8 if !zero => safe_pow(e, v),
            9 if !zero => safe_pow(e, int(*self.r.pick(&[1, -1, 2, 3])) / int(*self.r.pick(&[2, 3]))),
            10 if !zero => { let x = self.fl(); safe_pow(e, x) }
            11 => safe_pow(v, e),
            12 => safe_pow(int(*self.r.pick(&[2, 3, 4, 6])), e),
            13 => safe_log(e, v),
            14 => safe_log(v, e),
            15 => { let f = other(self); safe_log(e, f) }
            16 => if self.r.chance(50) { sin(e) } else { cos(e) },
            17 => &e + &e,
            18 => &e * &e,
            19 if !zero => { let f = other(self); &e * f / &e }
            20 => { let n = 3 + self.r.below(4); let mut x: Vec<E> = (0..n).map(|_| self.leaf1()).collect(); x.push(e); self.r.shuffle(&mut x); self.sum(x) }
            21 => { let n = 3 + self.r.below(4); let mut x: Vec<E> = (0..n).map(|_| self.leaf1()).collect(); x.push(e); self.r.shuffle(&mut x); self.prod(x) }
            22 => -e,
            23 => { let n = self.k(); n * e }
            24 => { let s = self.sum2(); (e + v) * s }
            25 if !zero => { let x = self.var(); safe_pow(e.clone(), v) * safe_pow(e, w + x) }
            26 if !zero => { let n = self.k(); n * &e * safe_pow(e.clone(), v) }
            27 => { let s = self.sum2(); s * e }
            28 => { let s = self.sum2(); let f = other(self); s - e * f }
            29 if !zero => { let (n, m) = (self.k(), self.k()); safe_pow(e.clone(), n * &v) * safe_pow(e, m * v) }
            30 => { let (n, m) = (self.k(), self.nonzero()); n * &e + e / m }
            31 => { let f = other(self); let x = &e * &f; x + f * e }
            32 => { let x = self.var(); safe_log(e.clone(), v) * safe_pow(w, x) + e }
            _ => { let (n, m) = (self.nonzero(), self.nonzero()); safe_pow(v.clone(), n * &e) * safe_pow(v, m * e) }
        }
    }

    // ------------------------------------------------------------- polynomials
    pub fn coef(&mut self) -> BigInt {
        if self.mix.big > 0 && self.r.chance(self.mix.big) {
            let n = self.bigint();
            if self.r.chance(50) {
                n
            } else {
                -n
            }
        } else {
            BigInt::from(*self.r.pick(&[-7, -4, -3, -2, -1, -1, 1, 1, 1, 2, 2, 3, 4, 5, 6, 9, 12]))
        }
    }
    pub fn monomial(&mut self) -> E {
        let mut v = vec![];
        if self.r.chance(50) {
            v.push(big(self.coef()));
        }
        let n = self.r.below(4);
        for _ in 0..n {
            let x = self.var();
            v.push(if self.r.chance(30) { safe_pow(x, int(self.r.range(0, 5))) } else { x });
        }
        if v.is_empty() {
            v.push(big(self.coef()));
        }
        self.prod(v)
    }
    pub fn flatpoly(&mut self, n: usize) -> E {
        let k = 1 + self.r.below(n);
        let v: Vec<E> = (0..k).map(|_| self.monomial()).collect();
        self.sum(v)
    }
    pub fn poly(&mut self, depth: usize) -> E {
        if depth == 0 {
            return match self.r.below(5) {
                0 => big(self.coef()),
                1 => self.monomial(),
                _ => self.var(),
            };
        }
        let d = depth - 1;
        match self.r.below(9) {
            0..=1 => {
                let n = 2 + self.r.below(4);
                let v: Vec<E> = (0..n).map(|_| { let dd = if self.r.chance(50) { d } else { 0 }; self.poly(dd) }).collect();
                self.sum(v)
            }
            2..=3 => {
                let n = 2 + self.r.below(3);
                let v: Vec<E> = (0..n).map(|_| { let dd = if self.r.chance(50) { d } else { 0 }; self.poly(dd) }).collect();
                self.prod(v)
            }
            4..=5 => {
                let b = self.poly(d);
                let k = *self.r.pick(&[0, 1, 2, 2, 2, 3, 3, 4, 5]);
                let p = safe_pow(b.clone(), int(k));
                if spread(&p) > 60.0 {
                    b
                } else {
                    p
                }
            }
            6 => self.poly(d) - self.poly(d),
            7 => -self.poly(d),
            _ => self.flatpoly(4),
        }
    }

    /// two ways of writing the same polynomial
    pub fn poly_pair(&mut self) -> (E, E) {
        let p = self.poly(2);
        let q = self.flatpoly(3);
        let two = || int(2);
        match self.r.below(10) {
            0 => (safe_pow(&p + &q, two()), &p * &p + int(2) * &p * &q + &q * &q),
            1 => ((&p - &q) * (&p + &q), safe_pow(p, two()) - safe_pow(q, two())),
            2 => {
                let s = self.flatpoly(3);
                (&p * (&q + &s), &s * &p + &q * &p)
            }
            3 => (p.clone(), (&p + &q) - &q),
            4 => (p.clone(), &p * (int(1) + &q) - &q * &p),
            5 => (&p - &p, int(0) * &q),
            6 => (safe_pow(&p - &q, int(3)), (&p - &q) * (safe_pow(p.clone(), two()) - two() * &p * &q + &q * &q)),
            7 => (p.clone(), -(&q - (&p + &q))),
            8 => {
                let s = self.flatpoly(2);
                ((&p + &q) + &s, &s + (&q + &p))
            }
            _ => {
                let k = big(self.coef());
                (&k * (&p + &q), &k * &p + &q * &k)
            }
        }
    }

    // -------------------------------------------------------- rational constants
    pub fn ratconst(&mut self, depth: usize) -> E {
        if depth == 0 {
            return match self.r.below(6) {
                0..=2 => self.int(),
                3..=4 => {
                    let a = self.int();
                    let b = self.nonzero();
                    a / b
                }
                _ => {
                    let b = self.nonzero();
                    safe_pow(b, int(*self.r.pick(&[-1, -1, -2, 2, 3])))
                }
            };
        }
        let d = depth - 1;
        match self.r.below(10) {
            0..=2 => {
                let n = 2 + self.r.below(3);
                let v: Vec<E> = (0..n).map(|_| { let dd = if self.r.chance(60) { d } else { 0 }; self.ratconst(dd) }).collect();
                self.sum(v)
            }
            3..=5 => {
                let n = 2 + self.r.below(3);
                let v: Vec<E> = (0..n).map(|_| { let dd = if self.r.chance(60) { d } else { 0 }; self.ratconst(dd) }).collect();
                self.prod(v)
            }
            6 => self.ratconst(d) - self.ratconst(d),
            7 => {
                let b = self.ratconst(d);
                if Self::is_zero(&b) {
                    return b;
                }
                safe_pow(b, int(*self.r.pick(&[2, 3, -1, -2, -3, 0, 1])))
            }
            8 => {
                let a = self.ratconst(d);
                let b = self.ratconst(d);
                if Self::is_zero(&b) {
                    a
                } else {
                    a / b
                }
            }
            _ => -self.ratconst(d),
        }
    }
    pub fn nonzero(&mut self) -> E {
        loop {
            let n = self.integer();
            if n != BigInt::from(0) {
                return big(n);
            }
        }
    }
}

/// pow unless literal folding could blow up
pub fn safe_pow(b: E, x: E) -> E {
    if pow_ok(&b, &x) {
        E::power(b, x)
    } else {
        b
    }
}
pub fn pow_ok(b: &E, x: &E) -> bool {
    // a symbolic power stays a power however large its exponent is
    if let (E::Variable(_), E::Integer(n)) = (b, x) {
        return n.data.bits() < 300;
    }
    // powers of these are easy
    if let (E::Integer(a), E::Integer(n)) = (b, x) {
        if a.data.bits() <= 1 {
            return n.data.bits() < 300;
        }
    }
    let me = mag(x);
    let mb = mag(b).max(1.0);
    me < 12.0 && mb * 2f64.powf(me) <= 6000.0 && nodes(b) + nodes(x) < 120
}
pub fn safe_log(a: E, b: E) -> E {
    // literals for which no logarithm exists stay out of the domain
    let bad = |e: &E| match e {
        E::Integer(n) => n.data < BigInt::from(1),
        E::Real(r) => r.data <= 0.0,
        _ => false,
    };
    let one = match &b {
        E::Integer(n) => n.data == BigInt::from(1),
        E::Real(r) => r.data == 1.0,
        _ => false,
    };
    if bad(&a) || bad(&b) || one {
        return a;
    }
    E::logarithm(a, b)
}


/// no float anywhere
pub fn real_free(e: &E) -> bool {
    match e {
        E::Real(_) => false,
        E::Integer(_) | E::Variable(_) => true,
        E::Addition(a) | E::Multiplication(a) => a.items().iter().all(real_free),
        E::Power(p) | E::Logarithm(p) => real_free(&p.argument()) && real_free(&p.modifier()),
        E::Sine(o) | E::Cossine(o) => real_free(&o.argument()),
    }
}

/// another expression that prints the same
pub fn twin(g: &mut Gen, e: &E) -> E {
    let n = nodes(e);
    let at = g.r.below(n);
    fn rec(g: &mut Gen, e: &E, at: usize, k: &mut usize) -> E {
        let me = *k;
        *k += 1;
        let p = ncas::base::associative_operation::AssociativeOperation::new;
        if me == at {
            return match e {
                E::Integer(n) => match num::ToPrimitive::to_f64(&n.data) {
                    Some(x) if x.abs() < 1e15 && g.r.chance(75) => real(x),
                    _ => var(&e.to_string()),
                },
                E::Real(x) if x.data.fract() == 0.0 && x.data.abs() < 1e15 && g.r.chance(75) => int(x.data as i64),
                E::Variable(v) => match v.data.parse::<i64>() {
                    Ok(n) => int(n),
                    _ => e.clone(),
                },
                _ => var(&e.to_string()),
            };
        }
        match e {
            E::Addition(a) => E::Addition(assoc(a.items().iter().map(|x| rec(g, x, at, k)).collect())),
            E::Multiplication(a) => E::Multiplication(assoc(a.items().iter().map(|x| rec(g, x, at, k)).collect())),
            E::Power(o) => {
                let x = rec(g, &o.argument(), at, k);
                E::Power(p(x, rec(g, &o.modifier(), at, k)))
            }
            E::Logarithm(o) => {
                let x = rec(g, &o.argument(), at, k);
                E::Logarithm(p(x, rec(g, &o.modifier(), at, k)))
            }
            E::Sine(o) => sin(rec(g, &o.argument(), at, k)),
            E::Cossine(o) => cos(rec(g, &o.argument(), at, k)),
            _ => e.clone(),
        }
    }
    rec(g, e, at, &mut 0)
}
