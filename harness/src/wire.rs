//! Wire form of terms: JSON arrays whose first element is a tag (see spec/Terms.tla).
use ncas::base::{
    associative_operation::AssociativeOperation, commutative_association::CommutativeAssociation,
    expression::Expression, operation::Operation, symbol::Symbol,
};
use num::bigint::{BigInt, Sign};
use num::{Signed, ToPrimitive, Zero};

pub type E = Expression;

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn limbs(n: &BigInt) -> String {
    let mut m = n.abs();
    let base = BigInt::from(10000);
    let mut v: Vec<u32> = vec![];
    while !m.is_zero() {
        v.push((&m % &base).to_u32().unwrap());
        m = m / &base;
    }
    v.reverse();
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

pub fn wint(n: &BigInt) -> String {
    if n.abs() < BigInt::from(1i64 << 30) {
        format!("[\"I\",{}]", n)
    } else {
        format!("[\"J\",{},{}]", if n.sign() == Sign::Minus { -1 } else { 1 }, limbs(n))
    }
}

pub fn wreal(x: f64) -> String {
    if x.is_nan() {
        return "[\"X\",\"nan\"]".into();
    }
    if x.is_infinite() {
        return format!("[\"X\",\"{}\"]", if x > 0.0 { "inf" } else { "-inf" });
    }
    if x == 0.0 {
        return if x.is_sign_negative() { "[\"R\",0,-1]".into() } else { "[\"R\",0,0]".into() };
    }
    let bits = x.to_bits();
    let neg = bits >> 63 == 1;
    let be = ((bits >> 52) & 0x7ff) as i64;
    let fr = bits & ((1u64 << 52) - 1);
    let (mut m, mut e) = if be == 0 { (fr, -1074) } else { (fr | (1u64 << 52), be - 1075) };
    let tz = m.trailing_zeros() as i64;
    m >>= tz;
    e += tz;
    if m < (1u64 << 30) {
        format!("[\"R\",{}{},{}]", if neg { "-" } else { "" }, m, e)
    } else {
        format!("[\"S\",{},{},{}]", if neg { -1 } else { 1 }, limbs(&BigInt::from(m)), e)
    }
}

pub fn wire(t: &E) -> String {
    let mut s = String::new();
    w(t, &mut s);
    s
}

fn wl(items: &Vec<E>, s: &mut String) {
    s.push('[');
    for (i, x) in items.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        w(x, s);
    }
    s.push(']');
}

fn w(t: &E, s: &mut String) {
    match t {
        E::Integer(n) => s.push_str(&wint(&n.data)),
        E::Real(r) => s.push_str(&wreal(r.data)),
        E::Variable(v) => {
            s.push_str("[\"V\",");
            s.push_str(&jstr(&v.data));
            s.push(']');
        }
        E::Addition(a) => {
            s.push_str("[\"+\",");
            wl(&a.items(), s);
            s.push(']');
        }
        E::Multiplication(a) => {
            s.push_str("[\"*\",");
            wl(&a.items(), s);
            s.push(']');
        }
        E::Power(p) => w2("^", p, s),
        E::Logarithm(p) => w2("L", p, s),
        E::Sine(o) => w1("sin", o, s),
        E::Cossine(o) => w1("cos", o, s),
    }
}
fn w2(tag: &str, p: &AssociativeOperation, s: &mut String) {
    s.push_str(&format!("[\"{}\",", tag));
    w(&p.argument(), s);
    s.push(',');
    w(&p.modifier(), s);
    s.push(']');
}
fn w1(tag: &str, p: &Operation, s: &mut String) {
    s.push_str(&format!("[\"{}\",", tag));
    w(&p.argument(), s);
    s.push(']');
}

pub fn int(n: i64) -> E {
    Symbol::integer(n as isize).expr()
}
pub fn big(n: BigInt) -> E {
    E::Integer(Symbol { data: n })
}
pub fn real(x: f64) -> E {
    Symbol::real(x).expr()
}
pub fn var(s: &str) -> E {
    Symbol::variable(s).expr()
}
pub fn sin(x: E) -> E {
    E::Sine(Operation::new(x))
}
pub fn cos(x: E) -> E {
    E::Cossine(Operation::new(x))
}

pub fn nodes(t: &E) -> usize {
    match t {
        E::Integer(n) => 1 + (n.data.bits() / 64) as usize,
        E::Real(_) | E::Variable(_) => 1,
        E::Addition(a) | E::Multiplication(a) => 1 + a.items().iter().map(nodes).sum::<usize>(),
        E::Power(p) | E::Logarithm(p) => 1 + nodes(&p.argument()) + nodes(&p.modifier()),
        E::Sine(o) | E::Cossine(o) => 1 + nodes(&o.argument()),
    }
}

/// Upper bound (heuristic) of log2 |value| of the integer literals that manipulation of `t`
/// can produce, variables counting as 1.
pub fn mag(t: &E) -> f64 {
    match t {
        E::Integer(n) => n.data.bits() as f64,
        E::Real(r) => {
            let a = r.data.abs();
            if a.is_finite() && a > 1.0 {
                a.log2() + 1.0
            } else {
                1.0
            }
        }
        E::Variable(_) => 0.0,
        E::Addition(a) => a.items().iter().map(mag).fold(0.0, |x: f64, y| x.max(y)) + (a.items().len() as f64).log2().ceil(),
        E::Multiplication(a) => a.items().iter().map(mag).sum(),
        E::Power(p) => {
            let b = mag(&p.argument()).max(if nodes(&p.argument()) > 1 { 1.0 } else { 0.0 });
            let e = mag(&p.modifier());
            if b == 0.0 {
                0.0
            } else if e > 20.0 {
                1e9
            } else {
                b * 2f64.powf(e)
            }
        }
        E::Logarithm(p) => mag(&p.argument()).max(mag(&p.modifier())).max(1.0),
        E::Sine(o) | E::Cossine(o) => mag(&o.argument()),
    }
}

/// Upper bound of the number of addends after full expansion (with all inner work).
pub fn spread(t: &E) -> f64 {
    match t {
        E::Integer(_) | E::Real(_) | E::Variable(_) => 1.0,
        E::Addition(a) => a.items().iter().map(spread).sum(),
        E::Multiplication(a) => a.items().iter().map(spread).product(),
        E::Power(p) => {
            let b = spread(&p.argument());
            let m = p.modifier();
            let e = spread(&m);
            let k = if b > 1.0 { 2f64.powf(mag(&m).min(60.0)) } else { 1.0 };
            let k = match &m {
                E::Integer(n) if n.data.bits() > 63 => 1.0, /* stays unexpanded */
                E::Integer(n) => n.data.to_f64().unwrap_or(1e9).abs(),
                E::Multiplication(a) if a.items().iter().all(|x| matches!(x, E::Integer(_) | E::Variable(_))) => a
                    .items()
                    .iter()
                    .map(|x| match x {
                        E::Integer(n) if n.data.bits() < 63 => n.data.to_f64().unwrap_or(1e9).abs(),
                        _ => 1.0,
                    })
                    .product(),
                _ => k,
            };
            (b.powf(k)).max(e).max(b)
        }
        E::Logarithm(p) => spread(&p.argument()).max(spread(&p.modifier())),
        E::Sine(o) | E::Cossine(o) => spread(&o.argument()),
    }
}

thread_local! {
    static LIMITS: std::cell::Cell<(f64, usize)> = const { std::cell::Cell::new(USUAL) };
}
/// addends after full expansion, and nodes of a recorded result
pub const USUAL: (f64, usize) = (150.0, 800);
pub fn limits() -> (f64, usize) {
    LIMITS.with(|l| l.get())
}
pub fn set_limits(l: (f64, usize)) {
    LIMITS.with(|c| c.set(l))
}

/// Is it reasonable to expand / simplify `t`?
pub fn moderate(t: &E) -> bool {
    nodes(t) <= 240 && spread(t) <= limits().0 && mag(t) <= 3000.0
}

pub fn assoc(items: Vec<E>) -> CommutativeAssociation {
    CommutativeAssociation::new(items)
}

// ------------------------------------------------------------- tiny JSON reader
#[derive(Debug, Clone)]
pub enum J {
    N(i64),
    S(String),
    A(Vec<J>),
}
pub fn parse(s: &str) -> J {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    pj(&b, &mut i)
}
fn ws(b: &Vec<char>, i: &mut usize) {
    while *i < b.len() && (b[*i].is_whitespace() || b[*i] == ',') {
        *i += 1;
    }
}
fn pj(b: &Vec<char>, i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == ']' {
                    *i += 1;
                    return J::A(v);
                }
                v.push(pj(b, i));
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            while b[*i] != '"' {
                if b[*i] == '\\' {
                    *i += 1;
                }
                s.push(b[*i]);
                *i += 1;
            }
            *i += 1;
            J::S(s)
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == '-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            if st == *i {
                panic!("bad json at {}: {:?}", i, b[*i]);
            }
            J::N(b[st..*i].iter().collect::<String>().parse().unwrap())
        }
    }
}
impl J {
    pub fn arr(&self) -> &Vec<J> {
        match self {
            J::A(v) => v,
            _ => panic!("not an array"),
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => panic!("not a number"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("not a string"),
        }
    }
}

/// Builds the expression a wire term describes, through the public constructors.
pub fn build(j: &J) -> E {
    let v = j.arr();
    match v[0].str() {
        "I" => int(v[1].num()),
        "J" => big(v[2].arr().iter().fold(BigInt::from(0), |n, l| n * 10000 + l.num()) * v[1].num()),
        "R" if v[1].num() == 0 && v[2].num() < 0 => real(-0.0),
        "R" => real(v[1].num() as f64 * 2f64.powi(v[2].num() as i32)),
        "V" => var(v[1].str()),
        "+" => E::addition(v[1].arr().iter().map(build).collect()),
        "*" => E::multiplication(v[1].arr().iter().map(build).collect()),
        "^" => E::power(build(&v[1]), build(&v[2])),
        "L" => E::logarithm(build(&v[1]), build(&v[2])),
        "sin" => sin(build(&v[1])),
        "cos" => cos(build(&v[1])),
        t => panic!("unknown tag {}", t),
    }
}

/// The very tree a wire term describes.
pub fn raw(j: &J) -> E {
    let v = j.arr();
    let p = AssociativeOperation::new;
    let all = |j: &J| assoc(j.arr().iter().map(raw).collect());
    match v[0].str() {
        "S" => {
            let m = v[2].arr().iter().fold(BigInt::from(0), |n, l| n * 10000 + l.num()) * v[1].num();
            real(scale(m.to_f64().unwrap(), v[3].num() as i32))
        }
        "R" if v[1].num() == 0 => build(j),
        "R" => real(scale(v[1].num() as f64, v[2].num() as i32)),
        "X" => real(match v[1].str() {
            "nan" => f64::NAN,
            "inf" => f64::INFINITY,
            _ => f64::NEG_INFINITY,
        }),
        "+" => E::Addition(all(&v[1])),
        "*" => E::Multiplication(all(&v[1])),
        "^" => E::Power(p(raw(&v[1]), raw(&v[2]))),
        "L" => E::Logarithm(p(raw(&v[1]), raw(&v[2]))),
        "sin" => sin(raw(&v[1])),
        "cos" => cos(raw(&v[1])),
        _ => build(j),
    }
}
/// x * 2^e without leaving the range on the way
fn scale(x: f64, e: i32) -> f64 {
    let h = e / 2;
    x * 2f64.powi(h) * 2f64.powi(e - h)
}
