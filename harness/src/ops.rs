//! The public operations of ncas as named operations of a session.
use crate::gen::*;
use crate::sess::*;
use crate::wire::*;
use ncas::manipulation::expansion_rules as er;
use ncas::manipulation::simplification_rules as sr;

pub const RULES: [&str; 9] = [
    "addends", "factors", "ratadd", "ratmul", "denominator", "invpowlog", "distribute", "powsum", "powprod",
];

pub fn rule(name: &str, x: &E) -> E {
    use er::rule::Rule as ER;
    use sr::rule::Rule as SR;
    match name {
        "addends" => <sr::factoring::additive_common_addend::AdditiveCommonAddend as SR>::apply(x),
        "factors" => <sr::factoring::multiplicative_common_factor::MultiplicativeCommonFactor as SR>::apply(x),
        "ratadd" => <sr::rational::rationals_addition::RationalsAddition as SR>::apply(x),
        "ratmul" => <sr::rational::rationals_multiplication::RationalsMultiplication as SR>::apply(x),
        "denominator" => <sr::factoring::single_algebraic_denominator::SingleAlgebraicDenominator as SR>::apply(x),
        "invpowlog" => <sr::identities::inverse_power_log::InversePowerLog as SR>::apply(x),
        "distribute" => <er::multiplicative_distributive::MultiplicativeDistributive as ER>::apply(x),
        "powsum" => <er::power_distributive_addition::PowerDistributiveAddition as ER>::apply(x),
        "powprod" => <er::power_distributive_multiplication::PowerDistributiveMultiplication as ER>::apply(x),
        _ => panic!("no rule {}", name),
    }
}

pub fn bin(o: &str, x: &E, y: &E) -> E {
    match o {
        "add" => x + y,
        "sub" => x - y,
        "mul" => x * y,
        "div" => x / y,
        "pow" => E::power(x.clone(), y.clone()),
        "log" => E::logarithm(x.clone(), y.clone()),
        _ => panic!("no op {}", o),
    }
}

/// May this operation be performed at all (domain and size)?
pub fn allowed(o: &str, x: &E, y: &E) -> bool {
    match o {
        "div" => !Gen::is_zero(y),
        "pow" => {
            let negint = match y {
                E::Integer(n) => n.data.sign() == num::bigint::Sign::Minus,
                E::Real(r) => r.data < 0.0,
                _ => false,
            };
            pow_ok(x, y) && !(Gen::is_zero(x) && (negint || Gen::is_zero(y)))
        }
        "log" => {
            let bad = |e: &E| match e {
                E::Integer(n) => n.data < num::BigInt::from(1),
                E::Real(r) => r.data <= 0.0,
                _ => false,
            };
            let one = match y {
                E::Integer(n) => n.data == num::BigInt::from(1),
                E::Real(r) => r.data == 1.0,
                _ => false,
            };
            !bad(x) && !bad(y) && !one
        }
        _ => true,
    }
}

/// numerator, denominator and Bezout coefficients of a fraction literal
fn fraction_witness(e: &E) -> String {
    use num::bigint::BigInt;
    let one = BigInt::from(1);
    let mut n: Option<BigInt> = None;
    let mut d: Option<BigInt> = None;
    let items = match e {
        E::Multiplication(a) => a.items(),
        _ => vec![e.clone()],
    };
    for x in items.iter() {
        match x {
            E::Integer(k) => n = Some(k.data.clone()),
            E::Power(p) => {
                if let E::Integer(k) = p.argument() {
                    d = Some(k.data.clone())
                }
            }
            _ => return "[]".into(),
        }
    }
    let (n, d) = (n.unwrap_or(one.clone()), d.unwrap_or(one));
    let (_, u, v) = crate::prof::bezout(&n, &d);
    format!("[{},{},{},{}]", wint(&n), wint(&d), wint(&u), wint(&v))
}

impl Sess {
    pub fn apply2(&mut self, br: &mut Br, o: &str, i: usize, j: usize, extra: &str) -> Option<E> {
        let x = br.regs[i - 1].clone();
        let y = br.regs[j - 1].clone();
        if !allowed(o, &x, &y) || nodes(&x) + nodes(&y) > MAXLOG {
            return None;
        }
        let (xa, xb, xc, xd, xe, xf) = (x.clone(), x.clone(), x.clone(), x.clone(), x.clone(), x.clone());
        let (ya, yb, yc, yd, ye, yf) = (y.clone(), y.clone(), y.clone(), y.clone(), y.clone(), y.clone());
        let forms: Vec<Box<dyn FnOnce() -> E>> = match o {
            "add" => vec![
                Box::new(move || &xa + &ya),
                Box::new(move || xb + yb),
                Box::new(move || xc + &yc),
                Box::new(move || &xd + yd),
                Box::new(move || E::addition(vec![xe, ye])),
            ],
            "sub" => vec![
                Box::new(move || &xa - &ya),
                Box::new(move || xb - yb),
                Box::new(move || xc - &yc),
                Box::new(move || &xd - yd),
                Box::new(move || E::subtraction(xe, ye)),
            ],
            "mul" => vec![
                Box::new(move || &xa * &ya),
                Box::new(move || xb * yb),
                Box::new(move || xc * &yc),
                Box::new(move || &xd * yd),
                Box::new(move || E::multiplication(vec![xe, ye])),
            ],
            "div" => vec![
                Box::new(move || &xa / &ya),
                Box::new(move || xb / yb),
                Box::new(move || xc / &yc),
                Box::new(move || &xd / yd),
                Box::new(move || E::division(xe, ye)),
            ],
            "pow" => vec![Box::new(move || E::power(xa, ya)), Box::new(move || xb.pow(yb))],
            "log" => vec![Box::new(move || E::logarithm(xa, ya)), Box::new(move || xb.log(yb))],
            _ => panic!(),
        };
        let _ = (xf, yf);
        self.op(br, o, &[i, j], extra, forms)
    }

    pub fn applyn(&mut self, br: &mut Br, o: &str, a: &[usize], extra: &str) -> Option<E> {
        let v: Vec<E> = a.iter().map(|i| br.regs[i - 1].clone()).collect();
        if v.iter().map(nodes).sum::<usize>() > MAXLOG {
            return None;
        }
        let f: Box<dyn FnOnce() -> E> = if o == "sum" { Box::new(move || E::addition(v)) } else { Box::new(move || E::multiplication(v)) };
        self.op(br, o, a, extra, vec![f])
    }

    pub fn apply1(&mut self, br: &mut Br, o: &str, i: usize, extra: &str) -> Option<E> {
        let x = br.regs[i - 1].clone();
        let (xa, xb) = (x.clone(), x.clone());
        if o == "neg" {
            return self.op(br, o, &[i], extra, vec![Box::new(move || -&xa), Box::new(move || -xb)]);
        }
        if !moderate(&x) {
            return None;
        }
        let name = o.to_string();
        let f: Box<dyn FnOnce() -> E> = match o {
            "expand" => Box::new(move || xa.expand()),
            "simplify" => Box::new(move || xa.simplify()),
            _ => {
                let n = name.strip_prefix("rule.").unwrap().to_string();
                Box::new(move || rule(&n, &xa))
            }
        };
        self.op(br, o, &[i], extra, vec![f])
    }

    /// expand/simplify whose result is also put through the operation again (field rr)
    pub fn twice(&mut self, br: &mut Br, o: &str, i: usize) -> Option<E> {
        let x = br.regs[i - 1].clone();
        if !moderate(&x) {
            return None;
        }
        let xa = x.clone();
        let go = |e: E, o: &str| if o == "expand" { e.expand() } else { e.simplify() };
        match self.run(|| go(xa, o)) {
            Err(why) => {
                self.bad(br, o, &[i], &why);
                None
            }
            Ok(r) => {
                if nodes(&r) > limits().1 {
                    return None;
                }
                let mut rr = wire(&r);
                if moderate(&r) || (nodes(&r) > 240 && spread(&r) <= 6000.0) {
                    let r2 = r.clone();
                    match self.run(|| go(r2, o)) {
                        Err(why) => {
                            self.bad(br, o, &[i], &why);
                            return None;
                        }
                        Ok(y) => rr = wire(&y),
                    }
                }
                let body = Sess::body(o, &[i], format!("\"r\":{},\"alt\":[],\"rr\":{},\"bz\":{}", wire(&r), rr, fraction_witness(&r)));
                br.regs.push(r.clone());
                self.emit(br, body);
                Some(r)
            }
        }
    }

    pub fn apply(&mut self, br: &mut Br, o: &str, a: &[usize], extra: &str) -> Option<E> {
        match o {
            "sum" | "prod" => self.applyn(br, o, a, extra),
            "add" | "sub" | "mul" | "div" | "pow" | "log" => self.apply2(br, o, a[0], a[1], extra),
            _ => self.apply1(br, o, a[0], extra),
        }
    }
}
