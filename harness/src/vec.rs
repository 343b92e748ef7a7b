//! Replays VecMachine behaviours on the six vector types and records histories of its own.
use crate::json::*;
use crate::util::*;
use mazth::mat::*;

macro_rules! machine {
    ($name:ident, $C:ident, $R:ident, $N:expr, $T:tt) => {
        #[derive(Clone, Copy)]
        pub enum $name {
            C($C<$T>),
            R($R<$T>),
        }
        impl $name {
            pub fn make(o: i64, l: &[f64]) -> $name {
                let mut v = [0 as $T; $N];
                for i in 0..$N {
                    v[i] = l[i] as $T;
                }
                if o == 0 {
                    $name::C($C { _val: v })
                } else {
                    $name::R($R { _val: v })
                }
            }
            pub fn read(&self) -> (i64, Vec<f64>) {
                match self {
                    $name::C(x) => (0, x._val.iter().map(|y| *y as f64).collect()),
                    $name::R(x) => (1, x._val.iter().map(|y| *y as f64).collect()),
                }
            }
            /// result of a call: a vector kept (Ok) or an observation (Err)
            pub fn call(op: &str, a: Option<$name>, b: Option<$name>, same: bool, p: &[f64]) -> Result<$name, Out> {
                macro_rules! both {
                    ($x:ident, $y:ident, $W:ident) => {
                        match op {
                            "plus" => $x.plus($y).map($name::$W).ok_or(Out::None),
                            "minus" => $x.minus($y).map($name::$W).ok_or(Out::None),
                            "mulel" => $x.mul_elem($y).map($name::$W).ok_or(Out::None),
                            "div" => $x.div($y).map($name::$W).ok_or(Out::None),
                            "cross" => $x.cross($y).map($name::$W).ok_or(Out::None),
                            "dot" => Err($x.dot($y).map_or(Out::None, |z| Out::Num(z as f64))),
                            "scale" => $x.scale(p[0] as $T).map($name::$W).ok_or(Out::None),
                            "norm" => $x.normalize().map($name::$W).ok_or(Out::None),
                            "size" => Err($x.size().map_or(Out::None, |z| Out::Num(z as f64))),
                            "mag" => Err($x.magnitude().map_or(Out::None, |z| Out::Num(z as f64))),
                            "get" => Err(Out::Num($x[p[0] as usize] as f64)),
                            _ => panic!("HARNESS: op {}", op),
                        }
                    };
                }
                match (op, a, b) {
                    ("init", _, _) => Ok($name::make(p[0] as i64, &p[1..])),
                    ("zero", _, _) if p[0] == 0.0 => Ok($name::C($C::<$T>::default())),
                    ("zero", _, _) => Ok($name::R($R::<$T>::default())),
                    ("set", Some($name::C(mut x)), _) => {
                        x[p[0] as usize] = p[1] as $T;
                        Ok($name::C(x))
                    }
                    ("set", Some($name::R(mut x)), _) => {
                        x[p[0] as usize] = p[1] as $T;
                        Ok($name::R(x))
                    }
                    ("tr", Some($name::C(x)), _) => Ok($name::R(x.transpose())),
                    ("tr", Some($name::R(x)), _) => Ok($name::C(x.transpose())),
                    // one object on both sides when the call names one register twice
                    (_, Some($name::C(x)), Some($name::C(z))) => {
                        let y = if same { &x } else { &z };
                        both!(x, y, C)
                    }
                    (_, Some($name::R(x)), Some($name::R(z))) => {
                        let y = if same { &x } else { &z };
                        both!(x, y, R)
                    }
                    _ => panic!("HARNESS: operands of {}", op),
                }
            }
        }
    };
}
machine!(V2f, Mat2x1, Mat1x2, 2, f32);
machine!(V2d, Mat2x1, Mat1x2, 2, f64);
machine!(V3f, Mat3x1, Mat1x3, 3, f32);
machine!(V3d, Mat3x1, Mat1x3, 3, f64);
machine!(V4f, Mat4x1, Mat1x4, 4, f32);
machine!(V4d, Mat4x1, Mat1x4, 4, f64);

/// registers hold (orientation, components); every call builds its operands from them
#[derive(Clone)]
pub struct Mach {
    n: usize,
    double: bool,
    reg: [Option<(i64, Vec<f64>)>; 3],
}
impl Mach {
    pub fn new(n: usize, double: bool) -> Mach {
        Mach { n, double, reg: [None, None, None] }
    }
    /// orientation and outcome
    pub fn step(&mut self, c: &J, f: i64) -> (i64, Out) {
        let op = c.get("op").str().to_string();
        let d = c.get("d").us() - 1;
        let sr = c.get("s").ints();
        let mut p = args(&op, &c.get("p").nums(), f);
        if op == "init" {
            for x in p[1..].iter_mut() {
                *x *= fr(f, 1);
            }
        }
        if op == "set" {
            p[1] *= fr(f, c.get("exp").get("deg").int());
        }
        let (x, y) = if op == "set" { (self.reg[d].clone(), None) } else { (self.reg[sr[0] as usize - 1].clone(), self.reg[sr[1] as usize - 1].clone()) };
        macro_rules! go {
            ($V:ident) => {{
                let a = x.map(|(o, v)| $V::make(o, &v));
                // calls on one operand get it twice
                let b = y.filter(|z| a.map_or(false, |q| q.read().0 == z.0)).map(|(o, v)| $V::make(o, &v)).or(a);
                guard(|| $V::call(&op, a, b, sr[0] == sr[1], &p).map(|v| v.read()))
            }};
        }
        let r = match (self.n, self.double) {
            (2, false) => go!(V2f),
            (2, true) => go!(V2d),
            (3, false) => go!(V3f),
            (3, true) => go!(V3d),
            (4, false) => go!(V4f),
            _ => go!(V4d),
        };
        match r {
            Err(m) => (0, Out::Panic(m)),
            Ok(Err(o)) => (0, o),
            Ok(Ok((o, v))) => {
                if op != "div" && op != "norm" {
                    self.reg[d] = Some((o, v.clone()));
                }
                (o, Out::Vec(v))
            }
        }
    }
}

/// Magnitude of what a call adds up, from its operands.
fn magnitude(op: &str, a: &[f64], b: &[f64], p: &[f64]) -> f64 {
    let m = |v: &[f64]| v.iter().fold(0f64, |x, y| x.max(y.abs()));
    match op {
        "plus" | "minus" => m(a) + m(b),
        "dot" | "cross" | "mulel" => 4.0 * m(a) * m(b),
        "scale" => m(a) * p[0].abs(),
        _ => 0.0,
    }
}

pub fn replay(hist: &[Vec<J>], rep: &mut Report) {
    for h in hist {
        rep.begin();
        let f = h[0].get("f").int();
        let lens: Vec<f64> = h.iter().filter(|c| c.get("op").str() == "init").map(|c| length(&c.get("p").nums()[1..])).filter(|l| *l > 0.0).collect();
        for (double, odd) in runs(f, &lens, rep.histories as usize) {
            set_odd(odd);
            let exact = odd == 1.0;
            let mut m = Mach::new(h[0].get("n").us(), double);
            for c in h {
                context(format!("{}", c));
                let sr = c.get("s").ints();
                let val = |r: i64, m: &Mach| m.reg[r as usize - 1].clone().map_or(vec![], |x| x.1);
                let b = magnitude(c.get("op").str(), &val(sr[0], &m), &val(sr[1], &m), &args(c.get("op").str(), &c.get("p").nums(), f));
                let tol = if exact && double {
                    Tol { exact: 1e-12, rat: 1e-12, abs: 0.0 }
                } else if exact {
                    Tol { exact: 1e-5, rat: 1e-5, abs: 0.0 }
                } else {
                    Tol { exact: slack(double), rat: slack(double), abs: slack(double) * b }
                };
                let before = m.clone();
                let (o, out) = m.step(c, f);
                rep.steps += 1;
                rep.compared += 1;
                rep.keep(&out, c, || {
                    let c = c.clone();
                    move || before.clone().step(&c, f).1
                });
                let e = c.get("exp");
                let mut r = judge(&out, e, f, tol);
                if let Out::Vec(_) = out {
                    if r.is_ok() && o != e.get("o").int() {
                        r = Err("orientation of the result".into());
                    }
                    if !exact && e.get("k").str() == "vec" && !matches!(c.get("op").str(), "div" | "norm") {
                        let u = fr(f, e.get("deg").int());
                        m.reg[c.get("d").us() - 1] = Some((o, e.get("num").nums().iter().map(|x| x * u).collect()));
                    }
                }
                if let Err(w) = r {
                    rep.fail(&w, if double { "f64" } else { "f32" }, c);
                    break;
                }
            }
        }
    }
    set_odd(1.0);
}

pub fn record(seed: u64, count: usize, out: &mut Vec<J>) {
    let mut r = Rng::new(seed);
    let ops = ["plus", "minus", "mulel", "dot", "cross", "scale", "tr", "set", "get", "mag", "init", "cross", "dot", "size", "zero"];
    let mut made = 0;
    while made < count {
        let nn = r.range(2, 4) as usize;
        let mut m = Mach::new(nn, r.below(2) == 0);
        out.push(obj(&[("op", s("start")), ("n", n(nn as i64)), ("d", n(1)), ("s", ints(&[1, 1])), ("p", ints(&[])), ("res", obj(&[("k", s("start"))]))]));
        made += 1;
        for _ in 0..r.range(6, 30) {
            let mut op = *r.pick(&ops);
            let d = r.range(1, 3);
            let (mut s1, mut s2) = (r.range(1, 3), r.range(1, 3));
            let a = m.reg[s1 as usize - 1].clone();
            let b = m.reg[s2 as usize - 1].clone();
            let big = |x: &Option<(i64, Vec<f64>)>| x.as_ref().map_or(f64::INFINITY, |y| y.1.iter().fold(0f64, |p, q| p.max(q.abs())));
            let lim = if m.double { 2500.0 } else { 500.0 };
            let same = a.is_some() && b.is_some() && a.as_ref().unwrap().0 == b.as_ref().unwrap().0;
            let ok = match op {
                "init" => true,
                "zero" => true,
                "set" => m.reg[d as usize - 1].is_some(),
                "plus" | "minus" => same && big(&a) + big(&b) <= lim,
                "mulel" | "cross" => same && 2.0 * big(&a) * big(&b) <= lim,
                "dot" => same,
                "scale" => 5.0 * big(&a) <= lim,
                _ => a.is_some(),
            };
            if !ok {
                op = "init";
            }
            let p: Vec<i64> = match op {
                "init" => {
                    let mut v = vec![r.range(0, 1)];
                    let w = if r.below(3) == 0 { 200 } else { 15 };
                    v.extend((0..nn).map(|_| r.range(-w, w)));
                    v
                }
                "set" => vec![r.range(0, nn as i64 - 1), r.range(-50, 50)],
                "zero" => vec![r.range(0, 1)],
                "get" => vec![r.range(0, nn as i64 - 1)],
                "scale" => vec![r.range(-5, 5)],
                _ => vec![],
            };
            if matches!(op, "init" | "set" | "zero") {
                s1 = d;
                s2 = d;
            } else if matches!(op, "scale" | "tr" | "get" | "mag" | "size") {
                s2 = s1;
            }
            let c = obj(&[("op", s(op)), ("d", n(d)), ("s", ints(&[s1, s2])), ("p", ints(&p)), ("exp", obj(&[("deg", n(0))]))]);
            let (o, x) = m.step(&c, 0);
            let mk = |k: &str, v: &[i64]| obj(&[("k", s(k)), ("o", n(o)), ("num", ints(v))]);
            let res = match &x {
                Out::Vec(v) => mk("vec", &v.iter().map(|y| as_int(*y)).collect::<Vec<_>>()),
                // the square of a recorded length is an integer up to rounding
                Out::Num(y) if op == "mag" => {
                    let q = y * y;
                    mk("sqrt", &[if (q - q.round()).abs() <= 1e-5 * (1.0 + q) { as_int(q.round()) } else { 999_999_999 }])
                }
                Out::Num(y) => mk("num", &[as_int(*y)]),
                Out::None => mk("none", &[]),
                _ => mk("panic", &[]),
            };
            out.push(obj(&[("op", s(op)), ("n", n(nn as i64)), ("d", n(d)), ("s", ints(&[s1, s2])), ("p", ints(&p)), ("res", res)]));
            made += 1;
        }
    }
}
