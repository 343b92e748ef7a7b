//! Replays MatMachine behaviours on Mat3/Mat4 and records histories of its own.
use crate::json::*;
use crate::util::*;
use mazth::mat::*;

macro_rules! machine {
    ($name:ident, $M:ident, $V:ident, $R:ident, $N:expr, $T:tt, $mulv:ident, $vmul:ident, $block:expr) => {
        #[derive(Clone)]
        pub struct $name {
            reg: [Option<$M<$T>>; 2],
            api: bool,
        }
        impl $name {
            pub fn new(api: bool) -> Self {
                $name { reg: [None, None], api }
            }
            fn make(&self, l: &[f64], rm: bool) -> $M<$T> {
                let mut a = [0 as $T; $N * $N];
                for i in 0..$N * $N {
                    a[i] = l[i] as $T;
                }
                if self.api {
                    $M::<$T>::init(a, rm)
                } else {
                    let mut v = a;
                    if !rm {
                        for i in 0..$N {
                            for j in 0..$N {
                                v[i + j * $N] = a[i * $N + j];
                            }
                        }
                    }
                    $M { _val: v, _is_row_major: rm }
                }
            }
            /// entries row by row, read from the storage through the flag
            fn raw(m: &$M<$T>) -> Vec<f64> {
                let mut r = vec![];
                for i in 0..$N {
                    for j in 0..$N {
                        r.push(m._val[if m._is_row_major { i * $N + j } else { i + j * $N }] as f64);
                    }
                }
                r
            }
            fn out(&self, m: &$M<$T>) -> Out {
                Out::Mat(m._is_row_major, Self::raw(m))
            }
            /// entries row by row, read through the accessors; they must agree with the storage
            fn reads(m: &mut $M<$T>) -> Result<(), String> {
                let raw = Self::raw(m);
                for i in 0..$N {
                    for j in 0..$N {
                        let a = m.index(i as u64, j as u64) as f64;
                        let b = *m.index_mut(i as u64, j as u64) as f64;
                        if a != raw[i * $N + j] || b != raw[i * $N + j] {
                            return Err(format!("entry ({},{}) reads {} / {}, stored as {}", i, j, a, b, raw[i * $N + j]));
                        }
                    }
                }
                if m.size() != Some($N * $N) {
                    return Err(format!("size {:?}", m.size()));
                }
                Ok(())
            }
            /// puts a matrix with these entries into a register
            pub fn hold(&mut self, d: usize, rm: bool, l: &[f64]) {
                let v = self.make(l, rm);
                self.reg[d] = Some(v);
            }
            pub fn step(&mut self, c: &J, f: i64) -> Out {
                let op = c.get("op").str();
                let d = c.get("d").us() - 1;
                let sr = c.get("s").ints();
                let p = args(op, &c.get("p").nums(), f);
                // one object on both sides when the call names one register twice
                let regs = self.reg;
                let a = regs[sr[0] as usize - 1].as_ref();
                let b = regs[sr[1] as usize - 1].as_ref();
                let k = fr(f, 1);
                let opt = |x: Option<$M<$T>>| x;
                let vecarg = |p: &[f64]| {
                    let mut v = [0 as $T; $N];
                    for i in 0..$N {
                        v[i] = p[i] as $T;
                    }
                    v
                };
                let res: Result<Result<$M<$T>, Out>, String> = guard(|| match op {
                    "init" => Ok(self.make(&p[1..].iter().map(|x| x * k).collect::<Vec<_>>(), p[0] != 0.0)),
                    "iden" => Ok($M::<$T>::iden()),
                    "zero" => Ok($M::<$T>::default()),
                    "set" => {
                        let mut m = self.reg[d].unwrap();
                        let u = fr(f, c.get("exp").get("deg").int());
                        *m.index_mut(p[0] as u64, p[1] as u64) = (p[2] * u) as $T;
                        Ok(m)
                    }
                    "get" => Err(Out::Num(a.unwrap().index(p[0] as u64, p[1] as u64) as f64)),
                    "trace" => Err(Out::Num(a.unwrap().trace() as f64)),
                    "tr" => Ok(a.unwrap().transpose()),
                    "trs" => {
                        let mut m = *a.unwrap();
                        m.transpose_self();
                        Ok(m)
                    }
                    "mul" => opt(a.unwrap().mul(b.unwrap())).ok_or(Out::None),
                    "mulx" => match a.unwrap().mul(b.unwrap()) {
                        Some(m) => Err(Out::Mat(m._is_row_major, Self::raw(&m))),
                        None => Err(Out::None),
                    },
                    "plus" => opt(a.unwrap().plus(b.unwrap())).ok_or(Out::None),
                    "minus" => opt(a.unwrap().minus(b.unwrap())).ok_or(Out::None),
                    "mulel" => opt(a.unwrap().mul_elem(b.unwrap())).ok_or(Out::None),
                    "div" => opt(a.unwrap().div(b.unwrap())).ok_or(Out::None),
                    "cross" => opt(a.unwrap().cross(b.unwrap())).ok_or(Out::None),
                    "dot" => Err(a.unwrap().dot(b.unwrap()).map_or(Out::None, |x| Out::Num(x as f64))),
                    "scale" => opt(a.unwrap().scale(p[0] as $T)).ok_or(Out::None),
                    "norm" => opt(a.unwrap().normalize()).ok_or(Out::None),
                    "inv" | "invs" => opt(a.unwrap().inverse()).ok_or(Out::None),
                    "mulv" => {
                        let r = a.unwrap().$mulv(&$V { _val: vecarg(&p) });
                        Err(r.map_or(Out::None, |v| Out::Vec(v._val.iter().map(|x| *x as f64).collect())))
                    }
                    "vmul" => {
                        let r = ($R { _val: vecarg(&p) }).$vmul(a.unwrap());
                        Err(r.map_or(Out::None, |v| Out::Vec(v._val.iter().map(|x| *x as f64).collect())))
                    }
                    "block" => Err($block(a.unwrap())),
                    _ => panic!("HARNESS: unknown op {}", op),
                });
                match res {
                    Err(m) => Out::Panic(m),
                    Ok(Err(o)) => o,
                    Ok(Ok(m)) => {
                        // observations leave the registers alone
                        if !matches!(op, "div" | "norm" | "inv") {
                            self.reg[d] = Some(m);
                            if self.api {
                                if let Ok(Err(w)) = guard(|| Self::reads(self.reg[d].as_mut().unwrap())) {
                                    return Out::Panic(format!("accessor and storage disagree: {}", w));
                                }
                            }
                        }
                        self.out(&m)
                    }
                }
            }
        }
    };
}

fn noblock<A>(_: &A) -> Out {
    panic!("HARNESS: no block of a 3x3 matrix")
}
macro_rules! block4 {
    ($name:ident, $T:tt) => {
        fn $name(m: &Mat4<$T>) -> Out {
            let b: Mat3<$T> = m.submat_mat3();
            let mut r = vec![];
            for i in 0..3 {
                for j in 0..3 {
                    r.push(b._val[if b._is_row_major { i * 3 + j } else { i + j * 3 }] as f64);
                }
            }
            Out::Mat(b._is_row_major, r)
        }
    };
}
block4!(block4_32, f32);
block4!(block4_64, f64);
machine!(M3f, Mat3, Mat3x1, Mat1x3, 3, f32, mul_mat3x1, mul_mat3x3, noblock);
machine!(M3d, Mat3, Mat3x1, Mat1x3, 3, f64, mul_mat3x1, mul_mat3x3, noblock);
machine!(M4f, Mat4, Mat4x1, Mat1x4, 4, f32, mul_mat4x1, mul_mat4x4, block4_32);
machine!(M4d, Mat4, Mat4x1, Mat1x4, 4, f64, mul_mat4x1, mul_mat4x4, block4_64);

#[derive(Clone)]
pub enum Mach {
    A(M3f),
    B(M3d),
    C(M4f),
    D(M4d),
}
impl Mach {
    pub fn new(n: usize, double: bool, api: bool) -> Mach {
        match (n, double) {
            (3, false) => Mach::A(M3f::new(api)),
            (3, true) => Mach::B(M3d::new(api)),
            (4, false) => Mach::C(M4f::new(api)),
            _ => Mach::D(M4d::new(api)),
        }
    }
    pub fn hold(&mut self, d: usize, rm: bool, l: &[f64]) {
        match self {
            Mach::A(m) => m.hold(d, rm, l),
            Mach::B(m) => m.hold(d, rm, l),
            Mach::C(m) => m.hold(d, rm, l),
            Mach::D(m) => m.hold(d, rm, l),
        }
    }
    pub fn step(&mut self, c: &J, f: i64) -> Out {
        match self {
            Mach::A(m) => m.step(c, f),
            Mach::B(m) => m.step(c, f),
            Mach::C(m) => m.step(c, f),
            Mach::D(m) => m.step(c, f),
        }
    }
}

/// Magnitude of what a call adds up, from its operands; for an inverse from the operand and its determinant.
fn magnitude(op: &str, n: usize, a: &[f64], b: &[f64], p: &[f64], e: &J, unit: f64) -> f64 {
    let m = |v: &[f64]| v.iter().fold(0f64, |x, y| x.max(y.abs()));
    let k = n as f64;
    match op {
        "plus" | "minus" => m(a) + m(b),
        "mul" | "mulel" => k * m(a) * m(b),
        "mulv" | "vmul" => k * m(a) * m(p),
        "scale" => m(a) * p[0].abs(),
        "trace" => k * m(a),
        "inv" | "invs" => {
            // |det| in integers, and the bounds on a cofactor and on the determinant
            let x = m(a) / unit;
            let num = e.get("num").nums();
            if num.is_empty() {
                return 0.0;
            }
            let d = e.get("den").nums()[0].abs();
            let cof = 6.0 * x.powi(n as i32 - 1);
            (cof / d + m(&num) / d * 24.0 * x.powi(n as i32) / d) / unit
        }
        _ => 0.0,
    }
}

pub fn replay(hist: &[Vec<J>], api: bool, rep: &mut Report) {
    for h in hist {
        rep.begin();
        let f = h[0].get("f").int();
        let nn = h[0].get("n").us();
        // determinants (to the power 1/n) of what is inverted, otherwise largest entries
        let lens: Vec<f64> = h
            .iter()
            .filter_map(|c| {
                let e = c.get("exp");
                match c.get("op").str() {
                    "inv" | "invs" if e.get("k").str() == "mat" => Some(e.get("den").nums()[0].abs().powf(1.0 / nn as f64)),
                    "init" if !api => Some(c.get("p").nums()[1..].iter().fold(0f64, |x, y| x.max(y.abs()))),
                    _ => None,
                }
            })
            .filter(|l| *l > 0.0)
            .collect();
        for (double, odd) in runs(f, &lens, rep.histories as usize) {
            set_odd(odd);
            let exact = odd == 1.0;
            let mut m = Mach::new(nn, double, api);
            // what the registers stand for, in odd runs
            let mut val: [Vec<f64>; 2] = [vec![], vec![]];
            let mut deg = [0i64; 2];
            for c in h {
                context(format!("{}", c));
                let (op, sr, e) = (c.get("op").str(), c.get("s").ints(), c.get("exp"));
                let (x, y) = (sr[0] as usize - 1, sr[1] as usize - 1);
                // an exactly singular matrix is exact only under a dyadic unit
                if !exact && op == "inv" && e.get("k").str() == "none" {
                    continue;
                }
                // neither is what counts as negligible
                if !exact && matches!(op, "inv" | "invs") && e.get("k").str() == "mat" && e.get("den").nums()[0].abs() * fr(f, deg[x]).powi(nn as i32) < 1e-4 {
                    if op == "inv" {
                        continue;
                    }
                    break;
                }
                let b = if exact { 0.0 } else { magnitude(op, nn, &val[x], &val[y], &args(op, &c.get("p").nums(), f), e, fr(f, deg[x])) };
                let tol = if exact && double {
                    Tol { exact: 1e-12, rat: 1e-9, abs: 0.0 }
                } else if exact {
                    Tol { exact: 1e-5, rat: 2e-3, abs: 0.0 }
                } else {
                    Tol { exact: slack(double), rat: slack(double), abs: slack(double) * b }
                };
                let before = m.clone();
                let o = m.step(c, f);
                rep.steps += 1;
                rep.compared += 1;
                rep.keep(&o, c, || {
                    let c = c.clone();
                    move || before.clone().step(&c, f)
                });
                if let Err(w) = judge(&o, e, f, tol) {
                    rep.fail(&w, if double { "f64" } else { "f32" }, c);
                    break;
                }
                if !exact && e.get("k").str() == "mat" && !matches!(op, "div" | "norm" | "inv" | "block") {
                    let d = c.get("d").us() - 1;
                    deg[d] = e.get("deg").int();
                    let (num, den) = (e.get("num").nums(), e.get("den").nums());
                    val[d] = num.iter().zip(&den).map(|(a, b)| a / b * fr(f, deg[d])).collect();
                    m.hold(d, e.get("rm").bool(), &val[d]);
                }
            }
        }
    }
    set_odd(1.0);
}

/// Random histories of calls, in double precision on small integers, with what the code showed.
pub fn record(suite: &str, seed: u64, count: usize, out: &mut Vec<J>) {
    let mut r = Rng::new(seed);
    let ops: &[&str] = match suite {
        "A02" => &["set", "set", "tr", "trs", "trace", "get", "block", "init", "iden", "zero"],
        "A03" => &["mul", "mul", "mul", "mulx", "mulv", "vmul", "init", "iden"],
        "A04" => &["inv", "invs", "init"],
        "A05" => &["plus", "minus", "mulel", "scale", "init", "dot", "cross"],
        _ => panic!("HARNESS: suite"),
    };
    let mut made = 0;
    while made < count {
        let nn = r.range(3, 4) as usize;
        let mut m = Mach::new(nn, true, suite == "A02");
        out.push(obj(&[("op", s("start")), ("n", n(nn as i64)), ("d", n(1)), ("s", ints(&[1, 1])), ("p", ints(&[])), ("res", obj(&[("k", s("start"))]))]));
        made += 1;
        let mut cur: [Option<(bool, Vec<f64>)>; 2] = [None, None];
        let len = r.range(4, 30);
        let mut tt = 0;
        while tt < len && made < count {
            tt += 1;
            let mut op = *r.pick(ops);
            let mut d = r.range(1, 2);
            let s1 = r.range(1, 2);
            let s2 = r.range(1, 2);
            let (a, b) = (cur[s1 as usize - 1].clone(), cur[s2 as usize - 1].clone());
            let big = |x: &Option<(bool, Vec<f64>)>| x.as_ref().map_or(f64::INFINITY, |y| y.1.iter().fold(0f64, |p, q| p.max(q.abs())));
            let ok = match op {
                "init" | "iden" | "zero" => true,
                "set" => cur[d as usize - 1].is_some(),
                "block" => nn == 4 && a.is_some(),
                "mul" => a.is_some() && b.is_some() && a.as_ref().unwrap().0 == b.as_ref().unwrap().0 && big(&a) * big(&b) * nn as f64 <= 2000.0,
                "mulx" => a.is_some() && b.is_some() && a.as_ref().unwrap().0 != b.as_ref().unwrap().0,
                "dot" | "cross" => a.is_some() && b.is_some(),
                "mulel" => big(&a) * big(&b) <= 2000.0,
                "plus" | "minus" => big(&a) + big(&b) <= 2000.0,
                "scale" => big(&a) * 5.0 <= 2000.0,
                "inv" | "invs" => big(&a) <= 6.0,
                _ => a.is_some(),
            };
            if !ok {
                op = "init";
            }
            if op == "trs" {
                d = s1;
            }
            let p: Vec<i64> = match op {
                "init" => {
                    let uni = suite == "A04" && r.below(2) == 0;
                    let mut v = vec![r.range(0, 1)];
                    if uni {
                        // signed permutation with one shear: determinant 1 or -1
                        let sh = r.below(nn as u64) as usize;
                        let mut l = vec![0i64; nn * nn];
                        for i in 0..nn {
                            l[i * nn + (i + sh) % nn] = if r.below(2) == 0 { 1 } else { -1 };
                        }
                        let (x, y) = (r.below(nn as u64) as usize, r.below(nn as u64) as usize);
                        if x != y {
                            let q = r.range(-3, 3);
                            for j in 0..nn {
                                l[x * nn + j] += q * l[y * nn + j];
                            }
                        }
                        v.extend(l);
                    } else {
                        let w = if suite == "A04" { 2 } else { 9 };
                        v.extend((0..nn * nn).map(|_| r.range(-w, w)));
                    }
                    v
                }
                "set" => vec![r.range(0, nn as i64 - 1), r.range(0, nn as i64 - 1), r.range(-9, 9)],
                "get" => vec![r.range(0, nn as i64 - 1), r.range(0, nn as i64 - 1)],
                "scale" => vec![r.range(-5, 5)],
                "mulv" | "vmul" => (0..nn).map(|_| r.range(-9, 9)).collect(),
                _ => vec![],
            };
            let (s1, s2) = if op == "init" || op == "set" || op == "iden" || op == "zero" { (d, d) } else { (s1, s2) };
            let mut c = obj(&[("op", s(op)), ("n", n(nn as i64)), ("d", n(d)), ("s", ints(&[s1, s2])), ("p", ints(&p)), ("exp", obj(&[("deg", n(0))]))]);
            let is_inv = op == "inv" || op == "invs";
            if is_inv {
                if let J::Obj(mm) = &mut c {
                    mm.insert("op".into(), s("inv"));
                }
            }
            let mut o = m.step(&c, 0);
            // an inverse is observed first, and kept only when it is integral
            if op == "inv" || op == "invs" {
                op = "inv";
                if let Out::Mat(rm, v) = o.clone() {
                    let round: Vec<f64> = v.iter().map(|x| x.round()).collect();
                    if r.below(2) == 0 && v.iter().zip(&round).all(|(x, y)| (x - y).abs() < 1e-9) {
                        op = "invs";
                        o = Out::Mat(rm, round.clone());
                        let mut q = vec![if rm { 1.0 } else { 0.0 }];
                        q.extend(round);
                        m.step(&obj(&[("op", s("init")), ("d", n(d)), ("s", ints(&[d, d])), ("p", nums(&q))]), 0);
                    }
                }
                if let J::Obj(mm) = &mut c {
                    mm.insert("op".into(), s(op));
                }
            }
            let res = match &o {
                Out::Mat(rm, v) if op == "inv" => {
                    // fixed point, 1/1000
                    obj(&[("k", s("mat")), ("rm", J::Bool(*rm)), ("num", ints(&v.iter().map(|x| as_int((x * 1000.0).round())).collect::<Vec<_>>()))])
                }
                Out::Mat(rm, v) => {
                    let iv: Vec<i64> = v.iter().map(|x| as_int(*x)).collect();
                    if !matches!(op, "block") {
                        cur[d as usize - 1] = Some((*rm, v.clone()));
                    }
                    obj(&[("k", s("mat")), ("rm", J::Bool(*rm)), ("num", ints(&iv))])
                }
                Out::Vec(v) => obj(&[("k", s("vec")), ("rm", J::Bool(true)), ("num", ints(&v.iter().map(|x| as_int(*x)).collect::<Vec<_>>()))]),
                Out::Num(x) => obj(&[("k", s("num")), ("rm", J::Bool(true)), ("num", ints(&[as_int(*x)]))]),
                Out::None => obj(&[("k", s("none")), ("rm", J::Bool(true)), ("num", ints(&[]))]),
                _ => obj(&[("k", s("panic")), ("rm", J::Bool(true)), ("num", ints(&[]))]),
            };
            if let J::Obj(mm) = &mut c {
                mm.remove("exp");
                mm.insert("res".into(), res);
            }
            out.push(c);
            made += 1;
            // entries the specification would not follow end the history
            if cur.iter().flatten().any(|x| x.1.iter().any(|y| y.abs() > 2000.0 || *y != y.trunc())) {
                break;
            }
        }
    }
}
