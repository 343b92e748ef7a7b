//! Replays QuatMachine behaviours on Quat/DualQuat and records histories of its own.
use crate::json::*;
use crate::util::*;
use mazth::dualquat::DualQuat;
use mazth::mat::*;
use mazth::quat::Quat;

macro_rules! machine {
    ($name:ident, $T:tt) => {
        #[derive(Clone)]
        pub struct $name {
            pub reg: [Option<Quat<$T>>; 3],
            units: bool,
            raw: bool,
            k: f64,
        }
        impl $name {
            /// units: registers stand for unit quaternions; raw: construct through the library
            pub fn new(units: bool, raw: bool, f: i64) -> Self {
                $name { reg: [None; 3], units, raw, k: fr(f, 1) }
            }
            fn q(&self, p: &[f64]) -> Quat<$T> {
                let l = if self.units { p.iter().map(|x| x * x).sum::<f64>().sqrt() } else { 1.0 };
                let k = if self.units { 1.0 } else { self.k };
                let v: Vec<$T> = p.iter().map(|x| (x * k / l) as $T).collect();
                if self.raw {
                    Quat::<$T>::init_from_vals_raw(v[0], v[1], v[2], v[3])
                } else {
                    Quat { _x: v[0], _y: v[1], _z: v[2], _w: v[3] }
                }
            }
            fn parts(q: &Quat<$T>) -> Vec<f64> {
                vec![q._x as f64, q._y as f64, q._z as f64, q._w as f64]
            }
            fn vec3(&self, p: &[f64]) -> Mat3x1<$T> {
                Mat3x1 { _val: [(p[0] * self.k) as $T, (p[1] * self.k) as $T, (p[2] * self.k) as $T] }
            }
            fn entries(m: &Mat4<$T>) -> Out {
                let mut r = vec![];
                for i in 0..4 {
                    for j in 0..4 {
                        r.push(m._val[if m._is_row_major { i * 4 + j } else { i + j * 4 }] as f64);
                    }
                }
                Out::Mat(m._is_row_major, r)
            }
            pub fn value(&self, r: usize) -> Vec<f64> {
                self.reg[r].as_ref().map_or(vec![], Self::parts)
            }
            pub fn hold(&mut self, r: usize, v: &[f64]) {
                self.reg[r] = Some(Quat { _x: v[0] as $T, _y: v[1] as $T, _z: v[2] as $T, _w: v[3] as $T });
            }
            pub fn step(&mut self, op: &str, d: usize, sr: &[i64], p: &[f64]) -> Out {
                let a = self.reg[sr[0] as usize - 1];
                let b = self.reg[sr[1] as usize - 1];
                let v3 = |m: Mat3x1<$T>| Out::Vec(m._val.iter().map(|x| *x as f64).collect());
                let res: Result<Result<Quat<$T>, Out>, String> = guard(|| match op {
                    "init" => Ok(self.q(p)),
                    "one" => Ok(if d % 2 == 0 { Quat::<$T>::default() } else { Quat::<$T>::init() }),
                    "conj" => Ok(a.unwrap().conjugate()),
                    "neg" => Ok(a.unwrap().negate()),
                    "scale" => Ok(a.unwrap().scale(p[0] as $T)),
                    "add" => Ok(a.unwrap().add(b.unwrap())),
                    "minus" => Ok(a.unwrap().minus(b.unwrap())),
                    "mul" => Ok(a.unwrap().mul(b.unwrap())),
                    "trans" => Ok(Quat::<$T>::init_from_translation(self.vec3(p))),
                    "len2" => Err(Out::Num(a.unwrap().length_squared() as f64)),
                    "len" => Err(Out::Num(a.unwrap().length() as f64)),
                    "inv" => Err(Out::Vec(Self::parts(&a.unwrap().inverse()))),
                    "norm" => Err(Out::Vec(Self::parts(&a.unwrap().normalize()))),
                    "inorm" => {
                        let v: Vec<$T> = p.iter().map(|x| (x * self.k) as $T).collect();
                        Err(Out::Vec(Self::parts(&Quat::<$T>::init_from_vals_normalize(v[0], v[1], v[2], v[3]))))
                    }
                    "raw" => {
                        let v: Vec<$T> = p.iter().map(|x| (x * self.k) as $T).collect();
                        Err(Out::Vec(Self::parts(&Quat::<$T>::init_from_vals_raw(v[0], v[1], v[2], v[3]))))
                    }
                    "autow" => {
                        let v: Vec<$T> = p.iter().map(|x| (x / p[3]) as $T).collect();
                        Err(Out::Vec(Self::parts(&Quat::<$T>::init_from_vals_auto_w(v[0], v[1], v[2]))))
                    }
                    "dual" => {
                        let (x, y) = (a.unwrap(), b.unwrap());
                        let q = DualQuat::<$T>::init(x, y);
                        let got: Vec<f64> = Self::parts(&q._rot).into_iter().chain(Self::parts(&q._tra)).collect();
                        let want: Vec<f64> = Self::parts(&x).into_iter().chain(Self::parts(&y)).collect();
                        Err(Out::Bool(got == want))
                    }
                    "rot" => Err(v3(a.unwrap().rotate_vector(self.vec3(p)))),
                    "rotm" => Err(Self::entries(&a.unwrap().to_rotation_matrix(p[0] != 0.0))),
                    "tmat" => Err(Self::entries(&a.unwrap().to_translation_matrix(p[0] != 0.0))),
                    "mirror" => Err(v3(a.unwrap().reflection_in_plane(self.vec3(p)))),
                    "ortho" => Err(v3(a.unwrap().orthogonal_component_of_plane(self.vec3(p)))),
                    "inplane" => Err(v3(a.unwrap().parallel_component_of_plane(self.vec3(p)))),
                    _ => panic!("HARNESS: op {}", op),
                });
                match res {
                    Err(m) => Out::Panic(m),
                    Ok(Err(o)) => o,
                    Ok(Ok(q)) => {
                        self.reg[d] = Some(q);
                        Out::Vec(Self::parts(&q))
                    }
                }
            }
        }
    };
}
machine!(Qf, f32);
machine!(Qd, f64);

fn check(o: &Out, c: &J, f: i64, tol: f64, abs: f64) -> Result<(), String> {
    let e = c.get("exp");
    let k = e.get("k").str();
    let p = c.get("p").nums();
    match (k, o) {
        ("panic", _) => judge(o, e, f, Tol { exact: tol, rat: tol, abs }),
        ("dual", Out::Bool(true)) => Ok(()),
        ("dual", Out::Bool(false)) => Err("parts of the dual quaternion differ from what was given".into()),
        ("autow", Out::Vec(v)) => {
            let (num, d) = (e.get("num").nums(), e.get("den").nums()[0]);
            near_abs(&v[0..3], &[num[0] / d, num[1] / d, num[2] / d], tol)?;
            if !(v[3] <= 0.0) {
                return Err(format!("scalar part {} is positive", v[3]));
            }
            near_abs(&[v[3] * v[3]], &[num[3] / (d * d)], tol)
        }
        ("mat", Out::Mat(rm, v)) | ("tmat", Out::Mat(rm, v)) => {
            if *rm != (p[0] == 1.0) {
                return Err(format!("storage order flag {}, requested {}", rm, p[0]));
            }
            let (num, den) = (e.get("num").nums(), e.get("den").nums());
            for i in 0..16 {
                // in a translation matrix only the last column carries the frame
                let moves = k == "tmat" && i % 4 == 3 && i < 12;
                let w = num[i] / den[i] * if moves { fr(f, 1) } else { 1.0 };
                let t = if moves { tol * w.abs() } else { tol };
                if !((v[i] - w).abs() <= t) {
                    return Err(format!("entry ({},{}) is {}, expected {}", i / 4, i % 4, v[i], w));
                }
            }
            Ok(())
        }
        ("vec", Out::Vec(v)) => {
            let (num, den) = (e.get("num").nums(), e.get("den").nums());
            let sh = fr(f, e.get("deg").int());
            let want: Vec<f64> = num.iter().zip(&den).map(|(a, b)| a / b * sh).collect();
            let m = want.iter().fold(e.get("ref").num() * sh, |a, b| a.max(b.abs()));
            near_abs(v, &want, (tol * m).max(abs))
        }
        _ => judge(o, e, f, Tol { exact: tol, rat: tol, abs }),
    }
}

/// Magnitude of what a call adds up, from its operands.
fn magnitude(op: &str, a: &[f64], b: &[f64], p: &[f64]) -> f64 {
    let m = |v: &[f64]| v.iter().fold(0f64, |x, y| x.max(y.abs()));
    match op {
        "add" | "minus" => m(a) + m(b),
        "mul" => 4.0 * m(a) * m(b),
        "scale" => m(a) * p[0].abs(),
        _ => 0.0,
    }
}

pub fn replay(hist: &[Vec<J>], suite: &str, rep: &mut Report) {
    let units = suite == "Q02" || suite == "Q06";
    for h in hist {
        rep.begin();
        let f = h[0].get("f").int();
        let given: &[&str] = if units { &["rot", "mirror", "ortho", "inplane"] } else { &["init", "inorm", "trans", "raw"] };
        let lens: Vec<f64> = h.iter().filter(|c| given.contains(&c.get("op").str())).map(|c| length(&c.get("p").nums())).filter(|l| *l > 0.0).collect();
        for (double, odd) in runs(f, &lens, rep.histories as usize) {
            set_odd(odd);
            // rotations and reflections are never exact; the others are under a dyadic unit
            let reset = odd != 1.0 && !units;
            let mut md = Qd::new(units, suite == "Q08", f);
            let mut mf = Qf::new(units, suite == "Q08", f);
            let tol = if reset {
                slack(double)
            } else if double {
                1e-12
            } else if units {
                5e-5
            } else {
                1e-5
            };
            for c in h {
                context(format!("{}", c));
                let (op, d, sr, p) = (c.get("op").str(), c.get("d").us() - 1, c.get("s").ints(), args(c.get("op").str(), &c.get("p").nums(), f));
                let val = |r: i64| -> Vec<f64> { if double { md.value(r as usize - 1) } else { mf.value(r as usize - 1) } };
                let abs = if reset { slack(double) * magnitude(op, &val(sr[0]), &val(sr[1]), &p) } else { 0.0 };
                let (bd, bf) = (md.clone(), mf.clone());
                let o = if double { md.step(op, d, &sr, &p) } else { mf.step(op, d, &sr, &p) };
                rep.steps += 1;
                rep.compared += 1;
                rep.keep(&o, c, || {
                    let (op, sr, p) = (op.to_string(), sr.clone(), p.clone());
                    move || if double { bd.clone().step(&op, d, &sr, &p) } else { bf.clone().step(&op, d, &sr, &p) }
                });
                if let Err(w) = check(&o, c, f, tol, abs) {
                    rep.fail(&w, if double { "f64" } else { "f32" }, c);
                    break;
                }
                let e = c.get("exp");
                if reset && matches!(op, "init" | "one" | "conj" | "neg" | "scale" | "add" | "minus" | "mul" | "trans") {
                    let u = fr(f, e.get("deg").int());
                    let v: Vec<f64> = e.get("num").nums().iter().zip(&e.get("den").nums()).map(|(a, b)| a / b * u).collect();
                    md.hold(d, &v);
                    mf.hold(d, &v);
                }
            }
        }
    }
    set_odd(1.0);
}

/// integer next to x, or a marker when x is not near one
fn round(x: f64) -> i64 {
    if (x - x.round()).abs() <= 1e-6 * (1.0 + x.abs()) && x.abs() < 1e9 {
        x.round() as i64
    } else {
        999_999_999
    }
}

pub fn record(suite: &str, seed: u64, count: usize, out: &mut Vec<J>) {
    let mut r = Rng::new(seed);
    let units = suite == "Q02" || suite == "Q06";
    let ops: &[&str] = match suite {
        "Q01" => &["mul", "mul", "mul", "add", "minus", "scale", "neg", "conj", "len", "len2", "inv", "one", "init", "zero"],
        "Q02" => &["rot", "rot", "rotm", "mul", "mul", "conj", "init"],
        "Q06" => &["mirror", "ortho", "inplane", "init"],
        "Q07" => &["trans", "tmat"],
        "Q08" => &["init", "norm", "inorm", "raw", "autow"],
        _ => panic!("HARNESS: suite"),
    };
    let n2 = |v: &[i64]| v.iter().map(|x| x * x).sum::<i64>();
    while out.len() < count {
        out.push(obj(&[("op", s("start")), ("d", n(1)), ("s", ints(&[1, 1])), ("p", ints(&[])), ("res", obj(&[("k", s("start"))]))]));
        let mut m = Qd::new(units, suite == "Q08", 0);
        // the integers the registers stand for, read back from the library where it holds them exactly
        let mut cur: [Option<Vec<i64>>; 3] = [None, None, None];
        for _ in 0..r.range(5, 25) {
            let mut op = *r.pick(ops);
            let mut d = r.range(1, 3);
            let (mut s1, mut s2) = (r.range(1, 3), r.range(1, 3));
            let (a, b) = (cur[s1 as usize - 1].clone(), cur[s2 as usize - 1].clone());
            let big = |x: &Option<Vec<i64>>| x.as_ref().map_or(1 << 20, |y| y.iter().map(|z| z.abs()).max().unwrap());
            let two = matches!(op, "mul" | "add" | "minus");
            let fresh = matches!(op, "init" | "zero" | "one" | "inorm" | "raw" | "autow" | "trans");
            let ok = fresh
                || match op {
                    "mul" => a.is_some() && b.is_some() && 4 * big(&a).saturating_mul(big(&b)) <= if units { 30 } else { 1500 },
                    "add" | "minus" => big(&a) + big(&b) <= 1500,
                    "scale" => big(&a) <= 300,
                    _ => a.is_some(),
                };
            if !ok {
                op = if suite == "Q07" { "trans" } else { "init" };
            }
            let q = |r: &mut Rng| -> Vec<i64> {
                let w = if units { 3 } else { 12 };
                let mut v: Vec<i64> = (0..4).map(|_| if r.below(4) == 0 { 0 } else { r.range(-w, w) }).collect();
                if suite == "Q06" {
                    v[3] = 0;
                }
                if n2(&v) == 0 {
                    v[1] = 1;
                }
                v
            };
            let p: Vec<i64> = match op {
                "init" | "inorm" | "raw" => q(&mut r),
                "zero" => vec![0; 4],
                "scale" => vec![r.range(-5, 5)],
                "rot" | "mirror" | "ortho" | "inplane" | "trans" => (0..3).map(|_| r.range(-15, 15)).collect(),
                "rotm" | "tmat" => vec![r.range(0, 1), 0, 0, 0],
                "autow" => loop {
                    let v: Vec<i64> = (0..4).map(|i| if i < 3 { r.range(-9, 9) } else { r.range(3, 16) }).collect();
                    if n2(&v[0..3]) <= v[3] * v[3] {
                        break v;
                    }
                },
                _ => vec![],
            };
            if op == "zero" {
                op = "init";
            }
            if matches!(op, "init" | "trans" | "raw" | "inorm" | "autow") {
                s1 = d;
                s2 = d;
            } else if !two {
                s2 = s1;
            }
            if op == "one" {
                d = s1;
            }
            let nn = a.as_ref().map_or(1, |v| n2(v)) as f64;
            let mut pf: Vec<f64> = p.iter().map(|x| *x as f64).collect();
            if units && matches!(op, "rot" | "mirror" | "ortho" | "inplane") {
                pf = pf.iter().map(|x| x * nn).collect();
            }
            let o = m.step(op, d as usize - 1, &[s1, s2], &pf);
            let mk = |k: &str, v: &[i64]| obj(&[("k", s(k)), ("num", ints(v))]);
            let sq = |v: &Vec<f64>, l: f64| v.iter().map(|x| round(x * x.abs() * l)).collect::<Vec<_>>();
            let res = match (&o, op) {
                (Out::Vec(v), "init" | "conj" | "mul") if units => {
                    let src = match op {
                        "init" => p.clone(),
                        "conj" => { let w = a.clone().unwrap(); vec![-w[0], -w[1], -w[2], w[3]] }
                        _ => {
                            let l = ((n2(a.as_ref().unwrap()) * n2(b.as_ref().unwrap())) as f64).sqrt();
                            v.iter().map(|x| round(x * l)).collect()
                        }
                    };
                    let l = n2(&src) as f64;
                    cur[d as usize - 1] = Some(src);
                    mk("unit", &sq(v, l))
                }
                (Out::Vec(v), "norm") => mk("unit", &sq(v, nn)),
                (Out::Vec(v), "inorm") => mk("unit", &sq(v, n2(&p) as f64)),
                (Out::Vec(v), "autow") => {
                    let d = p[3] as f64;
                    mk("autow", &[round(v[0] * d), round(v[1] * d), round(v[2] * d), round(v[3] * v[3].abs() * d * d)])
                }
                (Out::Vec(v), "inv") => mk("vec", &v.iter().map(|x| round(x * nn)).collect::<Vec<_>>()),
                (Out::Vec(v), "trans") => {
                    let w: Vec<i64> = v.iter().map(|x| as_int(x * 2.0)).collect();
                    cur[d as usize - 1] = Some(w.clone());
                    mk("vec", &w)
                }
                (Out::Vec(v), _) if units || op == "raw" => mk("vec", &v.iter().map(|x| round(*x)).collect::<Vec<_>>()),
                (Out::Vec(v), _) => {
                    let w: Vec<i64> = v.iter().map(|x| as_int(*x)).collect();
                    cur[d as usize - 1] = Some(w.clone());
                    mk("vec", &w)
                }
                (Out::Mat(rm, v), _) => {
                    let l = if op == "rotm" { nn } else { 1.0 };
                    let mut w: Vec<i64> = v.iter().map(|x| round(x * l)).collect();
                    if *rm != (p[0] == 1) {
                        w[0] = 999_999_999;
                    }
                    mk(if op == "tmat" { "tmat" } else { "mat" }, &w)
                }
                (Out::Num(x), "len") => mk("sqrt", &[round(x * x)]),
                (Out::Num(x), _) => mk("num", &[as_int(*x)]),
                _ => mk("panic", &[]),
            };
            out.push(obj(&[("op", s(op)), ("d", n(d)), ("s", ints(&[s1, s2])), ("p", ints(&p)), ("res", res)]));
        }
    }
}
