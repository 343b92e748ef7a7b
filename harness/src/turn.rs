//! Replays TurnMachine behaviours (axis-angle, logarithm and powers, interpolation) on Quat and
//! records histories of its own, abstracted to angles and logarithms.
use crate::json::*;
use crate::util::*;
use mazth::mat::Mat3x1;
use mazth::quat::Quat;
use std::f64::consts::PI;

const MIN: f64 = PI / 10800.0; // a minute of arc in radians
const DOUBLING: f64 = 6e6; // units of the logarithm to base 2 of a length

type Q4 = [f64; 4];
fn ham(a: Q4, b: Q4) -> Q4 {
    [
        a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
        a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
        a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3],
        a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2],
    ]
}
fn unit(v: &[f64]) -> Vec<f64> {
    let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    v.iter().map(|x| x / l).collect()
}
/// base * r * (cos a + n sin a), a in minutes
fn polar(base: &[f64], n: &[f64], a: f64, r: f64) -> Q4 {
    let (b, n) = (unit(base), unit(n));
    // exact values at the quarter turns
    let q = a.rem_euclid(21600.0);
    let (s, c) = if q == 0.0 { (0.0, 1.0) } else if q == 5400.0 { (1.0, 0.0) } else if q == 10800.0 { (0.0, -1.0) } else if q == 16200.0 { (-1.0, 0.0) } else { (q * MIN).sin_cos() };
    ham([b[0], b[1], b[2], b[3]], [n[0] * s * r, n[1] * s * r, n[2] * s * r, c * r])
}

macro_rules! machine {
    ($name:ident, $T:tt) => {
        #[derive(Clone)]
        pub struct $name {
            reg: [Option<Quat<$T>>; 3],
        }
        impl $name {
            fn mk(q: Q4) -> Quat<$T> {
                Quat { _x: q[0] as $T, _y: q[1] as $T, _z: q[2] as $T, _w: q[3] as $T }
            }
            fn parts(q: &Quat<$T>) -> Vec<f64> {
                vec![q._x as f64, q._y as f64, q._z as f64, q._w as f64]
            }
            fn put(&mut self, d: usize, q: Q4) {
                self.reg[d] = Some(Self::mk(q));
            }
            /// axis: as given to the library; for "back" the outcome is axis and angle
            fn call(&mut self, op: &str, d: usize, sr: &[i64], p: &[f64], axis: &[f64]) -> Out {
                let a = self.reg[sr[0] as usize - 1];
                let b = self.reg[sr[1] as usize - 1];
                let r: Result<Quat<$T>, Vec<f64>>;
                let g = guard(|| match op {
                    "make" => {
                        let ax = Mat3x1 { _val: [axis[0] as $T, axis[1] as $T, axis[2] as $T] };
                        Ok(if p[1] == 0.0 {
                            Quat::<$T>::init_from_axis_angle_degree((ax, (p[0] / 60.0) as $T))
                        } else {
                            Quat::<$T>::init_from_axis_angle_radian((ax, (p[0] * MIN) as $T))
                        })
                    }
                    "back" => {
                        let (x, w) = a.unwrap().to_axis_angle();
                        Err(vec![x._val[0] as f64, x._val[1] as f64, x._val[2] as f64, w as f64])
                    }
                    "ln" => Err(Self::parts(&a.unwrap().ln())),
                    "pow" | "pows" => Ok(a.unwrap().pow((p[0] / p[1]) as $T)),
                    "powadd" => {
                        let (x, y) = (a.unwrap().pow((p[0] / p[2]) as $T), a.unwrap().pow((p[1] / p[2]) as $T));
                        let z = ham([x._x as f64, x._y as f64, x._z as f64, x._w as f64], [y._x as f64, y._y as f64, y._z as f64, y._w as f64]);
                        Err(z.to_vec())
                    }
                    "slerp" | "slerps" => Ok(Quat::<$T>::interpolate_slerp(a.unwrap(), b.unwrap(), (p[0] / p[1]) as $T)),
                    "lerp" => {
                        let q = |i: usize| Quat { _x: p[i] as $T, _y: p[i + 1] as $T, _z: p[i + 2] as $T, _w: p[i + 3] as $T };
                        Err(Self::parts(&Quat::<$T>::interpolate_linear(q(0), q(4), (p[8] / p[9]) as $T)))
                    }
                    _ => panic!("HARNESS: op {}", op),
                });
                match g {
                    Err(m) => return Out::Panic(m),
                    Ok(x) => r = x,
                }
                match r {
                    Ok(q) => {
                        if matches!(op, "make" | "pows" | "slerps") {
                            self.reg[d] = Some(q);
                        }
                        Out::Vec(Self::parts(&q))
                    }
                    Err(v) => Out::Vec(v),
                }
            }
        }
    };
}
machine!(Td, f64);
machine!(Tf, f32);

const NUDGE: [f64; 8] = [2.3e-16, -2.3e-16, 1e-12, -1e-12, 1e-9, -1e-9, 1e-7, -1e-7];
fn nudge(i: usize, double: bool) -> f64 {
    let d = NUDGE[i];
    if double { d } else { d.signum() * d.abs().max(1.3e-7) }
}

/// polar angle of register r before the step, from the expectations of earlier steps
#[derive(Clone, Copy, Default)]
struct Known {
    a: f64,
    lr: f64,
    off: f64,
}

fn check(o: &Out, c: &J, know: &Known, double: bool) -> Result<(), String> {
    let eps = if double { 2.3e-16 } else { 1.2e-7 };
    let e = c.get("exp");
    let k = e.get("k").str();
    let v = match o {
        Out::Vec(v) => v.clone(),
        Out::Panic(m) => return Err(format!("panicked: {}", m)),
        _ => return Err("no result".into()),
    };
    let p = c.get("p").nums();
    if k == "vec" {
        return judge(o, e, 0, Tol { exact: 20.0 * eps * 20.0, rat: 20.0 * eps * 20.0, abs: 0.0 });
    }
    let (n, base) = (e.get("n").nums(), e.get("base").nums());
    let (ang, ad) = (e.get("a").nums(), e.get("ad").num());
    let r = (2f64).powf(e.get("lr").num() / e.get("ld").num() / DOUBLING);
    let sin0 = (know.a * MIN).sin().abs().max(1e-300);
    match k {
        "quat" => {
            let want = polar(&base, &n, ang[0] / ad, r);
            let amp = match c.get("op").str() {
                "pow" | "pows" => 16.0 * (1.0 + (p[0] / p[1]).abs()) * (1.0 + 1.0 / sin0) * (1.0 + know.lr.abs() / DOUBLING),
                "powadd" => 16.0 * (2.0 + (p[0] / p[2]).abs() + (p[1] / p[2]).abs()) * (1.0 + 1.0 / sin0) * (1.0 + know.lr.abs() / DOUBLING),
                "make" => 16.0 + (p[0] * MIN).abs(),
                _ => 16.0,
            };
            near_abs(&v, &want, (amp * eps + 2.0 * know.off) * r)
        }
        "ln" => {
            let want: Vec<f64> = unit(&n).iter().map(|x| x * ang[0] * MIN).collect();
            near_abs(&v[0..3], &want, 16.0 * eps * (1.0 + 1.0 / sin0))?;
            near_abs(&v[3..4], &[e.get("lr").num() / DOUBLING * 2f64.ln()], 16.0 * eps * (1.0 + know.lr.abs() / DOUBLING))
        }
        "turn" => {
            if !((v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt() - 1.0).abs().le(&(64.0 * eps)) {
                return Err(format!("axis {:?} is not a unit vector", &v[0..3]));
            }
            if !(v[3] >= -16.0 * eps && v[3] <= 2.0 * PI + 16.0 * eps) {
                return Err(format!("angle {} not within 0..2 pi", v[3]));
            }
            let (s, co) = (v[3] / 2.0).sin_cos();
            let got = [v[0] * s, v[1] * s, v[2] * s, co];
            let want = polar(&[0., 0., 0., 1.], &n, ang[0] / 2.0, 1.0);
            let neg: Vec<f64> = want.iter().map(|x| -x).collect();
            let sn = (ang[0] / 2.0 * MIN).sin().abs();
            let off = know.off + 8.0 * eps;
            let tol = if sn > 1e-2 { 8.0 * off / sn } else { 2e-6 + 4.0 * (2.0 * off).sqrt() };
            near_abs(&got, &want, tol).or_else(|_| near_abs(&got, &neg, tol)).map_err(|m| format!("axis and angle {:?} describe another rotation: {}", v, m))
        }
        "arc" => {
            let tight = e.get("b").bool();
            // distance of the two ends decides how well the arc is defined
            let so = (know.off * MIN).sin().abs();
            let tol = if tight { (16.0 * eps).max(16.0 * eps / (so * so)) } else if c.get("exp").get("a").nums().len() > 1 { 64.0 * eps } else { 5e-5f64.max(64.0 * eps) };
            let mut last = Ok(());
            for a in ang {
                let want = polar(&base, &n, a / ad, 1.0);
                let neg: Vec<f64> = want.iter().map(|x| -x).collect();
                last = near_abs(&v, &want, tol).or_else(|_| near_abs(&v, &neg, tol));
                if last.is_ok() {
                    return Ok(());
                }
            }
            last
        }
        _ => panic!("HARNESS: kind {}", k),
    }
}

pub fn replay(hist: &[Vec<J>], rep: &mut Report) {
    for h in hist {
        rep.begin();
        for double in [true, false] {
            let mut md = Td { reg: [None; 3] };
            let mut mf = Tf { reg: [None; 3] };
            let mut known = [Known::default(); 3];
            for c in h {
                context(format!("{}", c));
                rep.steps += 1;
                let (op, d, sr, p) = (c.get("op").str(), c.get("d").us() - 1, c.get("s").ints(), c.get("p").nums());
                let e = c.get("exp");
                if op == "polar" || op == "nudge" {
                    // made by the harness: the exact value, or slightly off unit length
                    let off = if op == "nudge" { nudge(p[0] as usize, double) } else { 0.0 };
                    let (a, lr) = (e.get("a").nums()[0], e.get("lr").num());
                    let q = polar(&e.get("base").nums(), &e.get("n").nums(), a, (2f64).powf(lr / DOUBLING) * (1.0 + off));
                    md.put(d, q);
                    mf.put(d, q);
                    known[d] = Known { a, lr, off: off.abs() };
                    continue;
                }
                // the axis is handed over at several lengths
                let n: Vec<f64> = if op == "make" {
                    let v = e.get("n").nums();
                    let l = length(&v);
                    let hh = h[0].get("h").us();
                    let sc = match hh % 5 {
                        0 => 1.0,
                        1 => 0.001,
                        2 => 250.0,
                        3 => 0.7e-9,
                        _ => (1.0 + [5e-3, -5e-4, 5e-5, -5e-6, 3e-7, -2e-9][hh / 5 % 6]) / l,
                    };
                    v.iter().map(|x| x * sc).collect()
                } else {
                    vec![]
                };
                let (bd, bf) = (md.clone(), mf.clone());
                let o = if double { md.call(op, d, &sr, &p, &n) } else { mf.call(op, d, &sr, &p, &n) };
                rep.keep(&o, c, || {
                    let (op, sr, p, n) = (op.to_string(), sr.clone(), p.clone(), n.clone());
                    move || if double { bd.clone().call(&op, d, &sr, &p, &n) } else { bf.clone().call(&op, d, &sr, &p, &n) }
                });
                let mut k = if op == "make" { Known::default() } else { known[sr[0] as usize - 1] };
                if e.get("k").str() == "arc" {
                    k = Known { a: 0.0, lr: 0.0, off: known[sr[1] as usize - 1].a - k.a };
                }
                rep.compared += 1;
                if let Err(w) = check(&o, c, &k, double) {
                    rep.fail(&w, if double { "f64" } else { "f32" }, c);
                    break;
                }
                if matches!(op, "make" | "pows" | "slerps") {
                    let ang = e.get("a").nums()[0] / e.get("ad").num();
                    let lr = e.get("lr").num() / e.get("ld").num();
                    known[d] = Known { a: ang, lr, off: 0.0 };
                    if op == "pows" {
                        // within rounding of the exact value; powers amplify rounding, so go on from that
                        let q = polar(&e.get("base").nums(), &e.get("n").nums(), ang, (2f64).powf(lr / DOUBLING));
                        md.put(d, q);
                        mf.put(d, q);
                    }
                }
            }
        }
    }
}

const BAD: i64 = 999_999_999;
/// angle on the circle (minutes, 0..21599) and log radius of a quaternion, or None when it is off the circle
fn abstr(base: &[f64], n: &[f64], v: &[f64], loose: bool) -> Option<(i64, i64)> {
    let b = unit(base);
    let n = unit(n);
    let q = ham([-b[0], -b[1], -b[2], b[3]], [v[0], v[1], v[2], v[3]]);
    let r = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    let s = q[0] * n[0] + q[1] * n[1] + q[2] * n[2];
    let rest: f64 = (0..3).map(|i| (q[i] - s * n[i]).abs()).sum();
    let lr = DOUBLING * r.log2();
    let a = s.atan2(q[3]) / MIN;
    let (tl, ta) = if loose { (f64::INFINITY, 1e-2) } else { (1e-3, 1e-4) };
    if !(rest <= 1e-7 * r) || !((lr - lr.round()).abs() <= tl) || !((a - a.round()).abs() <= ta) {
        return None;
    }
    // the straight-line branch of the interpolation is only nearly of unit length
    let lr = if loose && lr.abs() <= 500.0 { 0.0 } else { lr };
    Some(((a.round() as i64).rem_euclid(21600), lr.round() as i64))
}

pub fn record(suite: &str, seed: u64, count: usize, out: &mut Vec<J>) {
    let mut r = Rng::new(seed);
    while out.len() < count {
        let mut ax: Vec<i64> = (0..3).map(|_| r.range(-6, 6)).collect();
        if ax.iter().all(|x| *x == 0) {
            ax[2] = -3;
        }
        let mut base = vec![0, 0, 0, 1];
        if suite == "Q05" {
            base = (0..4).map(|_| r.range(-4, 4)).collect();
            if base.iter().all(|x| *x == 0) {
                base[0] = 1;
            }
        }
        let af: Vec<f64> = ax.iter().map(|x| *x as f64).collect();
        let bf: Vec<f64> = base.iter().map(|x| *x as f64).collect();
        let st = |op: &str, d: i64, sr: &[i64], p: &[i64], res: J| {
            obj(&[("op", s(op)), ("ax", ints(&ax)), ("base", ints(&base)), ("d", n(d)), ("s", ints(sr)), ("p", ints(p)), ("res", res)])
        };
        let mk = |k: &str, v: &[i64]| obj(&[("k", s(k)), ("n", ints(v))]);
        out.push(st("start", 1, &[1, 1], &[], mk("start", &[])));
        let mut m = Td { reg: [None; 3] };
        let mut cur: [Option<(i64, i64)>; 3] = [None; 3]; // what the registers are known to be
        for _ in 0..r.range(4, 20) {
            let d = r.range(1, 3);
            let (s1, s2) = (r.range(1, 3), r.range(1, 3));
            let a = cur[s1 as usize - 1];
            let b = cur[s2 as usize - 1];
            let ops: &[&str] = match suite {
                "Q03" => &["make", "back", "back", "polar"],
                "Q04" => &["polar", "ln", "pow", "pows", "pows"],
                _ => &["polar", "slerp", "slerps", "slerps", "lerp"],
            };
            let mut op = *r.pick(ops);
            let real = |x: Option<(i64, i64)>| x.map_or(true, |y| y.0 % 10800 == 0);
            let ok = match op {
                "make" | "polar" | "lerp" => true,
                "back" => a.is_some(),
                "slerp" | "slerps" => a.is_some() && b.is_some(),
                _ => !real(a),
            };
            if !ok {
                op = "polar";
            }
            if op == "polar" {
                let mut x = 60 * r.range(0, 359);
                if suite == "Q04" && x % 10800 == 0 {
                    x += 120;
                }
                let lr = if suite == "Q04" { *r.pick(&[0, 6_000_000, -6_000_000, 12_000_000, 18_000_000, -12_000_000, 2400, -12_000, 60_000, -36_000, 240_000, 6_060_000]) } else { 0 };
                m.put(d as usize - 1, polar(&bf, &af, x as f64, (2f64).powf(lr as f64 / DOUBLING)));
                cur[d as usize - 1] = Some((x, lr));
                out.push(st(op, d, &[d, d], &[x, lr], mk("quat", &[x, lr])));
                continue;
            }
            let p: Vec<i64> = match op {
                "make" => vec![2 * r.range(-20000, 20000), r.range(0, 1)],
                "pow" | "pows" => vec![r.range(-6, 6), *r.pick(&[1, 1, 2, 3, 4])],
                "slerp" | "slerps" => {
                    let q = *r.pick(&[1, 2, 3, 4, 5, 6, 10]);
                    vec![r.range(-1, q + 1), q]
                }
                "lerp" => {
                    let q = *r.pick(&[1, 2, 4, 8]);
                    (0..8).map(|_| r.range(-30, 30)).chain(vec![1, q]).collect()
                }
                _ => vec![],
            };
            let p = if op == "lerp" { let mut p = p; p[8] = r.range(-1, p[9] + 1); p } else { p };
            // only parameters whose exact result is on the grid of minutes
            let fold = |x: i64| { let y = x.rem_euclid(21600); if y <= 10800 { y } else { 21600 - y } };
            if op.starts_with("pow") {
                let (x, lr) = a.unwrap();
                if (fold(x) * p[0]) % p[1] != 0 || (lr * p[0]) % p[1] != 0 || (lr * p[0] / p[1]).abs() > 60_000_000 {
                    continue;
                }
                let z = fold(fold(x) * p[0] / p[1]);
                if op == "pows" && !(z >= 300 && z <= 10500) {
                    op = "pow";
                }
            }
            if op.starts_with("slerp") {
                let dd = (b.unwrap().0 - a.unwrap().0).rem_euclid(10800);
                let sh = if dd > 5400 { dd - 10800 } else { dd };
                if (sh * p[0].max(0).min(p[1])) % p[1] != 0 {
                    continue;
                }
                if op == "slerps" && (sh.abs() == 5400 || sh.abs() < 60) {
                    op = "slerp";
                }
            }
            let pf: Vec<f64> = p.iter().map(|x| *x as f64).collect();
            let one = matches!(op, "pow" | "pows" | "back" | "ln");
            let sr = if op == "make" { [d, d] } else if one { [s1, s1] } else { [s1, s2] };
            let o = m.call(op, d as usize - 1, &sr, &pf, &af);
            let v = match o {
                Out::Vec(v) => v,
                _ => {
                    out.push(st(op, d, &sr, &p, mk("panic", &[])));
                    break;
                }
            };
            let res = match op {
                "make" | "pow" | "pows" => {
                    let q = abstr(&bf, &af, &v, false);
                    if op != "pow" {
                        cur[d as usize - 1] = q;
                    }
                    q.map_or(mk("quat", &[BAD, BAD]), |x| mk("quat", &[x.0, x.1]))
                }
                "slerp" | "slerps" => {
                    let q = abstr(&bf, &af, &v, true);
                    if op == "slerps" {
                        cur[d as usize - 1] = q;
                    }
                    q.map_or(mk("arc", &[BAD]), |x| mk("arc", &[x.0 % 10800]))
                }
                "ln" => {
                    let nn = unit(&af);
                    let a = (v[0] * nn[0] + v[1] * nn[1] + v[2] * nn[2]) / MIN;
                    let rest: f64 = (0..3).map(|i| (v[i] - a * MIN * nn[i]).abs()).sum();
                    let lr = v[3] / 2f64.ln() * DOUBLING;
                    if rest <= 1e-7 && (a - a.round()).abs() <= 1e-4 && (lr - lr.round()).abs() <= 1e-3 {
                        mk("ln", &[a.round() as i64, lr.round() as i64])
                    } else {
                        mk("ln", &[BAD, BAD])
                    }
                }
                "back" => {
                    let nn = unit(&af);
                    let a = v[3] / MIN;
                    let dot = v[0] * nn[0] + v[1] * nn[1] + v[2] * nn[2];
                    let len = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
                    let i = a.round() as i64;
                    // within rounding of no turn at all the axis is arbitrary
                    if (len - 1.0).abs() > 1e-9 || !((a - a.round()).abs() <= 1e-2) {
                        mk("turn", &[BAD])
                    } else if i == 0 || i == 21600 {
                        mk("turn", &[i])
                    } else if (dot.abs() - 1.0).abs() <= 1e-9 {
                        mk("turn", &[if dot > 0.0 { i } else { -i }])
                    } else {
                        mk("turn", &[BAD])
                    }
                }
                _ => obj(&[("k", s("vec")), ("num", ints(&v.iter().map(|x| as_int(x * pf[9])).collect::<Vec<_>>()))]),
            };
            out.push(st(op, d, &sr, &p, res));
        }
    }
}
