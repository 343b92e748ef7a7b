//! Tolerance comparison of vectors and matrices, proximity test of the shapes.
use crate::json::*;
use crate::util::*;
use mazth::i_comparable::IComparableError;
use mazth::i_shape::IShape;
use mazth::mat::*;

const NAN: i64 = 1_000_000;
const INF: i64 = 2_000_000;

fn comps(v: &[i64], k: f64) -> Vec<f64> {
    v.iter().map(|x| if *x == NAN { f64::NAN } else if *x == INF { f64::INFINITY } else if *x == -INF { f64::NEG_INFINITY } else { *x as f64 * k }).collect()
}

/// the comparison asked in both orders
fn equal(kind: &str, double: bool, a: &[f64], b: &[f64], rma: bool, rmb: bool, tol: f64) -> Result<(bool, bool), String> {
    macro_rules! vecs {
        ($V:ident, $N:expr, $T:tt) => {{
            let (mut x, mut y) = ([0 as $T; $N], [0 as $T; $N]);
            for i in 0..$N {
                x[i] = a[i] as $T;
                y[i] = b[i] as $T;
            }
            let same = (0..$N).all(|i| x[i].to_bits() == y[i].to_bits());
            let (x, y) = ($V { _val: x }, $V { _val: y });
            guard(|| (x.is_equal(&y, tol as $T), y.is_equal(&x, tol as $T), if same { x.is_equal(&x, tol as $T) } else { None }))
        }};
    }
    macro_rules! mats {
        ($M:ident, $N:expr, $T:tt) => {{
            let (mut x, mut y) = ([0 as $T; $N * $N], [0 as $T; $N * $N]);
            for i in 0..$N {
                for j in 0..$N {
                    x[if rma { i * $N + j } else { i + j * $N }] = a[i * $N + j] as $T;
                    y[if rmb { i * $N + j } else { i + j * $N }] = b[i * $N + j] as $T;
                }
            }
            let same = rma == rmb && (0..$N * $N).all(|i| x[i].to_bits() == y[i].to_bits());
            let (x, y) = ($M { _val: x, _is_row_major: rma }, $M { _val: y, _is_row_major: rmb });
            guard(|| (x.is_equal(&y, tol as $T), y.is_equal(&x, tol as $T), if same { x.is_equal(&x, tol as $T) } else { None }))
        }};
    }
    let r = match (kind, double) {
        ("v2", true) => vecs!(Mat2x1, 2, f64),
        ("v2", false) => vecs!(Mat2x1, 2, f32),
        ("r2", true) => vecs!(Mat1x2, 2, f64),
        ("r2", false) => vecs!(Mat1x2, 2, f32),
        ("v3", true) => vecs!(Mat3x1, 3, f64),
        ("v3", false) => vecs!(Mat3x1, 3, f32),
        ("r3", true) => vecs!(Mat1x3, 3, f64),
        ("r3", false) => vecs!(Mat1x3, 3, f32),
        ("v4", true) => vecs!(Mat4x1, 4, f64),
        ("v4", false) => vecs!(Mat4x1, 4, f32),
        ("r4", true) => vecs!(Mat1x4, 4, f64),
        ("r4", false) => vecs!(Mat1x4, 4, f32),
        ("m3", true) => mats!(Mat3, 3, f64),
        ("m3", false) => mats!(Mat3, 3, f32),
        ("m4", true) => mats!(Mat4, 4, f64),
        ("m4", false) => mats!(Mat4, 4, f32),
        _ => panic!("HARNESS: kind {}", kind),
    }?;
    match r {
        (Some(p), Some(_), Some(z)) if p != z => Err(format!("equal to an identical copy: {}, to itself: {}", p, z)),
        (Some(p), Some(q), _) => Ok((p, q)),
        _ => Err("comparison gave no answer".into()),
    }
}

pub fn shape(kind: &str) -> Box<dyn IShape> {
    match kind {
        "point" => Box::new(mazth::point::Point3::init(&[1., 2., 3.])),
        "ray" => Box::new(mazth::ray::Ray3::init(&[1., 2., 3.], &[0., 1., 0.])),
        "sphere" => Box::new(mazth::sphere::Sphere::init(&[1., 2., 3.], 2.)),
        "plane" => Box::new(mazth::plane::Plane::init(&[1., 2., 3.], &[0., 1., 0.])),
        "box" => Box::new(mazth::rbox::RecBox::init(&[1., 2., 3.], 2.)),
        "line" => Box::new(mazth::line::Line3::init(&[1., 2., 3.], &[0., 1., 0.])),
        "prism" => Box::new(mazth::triprism::TriPrism::init(&[0., 0., 0., 1., 0., 0., 0., 1., 0.], 1.)),
        _ => panic!("HARNESS: shape {}", kind),
    }
}

pub fn replay(hist: &[Vec<J>], rep: &mut Report) {
    for h in hist {
        rep.begin();
        let mut sh: Option<Box<dyn IShape>> = None;
        for c in h {
            context(format!("{}", c));
            rep.steps += 1;
            let e = c.get("exp");
            if c.get("op").str() == "eq" {
                for double in [true, false] {
                    rep.compared += 1;
                    let k = pow2(c.get("f").int());
                    let want = e.get("b").bool();
                    let prec = if double { "f64" } else { "f32" };
                    match equal(c.get("kind").str(), double, &comps(&c.get("a").ints(), k), &comps(&c.get("b").ints(), k),
                        c.get("rma").bool(), c.get("rmb").bool(), c.get("tol").int() as f64 * k)
                    {
                        Err(m) => rep.fail(&m, prec, c),
                        Ok((p, q)) => {
                            if p != want || q != want {
                                rep.fail(&format!("a against b: {}, b against a: {}, expected {}", p, q, want), prec, c);
                            }
                        }
                    }
                }
                continue;
            }
            // unit 1e-7 while the shape has its default tolerance of one millionth, 2^f after
            let u = if e.get("def").bool() { 1e-7 } else { pow2(c.get("f").int()) };
            let p = c.get("p").nums();
            match c.get("op").str() {
                "vnew" => sh = Some(shape(c.get("shape").str())),
                "vset" => {
                    let s = sh.as_mut().unwrap();
                    if let Err(m) = guard(|| s.set_vicinity(p[0] * u)) {
                        rep.fail(&m, "f64", c);
                    }
                }
                "vtest" => {
                    rep.compared += 1;
                    let s = sh.as_ref().unwrap();
                    let want = e.get("b").bool();
                    match guard(|| (s.within_vicinity(p[0] * u, p[1] * u), s.within_vicinity(p[1] * u, p[0] * u))) {
                        Err(m) => rep.fail(&m, "f64", c),
                        Ok((x, y)) => {
                            if x != want || y != want {
                                rep.fail(&format!("got {} and swapped {}, expected {}", x, y, want), "f64", c);
                            }
                        }
                    }
                }
                o => panic!("HARNESS: op {}", o),
            }
        }
    }
}

const KINDS: [(&str, usize); 8] = [("v2", 2), ("r2", 2), ("v3", 3), ("r3", 3), ("v4", 4), ("r4", 4), ("m3", 9), ("m4", 16)];
const SHAPES: [&str; 7] = ["point", "ray", "sphere", "plane", "box", "line", "prism"];

pub fn record(seed: u64, count: usize, out: &mut Vec<J>) {
    let mut r = Rng::new(seed);
    while out.len() < count {
        out.push(obj(&[("op", s("start")), ("res", obj(&[("k", s("start"))]))]));
        if r.below(2) == 0 {
            for _ in 0..r.range(4, 20) {
                let (kind, sz) = *r.pick(&KINDS);
                let a: Vec<i64> = (0..sz).map(|_| r.range(-60, 60)).collect();
                let tol = r.range(-1, 9);
                let mut b: Vec<i64> = a.iter().map(|x| x + r.range(-tol.max(0), tol.max(0))).collect();
                let i = r.below(sz as u64) as usize;
                match r.below(4) {
                    0 => b[i] = a[i] + tol,
                    1 => b[i] = a[i] - tol - 1,
                    2 => b[i] = a[i] + tol + 1,
                    _ => {}
                }
                let mut a = a;
                if r.below(8) == 0 {
                    let j = r.below(sz as u64) as usize;
                    if r.below(2) == 0 {
                        a[j] = NAN
                    } else {
                        b[j] = *r.pick(&[NAN, NAN, INF, -INF])
                    }
                }
                let mat = kind.starts_with('m');
                let (rma, rmb) = if mat { if r.below(3) == 0 { (r.below(2) == 0, r.below(2) == 0) } else { let z = r.below(2) == 0; (z, z) } } else { (true, true) };
                let double = r.below(2) == 0;
                let (x, y, k) = match equal(kind, double, &comps(&a, 1.0), &comps(&b, 1.0), rma, rmb, tol as f64) {
                    Ok((p, q)) => (p, q, "bool"),
                    Err(_) => (false, false, "panic"),
                };
                out.push(obj(&[
                    ("op", s("eq")), ("kind", s(kind)), ("a", ints(&a)), ("b", ints(&b)), ("rma", J::Bool(rma)), ("rmb", J::Bool(rmb)), ("tol", n(tol)),
                    ("res", obj(&[("k", s(k)), ("b", J::Bool(x)), ("b2", J::Bool(y))])),
                ]));
            }
        } else {
            let mut sh = shape(r.pick(&SHAPES[..]));
            let mut cur = 10;
            let mut u = 1e-7;
            for _ in 0..r.range(5, 25) {
                if r.below(4) == 0 {
                    let e = r.range(-30, 30);
                    u = 1.0;
                    cur = e.abs();
                    let k = if guard(|| sh.set_vicinity(e as f64)).is_ok() { "ok" } else { "panic" };
                    out.push(obj(&[("op", s("vset")), ("p", ints(&[e])), ("res", obj(&[("k", s(k))]))]));
                } else {
                    let x = r.range(-50, 50);
                    let mut d = if r.below(2) == 0 { cur + r.range(-1, 1) } else { r.range(0, 40) };
                    if u < 1.0 && d == 10 {
                        d = 9; // the default tolerance is no binary fraction
                    }
                    let y = if r.below(2) == 0 { x + d } else { x - d };
                    let (b, k) = match guard(|| sh.within_vicinity(x as f64 * u, y as f64 * u)) {
                        Ok(b) => (b, "bool"),
                        Err(_) => (false, "panic"),
                    };
                    out.push(obj(&[("op", s("vtest")), ("p", ints(&[x, y])), ("res", obj(&[("k", s(k)), ("b", J::Bool(b))]))]));
                }
            }
        }
    }
}
