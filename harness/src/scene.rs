//! Shapes: intersection queries, bounds, defining data, supports, convex overlap.
use crate::json::*;
use crate::util::*;
use mazth::i_shape::{IShape, ShapeType};
use mazth::intersect_gjk::query_intersect;
use mazth::mat::Mat3x1;

pub struct S {
    pub kind: String,
    pub p: Vec<f64>,
    pub sh: Box<dyn IShape>,
    /// what it was made with, and the tolerance given to it since
    how: How,
}
#[derive(Clone)]
struct How {
    kind: String,
    p: Vec<f64>,
    u: f64,
    g: i64,
    vic: Option<f64>,
}
impl How {
    fn make(&self) -> Result<S, String> {
        let mut x = make(&self.kind, &self.p, self.u, self.g)?;
        if let Some(v) = self.vic {
            x.sh.set_vicinity(v);
        }
        Ok(x)
    }
}
/// The answers a pair of shapes made anew gives.
fn anew(a: &How, b: &How, what: u8) -> Out {
    let (x, y) = match (a.make(), b.make()) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return Out::Panic("shape".into()),
    };
    match what {
        0 => match ask(&x, &y) {
            Q::Hit(v) => Out::Vec(v.to_vec()),
            Q::Miss => Out::None,
            Q::Odd(_) => Out::Bool(false),
            Q::Refused(m) => Out::Panic(m),
        },
        1 => match overlap(&x, &y) {
            Ok(v) if v != "panic" => Out::Bool(v == "hit"),
            _ => Out::Panic("refused".into()),
        },
        2 => guard(|| x.sh.get_bound().get_bound_data()[0..6].to_vec()).map_or_else(Out::Panic, Out::Vec),
        _ => guard(|| x.sh.get_shape_data()).map_or_else(Out::Panic, Out::Vec),
    }
}

fn sub(a: &[f64], b: &[f64]) -> [f64; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn cross(a: &[f64], b: &[f64]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: &[f64], b: &[f64]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}

/// almost, but not quite, one
const ALMOST: [f64; 6] = [5e-3, -5e-4, 5e-5, -5e-6, 3e-7, -2e-9];

/// factor on a direction d that leaves it the same direction
fn gauge(g: i64, d: &[f64]) -> f64 {
    match g {
        2 => pow2(-40),
        3 => pow2(40),
        4 => 0.7e-9,
        5 => 3.3e9,
        g if g >= 6 => (1.0 + ALMOST[g as usize % 6]) / norm(d),
        _ => 1.0,
    }
}

/// the shape with parameters p, lengths in units u, directions handed over at length g
pub fn make(kind: &str, p: &[f64], u: f64, g: i64) -> Result<S, String> {
    let q: Vec<f64> = p.iter().map(|x| x * u).collect();
    let v: Vec<f64> = if kind == "ray" || kind == "plane" { p[3..6].iter().map(|x| x * gauge(g, &p[3..6])).collect() } else { vec![] };
    let sh: Result<Box<dyn IShape>, String> = guard(|| -> Box<dyn IShape> {
        match kind {
            "point" => Box::new(mazth::point::Point3::init(&q[0..3])),
            "ray" => Box::new(mazth::ray::Ray3::init(&q[0..3], &v)),
            "sphere" => Box::new(mazth::sphere::Sphere::init(&q[0..3], q[3])),
            "plane" => Box::new(mazth::plane::Plane::init(&q[0..3], &v)),
            "box" => Box::new(mazth::rbox::RecBox::init(&q[0..3], q[3])),
            "line" => Box::new(mazth::line::Line3::init(&q[0..3], &q[3..6])),
            "prism" => {
                let nn = cross(&sub(&p[3..6], &p[0..3]), &sub(&p[6..9], &p[0..3]));
                Box::new(mazth::triprism::TriPrism::init(&q[0..9], p[9] * norm(&nn) / p[10] * u))
            }
            _ => panic!("HARNESS: shape {}", kind),
        }
    });
    let how = How { kind: kind.into(), p: p.to_vec(), u, g, vic: None };
    Ok(S { kind: kind.into(), p: p.to_vec(), sh: sh?, how })
}

fn kind_of(t: ShapeType) -> &'static str {
    match t {
        ShapeType::Point => "point",
        ShapeType::Ray => "ray",
        ShapeType::Sphere => "sphere",
        ShapeType::Plane => "plane",
        ShapeType::Box => "box",
        ShapeType::Line => "line",
        ShapeType::TriPrism => "prism",
        _ => "other",
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Q {
    Hit([f64; 3]),
    Miss,
    Odd(&'static str),
    Refused(String),
}

impl Q {
    fn verdict(&self) -> &'static str {
        match self {
            Q::Hit(_) => "hit",
            Q::Miss => "miss",
            Q::Odd(_) => "odd",
            Q::Refused(_) => "panic",
        }
    }
}

pub fn ask(a: &S, b: &S) -> Q {
    match guard(|| a.sh.get_intersect(&*b.sh)) {
        Err(m) => Q::Refused(m),
        Ok((true, Some(x))) => Q::Hit([x[0], x[1], x[2]]),
        Ok((false, None)) => Q::Miss,
        Ok((true, None)) => Q::Odd("yes without a location"),
        Ok((false, Some(_))) => Q::Odd("no with a location"),
    }
}

fn overlap(a: &S, b: &S) -> Result<&'static str, String> {
    match guard(|| query_intersect(&*a.sh, &*b.sh)) {
        Err(_) => Ok("panic"),
        Ok(Some(true)) => Ok("hit"),
        Ok(Some(false)) => Ok("miss"),
        Ok(None) => Err("no answer".into()),
    }
}

/// largest parameter: the size against which rounding is measured
fn size(s: &[&S]) -> f64 {
    1.0 + s.iter().flat_map(|x| x.p.iter()).fold(0f64, |a, b| a.max(b.abs()))
}

/// o + d * (p + g sqrt(q)) / den
fn place(l: &J) -> [f64; 3] {
    let (o, d) = (l.get("o").nums(), l.get("d").nums());
    let den = l.get("den").num();
    let den = if l.get("rt").int() == 1 { den.sqrt() } else { den };
    let k = l.get("p").num() + if l.get("g").int() != 0 { l.get("g").num() * l.get("q").num().sqrt() } else { 0.0 };
    [(o[0] * den + d[0] * k) / den, (o[1] * den + d[1] * k) / den, (o[2] * den + d[2] * k) / den]
}

fn at_one_of(x: &[f64; 3], locs: &[J], u: f64, m: f64, tol: f64) -> Result<(), String> {
    let ok = locs.is_empty()
        || locs.iter().any(|l| {
            let w = place(l);
            let m = w.iter().fold(m, |a, b| a.max(b.abs()));
            (0..3).all(|i| (x[i] - w[i] * u).abs() <= tol * m * u)
        });
    if ok {
        Ok(())
    } else {
        Err(format!("location {:?}, expected {:?}", x, locs.iter().map(|l| { let w = place(l); [w[0] * u, w[1] * u, w[2] * u] }).collect::<Vec<_>>()))
    }
}

/// x behind every facet, up to tol
fn behind(x: &[f64; 3], fac: &[J], u: f64, tol: f64) -> Result<(), String> {
    for f in fac {
        let (n, b) = (f.get("n").nums(), f.get("b").nums());
        let d = (0..3).map(|i| n[i] * (x[i] - b[i] * u)).sum::<f64>() - f.get("q").num() / f.get("m").num() * u;
        if !(d <= tol * norm(&n)) {
            return Err(format!("{:?} is outside the solid by {}", x, d / norm(&n)));
        }
    }
    Ok(())
}

fn judge_query(q: &Q, e: &J, u: f64, m: f64) -> Result<(), String> {
    let want = e.get("verdict").str();
    match (q, want) {
        (Q::Odd(w), _) => return Err(w.to_string()),
        (Q::Refused(_), "panic") | (Q::Refused(_), "missorpanic") => return Ok(()),
        (Q::Refused(w), _) => return Err(format!("refused: {}", w)),
        (Q::Miss, "miss") | (Q::Miss, "missorpanic") | (Q::Miss, "either") => return Ok(()),
        (Q::Hit(_), "hit") | (Q::Hit(_), "either") => (),
        _ => return Err(format!("answered {:?}, expected {}", q, want)),
    }
    if let Q::Hit(x) = q {
        if !x.iter().all(|c| c.is_finite()) {
            return Err(format!("location {:?}", x));
        }
        // where contact is exactly grazing, half of the digits are lost
        at_one_of(x, e.get("locs").arr(), u, m, if want == "either" { 1e-6 } else { 1e-9 })?;
        if e.has("seg") {
            let tol = 2e-6 + 1e-9 * m * u;
            behind(x, e.get("fac").arr(), u, tol)?;
            let sg = e.get("seg").arr();
            let (a, b) = (sg[0].nums(), sg[1].nums());
            let (d, w) = (sub(&b, &a), [x[0] / u - a[0], x[1] / u - a[1], x[2] / u - a[2]]);
            let dd = dot(&d, &d);
            let k = if dd == 0.0 { 0.0 } else { (dot(&w, &d) / dd).max(0.0).min(1.0) };
            let off = sub(&w, &[d[0] * k, d[1] * k, d[2] * k]);
            if !(norm(&off) * u <= tol) {
                return Err(format!("location {:?} is off the segment by {}", x, norm(&off) * u));
            }
        }
    }
    Ok(())
}

fn state(s: &S) -> (Vec<f64>, Vec<f64>) {
    (s.sh.get_shape_data(), s.sh.get_bound().get_bound_data()[0..6].to_vec())
}

fn same(a: &(Vec<f64>, Vec<f64>), b: &(Vec<f64>, Vec<f64>)) -> bool {
    let eq = |x: &Vec<f64>, y: &Vec<f64>| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.to_bits() == q.to_bits());
    eq(&a.0, &b.0) && eq(&a.1, &b.1)
}

/// both orders, twice; the shapes read the same before and after
fn agree(a: &S, b: &S) -> Result<&'static str, String> {
    let before = guard(|| (state(a), state(b)))?;
    let all = [ask(a, b), ask(b, a), ask(a, b), ask(b, a)];
    let after = guard(|| (state(a), state(b)))?;
    if let Some(Q::Odd(w)) = all.iter().find(|q| matches!(q, Q::Odd(_))) {
        return Err(w.to_string());
    }
    if !all.iter().all(|q| q.verdict() == all[0].verdict()) {
        return Err(format!("asked in both orders, twice: {:?}", all));
    }
    if !same(&before.0, &after.0) || !same(&before.1, &after.1) {
        return Err("asking changed a shape".into());
    }
    Ok(all[0].verdict())
}

const INF: i64 = 1_000_000;

fn judge_bound(b: &[f64], e: &J, u: f64, m: f64) -> Result<(), String> {
    let (lo, hi, den) = (e.get("lo").ints(), e.get("hi").ints(), e.get("m").num());
    let loose: Vec<bool> = e.get("loose").arr().iter().map(|x| x.bool()).collect();
    let tol = 1e-12 * m * u;
    for i in 0..3 {
        for (got, want, up) in [(b[i], lo[i], false), (b[i + 3], hi[i], true)] {
            let ok = if want.abs() == INF {
                got == if want > 0 { f64::INFINITY } else { f64::NEG_INFINITY }
            } else {
                let w = want as f64 / den * u;
                if loose[i] {
                    if up { got >= w - tol } else { got <= w + tol }
                } else {
                    (got - w).abs() <= tol
                }
            };
            if !ok {
                return Err(format!("bounding box {:?}, expected lower {:?} upper {:?} over {} (axis {})", b, lo, hi, den, i));
            }
        }
    }
    Ok(())
}

fn unit(c: &J) -> f64 {
    if c.get("micro").bool() {
        1e-7
    } else {
        pow2(c.get("f").int()) * if c.get("odd").bool() { 0.7 } else { 1.0 }
    }
}

pub fn replay(hist: &[Vec<J>], rep: &mut Report) {
    for h in hist {
        rep.begin();
        let mut reg: Vec<Option<S>> = vec![None, None, None];
        for c in h {
            context(format!("{}", c));
            rep.steps += 1;
            let u = unit(c);
            let e = c.get("exp");
            let p = c.get("p").nums();
            let sr: Vec<usize> = c.get("s").ints().iter().map(|x| *x as usize - 1).collect();
            let r = match c.get("op").str() {
                "make" => match make(c.get("kind").str(), &p, u, c.get("g").int()) {
                    Ok(x) => {
                        let t = kind_of(x.sh.get_type()) == c.get("kind").str();
                        reg[c.get("d").us() - 1] = Some(x);
                        if t { Ok(()) } else { Err("reports another kind".into()) }
                    }
                    Err(m) => Err(m),
                },
                "vic" => {
                    let s = reg[sr[0]].as_mut().unwrap();
                    // a second number: kept off the distances between the shapes
                    let z = if p.len() > 1 { 1.0 + 1e-5 } else { 1.0 };
                    s.how.vic = Some(p[0] * z * u);
                    guard(|| s.sh.set_vicinity(p[0] * z * u))
                }
                "query" => {
                    rep.compared += 1;
                    let (a, b) = (reg[sr[0]].as_ref().unwrap(), reg[sr[1]].as_ref().unwrap());
                    judge_query(&ask(a, b), e, u, size(&[a, b]))
                }
                "agree" => {
                    rep.compared += 1;
                    let (a, b) = (reg[sr[0]].as_ref().unwrap(), reg[sr[1]].as_ref().unwrap());
                    agree(a, b).and_then(|v| match e.get("verdict").str() {
                        "agree" if v == "hit" || v == "miss" => Ok(()),
                        "missorpanic" if v == "miss" || v == "panic" => Ok(()),
                        w if w == v => Ok(()),
                        w => Err(format!("answered {}, expected {}", v, w)),
                    })
                }
                "gjk" => {
                    rep.compared += 1;
                    let (a, b) = (reg[sr[0]].as_ref().unwrap(), reg[sr[1]].as_ref().unwrap());
                    overlap(a, b).and_then(|v| match e.get("verdict").str() {
                        "either" if v == "hit" || v == "miss" => Ok(()),
                        w if w == v => Ok(()),
                        w => Err(format!("answered {}, expected {}", v, w)),
                    })
                }
                "bound" => {
                    rep.compared += 1;
                    let a = reg[sr[0]].as_ref().unwrap();
                    guard(|| a.sh.get_bound().get_bound_data()).and_then(|b| judge_bound(&b[0..6], e, u, size(&[a])))
                }
                "data" => {
                    rep.compared += 1;
                    let a = reg[sr[0]].as_ref().unwrap();
                    let (num, den, sq, deg) = (e.get("num").nums(), e.get("den").nums(), e.get("sq").ints(), e.get("deg").ints());
                    let want: Vec<f64> = (0..num.len())
                        .map(|i| num[i] / if sq[i] == 1 { den[i].sqrt() } else { den[i] } * if deg[i] == 1 { u } else { 1.0 })
                        .collect();
                    guard(|| a.sh.get_shape_data()).and_then(|d| {
                        if d.len() != want.len() {
                            return Err(format!("{} numbers of defining data, {} expected", d.len(), want.len()));
                        }
                        for i in 0..d.len() {
                            // what was given comes back as it was given
                            let tol = if deg[i] == 1 && den[i] == 1.0 && i < 9 { 2.0 * f64::EPSILON * want[i].abs() } else { 1e-12 * if deg[i] == 1 { size(&[a]) * u } else { 1.0 } };
                            if !((d[i] - want[i]).abs() <= tol) {
                                return Err(format!("defining data {:?}, expected {:?}", d, want));
                            }
                        }
                        Ok(())
                    })
                }
                "support" => {
                    rep.compared += 1;
                    let a = reg[sr[0]].as_ref().unwrap();
                    let g = if p[3] >= 200.0 { 1.0 } else if p[3] > 100.0 { (1.0 + ALMOST[p[3] as usize - 100]) / norm(&p[0..3]).max(1e-9) } else { pow2(p[3] as i64) };
                    let mut v = Mat3x1 { _val: [p[0] * g, p[1] * g, p[2] * g] };
                    if p[3] >= 200.0 {
                        // one component far smaller, or far larger, than the others: the same corner of a box
                        let c = p[3] as usize - 200;
                        v[c % 3] *= if c < 3 { pow2(-30) } else { pow2(30) };
                    }
                    let m = size(&[a]);
                    let far = move |how: &How| match how.make() {
                        Err(m) => Out::Panic(m),
                        Ok(x) => guard(|| x.sh.get_support(&v)).map_or_else(Out::Panic, |s| s.map_or(Out::None, |s| Out::Vec(s._val.to_vec()))),
                    };
                    let how = a.how.clone();
                    rep.keep(&far(&how), c, || move || far(&how));
                    match (guard(|| a.sh.get_support(&v)), e.get("k").str()) {
                        (Err(w), _) => Err(w),
                        (Ok(None), "none") => Ok(()),
                        (Ok(Some(x)), "at") => at_one_of(&[x[0], x[1], x[2]], e.get("locs").arr(), u, m, 1e-9),
                        (Ok(Some(x)), "extreme") => {
                            let x = [x[0], x[1], x[2]];
                            let tol = 1e-9 * m * u;
                            let reach = dot(&x, &p[0..3]);
                            let want = e.get("num").nums()[0] / e.get("m").num() * u;
                            if (reach - want).abs() <= tol * norm(&p[0..3]) {
                                behind(&x, e.get("fac").arr(), u, tol)
                            } else {
                                Err(format!("{:?} reaches {}, expected {}", x, reach, want))
                            }
                        }
                        (o, k) => Err(format!("support {:?}, expected {}", o, k)),
                    }
                }
                o => panic!("HARNESS: op {}", o),
            };
            let what = match c.get("op").str() {
                "query" | "agree" => Some(0),
                "gjk" => Some(1),
                "bound" => Some(2),
                "data" => Some(3),
                _ => None,
            };
            if let (Ok(()), Some(w)) = (&r, what) {
                let a = reg[sr[0]].as_ref().unwrap().how.clone();
                let b = sr.get(1).and_then(|k| reg[*k].as_ref()).map_or(a.clone(), |x| x.how.clone());
                let o = anew(&a, &b, w);
                rep.keep(&o, c, || move || anew(&a, &b, w));
            }
            if let Err(m) = r {
                rep.fail(&m, "f64", c);
                // the rest of the history has no meaning without its shapes
                if c.get("op").str() == "make" {
                    break;
                }
            }
        }
    }
}

// ------------------------------------------------------------------ recording
const BAD: i64 = 900_000_000;

fn near_int(x: f64) -> i64 {
    let r = x.round();
    if x == f64::INFINITY {
        INF
    } else if x == f64::NEG_INFINITY {
        -INF
    } else if x.is_finite() && (x - r).abs() <= 1e-6 && r.abs() < 5e8 {
        r as i64
    } else {
        BAD
    }
}

fn rv(r: &mut Rng, m: i64) -> Vec<i64> {
    (0..3).map(|_| r.range(-m, m)).collect()
}
fn dir(r: &mut Rng, m: i64) -> Vec<i64> {
    let mut d = rv(r, m);
    for i in 0..3 {
        if r.below(4) == 0 {
            d[i] = 0
        }
    }
    if d.iter().all(|x| *x == 0) {
        d[r.below(3) as usize] = 1
    }
    d
}
fn add(a: &[i64], b: &[i64], k: i64) -> Vec<i64> {
    (0..3).map(|i| a[i] + k * b[i]).collect()
}
fn xi(a: &[i64], b: &[i64]) -> Vec<i64> {
    vec![a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn cat(a: Vec<i64>, b: Vec<i64>) -> Vec<i64> {
    a.into_iter().chain(b).collect()
}

fn random(r: &mut Rng, kind: &str, m: i64) -> Vec<i64> {
    match kind {
        "point" => rv(r, m),
        "ray" | "plane" => cat(rv(r, m), dir(r, 5)),
        "sphere" | "box" => cat(rv(r, m), vec![r.range(1, m)]),
        "line" => cat(rv(r, m), rv(r, m)),
        _ => loop {
            let v0 = rv(r, 3);
            let flat = r.below(3) == 0;
            let mut e1 = rv(r, 3);
            let mut e2 = rv(r, 3);
            if flat {
                e1[2] = 0;
                e2[2] = 0;
            }
            if xi(&e1, &e2) != vec![0, 0, 0] {
                let p = cat(cat(v0.clone(), add(&v0, &e1, 1)), add(&v0, &e2, 1));
                break cat(p, vec![r.range(1, 4), *r.pick(&[1, 2, 4, 8])]);
            }
        },
    }
}

/// a second shape near the first
fn second(r: &mut Rng, suite: &str, k1: &str, a: &[i64], k2: &str) -> Vec<i64> {
    let o = a[0..3].to_vec();
    let pyth = [[0, 0, 1, 1], [3, 4, 0, 5], [2, -1, 2, 3], [-6, 2, 3, 7], [4, 7, -4, 9], [8, 4, 1, 9], [0, -5, 12, 13]];
    let w = *r.pick(&pyth);
    let k = r.range(-2, 3);
    let i = r.below(6);
    match (k1, k2) {
        ("box", "point") => (0..3).map(|j| o[j] + *r.pick(&[-a[3] - 1, -a[3], 0, a[3] - 1, a[3], a[3] + 1])).collect(),
        ("plane", "point") if i < 4 => add(&add(&o, &xi(&a[3..6], &rv(r, 2)), 1), &a[3..6], if i < 2 { 0 } else { k }),
        ("sphere", "point") if i < 3 => add(&o, &w[0..3].to_vec(), 1),
        ("sphere", "point") => add(&o, &rv(r, 6), 1),
        ("sphere", "sphere") if i < 4 => {
            let s = r.range(1, 3);
            cat(add(&o, &w[0..3].to_vec(), s), vec![(s * w[3] - a[3] + r.range(-1, 1)).max(1)])
        }
        ("sphere", "plane") if i < 4 => cat(add(&o, &w[0..3].to_vec(), r.range(-2, 2)), w[0..3].to_vec()),
        ("sphere", "ray") if i < 4 => {
            let f = rv(r, 10);
            let d = add(&rv(r, 3), &f, if i == 0 { 1 } else { -1 });
            cat(add(&o, &f, 1), if d.iter().all(|x| *x == 0) { vec![0, 1, 0] } else { d })
        }
        ("ray", "plane") if i < 4 => {
            let nn = if i == 0 { xi(&a[3..6], &dir(r, 2)) } else { dir(r, 5) };
            let nn = if nn == vec![0, 0, 0] { dir(r, 5) } else { nn };
            cat(add(&add(&o, &a[3..6], k), &xi(&nn, &rv(r, 2)), 1), nn)
        }
        ("ray", "point") if i < 4 => add(&o, &a[3..6], k),
        ("ray", "ray") => {
            let at = add(&o, &a[3..6], k);
            if i == 0 {
                let s = *r.pick(&[1, -1, 2]);
                cat(at, a[3..6].iter().map(|x| x * s).collect())
            } else {
                let d = dir(r, 4);
                let mut b = add(&at, &d, r.range(-3, 2));
                if i < 3 {
                    b[r.below(3) as usize] += r.range(-1, 1)
                }
                cat(b, d)
            }
        }
        ("prism", "point") if suite == "G08" => {
            let e = |j: usize| -> Vec<i64> { (0..3).map(|q| a[j + q] - a[q]).collect() };
            let _ = e;
            let mid: Vec<i64> = (0..3).map(|q| (a[q] + a[3 + q] + a[6 + q]).div_euclid(3)).collect();
            add(&mid, &rv(r, 2), 1)
        }
        ("prism", "line") => {
            let mid: Vec<i64> = (0..3).map(|q| (a[q] + a[3 + q] + a[6 + q]).div_euclid(3)).collect();
            let f = rv(r, 4);
            match i {
                0 => cat(add(&mid, &f, 1), add(&mid, &f, 1)),
                1 | 2 => cat(add(&mid, &f, 1), add(&add(&mid, &f, -1), &rv(r, 2), 1)),
                _ => cat(add(&mid, &rv(r, 4), 1), add(&mid, &rv(r, 4), 1)),
            }
        }
        _ => random(r, k2, 8),
    }
}

fn pair(suite: &str, r: &mut Rng) -> (&'static str, &'static str) {
    let kinds = ["point", "ray", "sphere", "plane", "box", "line", "prism"];
    match suite {
        "G02" => *r.pick(&[("point", "point"), ("box", "point"), ("plane", "point")]),
        "G03" => *r.pick(&[("sphere", "point"), ("sphere", "sphere"), ("sphere", "plane")]),
        "G04" => ("ray", "plane"),
        "G05" => ("sphere", "ray"),
        "G06" => ("ray", "point"),
        "G07" => ("ray", "ray"),
        "G08" => ("prism", "point"),
        "G09" => ("prism", "line"),
        "G11" => {
            if r.below(10) == 0 {
                (*r.pick(&kinds), *r.pick(&kinds))
            } else {
                ("sphere", "sphere")
            }
        }
        _ => (*r.pick(&kinds), *r.pick(&kinds)),
    }
}

pub fn record(suite: &str, seed: u64, count: usize, out: &mut Vec<J>) {
    let mut r = Rng::new(seed);
    let free = ["B01", "G01", "G03", "G05", "G08", "G10", "G11"].contains(&suite);
    let ok = || obj(&[("k", s("ok"))]);
    while out.len() < count {
        out.push(obj(&[("op", s("start")), ("res", obj(&[("k", s("start"))]))]));
        let u = if free && suite != "G01" { pow2(r.range(-20, 20)) } else { 1.0 };
        for _ in 0..r.range(1, 5) {
            let (k1, k2) = pair(suite, &mut r);
            let m = if suite == "G07" { 6 } else { 9 };
            let a = random(&mut r, k1, m);
            let b = second(&mut r, suite, k1, &a, k2);
            let mut ss = vec![];
            let mut dead = false;
            for (d, (k, p)) in [(k1, &a), (k2, &b)].iter().enumerate() {
                let pf: Vec<f64> = p.iter().map(|x| *x as f64).collect();
                let sh = make(k, &pf, u, 0);
                let res = match &sh {
                    Ok(_) => ok(),
                    Err(_) => obj(&[("k", s("panic"))]),
                };
                out.push(obj(&[("op", s("make")), ("d", n(d as i64 + 1)), ("s", ints(&[d as i64 + 1, d as i64 + 1])), ("p", ints(p)), ("kind", s(k)), ("res", res)]));
                match sh {
                    Ok(x) => ss.push(x),
                    Err(_) => {
                        dead = true;
                        break;
                    }
                }
            }
            if dead {
                break;
            }
            let ev = |op: &str, i: usize, j: usize, p: &[i64], res: J| {
                obj(&[("op", s(op)), ("d", n(1)), ("s", ints(&[i as i64 + 1, j as i64 + 1])), ("p", ints(p)), ("kind", s("")), ("res", res)])
            };
            let orders = [(0, 1), (1, 0)];
            match suite {
                "B01" => {
                    for i in 0..2 {
                        let q = &ss[i];
                        let den = if q.kind == "prism" { q.p[10] } else { 1.0 };
                        let (lo, hi, d) = match guard(|| state(q)) {
                            Ok((d, b)) => {
                                let f = |x: f64| near_int(x / u * den);
                                (b[0..3].iter().map(|x| f(*x)).collect::<Vec<_>>(), b[3..6].iter().map(|x| f(*x)).collect::<Vec<_>>(), d)
                            }
                            Err(_) => (vec![BAD; 3], vec![BAD; 3], vec![]),
                        };
                        out.push(ev("bound", i, i, &[], obj(&[("k", s("bound")), ("lo", ints(&lo)), ("hi", ints(&hi))])));
                        // directions and normals are recorded by their signed squares over the length squared
                        let un = if q.p.len() >= 6 { dot(&q.p[3..6], &q.p[3..6]) } else { 1.0 };
                        let num: Vec<i64> = d.iter().enumerate().map(|(j, x)| {
                            if (q.kind == "ray" || q.kind == "plane") && j >= 3 {
                                near_int(x * x.abs() * un)
                            } else {
                                near_int(x / u * if j >= 9 { den } else { 1.0 })
                            }
                        }).collect();
                        out.push(ev("data", i, i, &[], obj(&[("k", s("data")), ("num", ints(&num))])));
                    }
                }
                "G10" => {
                    for i in 0..2 {
                        let q = &ss[i];
                        if q.kind == "line" {
                            continue;
                        }
                        let mut v = dir(&mut r, 5);
                        if r.below(8) == 0 && q.kind != "point" {
                            v = vec![0, 0, 0];
                        }
                        let g = r.range(-20, 20);
                        let gv = Mat3x1 { _val: [v[0] as f64 * pow2(g), v[1] as f64 * pow2(g), v[2] as f64 * pow2(g)] };
                        let vv = v.iter().map(|x| x * x).sum::<i64>() as f64;
                        let res = match guard(|| q.sh.get_support(&gv)) {
                            Err(_) => obj(&[("k", s("panic"))]),
                            Ok(None) => obj(&[("k", s("none"))]),
                            Ok(Some(x)) => {
                                let num: Vec<i64> = (0..3).map(|j| match q.kind.as_str() {
                                    "sphere" => { let z = x[j] / u - q.p[j]; near_int(z * z.abs() * vv) }
                                    "prism" => near_int(x[j] / u * q.p[10]),
                                    _ => near_int(x[j] / u),
                                }).collect();
                                obj(&[("k", s("at")), ("num", ints(&num))])
                            }
                        };
                        out.push(ev("support", i, i, &cat(v, vec![g]), res));
                    }
                }
                "G01" => {
                    for (i, j) in orders {
                        let v = agree(&ss[i], &ss[j]).unwrap_or("differs");
                        out.push(ev("agree", i, j, &[], obj(&[("verdict", s(v)), ("loc", ints(&[0, 0, 0]))])));
                    }
                }
                "G11" => {
                    for (i, j) in orders {
                        let v = overlap(&ss[i], &ss[j]).unwrap_or("none");
                        out.push(ev("gjk", i, j, &[], obj(&[("verdict", s(v)), ("loc", ints(&[0, 0, 0]))])));
                    }
                }
                _ => {
                    for (i, j) in orders {
                        let q = ask(&ss[i], &ss[j]);
                        let loc: Vec<i64> = match &q {
                            Q::Hit(x) => x.iter().map(|c| { let z = (c / u * 100.0).round(); if z.abs() < 1e5 { z as i64 } else { 99_999 } }).collect(),
                            _ => vec![0, 0, 0],
                        };
                        out.push(ev("query", i, j, &[], obj(&[("verdict", s(q.verdict())), ("loc", ints(&loc))])));
                    }
                }
            }
        }
    }
}
