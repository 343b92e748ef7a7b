//! Axis-aligned boxes.
use crate::json::*;
use crate::util::*;
use mazth::bound::{AxisAlignedBBox, Axis};
use mazth::i_bound::IBound;
use mazth::i_shape::ShapeType;

const INF: i64 = 1_000_000_000;

fn side(x: i64, u: f64) -> f64 {
    if x >= INF {
        f64::INFINITY
    } else if x <= -INF {
        f64::NEG_INFINITY
    } else {
        x as f64 * u
    }
}

fn int(x: f64, u: f64) -> i64 {
    if x == f64::INFINITY {
        INF
    } else if x == f64::NEG_INFINITY {
        -INF
    } else {
        as_int(x / u)
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Shown {
    Box(Vec<i64>, Vec<i64>),
    Bool(bool),
    Middle(Vec<i64>),
    Longest(usize, i64),
    Panic(String),
}

struct M {
    reg: Vec<AxisAlignedBBox>,
    u: f64,
}

impl M {
    fn new(u: f64) -> M {
        M { reg: (0..4).map(|_| AxisAlignedBBox::default()).collect(), u }
    }
    fn read(&self, i: usize) -> Shown {
        let b = self.reg[i].get_bound_data();
        let f = |a: &[f64]| a.iter().map(|x| int(*x, self.u)).collect::<Vec<_>>();
        Shown::Box(f(&b[0..3]), f(&b[3..6]))
    }
    fn call(&mut self, op: &str, d: usize, s: &[usize], p: &[i64]) -> Shown {
        let u = self.u;
        let r = guard(|| match op {
            "box" => {
                let v: Vec<f64> = p.iter().map(|x| side(*x, u)).collect();
                self.reg[d] = AxisAlignedBBox::init(ShapeType::Rect, &v);
                self.read(d)
            }
            "all" => {
                self.reg[d] = AxisAlignedBBox::default();
                self.read(d)
            }
            "unite" | "grow" => {
                let mut list: Vec<AxisAlignedBBox> = vec![];
                if op == "grow" {
                    list.push(self.reg[d].clone());
                }
                list.extend(s.iter().map(|i| self.reg[*i].clone()));
                let refs: Vec<&dyn IBound> = list.iter().map(|b| b as &dyn IBound).collect();
                self.reg[d].get_union(&refs);
                self.read(d)
            }
            "read" => self.read(s[0]),
            "meet" => Shown::Bool(self.reg[s[0]].intersect(&self.reg[s[1]])),
            "middle" => Shown::Middle(self.reg[s[0]].get_centroid().iter().map(|x| int(x * 2.0, u)).collect()),
            "longest" => {
                let (a, e) = self.reg[s[0]].get_longest_axis();
                let i = match a {
                    Axis::X => 1,
                    Axis::Y => 2,
                    Axis::Z => 3,
                };
                Shown::Longest(i, int(e, u))
            }
            _ => panic!("HARNESS: op {}", op),
        });
        r.unwrap_or_else(Shown::Panic)
    }
}

fn idx(c: &J) -> Vec<usize> {
    c.get("s").ints().iter().map(|x| *x as usize - 1).collect()
}

pub fn replay(hist: &[Vec<J>], rep: &mut Report) {
    for h in hist {
        rep.begin();
        let mut m = M::new(pow2(h[0].get("f").int()));
        for c in h {
            context(format!("{}", c));
            rep.steps += 1;
            rep.compared += 1;
            let got = m.call(c.get("op").str(), c.get("d").us() - 1, &idx(c), &c.get("p").ints());
            let e = c.get("exp");
            let ok = match (&got, e.get("k").str()) {
                (Shown::Box(lo, hi), "box") => *lo == e.get("lo").ints() && *hi == e.get("hi").ints(),
                (Shown::Bool(b), "bool") => *b == e.get("b").bool(),
                (Shown::Middle(v), "middle") => *v == e.get("num").ints(),
                (Shown::Longest(a, x), "longest") => *x == e.get("num").ints()[0] && e.get("ax").arr()[a - 1].bool(),
                _ => false,
            };
            if !ok {
                rep.fail(&format!("got {:?}, expected {}", got, e), "f64", c);
                break;
            }
        }
    }
}

pub fn record(seed: u64, count: usize, out: &mut Vec<J>) {
    let mut r = Rng::new(seed);
    while out.len() < count {
        out.push(obj(&[("op", s("start")), ("res", obj(&[("k", s("start"))]))]));
        let mut m = M::new(pow2(r.range(-25, 25)));
        let mut fin = [false; 4];
        for _ in 0..r.range(5, 30) {
            let op = *r.pick(&["box", "box", "box", "all", "unite", "grow", "meet", "meet", "meet", "middle", "longest", "read"]);
            let d = r.range(1, 4);
            let others: Vec<i64> = (1..5).filter(|x| *x != d || op == "grow").collect();
            let (sr, p): (Vec<i64>, Vec<i64>) = match op {
                "box" => {
                    let w = *r.pick(&[2, 2, 4, 50, 3000]);
                    let mut p = vec![0; 6];
                    for i in 0..3 {
                        p[i] = if r.below(9) == 0 { -INF } else { r.range(-w, w) };
                        p[i + 3] = if r.below(9) == 0 { INF } else if p[i] == -INF { r.range(-w, w) } else { p[i] + r.range(0, w) };
                    }
                    (vec![], p)
                }
                "all" => (vec![], vec![]),
                "unite" | "grow" => ((0..r.range(1, 5)).map(|_| *r.pick(&others)).collect(), vec![]),
                _ => (vec![r.range(1, 4), r.range(1, 4)], vec![]),
            };
            if op == "middle" && !fin[sr[0] as usize - 1] {
                continue;
            }
            let si: Vec<usize> = sr.iter().map(|x| *x as usize - 1).collect();
            let got = m.call(op, d as usize - 1, &si, &p);
            let res = match &got {
                Shown::Box(lo, hi) => {
                    if op != "read" {
                        fin[d as usize - 1] = lo.iter().chain(hi).all(|x| x.abs() < INF);
                    }
                    obj(&[("k", s("box")), ("lo", ints(lo)), ("hi", ints(hi))])
                }
                Shown::Bool(b) => obj(&[("k", s("bool")), ("b", J::Bool(*b))]),
                Shown::Middle(v) => obj(&[("k", s("middle")), ("num", ints(v))]),
                Shown::Longest(a, x) => obj(&[("k", s("longest")), ("num", ints(&[*x])), ("axis", n(*a as i64))]),
                Shown::Panic(_) => obj(&[("k", s("panic"))]),
            };
            out.push(obj(&[("op", s(op)), ("d", n(d)), ("s", ints(&sr)), ("p", ints(&p)), ("res", res)]));
        }
    }
}
