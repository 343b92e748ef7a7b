use crate::json::*;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;

/// What a call on the real code showed.
#[derive(Debug, Clone)]
pub enum Out {
    Mat(bool, Vec<f64>), // storage order flag, entries row by row
    Vec(Vec<f64>),
    Num(f64),
    Bool(bool),
    None,
    Panic(String),
}

thread_local!(static GUARDED: Cell<bool> = Cell::new(false));
/// Threads that replay histories at the same time.
pub const THREADS: usize = 4;
/// Per thread: id of the running guarded call (0 = none), and the case it belongs to.
static STARTED: [AtomicU64; THREADS] = [const { AtomicU64::new(0) }; THREADS];
static CUR: [Mutex<String>; THREADS] = [const { Mutex::new(String::new()) }; THREADS];
thread_local!(static SLOT: Cell<usize> = Cell::new(0));
pub fn set_slot(k: usize) {
    SLOT.with(|c| c.set(k));
}

pub fn install() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !GUARDED.with(|g| g.get()) {
            default(i)
        }
    }));
    std::thread::spawn(|| {
        let mut seen = [0; THREADS];
        let mut ticks = [0; THREADS];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for k in 0..THREADS {
                let v = STARTED[k].load(Ordering::SeqCst);
                if v != 0 && v == seen[k] {
                    ticks[k] += 1;
                    if ticks[k] >= 40 {
                        let c = CUR[k].lock().unwrap().clone();
                        println!("{}", obj(&[("fail", s("call did not return within 20 s")), ("case", s(&c))]));
                        println!("{}", obj(&[("summary", n(1)), ("hang", n(1))]));
                        std::process::exit(0);
                    }
                } else {
                    seen[k] = v;
                    ticks[k] = 0;
                }
            }
        }
    });
}

static NEXT: AtomicU64 = AtomicU64::new(1);

/// Names the case the following guarded calls belong to (for the hang report).
pub fn context(c: String) {
    *CUR[SLOT.with(|c| c.get())].lock().unwrap() = c;
}

/// Runs a call of the code under test; a panic there is an outcome.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    let id = NEXT.fetch_add(1, Ordering::SeqCst);
    let slot = SLOT.with(|c| c.get());
    STARTED[slot].store(id, Ordering::SeqCst);
    let was = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(was));
    STARTED[slot].store(0, Ordering::SeqCst);
    r.map_err(|e| {
        let m = if let Some(x) = e.downcast_ref::<String>() {
            x.clone()
        } else if let Some(x) = e.downcast_ref::<&str>() {
            x.to_string()
        } else {
            "panic".into()
        };
        if m.starts_with("HARNESS:") {
            eprintln!("{}", m);
            std::process::exit(3);
        }
        m
    })
}

pub fn pow2(e: i64) -> f64 {
    (2f64).powi(e as i32)
}

thread_local!(static ODD: Cell<f64> = Cell::new(1.0));
/// Second factor of the unit: one, or a number that is not a power of two.
pub fn set_odd(o: f64) {
    ODD.with(|c| c.set(o));
}
pub fn odd() -> f64 {
    ODD.with(|c| c.get())
}
/// The unit 2^f * odd to the power deg.
pub fn fr(f: i64, deg: i64) -> f64 {
    pow2(f * deg) * ODD.with(|c| c.get()).powi(deg as i32)
}
/// The arguments of a call; a factor may be given in units of the frame to some power.
pub fn args(op: &str, p: &[f64], f: i64) -> Vec<f64> {
    let mut v = p.to_vec();
    if op == "scale" && v.len() > 1 {
        v[0] *= fr(f, v[1] as i64);
    }
    v
}
/// The runs of a history: precision, second factor of the unit.  Under a unit that is no power of
/// two nothing is exact; operands are reset to what the specification says after every step.
/// `lens` are lengths (in units) of operands of the history: further runs choose the unit so that one
/// of them becomes almost, but not quite, one.
pub fn runs(f: i64, lens: &[f64], k: usize) -> Vec<(bool, f64)> {
    let mut r = vec![(true, 1.0), (true, 0.7)];
    if f.abs() <= 20 {
        r.push((false, 1.0));
        r.push((false, 0.7));
        if !lens.is_empty() {
            let off = [5e-3, -5e-4, 5e-5, -5e-6, 3e-7, -2e-9];
            let o = |j: usize| (1.0 + off[(k + j) % 6]) / (lens[(k / 3) % lens.len()] * pow2(f));
            r.push((true, o(0)));
            r.push((true, o(1)));
            r.push((false, (1.0 + off[k % 4]) / (lens[k % lens.len()] * pow2(f))));
        }
    }
    r
}
pub fn length(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
/// Rounding units allowed on top of the operands' magnitude in runs with an odd unit.
pub fn slack(double: bool) -> f64 {
    64.0 * if double { f64::EPSILON } else { f32::EPSILON as f64 }
}

#[derive(Clone, Copy)]
pub struct Tol {
    pub exact: f64,
    pub rat: f64,
    /// absolute part
    pub abs: f64,
}

/// Compares the numbers shown with num/den * unit; the tolerance is relative to the largest of them.
pub fn close(got: &[f64], num: &[f64], den: &[f64], unit: f64, tol: f64, abs: f64) -> Result<(), String> {
    if got.len() != num.len() {
        return Err(format!("{} numbers, {} expected", got.len(), num.len()));
    }
    let want: Vec<f64> = num.iter().zip(den).map(|(a, b)| a / b * unit).collect();
    let m = want.iter().fold(0f64, |a, b| a.max(b.abs()));
    near_abs(got, &want, (tol * m).max(abs))
}

pub fn near(got: &[f64], want: &[f64], tol: f64) -> Result<(), String> {
    let m = want.iter().fold(0f64, |a, b| a.max(b.abs()));
    near_abs(got, want, tol * m)
}

pub fn near_abs(got: &[f64], want: &[f64], tol: f64) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} numbers, {} expected", got.len(), want.len()));
    }
    for i in 0..got.len() {
        // written so that a NaN is a difference
        if !((got[i] - want[i]).abs() <= tol) {
            return Err(format!("got {:?}, expected {:?} (component {})", got, want, i));
        }
    }
    Ok(())
}

/// Compares an outcome with the one the specification expects.
pub fn judge(o: &Out, e: &J, f: i64, tol: Tol) -> Result<(), String> {
    let k = e.get("k").str();
    if k == "panic" {
        return match o {
            Out::Panic(_) => Ok(()),
            _ => Err(format!("answered {:?} where the call must be refused", o)),
        };
    }
    if let Out::Panic(m) = o {
        return Err(format!("panicked: {}", m));
    }
    if k == "none" {
        return match o {
            Out::None => Ok(()),
            _ => Err(format!("got {:?}, expected no result", o)),
        };
    }
    if k == "bool" {
        return match o {
            Out::Bool(b) if *b == e.get("b").bool() => Ok(()),
            _ => Err(format!("got {:?}, expected {}", o, e.get("b"))),
        };
    }
    let num = e.get("num").nums();
    let den = e.get("den").nums();
    let u = fr(f, e.get("deg").int());
    let t = if den.iter().all(|d| *d == 1.0) { tol.exact } else { tol.rat };
    match (k, o) {
        ("mat", Out::Mat(rm, v)) => {
            if *rm != e.get("rm").bool() {
                return Err(format!("storage order flag is {}, expected {}", rm, e.get("rm")));
            }
            close(v, &num, &den, u, t, tol.abs)
        }
        ("vec", Out::Vec(v)) => close(v, &num, &den, u, t, tol.abs),
        ("num", Out::Num(x)) => close(&[*x], &num, &den, u, t, tol.abs),
        // square root of num/den
        ("sqrt", Out::Num(x)) => {
            let w = (num[0] / den[0]).sqrt() * u;
            near(&[*x], &[w], t.max(tol.rat))
        }
        // num / sqrt(den)
        ("unit", Out::Vec(v)) => {
            let w: Vec<f64> = num.iter().map(|a| a / den[0].sqrt() * u).collect();
            near(v, &w, tol.rat)
        }
        _ => Err(format!("got {:?}, expected a {}", o, k)),
    }
}

/// Do two answers of the same call agree?  Nothing is rounded twice, so bit for bit.
pub fn alike(a: &Out, b: &Out) -> bool {
    let eq = |x: &[f64], y: &[f64]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p == q || (p.is_nan() && q.is_nan()));
    match (a, b) {
        (Out::Mat(r, x), Out::Mat(s, y)) => r == s && eq(x, y),
        (Out::Vec(x), Out::Vec(y)) => eq(x, y),
        (Out::Num(x), Out::Num(y)) => eq(&[*x], &[*y]),
        (Out::Bool(x), Out::Bool(y)) => x == y,
        (Out::None, Out::None) | (Out::Panic(_), Out::Panic(_)) => true,
        _ => false,
    }
}

/// A call of a history that can be made again from the same operands.
pub struct Again {
    pub call: Box<dyn Fn() -> Out + Send + Sync>,
    pub out: Out,
    pub case: J,
    /// the second factor of the unit and the zero in force
    odd: f64,
    zero: f64,
}
const KEEP: usize = 400;

#[derive(Default)]
pub struct Report {
    pub pool: Vec<Again>,
    pub seen: u64,
    pub repeated: u64,
    pub steps: u64,
    pub compared: u64,
    pub failed: u64,
    pub histories: u64,
}

impl Report {
    /// A new history begins; in a third of them a zero operand is the negative zero.
    pub fn begin(&mut self) {
        self.histories += 1;
        set_zero(if (self.histories.wrapping_mul(0x9E3779B97F4A7C15) >> 40) % 3 == 0 { -0.0 } else { 0.0 });
    }
    pub fn fail(&mut self, why: &str, what: &str, case: &J) {
        self.failed += 1;
        if self.failed <= 25 {
            println!("{}", obj(&[("fail", s(why)), ("prec", s(what)), ("case", case.clone())]));
        }
    }
    /// Keeps a sample of the calls made, to be made again.
    pub fn keep<F: Fn() -> Out + Send + Sync + 'static, M: FnOnce() -> F>(&mut self, out: &Out, case: &J, make: M) {
        if let Out::Panic(_) = out {
            return;
        }
        self.seen += 1;
        let at = if self.pool.len() < KEEP { self.pool.len() } else { ((self.seen.wrapping_mul(0x9E3779B97F4A7C15) >> 20) % self.seen) as usize };
        if at < KEEP {
            let x = Again { call: Box::new(make()), out: out.clone(), case: case.clone(), odd: odd(), zero: zero() };
            if at == self.pool.len() {
                self.pool.push(x);
            } else {
                self.pool[at] = x;
            }
        }
    }
    /// Makes calls of the pool again, in an order of its own; what they answer depends on nothing
    /// but their operands.
    pub fn again(&mut self, pool: &[Again], seed: u64) {
        let mut r = Rng::new(seed);
        let t0 = std::time::Instant::now();
        context("a call made again".into());
        for i in 0..(pool.len() * 60).min(60_000) {
            if i % 64 == 0 && t0.elapsed() > Duration::from_millis(1500) {
                break;
            }
            let a = r.pick(pool);
            set_odd(a.odd);
            set_zero(a.zero);
            let o = (a.call)();
            self.repeated += 1;
            if !alike(&o, &a.out) {
                self.fail(&format!("the same call on the same operands answered {:?}, before that {:?}", o, a.out), "again", &a.case);
                if self.failed > 3 {
                    break;
                }
            }
        }
    }
    pub fn add(&mut self, r: &Report) {
        self.repeated += r.repeated;
        self.steps += r.steps;
        self.compared += r.compared;
        self.failed += r.failed;
        self.histories += r.histories;
    }
    pub fn done(&self) {
        println!(
            "{}",
            obj(&[
                ("summary", n(1)),
                ("histories", n(self.histories as i64)),
                ("steps", n(self.steps as i64)),
                ("compared", n(self.compared as i64)),
                ("repeated", n(self.repeated as i64)),
                ("failed", n(self.failed as i64))
            ])
        );
    }
}

/// xorshift64*, for histories the harness makes up itself
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        if r.0 == 0 {
            r.0 = 1;
        }
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn pick<'a, T>(&mut self, a: &'a [T]) -> &'a T {
        &a[self.below(a.len() as u64) as usize]
    }
}

/// Integer value of a recorded number, or a marker the specification never produces.
pub fn as_int(x: f64) -> i64 {
    if x.is_finite() && x == x.trunc() && x.abs() < 1e9 {
        x as i64
    } else {
        999_999_999
    }
}
