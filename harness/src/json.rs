//! A small JSON reader/writer: enough for the lines exchanged with TLC.
use std::collections::BTreeMap;
use std::cell::Cell;
use std::fmt;

thread_local!(static ZERO: Cell<f64> = Cell::new(0.0));
pub fn set_zero(z: f64) {
    ZERO.with(|c| c.set(z));
}
pub fn zero() -> f64 {
    ZERO.with(|c| c.get())
}

#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, J::Obj(m) if m.contains_key(k))
    }
    pub fn num(&self) -> f64 {
        match self {
            J::Num(x) => *x,
            _ => panic!("HARNESS: number expected, got {:?}", self),
        }
    }
    pub fn int(&self) -> i64 {
        self.num() as i64
    }
    pub fn us(&self) -> usize {
        self.num() as usize
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            J::Num(x) => *x != 0.0,
            _ => panic!("HARNESS: bool expected, got {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("HARNESS: string expected, got {:?}", self),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            J::Obj(m) if m.is_empty() => &[],
            _ => panic!("HARNESS: array expected, got {:?}", self),
        }
    }
    /// the numbers of a list (in some histories the zeros are negative ones)
    pub fn nums(&self) -> Vec<f64> {
        let z = ZERO.with(|c| c.get());
        self.arr().iter().map(|x| x.num()).map(|x| if x == 0.0 { z } else { x }).collect()
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.int()).collect()
    }
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i);
    v
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_whitespace() {
        *i += 1;
    }
}

fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::Obj(m);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = match val(b, i) {
                    J::Str(s) => s,
                    _ => panic!("HARNESS: bad key"),
                };
                ws(b, i);
                assert!(b[*i] == b':', "HARNESS: bad json");
                *i += 1;
                let v = val(b, i);
                m.insert(k, v);
            }
        }
        b'[' => {
            *i += 1;
            let mut a = vec![];
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return J::Arr(a);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                a.push(val(b, i));
            }
        }
        b'"' => {
            *i += 1;
            let st = *i;
            while b[*i] != b'"' {
                *i += 1;
            }
            let s = std::str::from_utf8(&b[st..*i]).unwrap().to_string();
            *i += 1;
            J::Str(s)
        }
        b't' => {
            *i += 4;
            J::Bool(true)
        }
        b'f' => {
            *i += 5;
            J::Bool(false)
        }
        b'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let st = *i;
            while *i < b.len() && !matches!(b[*i], b',' | b'}' | b']' | b' ' | b'\n') {
                *i += 1;
            }
            J::Num(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap())
        }
    }
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            J::Null => write!(f, "null"),
            J::Bool(b) => write!(f, "{}", b),
            J::Num(x) => {
                if x.is_finite() {
                    if *x == x.trunc() && x.abs() < 1e15 {
                        write!(f, "{}", *x as i64)
                    } else {
                        write!(f, "{:e}", x)
                    }
                } else {
                    write!(f, "\"{}\"", x)
                }
            }
            J::Str(s) => write!(f, "\"{}\"", s.replace('\\', "/").replace('"', "'").replace('\n', " ")),
            J::Arr(a) => {
                write!(f, "[")?;
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{}", x)?;
                }
                write!(f, "]")
            }
            J::Obj(m) => {
                write!(f, "{{")?;
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "\"{}\":{}", k, v)?;
                }
                write!(f, "}}")
            }
        }
    }
}

pub fn obj(kv: &[(&str, J)]) -> J {
    J::Obj(kv.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}
pub fn nums(a: &[f64]) -> J {
    J::Arr(a.iter().map(|x| J::Num(*x)).collect())
}
pub fn ints(a: &[i64]) -> J {
    J::Arr(a.iter().map(|x| J::Num(*x as f64)).collect())
}
pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn n(x: i64) -> J {
    J::Num(x as f64)
}
