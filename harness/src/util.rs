//! JSON <-> argument helpers, and running a library call with its panics caught.
use serde_json::{json, Map, Value as J};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn by(v: &J) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default()
}
pub fn tx(v: &J) -> String {
    match v {
        J::String(s) => s.clone(),
        _ => String::from_utf8(by(v)).expect("script: text argument is not UTF-8"),
    }
}
/// optional argument: [] or absent = None, [x] = Some(x)
pub fn opt(v: &J) -> Option<&J> {
    v.as_array().and_then(|a| a.first())
}
pub fn otx(v: &J) -> Option<String> {
    opt(v).map(tx)
}
pub fn oby(v: &J) -> Option<Vec<u8>> {
    opt(v).map(by)
}
pub fn obool(v: &J) -> Option<bool> {
    opt(v).map(|b| b.as_bool().expect("script: bool"))
}
/// numbers travel as minimal big-endian byte sequences
pub fn num(v: &J) -> u128 {
    match v {
        J::Number(n) => n.as_u64().unwrap() as u128,
        _ => by(v).iter().fold(0u128, |a, b| (a << 8) | *b as u128),
    }
}
pub fn onum(v: &J) -> Option<u128> {
    opt(v).map(num)
}
pub fn jb(b: &[u8]) -> J {
    J::Array(b.iter().map(|x| J::from(*x)).collect())
}
pub fn js(s: &str) -> J {
    jb(s.as_bytes())
}
pub fn jn(n: u128) -> J {
    let b = n.to_be_bytes();
    let i = b.iter().position(|x| *x != 0).unwrap_or(16);
    jb(&b[i..])
}
pub fn ok(v: J) -> J {
    json!({"k": "ok", "v": v})
}
pub fn er() -> J {
    json!({"k": "err"})
}

/// Run one library call: its value, an error, or a panic -- all of them data.
pub fn guard<E, F: FnOnce() -> Result<J, E>>(f: F) -> J {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => ok(v),
        Ok(Err(_)) => er(),
        Err(_) => {
            PANICKED.with(|p| p.set(true));
            json!({"k": "panic"})
        }
    }
}
/// A call that cannot fail (it may still panic).
pub fn sure<F: FnOnce() -> J>(f: F) -> J {
    guard::<(), _>(|| Ok(f()))
}
pub fn obj(pairs: Vec<(&str, J)>) -> J {
    let mut m = Map::new();
    for (k, v) in pairs {
        m.insert(k.to_string(), v);
    }
    J::Object(m)
}

pub fn panicked() -> J {
    PANICKED.with(|p| p.set(true));
    json!({"k": "panic"})
}
thread_local! { static PANICKED: Cell<bool> = const { Cell::new(false) }; }
pub fn take_panicked() -> bool {
    PANICKED.with(|p| p.replace(false))
}
/// Any error of the library, for code that needs several calls in a row.
pub struct Er;
impl<E: std::fmt::Display> From<E> for Er {
    fn from(_: E) -> Er {
        Er
    }
}
pub type Res<T> = Result<T, Er>;
