//! Typed primitives and the values they carry.
use crate::codec::mobs;
use crate::util::*;
use cesride::*;
use serde_json::{json, Value as J};

fn plus(mut o: J, more: Vec<(&str, J)>) -> J {
    for (k, v) in more {
        o.as_object_mut().unwrap().insert(k.to_string(), v);
    }
    o
}
pub fn nobs(m: &Number) -> J {
    plus(mobs(m), vec![
        ("num", guard(|| m.num().map(jn))),
        ("numh", guard(|| m.numh().map(|s| js(&s)))),
        ("pos", guard(|| m.positive().map(|b| json!(b)))),
    ])
}
pub fn sobs(m: &Seqner) -> J {
    plus(mobs(m), vec![("sn", guard(|| m.sn().map(jn))), ("snh", guard(|| m.snh().map(|s| js(&s))))])
}
pub fn dobs(m: &Dater) -> J {
    plus(mobs(m), vec![("dts", guard(|| m.dts().map(|s| js(&s)))), ("dtsb", guard(|| m.dtsb().map(|s| jb(&s))))])
}
pub fn bobs(m: &Bexter) -> J {
    plus(mobs(m), vec![("bext", guard(|| m.bext().map(|s| js(&s))))])
}

macro_rules! via {
    ($t:ident, $obs:ident, $e:expr) => {{
        let i = by(&$e["in"]);
        match $e["via"].as_str().unwrap() {
            "qb64" => {
                let s = String::from_utf8(i).expect("script: utf-8");
                guard(|| $t::new_with_qb64(&s).map(|m| $obs(&m)))
            }
            "qb64b" => guard(|| $t::new_with_qb64b(&i).map(|m| $obs(&m))),
            "qb2" => guard(|| $t::new_with_qb2(&i).map(|m| $obs(&m))),
            _ => panic!("script: via"),
        }
    }};
}
macro_rules! raw {
    ($t:ident, $obs:ident, $e:expr) => {{
        let (c, r) = (otx(&$e["code"]), by(&$e["raw"]));
        guard(|| $t::new_with_raw(&r, c.as_deref()).map(|m| $obs(&m)))
    }};
}

pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "n.num" => {
            let n = num(&e["num"]);
            guard(|| Number::new_with_num(n).map(|m| nobs(&m)))
        }
        "n.numh" => {
            let s = tx(&e["in"]);
            guard(|| Number::new_with_numh(&s).map(|m| nobs(&m)))
        }
        "n.none" => guard(|| Number::new(None, None, None, None, None, None, None).map(|m| nobs(&m))),
        "n.raw" => raw!(Number, nobs, e),
        "n.par" => via!(Number, nobs, e),
        "s.sn" => {
            let n = num(&e["num"]);
            guard(|| Seqner::new_with_sn(n).map(|m| sobs(&m)))
        }
        "s.snh" => {
            let s = tx(&e["in"]);
            guard(|| Seqner::new_with_snh(&s).map(|m| sobs(&m)))
        }
        "s.none" => guard(|| Seqner::new(None, None, None, None, None, None, None).map(|m| sobs(&m))),
        "s.raw" => raw!(Seqner, sobs, e),
        "s.par" => via!(Seqner, sobs, e),
        "d.dts" => {
            let s = tx(&e["in"]);
            guard(|| Dater::new_with_dts(&s, None).map(|m| dobs(&m)))
        }
        "d.raw" => raw!(Dater, dobs, e),
        "d.par" => via!(Dater, dobs, e),
        "b.bext" => {
            let s = tx(&e["in"]);
            guard(|| Bexter::new_with_bext(&s).map(|m| bobs(&m)))
        }
        "b.raw" => raw!(Bexter, bobs, e),
        "b.par" => via!(Bexter, bobs, e),
        _ => return None,
    })
}
