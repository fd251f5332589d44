//! Salts and the keys stretched from them.
use crate::codec::mobs;
use crate::sign::gobs;
use crate::util::*;
use cesride::*;
use serde_json::Value as J;
use std::cell::RefCell;

fn asked(op: &str, e: &J, s: &Salter) -> J {
    let (path, at, temp) = (otx(&e["path"]), otx(&e["at"]), obool(&e["temp"]));
    let (path, at) = (path.as_deref(), at.as_deref());
    let code = otx(&e["code"]);
    let tr = obool(&e["tr"]);
    match op {
        "stretch" => guard(|| s.stretch(onum(&e["size"]).map(|n| n as usize), path, at, temp).map(|b| jb(&b))),
        "signer" => guard(|| s.signer(code.as_deref(), tr, path, at, temp).map(|g| gobs(&g))),
        "signers" => guard(|| {
            let (count, start) = (onum(&e["count"]).map(|n| n as usize), onum(&e["start"]).map(|n| n as usize));
            s.signers(count, start, path, code.as_deref(), tr, at, temp).map(|v| J::Array(v.iter().map(gobs).collect()))
        }),
        _ => panic!("script: salter op"),
    }
}
thread_local! { static S: RefCell<Option<Salter>> = const { RefCell::new(None) }; }

pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "sl.make" => {
            let (own, code) = (otx(&e["own"]), otx(&e["code"]));
            let (own, code) = (own.as_deref(), code.as_deref());
            let b = by(&e["in"]);
            let obs = |s: Salter| {
                let mut o = mobs(&s);
                o.as_object_mut().unwrap().insert("tier".into(), js(&s.tier()));
                o
            };
            match e["via"].as_str().unwrap() {
                "none" if code.is_none() => guard(|| Salter::new_with_defaults(own).map(obs)),
                "none" => guard(|| Salter::new(own, code, None, None, None, None).map(obs)),
                "raw" => guard(|| Salter::new_with_raw(&b, code, own).map(obs)),
                "qb64" => {
                    let t = String::from_utf8(b).expect("script: utf-8");
                    if code.is_none() {
                        guard(|| Salter::new_with_qb64(&t, own).map(obs))
                    } else {
                        guard(|| Salter::new(own, code, None, None, Some(&t), None).map(obs))
                    }
                }
                "qb64b" => guard(|| Salter::new_with_qb64b(&b, own).map(obs)),
                _ => guard(|| Salter::new_with_qb2(&b, own).map(obs)),
            }
        }
        "sl.stretch" | "sl.signer" | "sl.signers" => {
            let own = otx(&e["own"]);
            match Salter::new_with_raw(&by(&e["salt"]), None, own.as_deref()) {
                Ok(s) => asked(&op[3..], e, &s),
                Err(_) => er(),
            }
        }
        "so.open" => S.with(|s| {
            let own = otx(&e["own"]);
            guard(|| {
                let n = Salter::new_with_raw(&by(&e["salt"]), None, own.as_deref())?;
                let r = jb(&n.raw());
                *s.borrow_mut() = Some(n);
                Result::Ok(r)
            })
        }),
        "so.stretch" | "so.signer" | "so.signers" => S.with(|s| asked(&op[3..], e, s.borrow().as_ref().expect("script: no salter"))),
        _ => return None,
    })
}
