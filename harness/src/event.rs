//! Identifier prefixes, paths, and what events and credentials say.
use crate::codec::mobs;
use crate::threshold::{doc, thobs};
use crate::typed::nobs;
use crate::util::*;
use cesride::data::Value;
use cesride::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;

fn list<M: Matter>(r: Result<Vec<M>>) -> Res<J> {
    Ok(J::Array(r?.iter().map(|m| mobs(m)).collect()))
}
fn thold(r: Result<Option<Tholder>>) -> Res<J> {
    Ok(match r? {
        Some(t) => json!([thobs(&t)?]),
        None => json!([]),
    })
}
fn says_event(s: &Serder, size: Option<usize>) -> J {
    obj(vec![
        ("verfers", guard(|| list(s.verfers()))),
        ("digers", guard(|| list(s.digers()))),
        ("werfers", guard(|| list(s.werfers()))),
        ("tholder", guard(|| thold(s.tholder()))),
        ("ntholder", guard(|| thold(s.ntholder()))),
        ("sner", guard(|| s.sner().map(|n| nobs(&n)))),
        ("sn", guard(|| s.sn().map(jn))),
        ("fner", guard(|| s.fner().map(|f| J::Array(f.iter().map(nobs).collect())))),
        ("fn", guard(|| s._fn().map(jn))),
        ("pre", guard(|| s.pre().map(|x| js(&x)))),
        ("preb", guard(|| s.preb().map(|x| jb(&x)))),
        ("est", guard(|| s.est().map(|b| json!(b)))),
        ("pretty", guard(|| s.pretty(size).map(|x| js(&x)))),
    ])
}
fn says_cred(s: &Creder, size: Option<usize>) -> J {
    obj(vec![
        ("crd", guard(|| s.crd().to_json().map(|x| js(&x)))),
        ("issuer", guard(|| s.issuer().map(|x| js(&x)))),
        ("schema", guard(|| s.schema().map(|x| js(&x)))),
        ("subject", guard(|| s.subject().to_json().map(|x| js(&x)))),
        ("status", guard(|| s.status().map(|x| J::Array(x.iter().map(|t| js(t)).collect())))),
        ("chains", guard(|| s.chains().and_then(|v| v.to_json()).map(|x| js(&x)))),
        ("pretty", guard(|| s.pretty(size).map(|x| js(&x)))),
    ])
}
fn text(p: Result<Pather>) -> Res<J> {
    Ok(js(&p?.bext()?))
}
fn pobs(p: &Pather) -> J {
    let mut o = mobs(p);
    let parts = guard(|| -> Res<J> {
        let mut v = vec![];
        for c in p.path()?.to_vec()? {
            v.push(js(&c.to_string()?));
        }
        Ok(J::Array(v))
    });
    let again = obj(vec![
        ("path", guard(|| -> Res<J> { text(Pather::new_with_path(&p.path()?)) })),
        ("bext", guard(|| -> Res<J> { text(Pather::new_with_bext(&p.bext()?)) })),
        ("qb64", guard(|| -> Res<J> { text(Pather::new_with_qb64(&p.qb64()?)) })),
        ("qb64b", guard(|| -> Res<J> { text(Pather::new_with_qb64b(&p.qb64b()?)) })),
        ("qb2", guard(|| -> Res<J> { text(Pather::new_with_qb2(&p.qb2()?)) })),
        ("raw", guard(|| -> Res<J> { text(Pather::new_with_raw(&p.raw(), Some(&p.code()))) })),
    ]);
    let m = o.as_object_mut().unwrap();
    m.insert("bext".into(), guard(|| p.bext().map(|s| js(&s))));
    m.insert("path".into(), parts);
    m.insert("again".into(), again);
    o
}
fn path_in(e: &J) -> Result<Pather> {
    let t = tx(&e["path"]);
    if e["form"] == "bext" {
        Pather::new_with_bext(&t)
    } else {
        Pather::new_with_qb64(&t)
    }
}
fn prefix(e: &J, d: &Value, allows: bool) -> Result<Prefixer> {
    let c = otx(&e["code"]);
    let a: Option<Vec<String>> = if allows { opt(&e["allows"]).map(|v| v.as_array().unwrap().iter().map(tx).collect()) } else { None };
    let a: Option<Vec<&str>> = a.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect());
    Prefixer::new_with_ked(d, a.as_deref(), c.as_deref())
}
fn filled(d: &Value, p: &Prefixer) -> Res<Value> {
    let mut d = d.clone();
    d["i"] = Value::from(&p.qb64()?);
    if p.digestive() {
        d["d"] = Value::from(&p.qb64()?);
    }
    Ok(d)
}
fn verified(p: &Prefixer, d: &Value, prefixed: Option<bool>) -> bool {
    matches!(p.verify(d, prefixed), Ok(true))
}
/// an event or a credential under edit
#[derive(Clone)]
enum Frame {
    S(Serder),
    C(Creder),
}
fn refill<S: Sadder>(op: &str, e: &J, s: &mut S) -> Res<J> {
    match op {
        "se.code" => s.set_code(&tx(&e["code"])),
        "se.set" => {
            let mut d = s.ked();
            d.to_map()?;
            d[tx(&e["at"]).as_str()] = doc(&e["val"]);
            s.set_ked(&d)
        }
        "se.raw" => s.populate_from_raw(&by(&e["in"]))?,
        "se.ked" => s.populate_from_ked(&doc(&e["doc"]), otx(&e["kind"]).as_deref())?,
        "se.self" => s.populate_from_kind_and_self(&tx(&e["kind"]))?,
        _ => (),
    }
    crate::sad::fobs(s)
}
impl Frame {
    fn step(&mut self, op: &str, e: &J) -> Res<J> {
        match self {
            Frame::S(s) => {
                if op == "se.copy" {
                    *s = Serder::new(otx(&e["code"]).as_deref(), None, otx(&e["kind"]).as_deref(), None, Some(s))?;
                }
                if op == "se.says" { Ok(says_event(s, None)) } else { refill(op, e, s) }
            }
            Frame::C(s) => {
                if op == "se.copy" {
                    *s = Creder::new(otx(&e["code"]).as_deref(), None, otx(&e["kind"]).as_deref(), None, Some(s))?;
                }
                if op == "se.says" { Ok(says_cred(s, None)) } else { refill(op, e, s) }
            }
        }
    }
}
thread_local! { static F: RefCell<Option<Frame>> = const { RefCell::new(None) }; }

#[derive(Default)]
struct Session {
    doc: Option<Value>,
    pre: Option<Prefixer>,
}
thread_local! { static S: RefCell<Session> = RefCell::new(Session::default()); }

pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "px.new" => {
            let d = doc(&e["doc"]);
            guard(|| prefix(e, &d, true).map(|p| mobs(&p)))
        }
        "px.ver" => {
            let (d, t) = (doc(&e["doc"]), tx(&e["id"]));
            let p = obool(&e["prefixed"]);
            match Prefixer::new_with_qb64(&t) {
                Ok(x) => sure(|| json!(verified(&x, &d, p))),
                Err(_) => er(),
            }
        }
        "px.life" => {
            let d = doc(&e["doc"]);
            guard(|| -> Res<J> {
                let p = prefix(e, &d, false)?;
                let f = filled(&d, &p)?;
                Ok(obj(vec![
                    ("made", mobs(&p)),
                    ("plain", json!(verified(&p, &d, None))),
                    ("filled", json!(verified(&p, &f, Some(true)))),
                    ("again", guard(|| Prefixer::new_with_ked(&f, None, None).map(|q| mobs(&q)))),
                    ("doc", js(&f.to_json()?)),
                ]))
            })
        }
        "ev.says" => {
            let raw = oby(&e["raw"]);
            let d = if raw.is_none() { Some(doc(&e["doc"])) } else { None };
            let c = otx(&e["code"]);
            let size = onum(&e["size"]).map(|n| n as usize);
            if e["as"] == "creder" {
                guard(|| Creder::new(c.as_deref(), raw.as_deref(), None, d.as_ref(), None).map(|s| says_cred(&s, size)))
            } else {
                guard(|| Serder::new(c.as_deref(), raw.as_deref(), None, d.as_ref(), None).map(|s| says_event(&s, size)))
            }
        }
        "pa.list" => {
            let d = doc(&e["doc"]);
            guard(|| Pather::new_with_path(&d).map(|p| pobs(&p)))
        }
        "pa.bext" => {
            let t = tx(&e["in"]);
            guard(|| Pather::new_with_bext(&t).map(|p| pobs(&p)))
        }
        "pa.par" => {
            let b = by(&e["in"]);
            match e["via"].as_str().unwrap() {
                "qb64" => {
                    let s = String::from_utf8(b).expect("script: utf-8");
                    guard(|| Pather::new_with_qb64(&s).map(|p| pobs(&p)))
                }
                "qb64b" => guard(|| Pather::new_with_qb64b(&b).map(|p| pobs(&p))),
                _ => guard(|| Pather::new_with_qb2(&b).map(|p| pobs(&p))),
            }
        }
        "pa.res" => {
            let d = doc(&e["doc"]);
            guard(|| -> Res<J> { Ok(js(&path_in(e)?.resolve(&d)?.to_json()?)) })
        }
        "pa.tail" => {
            let d = doc(&e["doc"]);
            guard(|| -> Res<J> { Ok(js(&path_in(e)?.tail(&Serder::new_with_ked(&d, None, None)?)?)) })
        }
        "pa.rel" => {
            let (a, b) = (tx(&e["a"]), tx(&e["b"]));
            guard(|| -> Res<J> {
                let (a, b) = (Pather::new_with_bext(&a)?, Pather::new_with_bext(&b)?);
                Ok(obj(vec![
                    ("root", guard(|| a.root(&b).map(|p| pobs(&p)))),
                    ("strip", guard(|| a.strip(&b).map(|p| pobs(&p)))),
                    ("under", guard(|| a.starts_with(&b).map(|x| json!(x)))),
                    ("back", guard(|| a.root(&b).and_then(|p| p.strip(&b)).map(|p| pobs(&p)))),
                ]))
            })
        }
        "se.open" => F.with(|s| {
            let mut s = s.borrow_mut();
            *s = None;
            let c = otx(&e["code"]);
            let d = doc(&e["doc"]);
            guard(|| -> Res<J> {
                let mut f = if e["as"] == "creder" { Frame::C(Creder::new_with_ked(&d, c.as_deref(), None)?) } else { Frame::S(Serder::new_with_ked(&d, c.as_deref(), None)?) };
                let r = f.step("", e);
                *s = Some(f);
                r
            })
        }),
        "se.code" | "se.set" | "se.raw" | "se.ked" | "se.self" | "se.copy" | "se.says" => F.with(|s| match s.borrow_mut().as_mut() {
            Some(f) => guard(|| f.step(op, e)),
            None => er(),
        }),
        "pe.open" => S.with(|s| {
            let d = doc(&e["doc"]);
            let r = guard(|| d.to_json().map(|t| js(&t)));
            *s.borrow_mut() = Session { doc: Some(d), pre: None };
            r
        }),
        "pe.pre" => S.with(|s| {
            let mut s = s.borrow_mut();
            guard(|| -> Res<J> {
                let d = s.doc.clone().unwrap();
                let p = prefix(e, &d, false)?;
                *s = Session { doc: Some(filled(&d, &p)?), pre: Some(p.clone()) };
                Ok(mobs(&p))
            })
        }),
        "pe.set" | "pe.del" => S.with(|s| {
            let mut s = s.borrow_mut();
            let at = tx(&e["at"]);
            let mut d = s.doc.clone().unwrap();
            let r = guard(|| -> Res<J> {
                if op == "pe.set" {
                    d[at.as_str()] = doc(&e["val"]);
                } else {
                    let mut m = d.to_map()?;
                    m.shift_remove(&at);
                    d = Value::from(&m);
                }
                Ok(js(&d.to_json()?))
            });
            s.doc = Some(d);
            r
        }),
        "pe.ver" => S.with(|s| {
            let s = s.borrow();
            let p = obool(&e["prefixed"]);
            match &s.pre {
                Some(x) => match crate::sad::altered(e, x, |c, r| Prefixer::new_with_raw(r, Some(c)).ok()) {
                    Some(x) => sure(|| json!(verified(&x, s.doc.as_ref().unwrap(), p))),
                    None => ok(json!(false)),
                },
                None => er(),
            }
        }),
        _ => return None,
    })
}
