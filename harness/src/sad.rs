//! Version strings, self-addressing identifiers, framed events and credentials.
use crate::codec::mobs;
use crate::threshold::doc;
use crate::util::*;
use cesride::common::{self, Version};
use cesride::data::Value;
use cesride::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;

pub fn vobs(v: &Version) -> Vec<(&'static str, J)> {
    vec![("major", json!(v.major)), ("minor", json!(v.minor))]
}
macro_rules! vs {
    ($r:expr) => {{
        let r = $r;
        let mut o = vec![("ident", js(&r.ident)), ("kind", js(&r.kind)), ("size", jn(r.size as u128))];
        o.extend(vobs(&r.version));
        obj(o)
    }};
}
pub fn fobs<S: Sadder>(s: &S) -> Res<J> {
    let mut o = vec![
        ("raw", jb(&s.raw())),
        ("ked", js(&s.ked().to_json()?)),
        ("ident", js(&s.ident())),
        ("kind", js(&s.kind())),
        ("size", jn(s.size() as u128)),
        ("code", js(&s.code())),
        ("said", guard(|| s.said().map(|x| js(&x)))),
        ("saidb", guard(|| s.saidb().map(|x| jb(&x)))),
        ("saider", mobs(&s.saider())),
    ];
    o.extend(vobs(&s.version()));
    Ok(obj(o))
}
pub fn from_raw(e: &J, raw: &[u8]) -> Res<J> {
    let c = otx(&e["code"]);
    match (c.is_none(), e["as"] == "creder") {
        (true, true) => return fobs(&Creder::new_with_raw(raw)?),
        (true, false) => return fobs(&Serder::new_with_raw(raw)?),
        _ => (),
    }
    if e["as"] == "creder" {
        fobs(&Creder::new(c.as_deref(), Some(raw), None, None, None)?)
    } else {
        fobs(&Serder::new(c.as_deref(), Some(raw), None, None, None)?)
    }
}
pub fn from_ked(e: &J, ked: &Value, kind: Option<&str>) -> Res<J> {
    let c = otx(&e["code"]);
    if e["as"] == "creder" {
        fobs(&Creder::new_with_ked(ked, c.as_deref(), kind)?)
    } else {
        fobs(&Serder::new_with_ked(ked, c.as_deref(), kind)?)
    }
}
struct A {
    label: Option<String>,
    code: Option<String>,
    kind: Option<String>,
    ignore: Option<Vec<String>>,
}
fn args(e: &J) -> A {
    A {
        label: otx(&e["label"]),
        code: otx(&e["code"]),
        kind: otx(&e["kind"]),
        ignore: opt(&e["ignore"]).map(|v| v.as_array().unwrap().iter().map(tx).collect()),
    }
}
fn said(e: &J, d: &Value) -> Res<(Saider, Value)> {
    let a = args(e);
    let ig: Option<Vec<&str>> = a.ignore.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect());
    Ok(Saider::saidify(d, a.code.as_deref(), a.kind.as_deref(), a.label.as_deref(), ig.as_deref())?)
}
fn verify(e: &J, s: &Saider, d: &Value) -> J {
    let a = args(e);
    let ig: Option<Vec<&str>> = a.ignore.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect());
    let (p, v) = (obool(&e["prefixed"]), obool(&e["versioned"]));
    sure(|| json!(matches!(s.verify(d, p, v, a.kind.as_deref(), a.label.as_deref(), ig.as_deref()), Ok(true))))
}
/// the identifier with one bit altered, or read as of another code
pub fn altered<M: Matter + Clone>(e: &J, m: &M, new: impl Fn(&str, &[u8]) -> Option<M>) -> Option<M> {
    let mut raw = m.raw();
    if let Some(at) = opt(&e["alt"]) {
        let i = at[0].as_u64().unwrap() as usize % raw.len();
        raw[i] ^= 1 << at[1].as_u64().unwrap();
    }
    let code = otx(&e["recode"]).unwrap_or(m.code());
    new(&code, &raw)
}
#[derive(Default)]
struct Session {
    doc: Option<Value>,
    id: Option<Saider>,
}
thread_local! { static S: RefCell<Session> = RefCell::new(Session::default()); }

pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "v.de" => {
            let s = tx(&e["in"]);
            guard(|| common::deversify(&s).map(|r| vs!(r)))
        }
        "v.mk" => {
            let (i, k) = (otx(&e["ident"]), otx(&e["kind"]));
            let v = opt(&e["version"]).map(|v| Version { major: v[0].as_u64().unwrap() as u8, minor: v[1].as_u64().unwrap() as u8 });
            let s = onum(&e["size"]).map(|n| n as u32);
            guard(|| common::versify(i.as_deref(), v.as_ref(), k.as_deref(), s).map(|r| js(&r)))
        }
        "v.size" => {
            let (d, k) = (doc(&e["doc"]), otx(&e["kind"]));
            guard(|| -> Res<J> {
                let r = common::sizeify(&d, k.as_deref())?;
                let mut o = vec![("raw", jb(&r.raw)), ("ked", js(&r.ked.to_json()?)), ("ident", js(&r.ident)), ("kind", js(&r.kind))];
                o.extend(vobs(&r.version));
                Ok(obj(o))
            })
        }
        "v.sniff" => {
            let b = by(&e["in"]);
            guard(|| common::sniff(&b).map(|r| vs!(r)))
        }
        "sd.said" => {
            let d = doc(&e["doc"]);
            guard(|| -> Res<J> {
                let (s, d) = said(e, &d)?;
                Ok(obj(vec![("id", mobs(&s)), ("sad", js(&d.to_json()?))]))
            })
        }
        "sd.new" => {
            let (d, a) = (doc(&e["doc"]), args(e));
            let ig: Option<Vec<&str>> = a.ignore.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect());
            guard(|| {
                Saider::new_with_sad(&d, a.label.as_deref(), a.kind.as_deref(), ig.as_deref(), a.code.as_deref()).map(|s| mobs(&s))
            })
        }
        "sd.ver" => {
            let (d, t) = (doc(&e["doc"]), tx(&e["id"]));
            match Saider::new_with_qb64(&t) {
                Ok(s) => verify(e, &s, &d),
                Err(_) => er(),
            }
        }
        "sr.raw" => {
            let b = by(&e["in"]);
            guard(|| from_raw(e, &b))
        }
        "sr.ked" => {
            let (d, k) = (doc(&e["doc"]), otx(&e["kind"]));
            guard(|| from_ked(e, &d, k.as_deref()))
        }
        "sr.life" => {
            let (d, tail) = (doc(&e["doc"]), by(&e["tail"]));
            guard(|| -> Res<J> {
                let made = from_ked(e, &d, None)?;
                let raw = by(&made["raw"]);
                let read = guard(|| from_raw(e, &[raw.clone(), tail.clone()].concat()));
                let short = guard(|| from_raw(e, &raw[..raw.len() - 1]));
                Ok(obj(vec![("made", made), ("read", read), ("short", short)]))
            })
        }
        "ds.open" => S.with(|s| {
            let d = doc(&e["doc"]);
            let r = guard(|| d.to_json().map(|t| js(&t)));
            *s.borrow_mut() = Session { doc: Some(d), id: None };
            r
        }),
        "ds.set" | "ds.del" => S.with(|s| {
            let mut s = s.borrow_mut();
            let at = tx(&e["at"]);
            let mut d = s.doc.clone().unwrap();
            let r = guard(|| -> Res<J> {
                if op == "ds.set" {
                    d[at.as_str()] = doc(&e["val"]);
                } else {
                    let mut m = d.to_map()?;
                    m.shift_remove(&at);
                    d = Value::from(&m);
                }
                Ok(js(&d.to_json()?))
            });
            s.doc = Some(d);
            r
        }),
        "ds.said" => S.with(|s| {
            let mut s = s.borrow_mut();
            guard(|| -> Res<J> {
                let (i, d) = said(e, s.doc.as_ref().unwrap())?;
                let r = obj(vec![("id", mobs(&i)), ("sad", js(&d.to_json()?))]);
                *s = Session { doc: Some(d), id: Some(i) };
                Ok(r)
            })
        }),
        "ds.ver" => S.with(|s| {
            let s = s.borrow();
            match &s.id {
                Some(i) => match altered(e, i, |c, r| Saider::new_with_raw(r, Some(c)).ok()) {
                    Some(i) => verify(e, &i, s.doc.as_ref().unwrap()),
                    None => ok(json!(false)),
                },
                None => er(),
            }
        }),
        _ => return None,
    })
}
