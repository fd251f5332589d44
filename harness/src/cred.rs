//! Credentials: a validator of issuers, registries, status events and presentations, with nothing
//! but the library's own checks between it and what it is sent.
use crate::kel::{admit, hurt, ints, need, read, signer_of, Log};
use crate::util::*;
use cesride::data::Value;
use cesride::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;

#[derive(Clone)]
struct Issuer {
    pre: String,
    said: String,
    keys: Vec<Verfer>,
    kt: Tholder,
}
#[derive(Clone)]
struct Told {
    reg: String,
    cred: String,
    st: u64,
    last: String,
}
#[derive(Clone)]
struct Held {
    said: String,
    by: String,
    reg: String,
    schema: String,
    to: String,
    asaid: String,
    nodes: Vec<String>,
}
#[derive(Default, Clone)]
struct Known {
    iss: Vec<Issuer>,
    regs: Vec<(String, String)>,
    tel: Vec<Told>,
    creds: Vec<Held>,
}
struct Made {
    raw: Vec<u8>,
    said: String,
    doc: J,
}
#[derive(Default)]
struct Session {
    seeds: Vec<(String, Vec<u8>)>,
    schemas: Vec<Value>,
    made: Vec<Made>,
    known: Known,
    stream: Vec<u8>,
}
thread_local! { static S: RefCell<Session> = RefCell::new(Session::default()); }

impl Known {
    fn issuer(&self, pre: &str) -> Option<&Issuer> {
        self.iss.iter().find(|x| x.pre == pre)
    }
    fn owner(&self, reg: &str) -> Option<&String> {
        self.regs.iter().find(|x| x.0 == reg).map(|x| &x.1)
    }
    fn told(&self, reg: &str, said: &str) -> Option<usize> {
        self.tel.iter().position(|x| x.reg == reg && x.cred == said)
    }
    fn status(&self, reg: &str, said: &str) -> u64 {
        self.told(reg, said).map(|n| self.tel[n].st).unwrap_or(0)
    }
    fn held(&self, said: &str) -> Option<&Held> {
        self.creds.iter().find(|x| x.said == said)
    }
    fn upheld(&self, said: &str) -> bool {
        match self.held(said) {
            Some(h) => self.status(&h.reg, said) == 1 && h.nodes.iter().all(|n| self.upheld(n)),
            None => false,
        }
    }
    fn show(&self) -> J {
        obj(vec![
            ("iss", J::Array(self.iss.iter().map(|x| js(&x.pre)).collect())),
            ("regs", J::Array(self.regs.iter().map(|x| J::Array(vec![js(&x.0), js(&x.1)])).collect())),
            ("tel", J::Array(self.tel.iter().map(|x| obj(vec![("cred", js(&x.cred)), ("st", json!(x.st))])).collect())),
            (
                "creds",
                J::Array(
                    self.creds
                        .iter()
                        .map(|x| obj(vec![("said", js(&x.said)), ("by", js(&x.by)), ("to", js(&x.to)), ("stands", json!(self.upheld(&x.said)))]))
                        .collect(),
                ),
            ),
        ])
    }
}
fn text(v: &Value, label: &str) -> Res<String> {
    Ok(v.to_map()?.get(label).ok_or(Er)?.to_string()?)
}
fn field(v: &Value, label: &str) -> Res<Option<Value>> {
    Ok(v.to_map()?.get(label).cloned())
}
/// enough of the keys
fn enough(keys: &[Verfer], kt: &Tholder, sigs: &[Siger], ser: &[u8]) -> Res<bool> {
    let mut at = vec![];
    for g in sigs {
        let i = g.index() as usize;
        if i < keys.len() && matches!(keys[i].verify(&g.raw(), ser), Ok(true)) {
            at.push(g.index());
        }
    }
    Ok(kt.satisfy(&at)?)
}
fn bound(v: &Value, label: &str) -> Res<bool> {
    Ok(Saider::new_with_qb64(&text(v, label)?)?.verify(v, Some(true), Some(true), None, Some(label), None)?)
}
fn count(b: &[u8], code: &str, at: &mut usize) -> Res<u32> {
    let c = Counter::new_with_qb64b(&b[*at..])?;
    need(c.code() == code)?;
    *at += c.full_size()? as usize;
    Ok(c.count())
}
fn sigs(b: &[u8], at: &mut usize) -> Res<Vec<Siger>> {
    let mut v = vec![];
    for _ in 0..count(b, "-A", at)? {
        let g = Siger::new_with_qb64b(&b[*at..], None)?;
        *at += g.full_size()? as usize;
        v.push(g);
    }
    Ok(v)
}
/// an event of an issuer or a registry
fn told(k: &Known, msg: &[u8]) -> Res<(Known, usize)> {
    let s = read(msg)?;
    let (ked, raw) = (s.ked(), s.raw());
    let mut at = raw.len();
    let signed = sigs(msg, &mut at)?;
    let (t, i, said) = (text(&ked, "t")?, s.pre()?, s.said()?);
    let mut k = k.clone();
    let by = |k: &Known, pre: &str| -> Res<()> {
        let x = k.issuer(pre).ok_or(Er)?;
        need(enough(&x.keys, &x.kt, &signed, &raw)?)
    };
    match t.as_str() {
        "icp" => {
            need(k.issuer(&i).is_none())?;
            let l = admit(&Log::default(), msg)?.0;
            k.iss.push(Issuer { pre: i, said, keys: l.keys, kt: l.kt.ok_or(Er)? });
        }
        "vcp" => {
            let p = Prefixer::new_with_qb64(&i)?;
            need(p.digestive() && p.verify(&ked, Some(true))? && said == i && s.sn()? == 0 && k.owner(&i).is_none())?;
            let ii = text(&ked, "ii")?;
            by(&k, &ii)?;
            k.regs.push((i, ii));
        }
        "iss" | "rev" => {
            need(s.saider().verify(&ked, Some(true), Some(true), None, None, None)?)?;
            let ri = text(&ked, "ri")?;
            let owner = k.owner(&ri).ok_or(Er)?.clone();
            by(&k, &owner)?;
            let n = k.told(&ri, &i);
            if t == "iss" {
                need(s.sn()? == 0 && n.is_none())?;
                k.tel.push(Told { reg: ri, cred: i, st: 1, last: said });
            } else {
                let n = n.ok_or(Er)?;
                need(s.sn()? == 1 && k.tel[n].st == 1 && text(&ked, "p")? == k.tel[n].last)?;
                k.tel[n].st = 2;
                k.tel[n].last = said;
            }
        }
        _ => return Err(Er),
    }
    Ok((k, at))
}
struct Group {
    path: Pather,
    pre: Prefixer,
    sn: u128,
    said: Saider,
    sigs: Vec<Siger>,
}
fn route(b: &[u8], at: &mut usize) -> Res<Pather> {
    let p = Pather::new_with_qb64b(&b[*at..])?;
    *at += p.full_size()?;
    let t = p.bext()?;
    p.path()?;
    // nothing between two separators
    need(t.len() == 1 || (!t.contains("--") && !t.ends_with('-')))?;
    Ok(p)
}
fn groups(b: &[u8], at: &mut usize) -> Res<Vec<Group>> {
    let mut v = vec![];
    while *at < b.len() && b[*at] == b'-' {
        for _ in 0..count(b, "-K", at)? {
            let root = route(b, at)?;
            for _ in 0..count(b, "-J", at)? {
                let path = route(b, at)?.root(&root)?;
                for _ in 0..count(b, "-F", at)? {
                    let pre = Prefixer::new_with_qb64b(&b[*at..])?;
                    *at += pre.full_size()?;
                    let sn = Seqner::new_with_qb64b(&b[*at..])?;
                    *at += sn.full_size()?;
                    let said = Saider::new_with_qb64b(&b[*at..])?;
                    *at += said.full_size()?;
                    v.push(Group { path: path.clone(), pre, sn: sn.sn()?, said, sigs: sigs(b, at)? });
                }
            }
        }
    }
    Ok(v)
}
/// the bytes of the part a path points at
fn part(p: &Pather, v: &Value) -> Res<Vec<u8>> {
    let x = p.resolve(v)?;
    if let Ok(t) = x.to_string() {
        Saider::new_with_qb64(&t)?;
        return Ok(t.into_bytes());
    }
    need(x.to_map().is_ok() || x.to_vec().is_ok())?;
    Ok(x.to_json()?.into_bytes())
}
fn creder(msg: &[u8]) -> Res<Creder> {
    for c in ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"] {
        if let Ok(s) = Creder::new(Some(c), Some(msg), None, None, None) {
            return Ok(s);
        }
    }
    Err(Er)
}
fn presented(k: &Known, msg: &[u8], schemas: &[Value]) -> Res<(Known, usize)> {
    let c = creder(msg)?;
    let mut at = c.raw().len();
    let gs = groups(msg, &mut at)?;
    let (v, said, i) = (c.crd(), c.said()?, c.issuer()?);
    need(c.saider().verify(&v, Some(true), Some(true), None, None, None)?)?;
    let ri = c.status()?.ok_or(Er)?;
    let who = k.issuer(&i).ok_or(Er)?;
    need(k.owner(&ri) == Some(&i) && k.status(&ri, &said) == 1)?;
    let schema = Saider::new_with_qb64(&c.schema()?)?;
    let mut fits = false;
    for s in schemas {
        fits = fits || schema.verify(s, Some(true), Some(false), None, Some("$id"), None)?;
    }
    need(fits)?;
    let a = c.subject();
    let (asaid, to) = match a.to_string() {
        Ok(t) => (Saider::new_with_qb64(&t)?.qb64()?, String::new()),
        Err(_) => {
            need(bound(&a, "d")?)?;
            (text(&a, "d")?, text(&a, "i").unwrap_or_default())
        }
    };
    let e = c.chains()?;
    let mut nodes = vec![];
    if !e.to_map()?.is_empty() {
        need(bound(&e, "d")?)?;
    }
    for (l, x) in e.to_map()? {
        if l == "d" {
            continue;
        }
        let n = k.held(&text(&x, "n")?).ok_or(Er)?;
        need(k.upheld(&n.said) && n.schema == text(&x, "s")? && (n.to.is_empty() || n.to == i))?;
        nodes.push(n.said.clone());
    }
    let mut yes = false;
    for g in &gs {
        let own = g.pre.qb64()? == i && g.sn == 0 && g.said.qb64()? == who.said;
        if own && ["-", "-d"].contains(&g.path.bext()?.as_str()) {
            yes = yes || enough(&who.keys, &who.kt, &g.sigs, &part(&g.path, &v)?)?;
        }
    }
    need(yes)?;
    let mut k = k.clone();
    if k.held(&said).is_none() {
        k.creds.push(Held { said, by: i, reg: ri, schema: schema.qb64()?, to, asaid, nodes });
    }
    Ok((k, at))
}
fn any(k: &Known, msg: &[u8], schemas: &[Value]) -> Res<(Known, usize)> {
    if creder(msg).is_ok() {
        presented(k, msg, schemas)
    } else {
        told(k, msg)
    }
}
fn shown(k: &Known, said: &str, b: &[u8]) -> Res<Known> {
    let mut k = k.clone();
    let h = k.creds.iter_mut().find(|x| x.said == said).ok_or(Er)?;
    let j: J = serde_json::from_slice(b).map_err(|_| Er)?;
    need(j.is_object())?;
    let v = Value::from(&j);
    need(Saider::new_with_qb64(&h.asaid)?.verify(&v, Some(true), Some(true), None, None, None)?)?;
    h.to = text(&v, "i").unwrap_or_default();
    Ok(k)
}
// ------------------------------------------------------------------ writing
fn said_in(v: J, label: &str, code: &str) -> Res<Value> {
    Ok(Saider::saidify(&Value::from(&v), Some(code), None, if label == "d" { None } else { Some(label) }, None)?.1)
}
fn schema(n: u64) -> Res<Value> {
    said_in(json!({"$id": "", "type": "object", "n": n}), "$id", "E")
}
fn u(e: &J, l: &str) -> usize {
    e[l].as_u64().unwrap() as usize
}
fn subject(s: &Session, e: &J, says: u64) -> Res<Value> {
    let mut d = serde_json::Map::new();
    d.insert("d".into(), json!(""));
    if u(e, "to") != 0 {
        d.insert("i".into(), json!(s.made[u(e, "to") - 1].said));
    }
    d.insert("n".into(), json!(says));
    said_in(J::Object(d), "d", "E")
}
fn spoilt(e: &J, mut v: Value) -> Value {
    if e["bad"] == "subject" && e["form"] == "obj" {
        v["z"] = Value::from(&json!(1));
    }
    v
}
fn make(s: &Session, e: &J) -> Res<Made> {
    let (t, says) = (e["t"].as_str().unwrap(), u(e, "says") as u64);
    let said = |l: &str| s.made[u(e, l) - 1].said.clone();
    let when = || -> Res<String> { Ok(Dater::new_with_dts(&format!("2021-06-0{}T21:26:21.233257+00:00", says + 1), None)?.dts()?) };
    let d = match t {
        "icp" => {
            let mut keys = vec![];
            for k in ints(&e["keys"]) {
                keys.push(signer_of(&s.seeds, k, true)?.verfer().qb64()?);
            }
            let kt: J = serde_json::from_slice(&by(&e["kt"])).expect("script: kt");
            json!({"v": "KERI10JSON000000_", "t": t, "d": "", "i": "", "s": "0", "kt": kt, "k": keys, "nt": "0", "n": [], "bt": "0", "b": [], "c": [], "a": []})
        }
        "vcp" => json!({"v": "KERI10JSON000000_", "t": t, "d": "", "i": "", "ii": said("by"), "s": "0", "c": [], "bt": "0", "b": [], "n": says}),
        "iss" => json!({"v": "KERI10JSON000000_", "t": t, "d": "", "i": said("cred"), "s": "0", "ri": said("reg"), "dt": when()?}),
        "rev" => json!({"v": "KERI10JSON000000_", "t": t, "d": "", "i": said("cred"), "s": "1", "ri": said("reg"), "p": said("prior"), "dt": when()?}),
        _ => {
            let part = |n: u64| -> Res<Value> {
                let a = subject(s, e, n)?;
                Ok(if e["form"] == "said" { a["d"].clone() } else { spoilt(e, a) })
            };
            let json_of = |v: &Value| -> Res<J> { Ok(serde_json::from_str(&v.to_json()?).map_err(|_| Er)?) };
            let mut d = json!({"v": "ACDC10JSON000000_", "d": "", "i": said("by"), "ri": said("reg"), "s": text(&schema(u(e, "schema") as u64)?, "$id")?, "a": json_of(&part(says)?)?});
            let edges = e["edges"].as_array().unwrap();
            if !edges.is_empty() {
                let mut b = serde_json::Map::new();
                b.insert("d".into(), json!(""));
                for (n, x) in edges.iter().enumerate() {
                    b.insert(format!("e{}", n + 1), json!({"n": s.made[u(x, "n") - 1].said, "s": text(&schema(u(x, "s") as u64)?, "$id")?}));
                }
                let mut b = json_of(&said_in(J::Object(b), "d", "E")?)?;
                if e["bad"] == "edges" {
                    b["o"] = json!("I2I");
                }
                d["e"] = b;
            }
            let code = tx(&e["code"]);
            let mut v = said_in(d, "d", &code)?;
            if e["bad"] == "said" {
                v["a"] = part(says + 1)?;
            }
            let z = Creder::new_with_ked(&v, Some(&code), None)?;
            return Ok(Made { raw: z.raw(), said: z.said()?, doc: e.clone() });
        }
    };
    let mut v = Value::from(&d);
    if t == "icp" || t == "vcp" {
        let p = Prefixer::new_with_ked(&v, None, Some("E"))?.qb64()?;
        v["i"] = Value::from(&p);
        v["d"] = Value::from(&p);
    } else {
        v = Saider::saidify(&v, Some("E"), None, None, None)?.1;
    }
    let z = Serder::new_with_ked(&v, Some("E"), None)?;
    Ok(Made { raw: z.raw(), said: z.said()?, doc: e.clone() })
}
fn path(p: &J) -> Res<Pather> {
    let v: Vec<J> = p.as_array().unwrap().clone();
    Ok(Pather::new_with_path(&Value::from(&J::Array(v)))?)
}
fn signed(s: &Session, a: &J, ser: &[u8]) -> Res<Vec<u8>> {
    Ok(signer_of(&s.seeds, u(a, "key"), true)?.sign_indexed(ser, false, u(a, "index") as u32, None)?.qb64b()?)
}
fn group(c: &str, list: &[Vec<u8>]) -> Res<Vec<u8>> {
    Ok([Counter::new_with_code_and_count(c, list.len() as u32)?.qb64b()?, list.concat()].concat())
}
fn settle(s: &mut Session, sigs: J, msg: Vec<u8>, took: Res<(Known, usize)>, keep: bool) -> Res<J> {
    let took = match took {
        Ok((k, n)) if n == msg.len() => Some(k),
        _ => None,
    };
    let yes = took.is_some();
    if let Some(k) = took {
        s.known = k;
        if keep {
            s.stream.extend(&msg);
        }
    }
    Ok(obj(vec![("sigs", sigs), ("msg", jb(&msg)), ("yes", json!(yes)), ("state", s.known.show())]))
}

pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "kc.open" => S.with(|s| {
            let seeds: Vec<(String, Vec<u8>)> =
                e["seeds"].as_array().unwrap().iter().map(|x| (tx(&x["code"]), by(&x["seed"]))).collect();
            *s.borrow_mut() = Session { seeds, ..Session::default() };
            let mut s = s.borrow_mut();
            guard(|| -> Res<J> {
                let mut v = vec![];
                for n in 1..=u(e, "schemas") as u64 {
                    let d = schema(n)?;
                    v.push(js(&text(&d, "$id")?));
                    s.schemas.push(d);
                }
                Ok(J::Array(v))
            })
        }),
        "kc.make" => S.with(|s| {
            let mut s = s.borrow_mut();
            guard(|| -> Res<J> {
                let m = make(&s, e)?;
                let raw = m.raw.clone();
                s.made.push(m);
                Ok(jb(&raw))
            })
        }),
        "kc.send" => S.with(|s| {
            let mut s = s.borrow_mut();
            guard(|| -> Res<J> {
                let mut msg = s.made[u(e, "ev") - 1].raw.clone();
                let mut sigs = vec![];
                for a in e["sigs"].as_array().unwrap() {
                    sigs.push(signed(&s, a, &s.made[u(a, "over") - 1].raw)?);
                }
                msg.extend(group("-A", &sigs)?);
                hurt(&mut msg, e);
                let took = told(&s.known, &msg);
                settle(&mut s, J::Array(sigs.iter().map(|g| jb(g)).collect()), msg, took, true)
            })
        }),
        "kc.present" => S.with(|s| {
            let mut s = s.borrow_mut();
            guard(|| -> Res<J> {
                let mut msg = s.made[u(e, "ev") - 1].raw.clone();
                let mut all = vec![];
                for g in e["groups"].as_array().unwrap() {
                    let mut paths = vec![];
                    let mut shown = vec![];
                    for q in g["paths"].as_array().unwrap() {
                        let mut sigs = vec![];
                        for a in q["sigs"].as_array().unwrap() {
                            let v: J = serde_json::from_slice(&s.made[u(a, "over") - 1].raw).map_err(|_| Er)?;
                            let ser = part(&path(&a["part"])?, &Value::from(&v)).unwrap_or_default();
                            sigs.push(signed(&s, a, &ser)?);
                        }
                        let by = &s.made[u(q, "by") - 1].said;
                        let who = [Prefixer::new_with_qb64(by)?.qb64b()?, Seqner::new_with_sn(0)?.qb64b()?, Saider::new_with_qb64(by)?.qb64b()?, group("-A", &sigs)?].concat();
                        paths.push([path(&q["path"])?.qb64b()?, group("-F", &[who])?].concat());
                        shown.push(J::Array(sigs.iter().map(|g| jb(g)).collect()));
                    }
                    msg.extend(group("-K", &[[path(&g["root"])?.qb64b()?, group("-J", &paths)?].concat()])?);
                    all.push(J::Array(shown));
                }
                hurt(&mut msg, e);
                let took = presented(&s.known, &msg, &s.schemas);
                settle(&mut s, J::Array(all), msg, took, true)
            })
        }),
        "kc.show" => S.with(|s| {
            let mut s = s.borrow_mut();
            guard(|| -> Res<J> {
                let of = s.made[u(e, "of") - 1].doc.clone();
                let says = of["says"].as_u64().unwrap() + u64::from(of["bad"] == "said");
                let mut msg = spoilt(&of, subject(&s, &of, says)?).to_json()?.into_bytes();
                hurt(&mut msg, e);
                let took = shown(&s.known, &s.made[u(e, "ev") - 1].said, &msg).map(|k| (k, msg.len()));
                settle(&mut s, json!([]), msg, took, false)
            })
        }),
        "kc.all" => S.with(|s| {
            let s = s.borrow();
            guard(|| -> Res<J> {
                let mut k = Known::default();
                let mut b = &s.stream[..];
                while !b.is_empty() {
                    let (l, n) = any(&k, b, &s.schemas)?;
                    k = l;
                    b = &b[n..];
                }
                Ok(k.show())
            })
        }),
        _ => return None,
    })
}
