//! A key event log: events made, signed, sent and admitted, with nothing but the library's own
//! checks standing between a validator and the events it is sent.
use crate::util::*;
use cesride::data::Value;
use cesride::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;

#[derive(Default, Clone)]
pub struct Log {
    pub n: usize,
    pub pre: String,
    pub sn: u128,
    pub last: String,
    pub keys: Vec<Verfer>,
    pub kt: Option<Tholder>,
    pub next: Vec<Diger>,
    pub nt: Option<Tholder>,
}
pub struct Made {
    pub raw: Vec<u8>,
    pub pre: String,
    pub said: String,
}
#[derive(Default)]
struct Session {
    seeds: Vec<(String, Vec<u8>)>,
    made: Vec<Made>,
    log: Log,
    stream: Vec<u8>,
}
thread_local! { static S: RefCell<Session> = RefCell::new(Session::default()); }

pub fn state(l: &Log) -> Res<J> {
    let mut keys = vec![];
    for k in &l.keys {
        keys.push(js(&k.qb64()?));
    }
    let mut next = vec![];
    for k in &l.next {
        next.push(js(&k.qb64()?));
    }
    Ok(obj(vec![
        ("n", json!(l.n)),
        ("pre", js(&l.pre)),
        ("sn", jn(l.sn)),
        ("last", js(&l.last)),
        ("keys", J::Array(keys)),
        ("next", J::Array(next)),
    ]))
}
pub fn need(b: bool) -> Res<()> {
    if b {
        Ok(())
    } else {
        Err(Er)
    }
}
/// an event under whichever digest its identifier is
pub fn read(msg: &[u8]) -> Res<Serder> {
    for c in ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"] {
        if let Ok(s) = Serder::new(Some(c), Some(msg), None, None, None) {
            return Ok(s);
        }
    }
    Err(Er)
}
/// one message off the front of a stream: whether the log admits it, and how long it was
pub fn admit(l: &Log, msg: &[u8]) -> Res<(Log, usize)> {
    let s = read(msg)?;
    let raw = s.raw();
    let mut at = raw.len();
    let c = Counter::new_with_qb64b(&msg[at..])?;
    need(c.code() == "-A")?;
    at += c.full_size()? as usize;
    let mut sigs = vec![];
    for _ in 0..c.count() {
        let g = Siger::new_with_qb64b(&msg[at..], None)?;
        at += g.full_size()? as usize;
        sigs.push(g);
    }
    let ked = s.ked();
    let m = ked.to_map()?;
    let t = m.get("t").ok_or(Er)?.to_string()?;
    let (inc, rot) = (t == "icp" || t == "dip", t == "rot" || t == "drt");
    need(inc || rot || t == "ixn")?;
    let (pre, sn, said) = (s.pre()?, s.sn()?, s.said()?);
    let bound = || -> Res<bool> { Ok(Saider::new_with_qb64(&said)?.verify(&ked, Some(true), Some(true), None, None, None)?) };
    if inc {
        need(l.n == 0 && sn == 0)?;
        let p = Prefixer::new_with_qb64(&pre)?;
        need(p.verify(&ked, Some(true))?)?;
        need(if p.digestive() { said == pre } else { bound()? })?;
    } else {
        need(l.n > 0 && bound()? && pre == l.pre && sn == l.sn + 1 && !l.next.is_empty())?;
        need(m.get("p").ok_or(Er)?.to_string()? == l.last)?;
    }
    let est = inc || rot;
    let mut keys = l.keys.clone();
    let mut kt = l.kt.clone();
    let mut next = l.next.clone();
    let mut nt = l.nt.clone();
    if est {
        keys = s.verfers()?;
        kt = s.tholder()?;
        next = s.digers()?;
        nt = if next.is_empty() { None } else { s.ntholder()? };
        if let Some(t) = &nt {
            need(t.size() as usize <= next.len())?;
        }
        need(next.is_empty() || nt.is_some())?;
    }
    let k = kt.as_ref().ok_or(Er)?;
    need(!keys.is_empty() && k.size() as usize <= keys.len())?;
    let mut indices = vec![];
    let mut ondices = vec![];
    for g in &sigs {
        let i = g.index() as usize;
        if i >= keys.len() || !matches!(keys[i].verify(&g.raw(), &raw), Ok(true)) {
            continue;
        }
        indices.push(g.index());
        let o = g.ondex() as usize;
        if !["B", "D", "F", "2B", "2D", "2F"].contains(&g.code().as_str())
            && o < l.next.len()
            && matches!(l.next[o].verify(&keys[i].qb64b()?), Ok(true))
        {
            ondices.push(g.ondex());
        }
    }
    need(k.satisfy(&indices)?)?;
    if rot {
        need(l.nt.as_ref().ok_or(Er)?.satisfy(&ondices)?)?;
    }
    Ok((Log { n: l.n + 1, pre, sn, last: said, keys, kt, next, nt }, at))
}
fn signer(s: &Session, k: usize, tr: bool) -> Res<Signer> {
    signer_of(&s.seeds, k, tr)
}
pub fn signer_of(seeds: &[(String, Vec<u8>)], k: usize, tr: bool) -> Res<Signer> {
    let (c, seed) = &seeds[k - 1];
    Ok(Signer::new_with_raw(seed, Some(tr), Some(c))?)
}
pub fn hurt(msg: &mut Vec<u8>, e: &J) {
    let Some(h) = opt(&e["hurt"]) else { return };
    let at = h["at"].as_u64().unwrap() as usize % msg.len();
    let to = h["to"].as_u64().unwrap() as u8;
    match h["what"].as_str().unwrap() {
        "put" => msg[at] = to,
        "cut" => msg.truncate(at),
        "add" => msg.push(to),
        "drop" => {
            msg.remove(at);
        }
        _ => panic!("script: hurt"),
    }
}
/// the signatures asked for, as they travel
pub fn signed(seeds: &[(String, Vec<u8>)], made: &[Made], e: &J) -> Res<Vec<Vec<u8>>> {
    let mut sigs = vec![];
    for a in e["sigs"].as_array().unwrap() {
        let over = &made[a["over"].as_u64().unwrap() as usize - 1].raw;
        let only = a["only"].as_bool().unwrap();
        let index = a["index"].as_u64().unwrap() as u32;
        let ondex = opt(&a["ondex"]).map(|o| o.as_u64().unwrap() as u32);
        let g = signer_of(seeds, a["key"].as_u64().unwrap() as usize, true)?.sign_indexed(over, only, index, ondex)?;
        sigs.push(g.qb64b()?);
    }
    Ok(sigs)
}
pub fn ints(v: &J) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
fn make(s: &Session, e: &J) -> Res<Made> {
    let t = e["t"].as_str().unwrap();
    let (inc, est) = (t == "icp" || t == "dip", t != "ixn");
    let (i, prior, sn, tag) = (
        e["i"].as_u64().unwrap() as usize,
        e["prior"].as_u64().unwrap() as usize,
        e["sn"].as_u64().unwrap(),
        e["tag"].as_u64().unwrap(),
    );
    let pre = if i == 0 { "" } else { s.made[i - 1].pre.as_str() };
    let mut d = serde_json::Map::new();
    let mut put = |k: &str, v: J| {
        d.insert(k.to_string(), v);
    };
    put("v", json!("KERI10JSON000000_"));
    put("t", json!(t));
    put("d", json!(""));
    put("i", json!(pre));
    put("s", json!(format!("{sn:x}")));
    if !inc {
        put("p", json!(if prior == 0 { "" } else { s.made[prior - 1].said.as_str() }));
    }
    if est {
        let fix = e["fix"].as_bool().unwrap();
        let mut keys = vec![];
        for k in ints(&e["keys"]) {
            keys.push(signer(s, k, !fix)?.verfer().qb64()?);
        }
        let mut next = vec![];
        for k in ints(&e["next"]) {
            next.push(Diger::new_with_ser(&signer(s, k, true)?.verfer().qb64b()?, Some("E"))?.qb64()?);
        }
        put("kt", serde_json::from_slice(&by(&e["kt"])).expect("script: kt"));
        put("k", json!(keys));
        put("nt", serde_json::from_slice(&by(&e["nt"])).expect("script: nt"));
        put("n", json!(next));
        put("bt", json!("0"));
        put("b", json!([]));
        put("c", json!([]));
    }
    put("a", if tag == 0 { json!([]) } else { json!([{ "tag": tag }]) });
    let mut v = Value::from(&J::Object(d));
    let mut own = false;
    if inc && i == 0 {
        let p = Prefixer::new_with_ked(&v, None, Some(&tx(&e["code"])))?;
        v["i"] = Value::from(&p.qb64()?);
        if p.digestive() {
            v["d"] = Value::from(&p.qb64()?);
            own = true;
        }
    }
    if !own {
        v = Saider::saidify(&v, Some("E"), None, None, None)?.1;
    }
    let code = if own { tx(&e["code"]) } else { "E".to_string() };
    let z = Serder::new_with_ked(&v, Some(&code), None)?;
    Ok(Made { raw: z.raw(), pre: z.pre()?, said: z.said()? })
}

pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "kl.open" => S.with(|s| {
            let seeds: Vec<(String, Vec<u8>)> =
                e["seeds"].as_array().unwrap().iter().map(|x| (tx(&x["code"]), by(&x["seed"]))).collect();
            let n = seeds.len();
            *s.borrow_mut() = Session { seeds, ..Session::default() };
            let s = s.borrow();
            guard(|| -> Res<J> {
                let mut v = vec![];
                for k in 1..=n {
                    v.push(js(&signer(&s, k, true)?.verfer().qb64()?));
                }
                Ok(J::Array(v))
            })
        }),
        "kl.make" => S.with(|s| {
            let mut s = s.borrow_mut();
            guard(|| -> Res<J> {
                let m = make(&s, e)?;
                let raw = m.raw.clone();
                s.made.push(m);
                Ok(jb(&raw))
            })
        }),
        "kl.forge" => S.with(|s| {
            let mut s = s.borrow_mut();
            let raw = s.made[e["ev"].as_u64().unwrap() as usize - 1].raw.clone();
            let mut d: J = serde_json::from_slice(&raw).expect("script: event");
            let m = d.as_object_mut().unwrap();
            for p in e["set"].as_array().unwrap() {
                m.insert(tx(&p[0]), serde_json::from_slice(&by(&p[1])).expect("script: value"));
            }
            for l in e["del"].as_array().unwrap() {
                m.shift_remove(&tx(l));
            }
            let v = Value::from(&d);
            s.made.push(Made { raw, pre: String::new(), said: String::new() });
            guard(|| -> Res<J> {
                let v = if e["resaid"] == true { Saider::saidify(&v, Some("E"), None, None, None)?.1 } else { v };
                let raw = Serder::new_with_ked(&v, None, None)?.raw();
                s.made.last_mut().unwrap().raw = raw.clone();
                Ok(jb(&raw))
            })
        }),
        "kl.send" => S.with(|s| {
            let mut s = s.borrow_mut();
            guard(|| -> Res<J> {
                let mut msg = s.made[e["ev"].as_u64().unwrap() as usize - 1].raw.clone();
                let sigs = signed(&s.seeds, &s.made, e)?;
                msg.extend(Counter::new_with_code_and_count("-A", sigs.len() as u32)?.qb64b()?);
                msg.extend(sigs.concat());
                let sigs = sigs.iter().map(|g| jb(g)).collect();
                hurt(&mut msg, e);
                let took = match admit(&s.log, &msg) {
                    Ok((l, n)) if n == msg.len() => Some(l),
                    _ => None,
                };
                let yes = took.is_some();
                if let Some(l) = took {
                    s.log = l;
                    s.stream.extend(&msg);
                }
                Ok(obj(vec![("sigs", J::Array(sigs)), ("msg", jb(&msg)), ("yes", json!(yes)), ("state", state(&s.log)?)]))
            })
        }),
        "kl.all" => S.with(|s| {
            let s = s.borrow();
            guard(|| -> Res<J> {
                let mut l = Log::default();
                let mut b = &s.stream[..];
                while !b.is_empty() {
                    let (m, n) = admit(&l, b)?;
                    l = m;
                    b = &b[n..];
                }
                state(&l)
            })
        }),
        _ => return None,
    })
}
