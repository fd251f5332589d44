//! Key event logs backed by witnesses and delegators: one validator following several identifiers,
//! with nothing but the library's own checks between it and what it is sent.
use crate::kel::{admit, hurt, ints, need, signed, signer_of, state, Log, Made};
use crate::util::*;
use cesride::data::Value;
use cesride::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;

#[derive(Default, Clone)]
struct Backed {
    log: Log,
    wits: Vec<Verfer>,
    toad: u128,
    di: String,
    /// the identifier of each event, and what it approves
    chain: Vec<(String, Vec<[String; 3]>)>,
}
#[derive(Default)]
struct Session {
    seeds: Vec<(String, Vec<u8>)>,
    made: Vec<Made>,
    sns: Vec<u64>,
    logs: Vec<Backed>,
    stream: Vec<u8>,
}
thread_local! { static S: RefCell<Session> = RefCell::new(Session::default()); }

fn all(logs: &[Backed]) -> Res<J> {
    let mut v = vec![];
    for b in logs {
        let mut wits = vec![];
        for w in &b.wits {
            wits.push(js(&w.qb64()?));
        }
        let mut o = state(&b.log)?;
        o["wits"] = J::Array(wits);
        o["toad"] = jn(b.toad);
        o["di"] = js(&b.di);
        v.push(o);
    }
    Ok(J::Array(v))
}
fn keys(v: &Value, label: &str) -> Res<Vec<Verfer>> {
    let mut r = vec![];
    if let Some(l) = v.to_map()?.get(label) {
        for k in l.to_vec()? {
            r.push(Verfer::new_with_qb64(&k.to_string()?)?);
        }
    }
    Ok(r)
}
fn text(v: &Value, label: &str) -> Res<String> {
    Ok(v.to_map()?.get(label).ok_or(Er)?.to_string()?)
}
fn distinct(k: &[Verfer]) -> Res<bool> {
    for (i, a) in k.iter().enumerate() {
        for b in &k[..i] {
            if a.qb64()? == b.qb64()? {
                return Ok(false);
            }
        }
    }
    Ok(true)
}
fn among(k: &Verfer, l: &[Verfer]) -> Res<bool> {
    for x in l {
        if x.qb64b()? == k.qb64b()? {
            return Ok(true);
        }
    }
    Ok(false)
}
fn approved(logs: &[Backed], di: &str, points: &[(Seqner, Saider)], seal: &[String; 3]) -> Res<bool> {
    let Some(d) = logs.iter().find(|b| b.log.pre == di) else { return Ok(false) };
    for (n, said) in points {
        let n = n.sn()?;
        if n < d.chain.len() as u128 && d.chain[n as usize].0 == said.qb64()? && d.chain[n as usize].1.contains(seal) {
            return Ok(true);
        }
    }
    Ok(false)
}
/// one message off the front of a stream, or nothing
fn take(logs: &[Backed], msg: &[u8]) -> Res<(Vec<Backed>, usize)> {
    // who is it about?
    let at = ["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"].iter().find_map(|c| Serder::new(Some(c), Some(msg), None, None, None).ok());
    let s = at.ok_or(Er)?;
    let (ked, raw, pre) = (s.ked(), s.raw(), s.pre()?);
    let n = logs.iter().position(|b| b.log.pre == pre);
    let b = n.map(|n| logs[n].clone()).unwrap_or_default();
    let (log, mut at) = admit(&b.log, msg)?;
    // what travels behind it
    let (mut idx, mut couples, mut points) = (vec![], vec![], vec![]);
    while at < msg.len() && msg[at] == b'-' {
        let c = Counter::new_with_qb64b(&msg[at..])?;
        at += c.full_size()?;
        for _ in 0..c.count() {
            match c.code().as_str() {
                "-B" => {
                    let g = Siger::new_with_qb64b(&msg[at..], None)?;
                    at += g.full_size()? as usize;
                    idx.push(g);
                }
                "-C" => {
                    let v = Verfer::new_with_qb64b(&msg[at..])?;
                    at += v.full_size()?;
                    let c = Cigar::new_with_qb64b(&msg[at..], Some(&v))?;
                    at += c.full_size()?;
                    couples.push(c);
                }
                "-G" => {
                    let n = Seqner::new_with_qb64b(&msg[at..])?;
                    at += n.full_size()?;
                    let d = Saider::new_with_qb64b(&msg[at..])?;
                    at += d.full_size()?;
                    points.push((n, d));
                }
                _ => return Err(Er),
            }
        }
        need(["-B", "-C", "-G"].contains(&c.code().as_str()))?;
    }
    let t = text(&ked, "t")?;
    let (inc, rot) = (t == "icp" || t == "dip", t == "rot" || t == "drt");
    let (mut wits, mut toad) = (b.wits.clone(), b.toad);
    if inc {
        wits = s.werfers()?;
    }
    if rot {
        let (gone, new) = (keys(&ked, "br")?, keys(&ked, "ba")?);
        need(distinct(&gone)? && distinct(&new)?)?;
        for g in &gone {
            need(among(g, &wits)?)?;
        }
        for a in &new {
            need(!among(a, &wits)?)?;
        }
        let mut left = vec![];
        for w in wits {
            if !among(&w, &gone)? {
                left.push(w);
            }
        }
        left.extend(new);
        wits = left;
    }
    if inc || rot {
        toad = Number::new_with_numh(&text(&ked, "bt")?)?.num()?;
    }
    need(distinct(&wits)? && wits.iter().all(|w| ["B", "1AAA", "1AAI"].contains(&w.code().as_str())))?;
    need(if wits.is_empty() { toad == 0 } else { toad >= 1 && toad <= wits.len() as u128 })?;
    let mut backers = 0;
    for (p, w) in wits.iter().enumerate() {
        let mut yes = false;
        for g in &idx {
            yes = yes || (g.index() as usize == p && matches!(w.verify(&g.raw(), &raw), Ok(true)));
        }
        for c in &couples {
            yes = yes || (c.verfer().qb64()? == w.qb64()? && matches!(c.verfer().verify(&c.raw(), &raw), Ok(true)));
        }
        backers += yes as u128;
    }
    need(backers >= toad)?;
    let said = s.said()?;
    let seal = [pre, text(&ked, "s")?, said.clone()];
    let di = if t == "dip" { text(&ked, "di")? } else { b.di.clone() };
    match t.as_str() {
        "dip" | "drt" => need(!di.is_empty() && approved(logs, &di, &points, &seal)?)?,
        "rot" => need(di.is_empty())?,
        _ => (),
    }
    let mut seals = vec![];
    if let Some(a) = ked.to_map()?.get("a") {
        for x in a.to_vec().unwrap_or_default() {
            if let (Ok(i), Ok(s), Ok(d)) = (text(&x, "i"), text(&x, "s"), text(&x, "d")) {
                seals.push([i, s, d]);
            }
        }
    }
    let mut chain = b.chain;
    chain.push((said, seals));
    let after = Backed { log, wits, toad, di, chain };
    let mut logs = logs.to_vec();
    match n {
        Some(n) => logs[n] = after,
        None => logs.push(after),
    }
    Ok((logs, at))
}
fn make(s: &Session, e: &J) -> Res<Made> {
    let t = e["t"].as_str().unwrap();
    let (inc, est) = (t == "icp" || t == "dip", t != "ixn");
    let u = |l: &str| e[l].as_u64().unwrap() as usize;
    let pre = if u("i") == 0 { "" } else { s.made[u("i") - 1].pre.as_str() };
    let wits = |l: &str| -> Res<Vec<String>> {
        let mut v = vec![];
        for k in ints(&e[l]) {
            v.push(signer_of(&s.seeds, k, false)?.verfer().qb64()?);
        }
        Ok(v)
    };
    let mut d = serde_json::Map::new();
    let mut put = |k: &str, v: J| {
        d.insert(k.to_string(), v);
    };
    put("v", json!("KERI10JSON000000_"));
    put("t", json!(t));
    put("d", json!(""));
    put("i", json!(pre));
    put("s", json!(Number::new_with_num(u("sn") as u128)?.numh()?));
    if !inc {
        put("p", json!(if u("prior") == 0 { "" } else { s.made[u("prior") - 1].said.as_str() }));
    }
    if est {
        let fix = e["fix"].as_bool().unwrap();
        let mut keys = vec![];
        for k in ints(&e["keys"]) {
            keys.push(signer_of(&s.seeds, k, !fix)?.verfer().qb64()?);
        }
        let mut next = vec![];
        for k in ints(&e["next"]) {
            next.push(Diger::new_with_ser(&signer_of(&s.seeds, k, true)?.verfer().qb64b()?, Some("E"))?.qb64()?);
        }
        put("kt", serde_json::from_slice(&by(&e["kt"])).expect("script: kt"));
        put("k", json!(keys));
        put("nt", serde_json::from_slice(&by(&e["nt"])).expect("script: nt"));
        put("n", json!(next));
        put("bt", json!(Number::new_with_num(u("toad") as u128)?.numh()?));
        if inc {
            put("b", json!(wits("wits")?));
            put("c", json!([]));
        } else {
            put("br", json!(wits("cut")?));
            put("ba", json!(wits("add")?));
        }
    }
    let mut a = vec![];
    for j in ints(&e["seals"]) {
        let m = &s.made[j - 1];
        a.push(json!({"i": m.pre, "s": Seqner::new_with_sn(s.sns[j - 1] as u128)?.snh()?, "d": m.said}));
    }
    put("a", json!(a));
    if t == "dip" {
        put("di", json!(if u("di") == 0 { "" } else { s.made[u("di") - 1].pre.as_str() }));
    }
    let mut v = Value::from(&J::Object(d));
    let mut own = false;
    if inc && u("i") == 0 {
        let p = Prefixer::new_with_ked(&v, None, Some(&tx(&e["code"])))?;
        v["i"] = Value::from(&p.qb64()?);
        if p.digestive() {
            v["d"] = Value::from(&p.qb64()?);
            own = true;
        }
    }
    if !own {
        v = Saider::saidify(&v, Some("E"), None, None, None)?.1;
    }
    let code = if own { tx(&e["code"]) } else { "E".to_string() };
    let z = Serder::new_with_ked(&v, Some(&code), None)?;
    Ok(Made { raw: z.raw(), pre: z.pre()?, said: z.said()? })
}
fn receipts(s: &Session, e: &J) -> Res<Vec<(bool, Vec<u8>)>> {
    let mut r = vec![];
    for a in e["rcts"].as_array().unwrap() {
        let over = &s.made[a["over"].as_u64().unwrap() as usize - 1].raw;
        let w = signer_of(&s.seeds, a["key"].as_u64().unwrap() as usize, false)?;
        let couple = a["couple"].as_bool().unwrap();
        r.push((
            couple,
            if couple {
                let c = w.sign_unindexed(over)?;
                [signer_of(&s.seeds, a["named"].as_u64().unwrap() as usize, false)?.verfer().qb64b()?, c.qb64b()?].concat()
            } else {
                w.sign_indexed(over, true, a["at"].as_u64().unwrap() as u32, None)?.qb64b()?
            },
        ));
    }
    Ok(r)
}

pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "kw.open" => S.with(|s| {
            let seeds: Vec<(String, Vec<u8>)> =
                e["seeds"].as_array().unwrap().iter().map(|x| (tx(&x["code"]), by(&x["seed"]))).collect();
            let n = seeds.len();
            *s.borrow_mut() = Session { seeds, ..Session::default() };
            let s = s.borrow();
            guard(|| -> Res<J> {
                let mut v = vec![];
                for k in 1..=n {
                    v.push(js(&signer_of(&s.seeds, k, false)?.verfer().qb64()?));
                }
                Ok(J::Array(v))
            })
        }),
        "kw.make" => S.with(|s| {
            let mut s = s.borrow_mut();
            guard(|| -> Res<J> {
                let m = make(&s, e)?;
                let raw = m.raw.clone();
                s.made.push(m);
                s.sns.push(e["sn"].as_u64().unwrap());
                Ok(jb(&raw))
            })
        }),
        "kw.send" => S.with(|s| {
            let mut s = s.borrow_mut();
            guard(|| -> Res<J> {
                let mut msg = s.made[e["ev"].as_u64().unwrap() as usize - 1].raw.clone();
                let sigs = signed(&s.seeds, &s.made, e)?;
                msg.extend(Counter::new_with_code_and_count("-A", sigs.len() as u32)?.qb64b()?);
                msg.extend(sigs.concat());
                let rcts = receipts(&s, e)?;
                let mut points = vec![];
                for j in ints(&e["points"]) {
                    points.push([Seqner::new_with_sn(s.sns[j - 1] as u128)?.qb64b()?, Saider::new_with_qb64(&s.made[j - 1].said)?.qb64b()?].concat());
                }
                let of = |b: bool| rcts.iter().filter(|r| r.0 == b).map(|r| r.1.clone()).collect::<Vec<_>>();
                let groups = [("-B", of(false)), ("-C", of(true)), ("-G", points)];
                for o in ints(&e["order"]) {
                    let (c, g) = &groups[o - 1];
                    if !g.is_empty() {
                        msg.extend(Counter::new_with_code_and_count(c, g.len() as u32)?.qb64b()?);
                        msg.extend(g.concat());
                    }
                }
                hurt(&mut msg, e);
                let took = match take(&s.logs, &msg) {
                    Ok((l, n)) if n == msg.len() => Some(l),
                    _ => None,
                };
                let yes = took.is_some();
                if let Some(l) = took {
                    s.logs = l;
                    s.stream.extend(&msg);
                }
                Ok(obj(vec![
                    ("sigs", J::Array(sigs.iter().map(|g| jb(g)).collect())),
                    ("rcts", J::Array(rcts.iter().map(|g| jb(&g.1)).collect())),
                    ("msg", jb(&msg)),
                    ("yes", json!(yes)),
                    ("state", all(&s.logs)?),
                ]))
            })
        }),
        "kw.all" => S.with(|s| {
            let s = s.borrow();
            guard(|| -> Res<J> {
                let mut logs = vec![];
                let mut b = &s.stream[..];
                while !b.is_empty() {
                    let (l, n) = take(&logs, b)?;
                    logs = l;
                    b = &b[n..];
                }
                all(&logs)
            })
        }),
        _ => return None,
    })
}
