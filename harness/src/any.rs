//! General constructors: any combination of the arguments a primitive can be made from.
use crate::codec::{iobs, mobs};
use crate::sad::fobs;
use crate::threshold::{doc, thobs};
use crate::typed::{bobs, dobs, nobs, sobs};
use crate::util::*;
use cesride::*;
use serde_json::Value as J;

pub struct Given {
    pub code: Option<String>,
    pub raw: Option<Vec<u8>>,
    pub qb64b: Option<Vec<u8>>,
    pub qb64: Option<String>,
    pub qb2: Option<Vec<u8>>,
    pub num: Option<u128>,
    pub txt: Option<String>,
    pub ser: Option<Vec<u8>>,
    pub tier: Option<String>,
    pub tr: Option<bool>,
    pub index: Option<u32>,
    pub ondex: Option<u32>,
    pub key: Option<String>,
}
pub fn given(e: &J) -> Given {
    Given {
        code: otx(&e["code"]),
        raw: oby(&e["raw"]),
        qb64b: oby(&e["qb64b"]),
        qb64: otx(&e["qb64"]),
        qb2: oby(&e["qb2"]),
        num: onum(&e["num"]),
        txt: otx(&e["txt"]),
        ser: oby(&e["ser"]),
        tier: otx(&e["tier"]),
        tr: obool(&e["tr"]),
        index: onum(&e["index"]).map(|n| n as u32),
        ondex: onum(&e["ondex"]).map(|n| n as u32),
        key: otx(&e["key"]),
    }
}
pub fn plus(mut o: J, k: &str, v: J) -> J {
    o.as_object_mut().unwrap().insert(k.to_string(), v);
    o
}
pub fn secs() -> J {
    jn(std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).expect("script: clock").as_secs() as u128)
}
/// a fresh date-time says when it was made: the clock is recorded on both sides
pub fn timed<F: FnOnce() -> J>(f: F) -> J {
    let a = secs();
    let mut r = f();
    let b = secs();
    if r["k"] == "ok" {
        let o = r["v"].as_object_mut().unwrap();
        o.insert("since".into(), a);
        o.insert("until".into(), b);
    }
    r
}

/// a signature made with the key it belongs to, and the place it takes
fn keyed(e: &J) -> J {
    let (c, i) = (otx(&e["code"]), by(&e["in"]));
    let c = c.as_deref();
    let k = Verfer::new_with_qb64(&tx(&e["key"])).expect("script: key");
    let k = Some(&k);
    if e["type"] == "Cigar" {
        let f = |m: Cigar| plus(mobs(&m), "verfer", mobs(&m.verfer()));
        match e["via"].as_str().unwrap() {
            "raw" => guard(|| Cigar::new_with_raw(&i, k, c).map(f)),
            "qb64" => guard(|| Cigar::new_with_qb64(&tx(&e["in"]), k).map(f)),
            "qb64b" => guard(|| Cigar::new_with_qb64b(&i, k).map(f)),
            _ => guard(|| Cigar::new_with_qb2(&i, k).map(f)),
        }
    } else {
        let (index, ondex) = (onum(&e["index"]).map(|n| n as u32), onum(&e["ondex"]).map(|n| n as u32));
        let f = |m: Siger| plus(iobs(&m), "verfer", mobs(&m.verfer()));
        match e["via"].as_str().unwrap() {
            "raw" => guard(|| Siger::new_with_raw(&i, k, index, ondex, c).map(f)),
            "qb64" => guard(|| Siger::new_with_qb64(&tx(&e["in"]), k).map(f)),
            "qb64b" => guard(|| Siger::new_with_qb64b(&i, k).map(f)),
            _ => guard(|| Siger::new_with_qb2(&i, k).map(f)),
        }
    }
}

/// general constructors of what is made from documents
fn from_docs(op: &str, e: &J) -> Option<J> {
    if !["sr.any", "sd.any", "px.any", "th.any"].contains(&op) {
        return None;
    }
    let g = given(e);
    let (c, r, b, t, q) = (g.code.as_deref(), g.raw.as_deref(), g.qb64b.as_deref(), g.qb64.as_deref(), g.qb2.as_deref());
    let d = opt(&e["doc"]).map(doc);
    let k = otx(&e["kind"]);
    Some(match op {
        "sr.any" if e["as"] == "creder" => guard(|| -> Res<J> {
            let s = match opt(&e["from"]) {
                Some(f) => Some(Creder::new_with_ked(&doc(f), otx(&e["fcode"]).as_deref(), None)?),
                None => None,
            };
            fobs(&Creder::new(c, r, k.as_deref(), d.as_ref(), s.as_ref())?)
        }),
        "sr.any" => guard(|| -> Res<J> {
            let s = match opt(&e["from"]) {
                Some(f) => Some(Serder::new_with_ked(&doc(f), otx(&e["fcode"]).as_deref(), None)?),
                None => None,
            };
            fobs(&Serder::new(c, r, k.as_deref(), d.as_ref(), s.as_ref())?)
        }),
        "sd.any" => guard(|| Saider::new(d.as_ref(), otx(&e["label"]).as_deref(), k.as_deref(), None, c, r, b, t, q).map(|m| mobs(&m))),
        "px.any" => guard(|| Prefixer::new(d.as_ref(), None, c, r, b, t, q).map(|m| mobs(&m))),
        "th.any" => guard(|| -> Res<J> {
            let (a, l, s) = (opt(&e["thold"]).map(doc), oby(&e["limen"]), opt(&e["sith"]).map(doc));
            thobs(&Tholder::new(a.as_ref(), l.as_deref(), s.as_ref())?)
        }),
        _ => return None,
    })
}

pub fn run(op: &str, e: &J) -> Option<J> {
    if op == "t.key" {
        return Some(keyed(e));
    }
    if let Some(r) = from_docs(op, e) {
        return Some(r);
    }
    if op != "t.any" {
        return None;
    }
    let g = given(e);
    let (c, r, b, t, q) = (g.code.as_deref(), g.raw.as_deref(), g.qb64b.as_deref(), g.qb64.as_deref(), g.qb2.as_deref());
    let x = g.txt.as_deref();
    Some(match e["type"].as_str().unwrap() {
        "Verfer" => guard(|| Verfer::new(c, r, b, t, q).map(|m| mobs(&m))),
        "Signer" => guard(|| Signer::new(g.tr, c, r, b, t, q).map(|m| crate::sign::gobs(&m))),
        "Diger" => guard(|| Diger::new(g.ser.as_deref(), c, r, b, t, q).map(|m| mobs(&m))),
        "Saider" => guard(|| Saider::new(None, None, None, None, c, r, b, t, q).map(|m| mobs(&m))),
        "Cigar" => guard(|| -> Res<J> {
            let k = g.key.as_ref().map(|k| Verfer::new_with_qb64(k).expect("script: key"));
            let m = Cigar::new(k.as_ref(), c, r, b, t, q)?;
            Ok(if k.is_some() { plus(mobs(&m), "verfer", mobs(&m.verfer())) } else { mobs(&m) })
        }),
        "Siger" => guard(|| -> Res<J> {
            let k = g.key.as_ref().map(|k| Verfer::new_with_qb64(k).expect("script: key"));
            let m = Siger::new(k.as_ref(), g.index, g.ondex, c, r, b, t, q)?;
            Ok(if k.is_some() { plus(iobs(&m), "verfer", mobs(&m.verfer())) } else { iobs(&m) })
        }),
        "Salter" => guard(|| Salter::new(g.tier.as_deref(), c, r, b, t, q).map(|m| plus(mobs(&m), "tier", js(&m.tier())))),
        "Seqner" => guard(|| Seqner::new(g.num, x, c, r, b, t, q).map(|m| sobs(&m))),
        "Number" => guard(|| Number::new(g.num, x, c, r, b, t, q).map(|m| nobs(&m))),
        "Dater" if x.is_none() && r.is_none() && b.is_none() && t.is_none() && q.is_none() => {
            timed(|| guard(|| Dater::new(x, c, r, b, t, q).map(|m| dobs(&m))))
        }
        "Dater" => guard(|| Dater::new(x, c, r, b, t, q).map(|m| dobs(&m))),
        "Bexter" => guard(|| Bexter::new(x, c, r, b, t, q).map(|m| bobs(&m))),
        "Pather" => guard(|| Pather::new(None, x, c, r, b, t, q).map(|m| mobs(&m))),
        "Prefixer" => guard(|| Prefixer::new(None, None, c, r, b, t, q).map(|m| mobs(&m))),
        _ => panic!("script: type"),
    })
}
