//! Qualified material: matter, indexer and counter codec; typed primitives; streams.
use crate::util::*;
use cesride::*;
use serde_json::{json, Value as J};

/// The traits are public: these carry any code, so that the whole tables are reachable.
#[derive(Default, Clone)]
pub struct AnyMatter {
    code: String,
    size: u32,
    raw: Vec<u8>,
}
impl Matter for AnyMatter {
    fn code(&self) -> String { self.code.clone() }
    fn size(&self) -> u32 { self.size }
    fn raw(&self) -> Vec<u8> { self.raw.clone() }
    fn set_code(&mut self, code: &str) { self.code = code.to_string() }
    fn set_size(&mut self, size: u32) { self.size = size }
    fn set_raw(&mut self, raw: &[u8]) { self.raw = raw.to_vec() }
}
#[derive(Default, Clone)]
pub struct AnyIndexer {
    code: String,
    raw: Vec<u8>,
    index: u32,
    ondex: u32,
}
impl Indexer for AnyIndexer {
    fn code(&self) -> String { self.code.clone() }
    fn set_code(&mut self, code: &str) { self.code = code.to_string() }
    fn raw(&self) -> Vec<u8> { self.raw.clone() }
    fn set_raw(&mut self, raw: &[u8]) { self.raw = raw.to_vec() }
    fn index(&self) -> u32 { self.index }
    fn set_index(&mut self, index: u32) { self.index = index }
    fn ondex(&self) -> u32 { self.ondex }
    fn set_ondex(&mut self, ondex: u32) { self.ondex = ondex }
}

/// Everything a primitive says about itself.
pub fn mobs<M: Matter>(m: &M) -> J {
    obj(vec![
        ("code", js(&m.code())),
        ("size", jn(m.size() as u128)),
        ("raw", jb(&m.raw())),
        ("qb64", guard(|| m.qb64().map(|s| js(&s)))),
        ("qb64b", guard(|| m.qb64b().map(|s| jb(&s)))),
        ("qb2", guard(|| m.qb2().map(|s| jb(&s)))),
        ("fs", guard(|| m.full_size().map(|n| jn(n as u128)))),
        ("dig", json!(m.digestive())),
        ("trn", json!(m.transferable())),
    ])
}
pub fn iobs<M: Indexer>(m: &M) -> J {
    obj(vec![
        ("code", js(&m.code())),
        ("index", jn(m.index() as u128)),
        ("ondex", jn(m.ondex() as u128)),
        ("raw", jb(&m.raw())),
        ("qb64", guard(|| m.qb64().map(|s| js(&s)))),
        ("qb64b", guard(|| m.qb64b().map(|s| jb(&s)))),
        ("qb2", guard(|| m.qb2().map(|s| jb(&s)))),
        ("fs", guard(|| m.full_size().map(|n| jn(n as u128)))),
    ])
}
pub fn cobs(m: &Counter) -> J {
    obj(vec![
        ("code", js(&m.code())),
        ("count", jn(m.count() as u128)),
        ("qb64", guard(|| m.qb64().map(|s| js(&s)))),
        ("qb64b", guard(|| m.qb64b().map(|s| jb(&s)))),
        ("qb2", guard(|| m.qb2().map(|s| jb(&s)))),
        ("fs", guard(|| m.full_size().map(|n| jn(n as u128)))),
        ("b64", guard(|| m.count_as_b64(0).map(|s| js(&s)))),
    ])
}

// a primitive that is filled again and again
thread_local! {
    static M: std::cell::RefCell<AnyMatter> = std::cell::RefCell::new(AnyMatter::default());
    static I: std::cell::RefCell<AnyIndexer> = std::cell::RefCell::new(AnyIndexer::default());
}

macro_rules! parse_via {
    ($t:ty, $tr:ident, $obs:ident, $via:expr, $in:expr) => {
        match $via {
            "qb64" => guard(|| <$t as $tr>::new_with_qb64(&String::from_utf8($in.clone()).expect("script: utf-8")).map(|m| $obs(&m))),
            "qb64b" => guard(|| <$t as $tr>::new_with_qb64b(&$in).map(|m| $obs(&m))),
            "qb2" => guard(|| <$t as $tr>::new_with_qb2(&$in).map(|m| $obs(&m))),
            // the general constructor, with several kinds of material at once
            _ => panic!("script: via"),
        }
    };
}

fn u32_of(v: &J) -> u32 {
    num(v) as u32
}

pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "m.raw" => {
            let (c, r) = (tx(&e["code"]), by(&e["raw"]));
            guard(|| AnyMatter::new_with_code_and_raw(&c, &r).map(|m| mobs(&m)))
        }
        "m.par" => {
            let i = by(&e["in"]);
            parse_via!(AnyMatter, Matter, mobs, e["via"].as_str().unwrap(), i)
        }
        // general constructor: any subset of the arguments
        "m.any" => {
            let (c, r, b, t, q) = (otx(&e["code"]), oby(&e["raw"]), oby(&e["qb64b"]), otx(&e["qb64"]), oby(&e["qb2"]));
            guard(|| {
                <AnyMatter as Matter>::new(c.as_deref(), r.as_deref(), b.as_deref(), t.as_deref(), q.as_deref())
                    .map(|m| mobs(&m))
            })
        }
        "i.raw" => {
            let (c, r) = (tx(&e["code"]), by(&e["raw"]));
            let (i, o) = (u32_of(&e["index"]), opt(&e["ondex"]).map(u32_of));
            guard(|| AnyIndexer::new_with_code_and_raw(&c, &r, i, o).map(|m| iobs(&m)))
        }
        "i.par" => {
            let i = by(&e["in"]);
            parse_via!(AnyIndexer, Indexer, iobs, e["via"].as_str().unwrap(), i)
        }
        "mh.open" => {
            M.with(|m| m.replace(AnyMatter::default()));
            I.with(|i| i.replace(AnyIndexer::default()));
            guard(|| -> Res<J> { Ok(json!(true)) })
        }
        "mh.fill" => {
            let i = by(&e["in"]);
            guard(|| -> Res<J> {
                M.with(|m| {
                    let m = &mut *m.borrow_mut();
                    if e["via"] == "qb2" { m.bexfil(&i)? } else { m.exfil(std::str::from_utf8(&i).expect("script: utf-8"))? };
                    Ok(mobs(m))
                })
            })
        }
        "mh.set" => {
            let (c, r, n) = (tx(&e["code"]), by(&e["raw"]), u32_of(&e["size"]));
            guard(|| -> Res<J> {
                M.with(|m| {
                    let m = &mut *m.borrow_mut();
                    m.set_code(&c);
                    m.set_size(n);
                    m.set_raw(&r);
                    Ok(mobs(m))
                })
            })
        }
        "ih.fill" => {
            let i = by(&e["in"]);
            guard(|| -> Res<J> {
                I.with(|m| {
                    let m = &mut *m.borrow_mut();
                    if e["via"] == "qb2" { m.bexfil(&i)? } else { m.exfil(std::str::from_utf8(&i).expect("script: utf-8"))? };
                    Ok(iobs(m))
                })
            })
        }
        "ih.set" => {
            let (c, r) = (tx(&e["code"]), by(&e["raw"]));
            let (i, o) = (u32_of(&e["index"]), u32_of(&e["ondex"]));
            guard(|| -> Res<J> {
                I.with(|m| {
                    let m = &mut *m.borrow_mut();
                    m.set_code(&c);
                    m.set_raw(&r);
                    m.set_index(i);
                    m.set_ondex(o);
                    Ok(iobs(m))
                })
            })
        }
        "c.new" => {
            let (c, n) = (tx(&e["code"]), u32_of(&e["count"]));
            guard(|| Counter::new_with_code_and_count(&c, n).map(|m| cobs(&m)))
        }
        // the general constructor: any subset of the arguments
        "c.any" => {
            let n = onum(&e["count"]).map(|n| n as u32);
            let (l, c, b, t, q) = (otx(&e["b64"]), otx(&e["code"]), oby(&e["qb64b"]), otx(&e["qb64"]), oby(&e["qb2"]));
            guard(|| Counter::new(n, l.as_deref(), c.as_deref(), b.as_deref(), t.as_deref(), q.as_deref()).map(|m| cobs(&m)))
        }
        "c.b64new" => {
            let (c, n) = (tx(&e["code"]), otx(&e["b64"]));
            guard(|| Counter::new(None, n.as_deref(), Some(&c), None, None, None).map(|m| cobs(&m)))
        }
        "c.b64" => {
            let (c, n, l) = (tx(&e["code"]), u32_of(&e["count"]), e["len"].as_u64().unwrap() as usize);
            guard(|| Counter::new_with_code_and_count(&c, n).and_then(|m| m.count_as_b64(l)).map(|s| js(&s)))
        }
        "c.par" => {
            let i = by(&e["in"]);
            match e["via"].as_str().unwrap() {
                "qb64" => guard(|| Counter::new_with_qb64(&String::from_utf8(i.clone()).expect("script: utf-8")).map(|m| cobs(&m))),
                "qb64b" => guard(|| Counter::new_with_qb64b(&i).map(|m| cobs(&m))),
                _ => guard(|| Counter::new_with_qb2(&i).map(|m| cobs(&m))),
            }
        }
        "v.str" => {
            let s = tx(&e["in"]);
            guard(|| Counter::sem_ver_str_to_b64(&s).map(|s| js(&s)))
        }
        "v.parts" => {
            let p = by(&e["in"]);
            if p.len() != 3 {
                panic!("script: parts");
            }
            guard(|| Counter::sem_ver_to_b64(p[0], p[1], p[2]).map(|s| js(&s)))
        }
        "t.raw" => {
            let (t, c, r) = (e["type"].as_str().unwrap(), otx(&e["code"]), by(&e["raw"]));
            let c = c.as_deref();
            match t {
                "Verfer" => guard(|| Verfer::new_with_raw(&r, c).map(|m| mobs(&m))),
                "Signer" => guard(|| Signer::new_with_raw(&r, None, c).map(|m| mobs(&m))),
                "Diger" => guard(|| Diger::new_with_raw(&r, c).map(|m| mobs(&m))),
                "Saider" => guard(|| Saider::new_with_raw(&r, c).map(|m| mobs(&m))),
                "Cigar" => guard(|| Cigar::new_with_raw(&r, None, c).map(|m| mobs(&m))),
                "Salter" => guard(|| Salter::new_with_raw(&r, c, None).map(|m| mobs(&m))),
                "Seqner" => guard(|| Seqner::new_with_raw(&r, c).map(|m| mobs(&m))),
                "Number" => guard(|| Number::new_with_raw(&r, c).map(|m| mobs(&m))),
                "Dater" => guard(|| Dater::new_with_raw(&r, c).map(|m| mobs(&m))),
                "Bexter" => guard(|| Bexter::new_with_raw(&r, c).map(|m| mobs(&m))),
                "Pather" => guard(|| Pather::new_with_raw(&r, c).map(|m| mobs(&m))),
                "Prefixer" => guard(|| Prefixer::new_with_raw(&r, c).map(|m| mobs(&m))),
                "Siger" => guard(|| Siger::new_with_raw(&r, None, None, None, c).map(|m| iobs(&m))),
                _ => panic!("script: type"),
            }
        }
        "t.par" => {
            let (t, via, i) = (e["type"].as_str().unwrap(), e["via"].as_str().unwrap(), by(&e["in"]));
            // extra code argument handed along with the material (must not matter)
            let c = otx(&e["code"]);
            let c = c.as_deref();
            let s = if via == "qb64" { String::from_utf8(i.clone()).expect("script: utf-8") } else { String::new() };
            let q64 = if via == "qb64" { Some(s.as_str()) } else { None };
            let q64b = if via == "qb64b" { Some(i.as_slice()) } else { None };
            let q2 = if via == "qb2" { Some(i.as_slice()) } else { None };
            macro_rules! short {
                ($t:ident $(, $x:expr)*) => {
                    match via {
                        "qb64" => guard(|| $t::new_with_qb64(&s $(, $x)*).map(|m| mobs(&m))),
                        "qb64b" => guard(|| $t::new_with_qb64b(&i $(, $x)*).map(|m| mobs(&m))),
                        _ => guard(|| $t::new_with_qb2(&i $(, $x)*).map(|m| mobs(&m))),
                    }
                };
            }
            match (t, c) {
                ("Verfer", None) => short!(Verfer),
                ("Signer", None) => short!(Signer, None),
                ("Diger", None) => short!(Diger),
                ("Saider", None) => short!(Saider),
                ("Cigar", None) => short!(Cigar, None),
                ("Salter", None) => short!(Salter, None),
                ("Seqner", None) => short!(Seqner),
                ("Number", None) => short!(Number),
                ("Dater", None) => short!(Dater),
                ("Bexter", None) => short!(Bexter),
                ("Pather", None) => short!(Pather),
                ("Prefixer", None) => short!(Prefixer),
                ("Siger", None) => match via {
                    "qb64" => guard(|| Siger::new_with_qb64(&s, None).map(|m| iobs(&m))),
                    "qb64b" => guard(|| Siger::new_with_qb64b(&i, None).map(|m| iobs(&m))),
                    _ => guard(|| Siger::new_with_qb2(&i, None).map(|m| iobs(&m))),
                },
                ("Verfer", _) => guard(|| Verfer::new(c, None, q64b, q64, q2).map(|m| mobs(&m))),
                ("Signer", _) => guard(|| Signer::new(None, c, None, q64b, q64, q2).map(|m| mobs(&m))),
                ("Diger", _) => guard(|| Diger::new(None, c, None, q64b, q64, q2).map(|m| mobs(&m))),
                ("Saider", _) => {
                    guard(|| Saider::new(None, None, None, None, c, None, q64b, q64, q2).map(|m| mobs(&m)))
                }
                ("Cigar", _) => guard(|| Cigar::new(None, c, None, q64b, q64, q2).map(|m| mobs(&m))),
                ("Salter", _) => guard(|| Salter::new(None, c, None, q64b, q64, q2).map(|m| mobs(&m))),
                ("Seqner", _) => guard(|| Seqner::new(None, None, c, None, q64b, q64, q2).map(|m| mobs(&m))),
                ("Number", _) => guard(|| Number::new(None, None, c, None, q64b, q64, q2).map(|m| mobs(&m))),
                ("Dater", _) => guard(|| Dater::new(None, c, None, q64b, q64, q2).map(|m| mobs(&m))),
                ("Bexter", _) => guard(|| Bexter::new(None, c, None, q64b, q64, q2).map(|m| mobs(&m))),
                ("Pather", _) => guard(|| Pather::new(None, None, c, None, q64b, q64, q2).map(|m| mobs(&m))),
                ("Prefixer", _) => guard(|| Prefixer::new(None, None, c, None, q64b, q64, q2).map(|m| mobs(&m))),
                ("Siger", _) => {
                    guard(|| Siger::new(None, None, None, c, None, q64b, q64, q2).map(|m| iobs(&m)))
                }
                _ => panic!("script: type"),
            }
        }
        _ => return None,
    })
}
