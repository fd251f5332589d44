//! Digests, signers, signatures.
use crate::codec::{iobs, mobs};
use crate::util::*;
use cesride::*;
use serde_json::{json, Value as J};

pub fn gobs(s: &Signer) -> J {
    let mut o = mobs(s);
    o.as_object_mut().unwrap().insert("verfer".into(), mobs(&s.verfer()));
    o
}
/// verification verdict: true, or refused (false and errors alike)
fn yes<E, F: FnOnce() -> std::result::Result<bool, E>>(f: F) -> J {
    sure(|| json!(matches!(f(), Ok(true))))
}
fn signer(e: &J) -> Res<Signer> {
    Ok(Signer::new_with_raw(&by(&e["seed"]), Some(e["tr"].as_bool().unwrap()), Some(&tx(&e["code"])))?)
}
fn alter(b: &mut Vec<u8>, at: &J) {
    let (pos, bit) = (at[0].as_u64().unwrap() as usize, at[1].as_u64().unwrap() as u8);
    match bit {
        8 => {
            b.truncate(pos.min(b.len().saturating_sub(1)));
        }
        9 => b.insert(pos.min(b.len()), 0),
        _ if b.is_empty() => b.push(bit),
        _ => {
            let n = b.len();
            b[pos % n] ^= 1 << bit;
        }
    }
}

pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "h.ser" => {
            let (c, s) = (otx(&e["code"]), by(&e["ser"]));
            guard(|| Diger::new_with_ser(&s, c.as_deref()).map(|m| mobs(&m)))
        }
        "h.any" => {
            let (s, c, r, b, t, q) =
                (oby(&e["ser"]), otx(&e["code"]), oby(&e["raw"]), oby(&e["qb64b"]), otx(&e["qb64"]), oby(&e["qb2"]));
            guard(|| {
                Diger::new(s.as_deref(), c.as_deref(), r.as_deref(), b.as_deref(), t.as_deref(), q.as_deref())
                    .map(|m| mobs(&m))
            })
        }
        "h.ver" => {
            let (d, s) = (tx(&e["dig"]), by(&e["ser"]));
            match Diger::new_with_qb64(&d) {
                Ok(d) => yes(|| d.verify(&s)),
                Err(_) => er(),
            }
        }
        "h.cmp" => {
            let (a, b, s) = (tx(&e["a"]), tx(&e["b"]), by(&e["ser"]));
            let Ok(a) = Diger::new_with_qb64(&a) else { return Some(er()) };
            match e["form"].as_str().unwrap() {
                "dig" => yes(|| a.compare(&s, Some(b.as_bytes()), None)),
                "diger" => match Diger::new_with_qb64(&b) {
                    Ok(d) => yes(|| a.compare(&s, None, Some(&d))),
                    Err(_) => ok(json!(false)),
                },
                _ => panic!("script: form"),
            }
        }
        "g.new" => {
            let tr = obool(&e["tr"]);
            match e["via"].as_str().unwrap() {
                "raw" => {
                    let (s, c) = (by(&e["seed"]), tx(&e["code"]));
                    guard(|| Signer::new_with_raw(&s, tr, Some(&c)).map(|s| gobs(&s)))
                }
                "qb64" => {
                    let t = tx(&e["in"]);
                    guard(|| Signer::new_with_qb64(&t, tr).map(|s| gobs(&s)))
                }
                "qb64b" => guard(|| Signer::new_with_qb64b(&by(&e["in"]), tr).map(|s| gobs(&s))),
                _ => guard(|| Signer::new_with_qb2(&by(&e["in"]), tr).map(|s| gobs(&s))),
            }
        }
        "g.gen" => {
            let (c, tr) = (otx(&e["code"]), obool(&e["tr"]));
            guard(|| Signer::new_with_defaults(tr, c.as_deref()).map(|s| gobs(&s)))
        }
        "g.sign" => {
            let m = by(&e["msg"]);
            guard(|| -> Res<J> {
                let c = signer(e)?.sign_unindexed(&m)?;
                let mut o = mobs(&c);
                o.as_object_mut().unwrap().insert("verfer".into(), mobs(&c.verfer()));
                Ok(o)
            })
        }
        "g.ver" => {
            let (k, s, m) = (tx(&e["key"]), by(&e["sig"]), by(&e["msg"]));
            match Verfer::new_with_qb64(&k) {
                Ok(v) => yes(|| v.verify(&s, &m)),
                Err(_) => er(),
            }
        }
        "g.chk" => {
            let mut m = by(&e["msg"]);
            guard(|| -> Res<J> {
                let s = signer(e)?;
                let v = s.verfer();
                let mut sig = if e["indexed"] == true { s.sign_indexed(&m, false, 1, None)?.raw() } else { s.sign_unindexed(&m)?.raw() };
                let mut key = v.qb64()?;
                let good = (sig.clone(), m.clone());
                let genuine = || matches!(v.verify(&good.0, &good.1), Ok(true));
                let first = genuine();
                match e["what"].as_str().unwrap() {
                    "none" => (),
                    "msg" => alter(&mut m, &e["at"]),
                    "sig" => alter(&mut sig, &e["at"]),
                    "swap" => sig.rotate_left(32),
                    // the other solution: s replaced by order - s (big-endian), or s + order (little-endian)
                    "mirror" => {
                        let n = by(&e["order"]);
                        let (mut carry, s) = (0i32, &mut sig[32..]);
                        for i in 0..32 {
                            let x = if e["add"] == true { s[i] as i32 + n[i] as i32 + carry } else { n[31 - i] as i32 - s[31 - i] as i32 + carry };
                            carry = x >> 8;
                            s[if e["add"] == true { i } else { 31 - i }] = x as u8;
                        }
                    }
                    // another key, of this suite or of another
                    "key" => key = tx(&e["key"]),
                    _ => panic!("script: what"),
                }
                let y = match Verfer::new_with_qb64(&key) {
                    Ok(v) => matches!(v.verify(&sig, &m), Ok(true)),
                    Err(_) => false,
                };
                Ok(obj(vec![("key", js(&key)), ("sig", jb(&sig)), ("msg", jb(&m)), ("yes", json!(y)), ("around", json!([first, genuine()]))]))
            })
        }
        "g.idx" => {
            let m = by(&e["msg"]);
            let (only, index, ondex) = (e["only"].as_bool().unwrap(), num(&e["index"]) as u32, onum(&e["ondex"]).map(|n| n as u32));
            guard(|| -> Res<J> {
                let g = signer(e)?.sign_indexed(&m, only, index, ondex)?;
                let mut o = iobs(&g);
                let p = o.as_object_mut().unwrap();
                p.insert("verfer".into(), mobs(&g.verfer()));
                p.insert("verifies".into(), yes(|| g.verfer().verify(&g.raw(), &m)));
                Ok(o)
            })
        }
        _ => return None,
    })
}
