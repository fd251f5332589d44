//! The WebAssembly bindings, called natively: every call of the core they stand for, observed the
//! same way.  Natively a binding that wants to report an error to JavaScript panics in the JavaScript
//! stubs; that panic is the error.
use crate::any::{given, plus, timed};
use crate::threshold::doc;
use crate::util::*;
use cesride::{Indexer, Matter, Sadder};
use cesride_wasm::*;
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};

type R<T> = core::result::Result<T, wasm_bindgen::JsValue>;

fn wguard<F: FnOnce() -> R<J>>(f: F) -> J {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => ok(v),
        Ok(Err(e)) => {
            std::mem::forget(e);
            er()
        }
        Err(p) => {
            let text = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if text.contains("non-wasm") {
                er()
            } else {
                panicked()
            }
        }
    }
}
/// verification verdict: true, or refused (false and errors alike)
fn yes<F: FnOnce() -> R<bool>>(f: F) -> J {
    let r = wguard(|| f().map(|b| json!(b)));
    if r["k"] == "err" {
        ok(json!(false))
    } else {
        r
    }
}
fn val(v: &J) -> ValueWrapper {
    match ValueWrapper::new(&String::from_utf8(by(v)).expect("script: utf-8")) {
        Ok(v) => v,
        Err(_) => panic!("script: JSON document"),
    }
}
fn u(n: u128) -> U128Wrapper {
    U128Wrapper::from(n)
}
fn ju(n: U128Wrapper) -> J {
    jn(u128::from(n))
}

macro_rules! wm {
    ($w:expr) => {{
        let w = $w;
        wm!(@ &w)
    }};
    (@ $w:expr) => {{
        let w = $w;
        obj(vec![
            ("code", js(&w.code())),
            ("size", jn(w.size() as u128)),
            ("raw", jb(&w.raw())),
            ("qb64", wguard(|| Ok(js(&w.qb64()?)))),
            ("qb64b", wguard(|| Ok(jb(&w.qb64b()?)))),
            ("qb2", wguard(|| Ok(jb(&w.qb2()?)))),
            ("fs", guard(|| (**w).full_size().map(|n| jn(n as u128)))),
            ("dig", json!((**w).digestive())),
            ("trn", json!((**w).transferable())),
        ])
    }};
}
fn wi(w: &SigerWrapper) -> J {
    obj(vec![
        ("code", js(&w.code())),
        ("index", jn(w.index() as u128)),
        ("ondex", jn(w.ondex() as u128)),
        ("raw", jb(&w.raw())),
        ("qb64", wguard(|| Ok(js(&w.qb64()?)))),
        ("qb64b", wguard(|| Ok(jb(&w.qb64b()?)))),
        ("qb2", wguard(|| Ok(jb(&w.qb2()?)))),
        ("fs", guard(|| (**w).full_size().map(|n| jn(n as u128)))),
    ])
}
fn wn(w: &NumberWrapper) -> J {
    let o = plus(wm!(@ w), "num", wguard(|| Ok(ju(w.num()?))));
    let o = plus(o, "numh", wguard(|| Ok(js(&w.numh()?))));
    plus(o, "pos", guard(|| w.positive().map(|b| json!(b))))
}
fn ws(w: &SeqnerWrapper) -> J {
    let o = plus(wm!(@ w), "sn", wguard(|| Ok(ju(w.sn()?))));
    plus(o, "snh", wguard(|| Ok(js(&w.snh()?))))
}
fn wd(w: &DaterWrapper) -> J {
    let o = plus(wm!(@ w), "dts", wguard(|| Ok(js(&w.dts()?))));
    plus(o, "dtsb", wguard(|| Ok(jb(&w.dtsb()?))))
}
fn wb(w: &BexterWrapper) -> J {
    plus(wm!(@ w), "bext", wguard(|| Ok(js(&w.bext()?))))
}
fn wg(w: &SignerWrapper) -> J {
    plus(wm!(@ w), "verfer", wm!(w.verfer()))
}
fn wsl(w: &SalterWrapper) -> J {
    plus(wm!(@ w), "tier", js(&w.tier()))
}
fn wth(t: &TholderWrapper) -> R<J> {
    // the material a threshold is carried in, as the binding hands it out
    let lim = t.limen()?;
    let carried = match (t.number(), t.bexter()) {
        (Some(n), None) => n.qb64b()?,
        (None, Some(b)) => b.qb64b()?,
        _ => vec![],
    };
    Ok(obj(vec![
        ("weighted", json!(t.weighted())),
        ("size", jn(t.size() as u128)),
        ("num", match t.num()? {
            Some(n) => json!([jn(n as u128)]),
            None => json!([]),
        }),
        ("thold", js(&t.thold().value())),
        ("sith", js(&t.sith()?.value())),
        ("json", js(&t.to_json()?)),
        ("limen", if carried == lim { jb(&lim) } else { json!("limen, number and bexter differ") }),
    ]))
}
fn wsr(s: &SerderWrapper) -> J {
    let v = (**s).version();
    obj(vec![
        ("raw", jb(&s.raw())),
        ("ked", js(&s.ked().value())),
        ("ident", js(&s.ident())),
        ("kind", js(&s.kind())),
        ("size", jn(s.size() as u128)),
        ("code", js(&s.code())),
        ("said", guard(|| s.said().map(|x| js(&x)))),
        ("saidb", guard(|| s.saidb().map(|x| jb(&x)))),
        ("saider", wm!(s.saider())),
        ("major", json!(v.major)),
        ("minor", json!(v.minor)),
    ])
}

macro_rules! shorts {
    ($t:ident, $obs:expr, $e:expr $(, $x:expr)*) => {{
        let i = by(&$e["in"]);
        match $e["via"].as_str().unwrap() {
            "qb64" => {
                let s = String::from_utf8(i).expect("script: utf-8");
                wguard(|| Ok($obs($t::new_with_qb64(&s $(, $x)*)?)))
            }
            "qb64b" => wguard(|| Ok($obs($t::new_with_qb64b(&i $(, $x)*)?))),
            "qb2" => wguard(|| Ok($obs($t::new_with_qb2(&i $(, $x)*)?))),
            _ => panic!("script: via"),
        }
    }};
}

fn threshold(e: &J) -> R<TholderWrapper> {
    match e["form"].as_str().unwrap() {
        "sith" => TholderWrapper::new_with_sith(val(&e["doc"])),
        "thold" => TholderWrapper::new_with_thold(val(&e["doc"])),
        "limen" => TholderWrapper::new_with_limen(&by(&e["limen"])),
        _ => panic!("script: form"),
    }
}
fn idx(v: &J) -> Vec<u32> {
    v.as_array().unwrap().iter().map(|i| u32::try_from(num(i)).expect("script: index")).collect()
}
fn signer(e: &J) -> R<SignerWrapper> {
    SignerWrapper::new_with_raw(&by(&e["seed"]), Some(e["tr"].as_bool().unwrap()), Some(tx(&e["code"])))
}
fn asked(op: &str, e: &J, s: &SalterWrapper) -> J {
    let (path, at, temp) = (otx(&e["path"]), otx(&e["at"]), obool(&e["temp"]));
    let code = otx(&e["code"]);
    let tr = obool(&e["tr"]);
    match op {
        "stretch" => wguard(|| Ok(jb(&s.stretch(onum(&e["size"]).map(|n| n as usize), path, at, temp)?))),
        "signer" => wguard(|| Ok(wg(&s.signer(code, tr, path, at, temp)?))),
        "signers" => wguard(|| {
            let (count, start) = (onum(&e["count"]).map(|n| n as usize), onum(&e["start"]).map(|n| n as usize));
            let v = s.signers(count, start, path, code, tr, at, temp)?;
            let mut a = vec![];
            for i in 0..v.len() {
                a.push(wg(&v.get(i).expect("a signer at its index")));
            }
            let beyond = v.get(v.len()).is_none() && v.get(usize::MAX).is_none() && v.is_empty() == (v.len() == 0);
            Ok(if beyond { J::Array(a) } else { json!("signers do not end") })
        }),
        _ => panic!("script: salter op"),
    }
}
fn says(s: &SerderWrapper, size: Option<usize>) -> J {
    let list = |r: cesride::Result<Vec<cesride::Verfer>>| -> Res<J> { Ok(J::Array(r?.iter().map(|m| wm!(VerferWrapper::wrap(m))).collect())) };
    let digs = |r: cesride::Result<Vec<cesride::Diger>>| -> Res<J> { Ok(J::Array(r?.iter().map(|m| wm!(DigerWrapper::wrap(m))).collect())) };
    let thold = |r: R<Option<TholderWrapper>>| -> R<J> {
        Ok(match r? {
            Some(t) => json!([wth(&t)?]),
            None => json!([]),
        })
    };
    obj(vec![
        // lists of wrapped values only exist inside a JavaScript engine; their elements are wrapped here
        ("verfers", guard(|| list((**s).verfers()))),
        ("digers", guard(|| digs((**s).digers()))),
        ("werfers", guard(|| list((**s).werfers()))),
        ("tholder", wguard(|| thold(s.tholder()))),
        ("ntholder", wguard(|| thold(s.ntholder()))),
        ("sner", wguard(|| Ok(wn(&s.sner()?)))),
        ("sn", wguard(|| Ok(ju(s.sn()?)))),
        ("fner", wguard(|| Ok(J::Array(s.fner()?.iter().map(wn).collect())))),
        ("fn", wguard(|| Ok(ju(s._fn()?)))),
        ("pre", guard(|| s.pre().map(|x| js(&x)))),
        ("preb", guard(|| s.preb().map(|x| jb(&x)))),
        ("est", guard(|| s.est().map(|b| json!(b)))),
        ("pretty", guard(|| s.pretty(size).map(|x| js(&x)))),
    ])
}

fn call(op: &str, e: &J) -> Option<J> {
    let code = || otx(&e["code"]);
    Some(match op {
        "t.raw" => {
            let r = by(&e["raw"]);
            match e["type"].as_str().unwrap() {
                "Verfer" => wguard(|| Ok(wm!(VerferWrapper::new_with_raw(&r, code())?))),
                "Signer" => wguard(|| Ok(wm!(SignerWrapper::new_with_raw(&r, None, code())?))),
                "Diger" => wguard(|| Ok(wm!(DigerWrapper::new_with_raw(&r, code())?))),
                "Saider" => wguard(|| Ok(wm!(SaiderWrapper::new_with_raw(&r, code())?))),
                "Cigar" => wguard(|| Ok(wm!(CigarWrapper::new_with_raw(&r, None, code())?))),
                "Salter" => wguard(|| Ok(wm!(SalterWrapper::new_with_raw(&r, code(), None)?))),
                "Seqner" => wguard(|| Ok(wm!(SeqnerWrapper::new_with_raw(&r, code())?))),
                "Number" => wguard(|| Ok(wm!(NumberWrapper::new_with_raw(&r, code())?))),
                "Dater" => wguard(|| Ok(wm!(DaterWrapper::new_with_raw(&r, code())?))),
                "Bexter" => wguard(|| Ok(wm!(BexterWrapper::new_with_raw(&r, code())?))),
                "Prefixer" => wguard(|| Ok(wm!(PrefixerWrapper::new_with_raw(&r, code())?))),
                "Siger" => wguard(|| Ok(wi(&SigerWrapper::new_with_raw(&r, None, None, None, code())?))),
                _ => panic!("script: type"),
            }
        }
        "t.par" if opt(&e["code"]).is_none() => match e["type"].as_str().unwrap() {
            "Verfer" => shorts!(VerferWrapper, |w: VerferWrapper| wm!(w), e),
            "Signer" => shorts!(SignerWrapper, |w: SignerWrapper| wm!(w), e, None),
            "Diger" => shorts!(DigerWrapper, |w: DigerWrapper| wm!(w), e),
            "Saider" => shorts!(SaiderWrapper, |w: SaiderWrapper| wm!(w), e),
            "Cigar" => shorts!(CigarWrapper, |w: CigarWrapper| wm!(w), e, None),
            "Salter" => shorts!(SalterWrapper, |w: SalterWrapper| wm!(w), e, None),
            "Seqner" => shorts!(SeqnerWrapper, |w: SeqnerWrapper| wm!(w), e),
            "Number" => shorts!(NumberWrapper, |w: NumberWrapper| wm!(w), e),
            "Dater" => shorts!(DaterWrapper, |w: DaterWrapper| wm!(w), e),
            "Bexter" => shorts!(BexterWrapper, |w: BexterWrapper| wm!(w), e),
            "Prefixer" => shorts!(PrefixerWrapper, |w: PrefixerWrapper| wm!(w), e),
            "Siger" => shorts!(SigerWrapper, |w: SigerWrapper| wi(&w), e, None),
            _ => panic!("script: type"),
        },
        "t.par" => {
            let (via, i) = (e["via"].as_str().unwrap(), by(&e["in"]));
            let c = code();
            let t = if via == "qb64" { Some(String::from_utf8(i.clone()).expect("script: utf-8")) } else { None };
            let b = if via == "qb64b" { Some(i.clone()) } else { None };
            let q = if via == "qb2" { Some(i) } else { None };
            match e["type"].as_str().unwrap() {
                "Verfer" => wguard(|| Ok(wm!(VerferWrapper::new(c, None, b, t, q)?))),
                "Signer" => wguard(|| Ok(wm!(SignerWrapper::new(None, c, None, b, t, q)?))),
                "Diger" => wguard(|| Ok(wm!(DigerWrapper::new(None, c, None, b, t, q)?))),
                "Saider" => wguard(|| Ok(wm!(SaiderWrapper::new(None, None, None, None, c, None, b, t, q)?))),
                "Cigar" => wguard(|| Ok(wm!(CigarWrapper::new(None, c, None, b, t, q)?))),
                "Salter" => wguard(|| Ok(wm!(SalterWrapper::new(None, c, None, b, t, q)?))),
                "Seqner" => wguard(|| Ok(wm!(SeqnerWrapper::new(None, None, c, None, b, t, q)?))),
                "Number" => wguard(|| Ok(wm!(NumberWrapper::new(None, None, c, None, b, t, q)?))),
                "Dater" => wguard(|| Ok(wm!(DaterWrapper::new(None, c, None, b, t, q)?))),
                "Bexter" => wguard(|| Ok(wm!(BexterWrapper::new(None, c, None, b, t, q)?))),
                "Prefixer" => wguard(|| Ok(wm!(PrefixerWrapper::new(None, None, c, None, b, t, q)?))),
                "Siger" => wguard(|| Ok(wi(&SigerWrapper::new(None, None, None, c, None, b, t, q)?))),
                _ => panic!("script: type"),
            }
        }
        "t.any" => {
            let g = given(e);
            let (c, r, b, t, q, x) = (g.code, g.raw, g.qb64b, g.qb64, g.qb2, g.txt);
            let key = g.key.map(|k| VerferWrapper::wrap(&cesride::Verfer::new_with_qb64(&k).expect("script: key")));
            let k = key.is_some();
            match e["type"].as_str().unwrap() {
                "Verfer" => wguard(|| Ok(wm!(VerferWrapper::new(c, r, b, t, q)?))),
                "Signer" => wguard(|| Ok(wg(&SignerWrapper::new(g.tr, c, r, b, t, q)?))),
                "Diger" => wguard(|| Ok(wm!(DigerWrapper::new(g.ser, c, r, b, t, q)?))),
                "Saider" => wguard(|| Ok(wm!(SaiderWrapper::new(None, None, None, None, c, r, b, t, q)?))),
                "Cigar" => wguard(|| {
                    let m = CigarWrapper::new(key, c, r, b, t, q)?;
                    Ok(if k { plus(wm!(@ &m), "verfer", wm!(m.verfer())) } else { wm!(m) })
                }),
                "Siger" => wguard(|| {
                    let m = SigerWrapper::new(key, g.index, g.ondex, c, r, b, t, q)?;
                    Ok(if k { plus(wi(&m), "verfer", wm!(m.verfer())) } else { wi(&m) })
                }),
                "Salter" => wguard(|| Ok(wsl(&SalterWrapper::new(g.tier, c, r, b, t, q)?))),
                "Seqner" => wguard(|| Ok(ws(&SeqnerWrapper::new(g.num.map(u), x, c, r, b, t, q)?))),
                "Number" => wguard(|| Ok(wn(&NumberWrapper::new(g.num.map(u), x, c, r, b, t, q)?))),
                "Dater" if x.is_none() && r.is_none() && b.is_none() && t.is_none() && q.is_none() => {
                    timed(|| wguard(|| Ok(wd(&DaterWrapper::new(x, c, r, b, t, q)?))))
                }
                "Dater" => wguard(|| Ok(wd(&DaterWrapper::new(x, c, r, b, t, q)?))),
                "Bexter" => wguard(|| Ok(wb(&BexterWrapper::new(x, c, r, b, t, q)?))),
                "Prefixer" => wguard(|| Ok(wm!(PrefixerWrapper::new(None, None, c, r, b, t, q)?))),
                _ => panic!("script: type"),
            }
        }
        // verfer, index and ondex on the short routes
        "t.key" => {
            let (c, i) = (code(), by(&e["in"]));
            let key = Some(VerferWrapper::wrap(&cesride::Verfer::new_with_qb64(&tx(&e["key"])).expect("script: key")));
            let (index, ondex) = (onum(&e["index"]).map(|n| n as u32), onum(&e["ondex"]).map(|n| n as u32));
            if e["type"] == "Cigar" {
                let f = |m: CigarWrapper| plus(wm!(@ &m), "verfer", wm!(m.verfer()));
                match e["via"].as_str().unwrap() {
                    "raw" => wguard(|| Ok(f(CigarWrapper::new_with_raw(&i, key, c)?))),
                    "qb64" => wguard(|| Ok(f(CigarWrapper::new_with_qb64(&tx(&e["in"]), key)?))),
                    "qb64b" => wguard(|| Ok(f(CigarWrapper::new_with_qb64b(&i, key)?))),
                    _ => wguard(|| Ok(f(CigarWrapper::new_with_qb2(&i, key)?))),
                }
            } else {
                let f = |m: SigerWrapper| plus(wi(&m), "verfer", wm!(m.verfer()));
                match e["via"].as_str().unwrap() {
                    "raw" => wguard(|| Ok(f(SigerWrapper::new_with_raw(&i, key, index, ondex, c)?))),
                    "qb64" => wguard(|| Ok(f(SigerWrapper::new_with_qb64(&tx(&e["in"]), key)?))),
                    "qb64b" => wguard(|| Ok(f(SigerWrapper::new_with_qb64b(&i, key)?))),
                    _ => wguard(|| Ok(f(SigerWrapper::new_with_qb2(&i, key)?))),
                }
            }
        }
        "n.num" => wguard(|| Ok(wn(&NumberWrapper::new_with_num(u(num(&e["num"])))?))),
        "n.numh" => wguard(|| Ok(wn(&NumberWrapper::new_with_numh(&tx(&e["in"]))?))),
        "n.none" => wguard(|| Ok(wn(&NumberWrapper::new(None, None, None, None, None, None, None)?))),
        "n.raw" => wguard(|| Ok(wn(&NumberWrapper::new_with_raw(&by(&e["raw"]), code())?))),
        "n.par" => shorts!(NumberWrapper, |w: NumberWrapper| wn(&w), e),
        "s.sn" => wguard(|| Ok(ws(&SeqnerWrapper::new_with_sn(u(num(&e["num"])))?))),
        "s.snh" => wguard(|| Ok(ws(&SeqnerWrapper::new_with_snh(&tx(&e["in"]))?))),
        "s.none" => wguard(|| Ok(ws(&SeqnerWrapper::new(None, None, None, None, None, None, None)?))),
        "s.raw" => wguard(|| Ok(ws(&SeqnerWrapper::new_with_raw(&by(&e["raw"]), code())?))),
        "s.par" => shorts!(SeqnerWrapper, |w: SeqnerWrapper| ws(&w), e),
        "d.dts" => wguard(|| Ok(wd(&DaterWrapper::new_with_dts(&tx(&e["in"]), None)?))),
        "d.raw" => wguard(|| Ok(wd(&DaterWrapper::new_with_raw(&by(&e["raw"]), code())?))),
        "d.par" => shorts!(DaterWrapper, |w: DaterWrapper| wd(&w), e),
        "b.bext" => wguard(|| Ok(wb(&BexterWrapper::new_with_bext(&tx(&e["in"]))?))),
        "b.raw" => wguard(|| Ok(wb(&BexterWrapper::new_with_raw(&by(&e["raw"]), code())?))),
        "b.par" => shorts!(BexterWrapper, |w: BexterWrapper| wb(&w), e),
        "h.ser" => wguard(|| Ok(wm!(DigerWrapper::new_with_ser(&by(&e["ser"]), code())?))),
        "h.any" => {
            let g = given(e);
            wguard(|| Ok(wm!(DigerWrapper::new(g.ser, g.code, g.raw, g.qb64b, g.qb64, g.qb2)?)))
        }
        "h.ver" | "h.cmp" => {
            let s = by(&e["ser"]);
            let dig = |v: &J| {
                let mut d = None;
                let r = wguard(|| {
                    d = Some(DigerWrapper::new_with_qb64(&tx(v))?);
                    Ok(json!(null))
                });
                if r["k"] == "panic" { Err(r) } else { d.ok_or(er()) }
            };
            let a = match dig(&e[if op == "h.ver" { "dig" } else { "a" }]) {
                Ok(a) => a,
                Err(r) => return Some(r),
            };
            match e["form"].as_str().unwrap_or("") {
                "" => yes(|| a.verify(&s)),
                "dig" => yes(|| a.compare_dig(&s, &by(&e["b"]))),
                _ => match dig(&e["b"]) {
                    Ok(b) => yes(|| a.compare_diger(&s, &b)),
                    Err(r) => if r["k"] == "panic" { r } else { ok(json!(false)) },
                },
            }
        }
        "g.new" => {
            let tr = obool(&e["tr"]);
            if e["via"] == "raw" {
                wguard(|| Ok(wg(&SignerWrapper::new_with_raw(&by(&e["seed"]), tr, Some(tx(&e["code"])))?)))
            } else {
                shorts!(SignerWrapper, |w: SignerWrapper| wg(&w), e, tr)
            }
        }
        "g.gen" => wguard(|| Ok(wg(&SignerWrapper::new(obool(&e["tr"]), code(), None, None, None, None)?))),
        "g.sign" => wguard(|| {
            let c = signer(e)?.sign_unindexed(&by(&e["msg"]))?;
            Ok(plus(wm!(@ &c), "verfer", wm!(c.verfer())))
        }),
        "g.ver" => {
            let mut v = None;
            let r = wguard(|| {
                v = Some(VerferWrapper::new_with_qb64(&tx(&e["key"]))?);
                Ok(json!(null))
            });
            match v {
                Some(v) => yes(|| v.verify(&by(&e["sig"]), &by(&e["msg"]))),
                None => r,
            }
        }
        "g.idx" => {
            let m = by(&e["msg"]);
            wguard(|| {
                let g = signer(e)?.sign_indexed(&m, e["only"].as_bool().unwrap(), num(&e["index"]) as u32, onum(&e["ondex"]).map(|n| n as u32))?;
                let o = plus(wi(&g), "verfer", wm!(g.verfer()));
                Ok(plus(o, "verifies", yes(|| g.verfer().verify(&g.raw(), &m))))
            })
        }
        "th.new" => wguard(|| {
            let t = threshold(e)?;
            let o = wth(&t)?;
            let again = obj(vec![
                ("sith", wguard(|| wth(&TholderWrapper::new_with_sith(t.sith()?)?))),
                ("thold", wguard(|| wth(&TholderWrapper::new_with_thold(t.thold())?))),
                ("limen", wguard(|| wth(&TholderWrapper::new(None, Some(t.limen()?), None)?))),
                ("json", wguard(|| {
                    let text = t.to_json()?;
                    let v = if t.weighted() { json!(text).to_string() } else { text };
                    wth(&TholderWrapper::new(None, None, Some(val(&js(&v))))?)
                })),
            ]);
            Ok(plus(o, "again", again))
        }),
        "th.sat" => wguard(|| Ok(json!(threshold(e)?.satisfy(&idx(&e["idx"]))?))),
        "th.many" => wguard(|| {
            let t = threshold(e)?;
            let mut v = vec![];
            for i in e["idx"].as_array().unwrap() {
                v.push(json!(t.satisfy(&idx(i))?));
            }
            Ok(J::Array(v))
        }),
        "px.new" => wguard(|| Ok(wm!(PrefixerWrapper::new_with_ked(val(&e["doc"]), None, code())?))),
        "px.ver" => {
            let mut v = None;
            let r = wguard(|| {
                v = Some(PrefixerWrapper::new_with_qb64(&tx(&e["id"]))?);
                Ok(json!(null))
            });
            match v {
                Some(v) => yes(|| v.verify(val(&e["doc"]), obool(&e["prefixed"]))),
                None => r,
            }
        }
        "sd.said" => wguard(|| {
            let r = SaiderWrapper::saidify(val(&e["doc"]), code(), otx(&e["kind"]), otx(&e["label"]), None)?;
            Ok(obj(vec![("id", wm!(r.saider())), ("sad", js(&r.value()))]))
        }),
        "sd.new" => wguard(|| Ok(wm!(SaiderWrapper::new_with_sad(val(&e["doc"]), otx(&e["label"]), otx(&e["kind"]), None, code())?))),
        "sd.ver" => {
            let mut v = None;
            let r = wguard(|| {
                v = Some(SaiderWrapper::new_with_qb64(&tx(&e["id"]))?);
                Ok(json!(null))
            });
            match v {
                Some(v) => yes(|| v.verify(val(&e["doc"]), obool(&e["prefixed"]), obool(&e["versioned"]), otx(&e["kind"]), otx(&e["label"]), None)),
                None => r,
            }
        }
        "sr.raw" => wguard(|| Ok(wsr(&SerderWrapper::new(code(), Some(by(&e["in"])), None, None, None)?))),
        "sr.any" => wguard(|| {
            let s = match opt(&e["from"]) {
                Some(f) => Some(SerderWrapper::new_with_ked(val(f), otx(&e["fcode"]), None)?),
                None => None,
            };
            Ok(wsr(&SerderWrapper::new(code(), oby(&e["raw"]), otx(&e["kind"]), opt(&e["doc"]).map(val), s)?))
        }),
        "sd.any" => wguard(|| {
            Ok(wm!(SaiderWrapper::new(opt(&e["doc"]).map(val), otx(&e["label"]), otx(&e["kind"]), None, code(), oby(&e["raw"]), oby(&e["qb64b"]), otx(&e["qb64"]), oby(&e["qb2"]))?))
        }),
        "px.any" => wguard(|| {
            Ok(wm!(PrefixerWrapper::new(opt(&e["doc"]).map(val), None, code(), oby(&e["raw"]), oby(&e["qb64b"]), otx(&e["qb64"]), oby(&e["qb2"]))?))
        }),
        "th.any" => wguard(|| wth(&TholderWrapper::new(opt(&e["thold"]).map(val), oby(&e["limen"]), opt(&e["sith"]).map(val))?)),
        "sr.ked" => wguard(|| Ok(wsr(&SerderWrapper::new_with_ked(val(&e["doc"]), code(), otx(&e["kind"]))?))),
        "ev.says" => wguard(|| {
            let raw = oby(&e["raw"]);
            let d = if raw.is_none() { Some(val(&e["doc"])) } else { None };
            let s = SerderWrapper::new(code(), raw, None, d, None)?;
            Ok(says(&s, onum(&e["size"]).map(|n| n as usize)))
        }),
        "sl.make" => {
            let own = otx(&e["own"]);
            let b = by(&e["in"]);
            match e["via"].as_str().unwrap() {
                "none" if code().is_none() => wguard(|| Ok(wsl(&SalterWrapper::new_with_defaults(own)?))),
                "none" => wguard(|| Ok(wsl(&SalterWrapper::new(own, code(), None, None, None, None)?))),
                "raw" => wguard(|| Ok(wsl(&SalterWrapper::new_with_raw(&b, code(), own)?))),
                "qb64" if code().is_some() => wguard(|| Ok(wsl(&SalterWrapper::new(own, code(), None, None, Some(tx(&e["in"])), None)?))),
                _ => shorts!(SalterWrapper, |w: SalterWrapper| wsl(&w), e, own),
            }
        }
        "sl.stretch" | "sl.signer" | "sl.signers" => {
            let mut v = None;
            let r = wguard(|| {
                v = Some(SalterWrapper::new_with_raw(&by(&e["salt"]), None, otx(&e["own"]))?);
                Ok(json!(null))
            });
            match v {
                Some(s) => asked(&op[3..], e, &s),
                None => r,
            }
        }
        _ => return None,
    })
}

macro_rules! codex {
    ($t:ident, $f:path, $($n:ident),*) => {
        obj(vec![$((stringify!($n), js(&$f($t::$n)))),*])
    };
}

pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "w.call" => call(e["real"].as_str().unwrap(), e).unwrap_or_else(|| panic!("script: no binding for {e}")),
        // a 128-bit number across the boundary and back
        "w.num" => sure(|| ju(u(num(&e["num"])))),
        "w.val" => wguard(|| {
            let t = String::from_utf8(by(&e["in"])).expect("script: utf-8");
            let v = ValueWrapper::new(&t)?;
            let said = v.value();
            let d = cesride::data::Value::from(v);
            Ok(obj(vec![("text", js(&said)), ("json", guard(|| d.to_json().map(|t| js(&t)))), ("same", json!(crate::docs::dump(&d) == crate::docs::dump(&doc(&e["in"]))))]))
        }),
        "w.codes" => {
            let m = codex!(CesrideMatterCodex, matter_codex_code, Ed25519Seed, Ed25519N, X25519, Ed25519, Blake3_256, Blake2b_256, Blake2s_256, SHA3_256,
                SHA2_256, ECDSA_256k1_Seed, Ed448_Seed, X448, Short, Big, X25519_Private, X25519_Cipher_Seed, Salt_128, Ed25519_Sig, ECDSA_256k1_Sig,
                Blake3_512, Blake2b_512, SHA3_512, SHA2_512, Long, ECDSA_256k1N, ECDSA_256k1, Ed448N, Ed448, Ed448_Sig, Tern, DateTime,
                X25519_Cipher_Salt, TBD1, TBD2, StrB64_L0, StrB64_L1, StrB64_L2, StrB64_Big_L0, StrB64_Big_L1, StrB64_Big_L2, Bytes_L0, Bytes_L1,
                Bytes_L2, Bytes_Big_L0, Bytes_Big_L1, Bytes_Big_L2);
            let i = codex!(CesrideIndexerCodex, indexer_codex_code, Ed25519, Ed25519_Crt, ECDSA_256k1, ECDSA_256k1_Crt, Ed448, Ed448_Crt, Ed25519_Big,
                Ed25519_Big_Crt, ECDSA_256k1_Big, ECDSA_256k1_Big_Crt, Ed448_Big, Ed448_Big_Crt, TBD0, TBD1, TBD4);
            ok(obj(vec![("matter", m), ("indexer", i)]))
        }
        _ => return None,
    })
}
