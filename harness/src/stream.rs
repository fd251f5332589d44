//! Streams: walking a buffer from the front using only what each parsed item reports; sessions of
//! append, convert and pop.
use crate::codec::{AnyIndexer, AnyMatter};
use crate::util::*;
use cesride::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;

enum Item {
    M(AnyMatter),
    I(AnyIndexer),
    C(Counter),
}
macro_rules! each {
    ($s:expr, $m:ident => $x:expr) => {
        match $s {
            Item::M($m) => $x,
            Item::I($m) => $x,
            Item::C($m) => $x,
        }
    };
}
fn parse(kind: &str, via: &str, b: &[u8]) -> Res<Item> {
    let s = if via == "qb64" { String::from_utf8(b.to_vec()).expect("script: utf-8") } else { String::new() };
    Ok(match (kind, via) {
        ("m", "qb64") => Item::M(AnyMatter::new_with_qb64(&s)?),
        ("m", "qb64b") => Item::M(AnyMatter::new_with_qb64b(b)?),
        ("m", "qb2") => Item::M(AnyMatter::new_with_qb2(b)?),
        ("i", "qb64") => Item::I(AnyIndexer::new_with_qb64(&s)?),
        ("i", "qb64b") => Item::I(AnyIndexer::new_with_qb64b(b)?),
        ("i", "qb2") => Item::I(AnyIndexer::new_with_qb2(b)?),
        ("c", "qb64") => Item::C(Counter::new_with_qb64(&s)?),
        ("c", "qb64b") => Item::C(Counter::new_with_qb64b(b)?),
        ("c", "qb2") => Item::C(Counter::new_with_qb2(b)?),
        _ => panic!("script: kind/via"),
    })
}
impl Item {
    fn kind(&self) -> &'static str {
        match self {
            Item::M(_) => "m",
            Item::I(_) => "i",
            Item::C(_) => "c",
        }
    }
    fn code(&self) -> String {
        each!(self, m => m.code())
    }
    fn fs(&self) -> Res<usize> {
        Ok(each!(self, m => m.full_size().map(|n| n as usize))?)
    }
    fn qb64(&self) -> Res<String> {
        Ok(each!(self, m => m.qb64())?)
    }
    fn qb2(&self) -> Res<Vec<u8>> {
        Ok(each!(self, m => m.qb2())?)
    }
    fn obs(&self) -> Res<J> {
        Ok(obj(vec![
            ("kind", js(self.kind())),
            ("code", js(&self.code())),
            ("fs", jn(self.fs()? as u128)),
            ("qb64", js(&self.qb64()?)),
        ]))
    }
    fn width(&self, via: &str) -> Res<usize> {
        let fs = self.fs()?;
        Ok(if via == "qb2" { fs * 3 / 4 } else { fs })
    }
}
pub fn group(code: &str) -> &'static [&'static str] {
    match code {
        "-A" | "-B" => &["i"],
        "-C" | "-E" | "-G" => &["m", "m"],
        "-D" => &["m", "m", "m", "i"],
        "-F" => &["m", "m", "m", "c"],
        "-H" | "-J" | "-K" => &["m", "c"],
        "-I" => &["m", "m", "m"],
        _ => &[],
    }
}
fn walk(via: &str, input: &[u8], mut ctx: Vec<String>, auto: bool) -> J {
    let mut b = input.to_vec();
    let mut items = vec![];
    let mut done = true;
    ctx.reverse();
    while !b.is_empty() {
        let kind = match ctx.pop() {
            Some(k) => k,
            None if auto => {
                let c = if via == "qb2" { b[0] >> 2 == 62 } else { b[0] == b'-' };
                if c { "c".to_string() } else { "m".to_string() }
            }
            None => break,
        };
        let step = (|| -> Res<usize> {
            let it = parse(&kind, via, &b)?;
            items.push(it.obs()?);
            if let (true, Item::C(c)) = (auto, &it) {
                for _ in 0..c.count() {
                    if group(&c.code()).is_empty() {
                        break;
                    }
                    for g in group(&c.code()).iter().rev() {
                        ctx.push(g.to_string());
                    }
                }
            }
            it.width(via)
        })();
        match step {
            Ok(n) if n > 0 && n <= b.len() => b = b[n..].to_vec(),
            _ => {
                done = false;
                break;
            }
        }
    }
    obj(vec![("items", J::Array(items)), ("left", jn(b.len() as u128)), ("done", json!(done))])
}

#[derive(Default)]
struct Session {
    bin: bool,
    buf: Vec<u8>,
    kinds: Vec<String>,
}
thread_local! { static S: RefCell<Session> = RefCell::new(Session::default()); }

pub fn run(op: &str, e: &J) -> Option<J> {
    use base64::{engine::general_purpose::URL_SAFE as B, Engine};
    Some(match op {
        "st.walk" | "st.auto" => {
            let kinds = e["kinds"].as_array().cloned().unwrap_or_default();
            let kinds = kinds.iter().map(|k| k.as_str().unwrap().to_string()).collect();
            let i = by(&e["in"]);
            sure(|| walk(e["via"].as_str().unwrap(), &i, kinds, op == "st.auto"))
        }
        "st.open" => S.with(|s| {
            *s.borrow_mut() = Session { bin: e["dom"] == "bin", ..Default::default() };
            ok(json!([]))
        }),
        "st.add" => S.with(|s| {
            let mut s = s.borrow_mut();
            let k = e["kind"].as_str().unwrap().to_string();
            let t = by(&e["text"]);
            guard(|| -> Res<J> {
                let it = parse(&k, "qb64", &t)?;
                let more = if s.bin { it.qb2()? } else { it.qb64()?.into_bytes() };
                s.buf.extend(more);
                s.kinds.push(k);
                Ok(jb(&s.buf))
            })
        }),
        "st.conv" => S.with(|s| {
            let mut s = s.borrow_mut();
            guard(|| -> Res<J> {
                let (from, bin) = (s.buf.clone(), s.bin);
                let whole = if bin { B.encode(&from).into_bytes() } else { B.decode(&from).unwrap_or_default() };
                let (mut rest, mut items) = (from.as_slice(), vec![]);
                let via = if bin { "qb2" } else { "qb64" };
                for k in &s.kinds {
                    let it = parse(k, via, rest)?;
                    items.extend(if bin { it.qb64()?.into_bytes() } else { it.qb2()? });
                    rest = rest.get(it.width(via)?..).unwrap_or_default();
                }
                s.buf = whole.clone();
                s.bin = !bin;
                Ok(obj(vec![("whole", jb(&whole)), ("items", jb(&items))]))
            })
        }),
        "st.pop" => S.with(|s| {
            let mut s = s.borrow_mut();
            if s.kinds.is_empty() {
                return er();
            }
            guard(|| -> Res<J> {
                let via = if s.bin { "qb2" } else { "qb64" };
                let it = parse(&s.kinds[0], via, &s.buf)?;
                let o = it.obs()?;
                let n = it.width(via)?;
                s.buf = s.buf.get(n..).unwrap_or_default().to_vec();
                s.kinds.remove(0);
                Ok(o)
            })
        }),
        _ => return None,
    })
}
