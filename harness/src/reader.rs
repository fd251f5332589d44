//! Reading what arrives in pieces: what the parsers say about a buffer that may hold an item, the
//! beginning of one, or neither; and a reader that goes by it.
use crate::codec::{AnyIndexer, AnyMatter};
use crate::stream::group;
use crate::util::*;
use cesride::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;

struct Seen {
    fam: &'static str,
    code: String,
    fs: usize,
    text: String,
    count: u32,
}
fn more<T>(r: &Result<T>) -> bool {
    let e = r.as_ref().err().and_then(|e| e.downcast_ref::<Error>());
    matches!(e, Some(Error::Shortage(_) | Error::EmptyMaterial(_) | Error::TooSmall(_)))
}
fn seen<M: Matter>(m: M) -> Result<Seen> {
    Ok(Seen { fam: "m", code: m.code(), fs: m.full_size()?, text: m.qb64()?, count: 0 })
}
fn indexed<M: Indexer>(m: M) -> Result<Seen> {
    Ok(Seen { fam: "i", code: m.code(), fs: m.full_size()? as usize, text: m.qb64()?, count: 0 })
}
fn look(kind: &str, via: &str, b: &[u8]) -> Result<Seen> {
    let s = if via == "qb64" { String::from_utf8(b.to_vec()).expect("script: utf-8") } else { String::new() };
    macro_rules! by_route {
        ($f:ident, $t:ident $(, $x:expr)*) => {
            match via {
                "qb64" => $f($t::new_with_qb64(&s $(, $x)*)?),
                "qb64b" => $f($t::new_with_qb64b(b $(, $x)*)?),
                _ => $f($t::new_with_qb2(b $(, $x)*)?),
            }
        };
    }
    match kind {
        "m" => by_route!(seen, AnyMatter),
        "i" => by_route!(indexed, AnyIndexer),
        "c" => {
            let c = match via {
                "qb64" => Counter::new_with_qb64(&s)?,
                "qb64b" => Counter::new_with_qb64b(b)?,
                _ => Counter::new_with_qb2(b)?,
            };
            Ok(Seen { fam: "c", code: c.code(), fs: c.full_size()?, text: c.qb64()?, count: c.count() })
        }
        "Verfer" => by_route!(seen, Verfer),
        "Signer" => by_route!(seen, Signer, None),
        "Diger" => by_route!(seen, Diger),
        "Saider" => by_route!(seen, Saider),
        "Cigar" => by_route!(seen, Cigar, None),
        "Salter" => by_route!(seen, Salter, None),
        "Seqner" => by_route!(seen, Seqner),
        "Number" => by_route!(seen, Number),
        "Dater" => by_route!(seen, Dater),
        "Bexter" => by_route!(seen, Bexter),
        "Pather" => by_route!(seen, Pather),
        "Prefixer" => by_route!(seen, Prefixer),
        "Siger" => by_route!(indexed, Siger, None),
        _ => panic!("script: kind"),
    }
}
fn obs(s: &Seen) -> J {
    obj(vec![("kind", js(s.fam)), ("code", js(&s.code)), ("fs", jn(s.fs as u128)), ("qb64", js(&s.text))])
}

#[derive(Default)]
struct Reader {
    via: String,
    auto: bool,
    ctx: Vec<String>, // last one next
    buf: Vec<u8>,
    dropped: bool,
}
thread_local! { static R: RefCell<Reader> = RefCell::new(Reader::default()); }

impl Reader {
    fn feed(&mut self, x: &[u8]) -> Vec<J> {
        let mut got = vec![];
        if self.dropped {
            return got;
        }
        self.buf.extend(x);
        while !self.buf.is_empty() {
            let kind = match self.ctx.last() {
                Some(k) => k.clone(),
                None if self.auto => {
                    let c = if self.via == "qb2" { self.buf[0] >> 2 == 62 } else { self.buf[0] == b'-' };
                    if c { "c" } else { "m" }.to_string()
                }
                None => break,
            };
            let r = look(&kind, &self.via, &self.buf);
            match r {
                Ok(s) => {
                    self.ctx.pop();
                    let n = if self.via == "qb2" { s.fs * 3 / 4 } else { s.fs };
                    if n == 0 {
                        self.dropped = true;
                        break;
                    }
                    self.buf = self.buf.get(n..).unwrap_or_default().to_vec();
                    if self.auto && s.fam == "c" && !group(&s.code).is_empty() {
                        for _ in 0..s.count {
                            self.ctx.extend(group(&s.code).iter().rev().map(|k| k.to_string()));
                        }
                    }
                    got.push(obs(&s));
                }
                Err(_) => {
                    self.dropped = !more(&r);
                    break;
                }
            }
        }
        got
    }
}

pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "rd.look" => {
            let i = by(&e["in"]);
            let r = std::cell::Cell::new(false);
            let x = guard(|| {
                let x = look(e["kind"].as_str().unwrap(), e["via"].as_str().unwrap(), &i);
                r.set(more(&x));
                x.map(|s| obs(&s))
            });
            if r.get() { json!({"k": "more"}) } else { x }
        }
        "rd.open" => R.with(|s| {
            let mut ctx: Vec<String> = e["kinds"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
            ctx.reverse();
            *s.borrow_mut() = Reader { via: e["via"].as_str().unwrap().into(), auto: e["auto"] == true, ctx, ..Default::default() };
            ok(json!([]))
        }),
        "rd.feed" => R.with(|s| {
            let mut s = s.borrow_mut();
            let x = by(&e["in"]);
            sure(|| {
                let got = s.feed(&x);
                obj(vec![
                    ("items", ok(J::Array(got))),
                    ("held", ok(jn(s.buf.len() as u128))),
                    ("state", ok(js(if s.dropped { "dropped" } else { "open" }))),
                ])
            })
        }),
        _ => return None,
    })
}
