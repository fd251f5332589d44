//! Signing thresholds.
use crate::util::*;
use cesride::data::Value;
use cesride::*;
use serde_json::{json, Value as J};

/// a document of the script: JSON text, read the way the library's users read it
pub fn doc(v: &J) -> Value {
    let j: J = serde_json::from_slice(&by(v)).expect("script: JSON document");
    Value::from(&j)
}
pub fn thobs(t: &Tholder) -> Res<J> {
    // what a threshold is carried in: a number or weights as text, never both
    let carried = match (t.number(), t.bexter()) {
        (Some(n), None) => n.qb64b()?,
        (None, Some(b)) => b.qb64b()?,
        _ => vec![],
    };
    let limen = t.limen()?;
    Ok(obj(vec![
        ("weighted", json!(t.weighted())),
        ("size", jn(t.size() as u128)),
        ("num", match t.num()? {
            Some(n) => json!([jn(n as u128)]),
            None => json!([]),
        }),
        ("thold", js(&t.thold().to_json()?)),
        ("sith", js(&t.sith()?.to_json()?)),
        ("json", js(&t.to_json()?)),
        ("limen", if carried == limen { jb(&limen) } else { json!("limen, number and bexter differ") }),
    ]))
}
fn make(e: &J) -> Res<Tholder> {
    Ok(match e["form"].as_str().unwrap() {
        "sith" => Tholder::new_with_sith(&doc(&e["doc"]))?,
        "thold" => Tholder::new_with_thold(&doc(&e["doc"]))?,
        "limen" => Tholder::new_with_limen(&by(&e["limen"]))?,
        _ => panic!("script: form"),
    })
}
fn idx(v: &J) -> Vec<u32> {
    v.as_array().unwrap().iter().map(|i| u32::try_from(num(i)).expect("script: index")).collect()
}

pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "th.new" => guard(|| -> Res<J> {
            let t = make(e)?;
            let mut o = thobs(&t)?;
            let again = obj(vec![
                ("sith", guard(|| -> Res<J> { thobs(&Tholder::new_with_sith(&t.sith()?)?) })),
                ("thold", guard(|| -> Res<J> { thobs(&Tholder::new_with_thold(&t.thold())?) })),
                ("limen", guard(|| -> Res<J> { thobs(&Tholder::new_with_limen(&t.limen()?)?) })),
                ("json", guard(|| -> Res<J> {
                    let text = t.to_json()?;
                    // weighted expressions may be given as their text, numbers as the text they say
                    let v = if t.weighted() { Value::from(text.as_str()) } else { doc(&js(&text)) };
                    thobs(&Tholder::new_with_sith(&v)?)
                })),
            ]);
            o.as_object_mut().unwrap().insert("again".into(), again);
            Ok(o)
        }),
        "th.sat" => guard(|| -> Res<J> {
            let t = make(e)?;
            Ok(json!(t.satisfy(&idx(&e["idx"]))?))
        }),
        "th.many" => guard(|| -> Res<J> {
            let t = make(e)?;
            let mut v = vec![];
            for i in e["idx"].as_array().unwrap() {
                v.push(json!(t.satisfy(&idx(i))?));
            }
            Ok(J::Array(v))
        }),
        _ => return None,
    })
}
