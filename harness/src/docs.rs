//! JSON values: reading, writing, converting, editing.
use crate::threshold::doc;
use crate::util::*;
use cesride::data::{Array, Object, Value};
use cesride::*;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::HashMap;

/// a value in the notation of the specification
pub fn dump(v: &Value) -> J {
    match v {
        Value::Null => json!({"t": "null"}),
        Value::Boolean(b) => json!({"t": "bool", "b": b}),
        Value::Number(_) => match v.to_i64() {
            Ok(i) => json!({"t": "int", "n": js(&i.to_string())}),
            Err(_) => json!({"t": "flt", "h": jb(&v.to_f64().unwrap().to_bits().to_be_bytes())}),
        },
        Value::String(s) => json!({"t": "str", "s": js(s)}),
        Value::Array(a) => json!({"t": "arr", "a": a.iter().map(dump).collect::<Vec<_>>()}),
        Value::Object(o) => {
            json!({"t": "obj", "o": o.iter().map(|(k, v)| json!({"k": js(k), "v": dump(v)})).collect::<Vec<_>>()})
        }
    }
}
fn build(v: &J) -> Value {
    match v["t"].as_str().unwrap() {
        "null" => Value::Null,
        "bool" => Value::Boolean(v["b"].as_bool().unwrap()),
        "int" => Value::from(tx(&v["n"]).parse::<i64>().expect("script: i64")),
        "flt" => {
            let b = by(&v["h"]);
            Value::from(f64::from_bits(b.iter().fold(0u64, |a, x| (a << 8) | *x as u64)))
        }
        "str" => Value::from(&tx(&v["s"])),
        "arr" => {
            let a: Array = v["a"].as_array().unwrap().iter().map(build).collect();
            Value::from(a.as_slice())
        }
        _ => {
            let mut m = Object::new();
            for f in v["o"].as_array().unwrap() {
                m.insert(tx(&f["k"]), build(&f["v"]));
            }
            Value::from(&m)
        }
    }
}
fn vobs(v: &Value) -> Res<J> {
    let text = v.to_json()?;
    let again = guard(|| -> Res<J> {
        let j: J = serde_json::from_str(&text)?;
        Ok(dump(&Value::from(&j)))
    });
    Ok(obj(vec![("v", dump(v)), ("json", js(&text)), ("show", js(&format!("{v}"))), ("again", again)]))
}
fn literal(n: u64) -> Value {
    match n {
        0 => dat!(null),
        1 => dat!(true),
        2 => dat!([]),
        3 => dat!({}),
        4 => dat!({"b": 1, "a": [1, -2, 3.5, "x", null, false, {}], "c": {"z": [], "y": [[]]}}),
        5 => dat!(["a\"b\\c\n\u{1}é😀"]),
        6 => dat!(-9223372036854775808i64),
        7 => dat!({"a": 1, "a": 2, "b": 3}),
        8 => dat!([1, 2, 3,]),
        10 => dat!({"k": false}),
        11 => dat!({"k": true, "l": false, "m": null, "n": [false], "o": {"p": true}}),
        12 => dat!({"k": null}),
        13 => dat!([null]),
        14 => dat!([true]),
        15 => dat!([false, true, null,]),
        16 => dat!([[1], {"a": 2}, 3, [false, [true]], {"b": {"c": false}}, null]),
        17 => dat!({"x": [false,], "y": {"z": true,}, "w": false,}),
        18 => {
            let (x, s) = (5i64, "s\"".to_string());
            dat!({("p"): 1, "q": 1 + 2, "r": -x, "s": &s, "t": [x * x, s.as_str(), x as f64 / 2.0, -x,]})
        }
        19 => dat!("s"),
        20 => dat!(1.5f32),
        21 => dat!(false),
        22 => dat!({"b": {}, "a": [], "c": [{}], "": ""}),
        23 => dat!([{"a": [{"b": [{}]}]}, [[[]]], {}]),
        _ => dat!({"k": "v", "n": {"o": {"p": [{"q": null}]}},}),
    }
}
enum Step {
    L(String),
    P(usize),
}
fn steps(v: &J) -> Vec<Step> {
    v.as_array().unwrap().iter().map(|s| match s {
        J::Object(o) if o.contains_key("l") => Step::L(tx(&o["l"])),
        _ => Step::P(s["p"].as_u64().expect("script: position") as usize),
    }).collect()
}
fn go<'a>(v: &'a Value, path: &[Step]) -> &'a Value {
    let mut v = v;
    for s in path {
        v = match s {
            Step::L(l) => &v[l.as_str()],
            Step::P(i) => &v[*i],
        };
    }
    v
}
fn go_mut<'a>(v: &'a mut Value, path: &[Step]) -> &'a mut Value {
    let mut v = v;
    for s in path {
        v = match s {
            Step::L(l) => &mut v[l.as_str()],
            Step::P(i) => &mut v[*i],
        };
    }
    v
}
thread_local! { static V: RefCell<Value> = RefCell::new(Value::Null); }

pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "j.parse" => {
            let b = by(&e["in"]);
            guard(|| -> Res<J> {
                let j: J = serde_json::from_slice(&b)?;
                vobs(&Value::from(&j))
            })
        }
        // nested too deeply for the value to be recorded: text only
        "j.deep" => {
            let b = by(&e["in"]);
            guard(|| -> Res<J> {
                let j: J = serde_json::from_slice(&b)?;
                Ok(js(&Value::from(&j).to_json()?))
            })
        }
        "j.build" => {
            guard(|| vobs(&build(&e["val"])))
        }
        "j.lit" => guard(|| vobs(&literal(e["n"].as_u64().unwrap()))),
        "j.from" => {
            let t = tx(&e["num"]);
            guard(|| -> Res<J> {
                let v = match e["kind"].as_str().unwrap() {
                    "i8" => Value::from(t.parse::<i8>().expect("script: i8")),
                    "i16" => Value::from(t.parse::<i16>().expect("script: i16")),
                    "i32" => Value::from(t.parse::<i32>().expect("script: i32")),
                    "i64" => Value::from(t.parse::<i64>().expect("script: i64")),
                    "u8" => Value::from(t.parse::<u8>().expect("script: u8")),
                    "u16" => Value::from(t.parse::<u16>().expect("script: u16")),
                    "u32" => Value::from(t.parse::<u32>().expect("script: u32")),
                    "f64" => Value::from(t.parse::<f64>().expect("script: f64")),
                    "f32" => Value::from(t.parse::<f32>().expect("script: f32")),
                    _ => panic!("script: kind"),
                };
                vobs(&v)
            })
        }
        "j.conv" => {
            let v = doc(&e["doc"]);
            let i = |n: i64| js(&n.to_string());
            let f = |x: f64| jb(&x.to_bits().to_be_bytes());
            let list = |a: Vec<Value>| J::Array(a.iter().map(dump).collect());
            let map = |m: Object| J::Array(m.iter().map(|(k, v)| json!({"k": js(k), "v": dump(v)})).collect());
            ok(obj(vec![
                ("bool", guard(|| v.to_bool().map(|b| json!(b)))),
                ("str", guard(|| v.to_string().map(|s| js(&s)))),
                ("i64", guard(|| v.to_i64().map(i))),
                ("f64", guard(|| v.to_f64().map(f))),
                ("vec", guard(|| v.to_vec().map(list))),
                ("map", guard(|| v.to_map().map(map))),
                ("tbool", guard(|| bool::try_from(&v).map(|b| json!(b)))),
                ("tstr", guard(|| String::try_from(&v).map(|s| js(&s)))),
                ("ti64", guard(|| i64::try_from(&v).map(i))),
                ("tf64", guard(|| f64::try_from(&v).map(f))),
                ("tvec", guard(|| Vec::<Value>::try_from(&v).map(list))),
                ("tmap", guard(|| Object::try_from(&v).map(map))),
            ]))
        }
        // the same content? (asked both ways, and of a copy)
        "j.eq" => {
            let (a, b) = (doc(&e["doc"]), doc(&e["other"]));
            guard(|| -> Res<J> {
                let same = a == b;
                if same != (b == a) || same == (a != b) || a != a.clone() || b.clone() != b {
                    panic!("two answers to one question");
                }
                Ok(json!(same))
            })
        }
        // through an unordered map: what is under each label
        "j.hash" => {
            let m: HashMap<String, Value> = e["o"].as_array().unwrap().iter().map(|f| (tx(&f["k"]), build(&f["v"]))).collect();
            guard(|| -> Res<J> {
                let v = Value::from(&m);
                let o = v.to_map()?;
                Ok(json!({"n": o.len(), "v": e["o"].as_array().unwrap().iter().map(|f| o.get(&tx(&f["k"])).map(dump)).collect::<Vec<_>>()}))
            })
        }
        "je.open" => V.with(|c| {
            *c.borrow_mut() = doc(&e["doc"]);
            let v = c.borrow();
            guard(|| v.to_json().map(|s| js(&s)))
        }),
        "je.get" => V.with(|c| {
            let v = c.borrow();
            guard(|| go(&v, &steps(&e["path"])).to_json().map(|s| js(&s)))
        }),
        // replace, or add under a new label
        "je.put" => V.with(|c| {
            let mut v = c.borrow().clone();
            let r = guard(|| {
                *go_mut(&mut v, &steps(&e["path"])) = doc(&e["val"]);
                v.to_json().map(|s| js(&s))
            });
            *c.borrow_mut() = v;
            r
        }),
        // through the map's own operations, and back
        "je.del" => V.with(|c| {
            let mut v = c.borrow().clone();
            let r = guard(|| -> Res<J> {
                let at = go_mut(&mut v, &steps(&e["path"]));
                let mut m = at.to_map()?;
                m.shift_remove(&tx(&e["at"]));
                *at = Value::from(&m);
                Ok(js(&v.to_json()?))
            });
            *c.borrow_mut() = v;
            r
        }),
        "je.push" => V.with(|c| {
            let mut v = c.borrow().clone();
            let r = guard(|| -> Res<J> {
                let at = go_mut(&mut v, &steps(&e["path"]));
                let mut a = at.to_vec()?;
                a.push(doc(&e["val"]));
                *at = Value::from(a.as_slice());
                Ok(js(&v.to_json()?))
            });
            *c.borrow_mut() = v;
            r
        }),
        _ => return None,
    })
}
