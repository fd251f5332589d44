//! Fresh keys, salts and signatures: drawn one after another, by several threads at once, and by
//! processes that have only just begun.
use crate::util::*;
use cesride::*;
use cesride_wasm::{SalterWrapper, SignerWrapper};
use serde_json::{json, Value as J};

const THREADS: usize = 4;
const PROCESSES: usize = 2;

fn fail<E: std::fmt::Debug>(e: E) -> Er {
    let _ = format!("{e:?}");
    Er
}
/// one after another, here
pub fn here(e: &J) -> Res<J> {
    let n = num(&e["n"]);
    let binding = e["via"].as_str() == Some("wasm");
    let (code, tr) = (otx(&e["code"]), obool(&e["tr"]));
    let mut out = vec![];
    for _ in 0..n {
        match e["what"].as_str().unwrap() {
            "signer" if binding => out.push(jb(&SignerWrapper::new(tr, code.clone(), None, None, None, None).map_err(fail)?.raw())),
            "signer" => out.push(jb(&Signer::new_with_defaults(tr, code.as_deref())?.raw())),
            "salter" if binding => out.push(jb(&SalterWrapper::new_with_defaults(None).map_err(fail)?.raw())),
            "salter" => out.push(jb(&Salter::new_with_defaults(None)?.raw())),
            "plain" | "indexed" => {
                let s = Signer::new_with_raw(&by(&e["seed"]), Some(tr.unwrap_or(true)), code.as_deref())?;
                let w = if binding { Some(SignerWrapper::new_with_raw(&by(&e["seed"]), tr, code.clone()).map_err(fail)?) } else { None };
                for m in e["msgs"].as_array().unwrap() {
                    let m = by(m);
                    out.push(jb(&match (&w, e["what"].as_str().unwrap()) {
                        (Some(w), "plain") => w.sign_unindexed(&m).map_err(fail)?.raw(),
                        (Some(w), _) => w.sign_indexed(&m, false, 0, None).map_err(fail)?.raw(),
                        (None, "plain") => s.sign_unindexed(&m)?.raw(),
                        (None, _) => s.sign_indexed(&m, false, 0, None)?.raw(),
                    }));
                }
            }
            _ => panic!("script: what"),
        }
    }
    Ok(J::Array(out))
}
fn join(parts: Vec<Res<J>>) -> Res<J> {
    let mut out = vec![];
    for p in parts {
        if let J::Array(v) = p? {
            out.extend(v);
        }
    }
    Ok(J::Array(out))
}
fn threads(e: &J) -> Res<J> {
    let start = std::sync::Barrier::new(THREADS);
    join(std::thread::scope(|s| {
        let t: Vec<_> = (0..THREADS)
            .map(|_| {
                s.spawn(|| {
                    start.wait();
                    here(e)
                })
            })
            .collect();
        t.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Er))).collect()
    }))
}
fn processes(e: &J) -> Res<J> {
    let me = std::env::current_exe().expect("script: no executable");
    join(
        (0..PROCESSES)
            .map(|_| {
                let o = std::process::Command::new(&me).arg("--fresh").arg(e.to_string()).output().expect("script: no process");
                serde_json::from_slice::<J>(&o.stdout).map_err(fail)
            })
            .collect(),
    )
}
pub fn run(op: &str, e: &J) -> Option<J> {
    Some(match op {
        "fr.open" | "fr.end" => ok(json!(true)),
        "fr.draw" | "fr.sign" => guard(|| match e["where"].as_str().unwrap() {
            "here" => here(e),
            "threads" => threads(e),
            "processes" => processes(e),
            _ => panic!("script: where"),
        }),
        _ => return None,
    })
}
