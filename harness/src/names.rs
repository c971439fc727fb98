//! Interned names
use crate::text::*;
use hastur::{FileName, NameCache, VariableName};
use serde_json::Value;
use std::collections::BTreeMap;

#[cfg(hastur_verif)]
fn resolve_variable(c: &NameCache, v: VariableName, t: &str) -> bool {
    hastur::verif_hooks::resolve_variable_name(c, v) == Some(t)
}
#[cfg(not(hastur_verif))]
fn resolve_variable(_: &NameCache, _: VariableName, _: &str) -> bool {
    true
}

pub fn check(case: &Value, o: &Value) -> Result<(), String> {
    let texts: Vec<String> = case["texts"].as_array().unwrap().iter().map(string).collect();
    let mut caches: Vec<Option<NameCache>> = vec![Some(NameCache::default())];
    // The real names, by their number in the specification
    let mut files: BTreeMap<i64, FileName> = BTreeMap::new();
    let mut variables: BTreeMap<i64, VariableName> = BTreeMap::new();
    for (step, (op, seen)) in case["ops"].as_array().unwrap().iter().zip(o["seen"].as_array().unwrap()).enumerate() {
        let i = op["i"].as_u64().unwrap() as usize - 1;
        let text = || texts[op["t"].as_u64().unwrap() as usize - 1].clone();
        let number = op["name"].as_i64().unwrap_or(0);
        let file = op["k"] == "file";
        match op["o"].as_str().unwrap() {
            "intern" => {
                let c = caches[i].as_mut().unwrap();
                // The first time, this defines the real name; later it must be the same
                let same = if file {
                    let n = c.intern_file_name(text());
                    *files.entry(number).or_insert(n) == n
                } else {
                    let n = c.intern_variable_name(text());
                    *variables.entry(number).or_insert(n) == n
                };
                if !same {
                    return Err(format!("operation {}: interning {:?} again gives another name", step + 1, text()));
                }
            }
            "lookup" => {
                let c = caches[i].as_ref().unwrap();
                let same = if file { c.file_name(&text()) == files.get(&number).cloned() } else { c.variable_name(&text()) == variables.get(&number).cloned() };
                if !same {
                    return Err(format!("operation {}: looking {:?} up gives the wrong name", step + 1, text()));
                }
            }
            "clone" => {
                let c = caches[i].clone();
                caches.push(c)
            }
            "drop" => caches[i] = None,
            _ => {}
        }
        for (k, (c, e)) in caches.iter().zip(seen.as_array().unwrap()).enumerate() {
            let c = match c {
                Some(c) => c,
                None => continue,
            };
            let at = |what: String| Err(format!("cache {} after operation {}: {}", k + 1, step + 1, what));
            let mut known = vec![];
            let mut vknown = vec![];
            for (t, (f, v)) in texts.iter().zip(e[0]["f"].as_array().unwrap().iter().zip(e[0]["v"].as_array().unwrap())) {
                let f = files.get(&f.as_i64().unwrap());
                let v = variables.get(&v.as_i64().unwrap());
                if c.file_name(t) != f.cloned() {
                    return at(format!("the file name {:?} is {:?}, specified {:?}", t, c.file_name(t), f));
                }
                if c.variable_name(t) != v.cloned() {
                    return at(format!("the variable name {:?} is {:?}, specified {:?}", t, c.variable_name(t), v));
                }
                if let Some(f) = f {
                    if c.resolve_file_name(*f) != Some(t) {
                        return at(format!("the file name of {:?} stands for {:?}", t, c.resolve_file_name(*f)));
                    }
                    if known.contains(f) {
                        return at(format!("the file name of {:?} is not unique", t));
                    }
                    known.push(*f);
                }
                if let Some(v) = v {
                    if !resolve_variable(c, *v, t) {
                        return at(format!("the variable name of {:?} stands for another text", t));
                    }
                    if vknown.contains(v) {
                        return at(format!("the variable name of {:?} is not unique", t));
                    }
                    vknown.push(*v);
                }
            }
        }
    }
    Ok(())
}
