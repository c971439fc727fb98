//! Two engines that share a name cache and are used in turn, over files that change
use crate::program::{bytes, compare, error_name, Aspects, Pieces};
use crate::text::*;
use hastur::{Engine, MakefileError, NameCache};
use serde_json::Value;
use std::path::Path;

fn write(dir: &Path, name: &str, text: &str) {
    assert!(!name.starts_with('/') && !name.contains(".."));
    std::fs::write(dir.join(name), bytes(text)).unwrap();
}

pub fn check(case: &Value, exp: &Value, asp: &Aspects, dir: &Path) -> Result<(), String> {
    let texts: Vec<String> = case["texts"].as_array().unwrap().iter().map(string).collect();
    let text = |x: &Value| &texts[x.as_u64().unwrap() as usize - 1];
    let files = Default::default;
    for f in case["fs"].as_array().unwrap() {
        write(dir, &string(&f["n"]), text(&f["x"]));
    }
    let mut names = NameCache::default();
    let mut engines = vec![Engine::default(), Engine::default()];
    for e in &mut engines {
        e.working_directory = dir.to_path_buf();
    }
    let ops = case["ops"].as_array().unwrap();
    for (i, (o, r)) in ops.iter().zip(exp["res"].as_array().unwrap()).enumerate() {
        // Names that nobody uses, and a copy of the names, make no difference
        if i % 3 == 1 {
            names.intern_variable_name(["zz", "a", "k", ""][i / 3 % 4].to_string());
            names.intern_file_name(["zz", "k", "a", "f1.mk"][i / 3 % 4].to_string());
        }
        if i % 5 == 4 {
            names = names.clone();
        }
        let what = format!("operation {} ({})", i + 1, o["o"].as_str().unwrap());
        let e = o["e"].as_u64().map(|e| e as usize - 1);
        let est = r["st"].as_str().unwrap();
        let mut got = None;
        match o["o"].as_str().unwrap() {
            "read" => {
                let b = bytes(text(&o["x"]));
                let mut input = Pieces { rest: &b, size: [1, 5, 4096][i % 3], fail: i % 2 == 0 };
                let st = match engines[e.unwrap()].read_makefile(&mut names, &mut input, "main") {
                    Ok(()) => "ok".to_string(),
                    Err(MakefileError::ParseError(k)) => error_name(&k),
                    Err(MakefileError::IOError(_)) => "IOError".to_string(),
                };
                if st != est {
                    return Err(format!("{}: reading ends with {}, specified {}", what, st, est));
                }
            }
            "use" => {
                let engine = &mut engines[e.unwrap()];
                let database = engine.database.clone();
                let var = names.variable_name(&string(&o["n"])).and_then(|v| database.get_variable(v));
                match (var, est) {
                    (None, "undefined") => {}
                    (Some(v), "ok") => got = Some(v.expand(&mut names, engine)),
                    (v, _) => return Err(format!("{}: variable {:?} is {}defined", what, string(&o["n"]), if v.is_some() { "" } else { "not " })),
                }
            }
            "run" => {
                #[cfg(not(hastur_verif))]
                return Ok(());
                #[cfg(hastur_verif)]
                {
                    let engine = &mut engines[e.unwrap()];
                    let database = engine.database.clone();
                    let rule = names.file_name(&string(&o["n"])).and_then(|n| database.get_rule(n));
                    match (rule, est) {
                        (None, "undefined") => {}
                        (Some(r), "ok") => {
                            let mut t = String::new();
                            for c in r.recipe().commands() {
                                t += &hastur::verif_hooks::command_ast(c).eval(&mut names, engine).into_string();
                                t += "\n";
                            }
                            got = Some(t);
                        }
                        (r, _) => return Err(format!("{}: there is {} rule for {:?}", what, if r.is_some() { "a" } else { "no" }, string(&o["n"]))),
                    }
                }
            }
            "look" => compare(&engines[e.unwrap()], &names, files(), &r["o"][0], asp).map_err(|m| format!("{}: {}", what, m))?,
            "cc" => engines[e.unwrap()].command_char = chr(o["c"].as_i64().unwrap()),
            "wd" => engines[e.unwrap()].working_directory = dir.join(string(&o["d"])),
            "copy" => {
                let database = engines[o["f"].as_u64().unwrap() as usize - 1].database.clone();
                engines[e.unwrap()].replace_database(database);
            }
            "write" => write(dir, &string(&o["n"]), text(&o["x"])),
            "remove" => {
                let _ = std::fs::remove_file(dir.join(string(&o["n"])));
            }
            o => panic!("unknown operation {}", o),
        }
        if let Some(t) = got {
            if t != string(&r["t"]) {
                return Err(format!("{}: gives {:?}, specified {:?}", what, t, string(&r["t"])));
            }
        }
    }
    for (i, e) in exp["e"].as_array().unwrap().iter().enumerate() {
        compare(&engines[i], &names, files(), e, asp).map_err(|m| format!("engine {}: {}", i + 1, m))?;
    }
    Ok(())
}
