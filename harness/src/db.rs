//! Databases as values
use crate::text::*;
use hastur::ast;
use hastur::source_location::Location;
use hastur::{Database, Engine, Flavor, NameCache, Origin, Rule};
use serde_json::Value;
use std::io::Cursor;

#[cfg(hastur_verif)]
use hastur::verif_hooks as hooks;
/// Without the hooks, variables only come from reading
#[cfg(not(hastur_verif))]
mod hooks {
    use super::*;
    pub fn located_string(_: Location, s: String) -> hastur::source_location::LocatedString {
        hastur::source_location::LocatedString::synthetic_new(s)
    }
    pub fn variable_parameters(_: ast::AstNode, _: Flavor, _: Origin) -> hastur::VariableParameters {
        unreachable!()
    }
}


#[cfg(hastur_verif)]
fn simple(v: &hastur::Variable) -> bool {
    hooks::flavor(v) == Flavor::Simple
}
#[cfg(not(hastur_verif))]
fn simple(_: &hastur::Variable) -> bool {
    false
}

fn engine(db: &Database) -> Engine {
    let mut e = Engine::default();
    e.database = db.clone();
    e
}

fn variable(names: &mut NameCache, db: &Database, v: Option<hastur::Variable>) -> Option<(bool, Vec<(i64, char)>)> {
    v.map(|v| {
        let b = v.ast().eval(names, &mut engine(db));
        let mut t = vec![];
        for s in b.span().segments() {
            let mut l = match s.location() {
                Location::SourceLocation { line, character, filename } => {
                    (names.resolve_file_name(*filename).and_then(|n| n.parse::<i64>().ok()).unwrap_or(-1) * 100 + *line as i64) * 1000 + *character as i64
                }
                Location::Synthetic => 0,
                _ => -1,
            };
            let x: &str = &s;
            for c in x.chars() {
                t.push((l, c));
                if l > 0 {
                    l += 1;
                }
            }
        }
        (simple(&v), t)
    })
}
fn specified(v: &Value) -> Option<(bool, Vec<(i64, char)>)> {
    v.get(0).map(|v| (v["f"] == "simple", tagged(&v["t"])))
}

fn compare(names: &mut NameCache, k: usize, db: &Database, e: &Value) -> Result<(), String> {
    for (n, x) in e["v"].as_object().unwrap() {
        let name = names.intern_variable_name(n.clone());
        let got = variable(names, db, db.get_variable(name));
        if got != specified(x) {
            return Err(format!("database {}: {} is {:?}, specified {:?}", k + 1, n, got, specified(x)));
        }
    }
    for (g, vs) in e["t"].as_object().unwrap() {
        let target = names.intern_file_name(g.clone());
        for (n, x) in vs.as_object().unwrap() {
            let name = names.intern_variable_name(n.clone());
            let got = variable(names, db, db.get_variable_for_target(target, name));
            if got != specified(x) {
                return Err(format!("database {}: {} for the target {} is {:?}, specified {:?}", k + 1, n, g, got, specified(x)));
            }
        }
    }
    let mut n = 0;
    for (g, x) in e["r"].as_object().unwrap() {
        let target = names.intern_file_name(g.clone());
        let show = |r: &Rule| (r.target().into_string(), r.dependencies().iter().map(|d| d.into_string()).collect::<Vec<_>>(), r.recipe().commands().len());
        let got = db.get_rule(target).map(show);
        let exp = x.get(0).map(|r| (g.clone(), r["d"].as_array().unwrap().iter().map(string).collect::<Vec<_>>(), r["m"].as_u64().unwrap() as usize));
        if got != exp {
            return Err(format!("database {}: the rule for {} is {:?}, specified {:?}", k + 1, g, got, exp));
        }
        if let Some(r) = db.get_rule(target) {
            n += 1;
            if r.target_fname() != target || db.rules().filter(|x| *x == r).count() != 1 {
                return Err(format!("database {}: the rules do not list that for {} once", k + 1, g));
            }
        }
    }
    if db.rules().count() != n {
        return Err(format!("database {}: {} rules, specified {}", k + 1, db.rules().count(), n));
    }
    #[cfg(hastur_verif)]
    if hooks::variable_names(db).len() != e["v"].as_object().unwrap().values().filter(|x| x.get(0).is_some()).count() {
        return Err(format!("database {}: {} variables", k + 1, hooks::variable_names(db).len()));
    }
    Ok(())
}

pub fn check(case: &Value, o: &Value) -> Result<(), String> {
    let mut names = NameCache::default();
    let mut dbs: Vec<Database> = vec![Database::default()];
    let z = names.intern_variable_name("Z".into());
    let _ = z;
    for op in case["ops"].as_array().unwrap() {
        if !cfg!(hastur_verif) && (op["o"] == "set" || op["o"] == "append" || op["o"] == "target") {
            return Ok(());
        }
        let old = dbs[op["i"].as_u64().unwrap() as usize - 1].clone();
        let fname = op["file"].to_string();
        let location = Location::SourceLocation { filename: names.intern_file_name(fname.clone()), line: 1, character: 1 };
        let value = |k: u64| match k {
            1 => ast::constant(hooks::located_string(location.clone(), "p".into())),
            2 => ast::constant(hooks::located_string(location.clone(), "éq".into())),
            3 => ast::empty(),
            _ => ast::variable_reference(location.clone(), ast::constant(hooks::located_string(location.clone(), "Z".into()))),
        };
        let k = op["k"].as_u64().unwrap();
        let flavor = if op["f"] == "simple" { Flavor::Simple } else { Flavor::Recursive };
        let params = || hooks::variable_parameters(value(k), flavor, Origin::File);
        let g = op["g"].as_str().map(|g| g.to_string()).unwrap_or_default();
        let n = op["n"].as_str().unwrap_or("X").to_string();
        let name = names.intern_variable_name(n.clone());
        dbs.push(match op["o"].as_str().unwrap() {
            "set" => old.set_variable(name, params()),
            "append" => old.append_to_variable(name, location.clone(), params(), op["s"].as_bool().unwrap()),
            "target" => old.set_variable_for_target(names.intern_file_name(g), name, params()),
            "rule" => {
                let text = match k {
                    1 => format!("{}:", g),
                    2 => format!("{}: x", g),
                    3 => format!("{}: y z\n\tc", g),
                    _ => format!("{}: y; c\n\tc", g),
                };
                let mut e = Engine::default();
                e.read_makefile(&mut names, &mut Cursor::new(text), "rule").map_err(|e| format!("{:?}", e))?;
                let target = names.intern_file_name(g);
                let rule = e.database.get_rule(target).ok_or("no rule")?.clone();
                old.add_rule(rule)
            }
            "readvar" | "readrule" => {
                let mut e = Engine::default();
                e.replace_database(old);
                let text = if op["o"] == "readvar" { format!("{}=w", n) } else { format!("{}: w", g) };
                e.read_makefile(&mut names, &mut Cursor::new(text), &fname).map_err(|e| format!("{:?}", e))?;
                e.database
            }
            x => panic!("{}", x),
        });
        // Whatever was known before is still the same
        for (k, (db, e)) in dbs.iter().zip(o["dbs"].as_array().unwrap()).enumerate() {
            compare(&mut names, k, db, e)?;
        }
    }
    let copies = dbs.clone();
    drop(dbs);
    for (k, (db, e)) in copies.iter().zip(o["dbs"].as_array().unwrap()).enumerate() {
        compare(&mut names, k, db, e)?;
    }
    Ok(())
}
