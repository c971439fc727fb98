//! Replays behaviours of the specification against the implementation.
//!
//!   harness probe VAR...             read a makefile from stdin and show it
//!   harness replay KIND EXPECTED ASPECTS SCRATCH REPORT SHARDS
//!
//! EXPECTED.0, EXPECTED.1, ... are files of JSON records written by the
//! specification: `c` is a case, `o` what is specified for it. The cases are
//! run in child processes, so that crashes and endless loops of the code under
//! test are noticed and attributed to the case that caused them.
mod db;
mod expr;
mod loc;
mod names;
mod program;
mod rope;
mod session;
mod text;
mod visit;

use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::sync::mpsc;
use std::time::Duration;

const TIMEOUT: u64 = 30;

/// Parses JSON of any depth
fn parse(s: &str) -> Value {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    d.into_iter::<Value>().next().expect("JSON").expect("JSON")
}

fn load(path: &str) -> Vec<Value> {
    let f = BufReader::new(std::fs::File::open(path).unwrap_or_else(|e| {
        eprintln!("{}: {}", path, e);
        std::process::exit(2)
    }));
    f.lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.is_empty())
        .map(|l| {
            let v: Value = parse(&l);
            match v {
                // TLC writes strings that contain JSON
                Value::String(s) => parse(&s),
                v => v,
            }
        })
        .collect()
}

fn run_case(kind: &str, case: &Value, exp: &Value, aspects: &str, scratch: &str) -> Result<(), String> {
    match kind {
        "program" => {
            let p = program::Program::new(case);
            let dir = std::path::Path::new(scratch).join(format!("p{}", p.id));
            let many = p.files.len() > 1;
            if many {
                std::fs::create_dir_all(&dir).unwrap();
                for (n, x) in &p.files {
                    assert!(!n.starts_with('/') && !n.contains(".."));
                    let f = dir.join(n);
                    std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                    std::fs::write(f, program::bytes(x)).unwrap();
                }
            }
            let d = if many { dir.clone() } else { std::path::PathBuf::from(scratch) };
            let r = program::check(&p, &exp["o"], &program::Aspects::new(aspects), &d);
            if many {
                let _ = std::fs::remove_dir_all(&dir);
            }
            r
        }
        "session" => {
            let dir = std::path::Path::new(scratch).join(format!("s{}", std::process::id()));
            std::fs::create_dir_all(dir.join("w")).unwrap();
            let r = session::check(case, &exp["o"], &program::Aspects::new(aspects), &dir);
            let _ = std::fs::remove_dir_all(&dir);
            r
        }
        "expr" => {
            // Without hooks there are no located constants, and not all names are known
            #[cfg(not(hastur_verif))]
            let aspects = "okst,vars,vtext,ast,rules,ncmds";
            expr::check(case, &exp["o"], &program::Aspects::new(aspects))
        }
        "names" => names::check(case, &exp["o"]),
        "db" => db::check(case, &exp["o"]),
        "loc" => loc::check(case, &exp["o"]),
        "visit" => visit::check(case, &exp["o"]),
        "rope" => rope::check(case, &exp["o"]),
        _ => panic!("unknown kind of case {}", kind),
    }
}

fn unspec(exp: &Value) -> bool {
    exp["o"]["st"] == "unspec"
}

fn child(a: &[String]) {
    let (kind, expected, aspects, scratch) = (&a[0], &a[1], &a[2], &a[3]);
    let skip: usize = a[4].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for (i, e) in load(expected).iter().enumerate() {
        if i < skip {
            continue;
        }
        let say = |s: String| {
            let mut o = out.lock();
            writeln!(o, "{}", s).unwrap();
            o.flush().unwrap();
        };
        say(format!("S {}", i));
        if unspec(e) {
            say("U".into());
            continue;
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(kind, &e["c"], e, aspects, scratch)));
        match r {
            Ok(Ok(())) => say("K".into()),
            Ok(Err(m)) => say(format!("F {}", json!(m))),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let m: String = m.chars().take(300).collect();
                say(format!("F {}", json!(format!("the library panics: {}", m))))
            }
        }
    }
    println!("E");
}

#[derive(Default)]
struct Tally {
    ok: usize,
    unspecified: usize,
    failed: usize,
    failures: Vec<Value>,
    stopped: bool,
}

/// Keep the details of this many failures per shard
const KEEP: usize = 200;

fn replay(a: &[String]) {
    let (kind, expected, aspects, scratch, report) = (&a[0], &a[1], &a[2], &a[3], &a[4]);
    let shards: usize = a[5].parse().unwrap();
    let mut handles = Vec::new();
    for shard in 0..shards {
        let file = format!("{}.{}", expected, shard);
        let dir = format!("{}/{}", scratch, shard);
        std::fs::create_dir_all(&dir).unwrap();
        let args = vec![kind.clone(), file.clone(), aspects.clone(), dir];
        handles.push(std::thread::spawn(move || {
            let mut tally = Tally::default();
            let mut failed: Vec<(usize, Value)> = Vec::new();
            let mut skip = 0usize;
            let mut respawns = 0;
            loop {
                let mut c = std::process::Command::new(std::env::current_exe().unwrap())
                    .arg("child")
                    .args(&args)
                    .arg(skip.to_string())
                    .stdout(std::process::Stdio::piped())
                    .stderr(std::process::Stdio::null())
                    .spawn()
                    .unwrap();
                let so = c.stdout.take().unwrap();
                let (tx, rx) = mpsc::channel();
                let reader = std::thread::spawn(move || {
                    for l in BufReader::new(so).lines() {
                        match l {
                            Ok(l) => {
                                if tx.send(l).is_err() {
                                    break;
                                }
                            }
                            Err(_) => break,
                        }
                    }
                });
                let mut current: Option<usize> = None;
                let mut ended = false;
                let mut problem = "the process crashes";
                loop {
                    match rx.recv_timeout(Duration::from_secs(TIMEOUT)) {
                        Ok(l) => match &l[..1] {
                            "S" => current = Some(l[2..].parse().unwrap()),
                            "E" => ended = true,
                            "K" => tally.ok += 1,
                            "U" => tally.unspecified += 1,
                            "F" => {
                                tally.failed += 1;
                                if failed.len() < KEEP {
                                    failed.push((current.unwrap(), serde_json::from_str(&l[2..]).unwrap()));
                                }
                            }
                            _ => {}
                        },
                        Err(mpsc::RecvTimeoutError::Timeout) => {
                            problem = "the library does not come to an end";
                            let _ = c.kill();
                            break;
                        }
                        Err(mpsc::RecvTimeoutError::Disconnected) => break,
                    }
                }
                let _ = c.wait();
                let _ = reader.join();
                if ended {
                    break;
                }
                respawns += 1;
                match current {
                    None => {
                        eprintln!("a child process did not start");
                        std::process::exit(2)
                    }
                    Some(cur) => {
                        tally.failed += 1;
                        failed.push((cur, json!(problem)));
                        skip = cur + 1;
                        if respawns > 5 {
                            tally.stopped = true;
                            break;
                        }
                    }
                }
            }
            if !failed.is_empty() {
                let all = load(&file);
                tally.failures =
                    failed.into_iter().map(|(i, m)| json!({"case": all[i]["c"], "expected": all[i]["o"], "what": m})).collect();
            }
            tally
        }));
    }
    let mut t = Tally::default();
    for h in handles {
        let x = h.join().unwrap();
        t.ok += x.ok;
        t.unspecified += x.unspecified;
        t.failed += x.failed;
        t.failures.extend(x.failures);
        t.stopped |= x.stopped;
    }
    t.failures.sort_by_key(|f| f["case"].to_string().len());
    let out = json!({"checked": t.ok + t.failed, "unspecified": t.unspecified, "failed": t.failed,
                     "stopped": t.stopped, "hooks": cfg!(hastur_verif), "failures": t.failures});
    std::fs::write(report, serde_json::to_string(&out).unwrap()).unwrap();
    println!("checked {} unspecified {} failures {}", t.ok + t.failed, t.unspecified, t.failed);
}

fn probe(a: &[String]) {
    use hastur::{Engine, NameCache};
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let mut e = Engine::default();
    let mut n = NameCache::default();
    let r = e.read_makefile(&mut n, &mut std::io::Cursor::new(s), "m.mk");
    println!("{:?}", r);
    let db = e.database.clone();
    for w in a {
        match n.variable_name(w).and_then(|v| db.get_variable(v)) {
            Some(v) => println!("{} = {:?}", w, v.ast().clone().eval(&mut n, &mut e).into_string()),
            None => println!("{} undefined", w),
        }
    }
    for r in db.rules() {
        println!("RULE {:?}: {:?} {} commands", r.target().into_string(),
            r.dependencies().iter().map(|d| d.into_string()).collect::<Vec<_>>(), r.recipe().commands().len());
        if std::env::var("V").is_ok() {
            println!("{:?}", r);
        }
    }
}

/// What reading a makefile from stdin leads to: `error`, `panic` or the value of a variable
fn outcome(variable: &str) {
    use hastur::{Engine, NameCache};
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let mut e = Engine::default();
        let mut n = NameCache::default();
        if e.read_makefile(&mut n, &mut std::io::Cursor::new(s), "m.mk").is_err() {
            return "error".to_string();
        }
        let db = e.database.clone();
        match n.variable_name(variable).and_then(|v| db.get_variable(v)) {
            Some(v) => format!("value:{}", v.ast().clone().eval(&mut n, &mut e).into_string()),
            None => "undefined".into(),
        }
    });
    print!("{}", r.unwrap_or("panic".into()));
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.get(0).map(|s| s.as_str()) {
        Some("probe") => probe(&a[1..]),
        Some("outcome") => outcome(&a[1]),
        Some("child") => child(&a[1..]),
        Some("replay") => replay(&a[1..]),
        _ => {
            eprintln!("usage: see the source");
            std::process::exit(2)
        }
    }
}
