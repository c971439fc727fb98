//! Reading makefiles with the real engine and comparing what can be observed
//! with what the specification says.
use crate::text::*;
use hastur::ast::{AstChildren, AstNode};
use hastur::evaluated::Block;
use hastur::source_location::{Location, LocatedStr};
use hastur::{Engine, MakefileError, NameCache, ParseErrorKind};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Read};

pub struct Program {
    pub id: i64,
    pub cc: char,
    pub files: Vec<(String, String)>,
    pub main: Vec<usize>,
}

impl Program {
    pub fn new(v: &Value) -> Program {
        Program {
            id: v["id"].as_i64().unwrap(),
            cc: chr(v["cc"].as_i64().unwrap()),
            files: v["fs"].as_array().unwrap().iter().map(|f| (string(&f["n"]), string(&f["x"]))).collect(),
            main: v["main"].as_array().unwrap().iter().map(|f| f.as_u64().unwrap() as usize - 1).collect(),
        }
    }
}

/// Which aspects of the observation to compare
pub struct Aspects(BTreeSet<String>);
impl Aspects {
    pub fn new(s: &str) -> Aspects {
        Aspects(s.split(',').map(|x| x.to_string()).collect())
    }
    pub fn has(&self, s: &str) -> bool {
        self.0.contains(s)
    }
}

pub fn error_name(e: &ParseErrorKind) -> String {
    match e {
        ParseErrorKind::ExtraTokensAfter(s) => format!("ExtraTokensAfter:{}", s),
        ParseErrorKind::InsufficientArguments(s) => format!("InsufficientArguments:{}", s),
        ParseErrorKind::ExtraArguments(s) => format!("ExtraArguments:{}", s),
        ParseErrorKind::IncludeFailure(kind, name) => {
            let codes: Vec<String> = name.chars().map(|c| code(c).to_string()).collect();
            use std::io::ErrorKind::*;
            let why = match *kind {
                InvalidData => "not text".to_string(),
                PermissionDenied | Other | UnexpectedEof | Interrupted | AlreadyExists => format!("{:?}", kind),
                _ => "missing".to_string(),
            };
            format!("IncludeFailure:{}:<<{}>>", why, codes.join(", "))
        }
        e => format!("{:?}", e),
    }
}

/// A path without its empty and `.` parts
fn path(n: &str) -> String {
    n.split('/').filter(|p| *p != "" && *p != ".").collect::<Vec<_>>().join("/")
}

/// The bytes of a file; NUL stands for something that is not text
pub fn bytes(text: &str) -> Vec<u8> {
    text.bytes().map(|b| if b == 0 { 0xff } else { b }).collect()
}

/// A reader that gives the text in pieces, and that may fail instead of giving what is not text
pub struct Pieces<'a> {
    pub rest: &'a [u8],
    pub size: usize,
    pub fail: bool,
}

impl<'a> Read for Pieces<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(buf.len());
            buf[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

impl<'a> BufRead for Pieces<'a> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        let n = self.rest.len().min(self.size);
        match self.rest[..n].iter().position(|b| *b == 0xff) {
            Some(0) if self.fail => Err(std::io::Error::new(std::io::ErrorKind::Other, "broken")),
            Some(k) if self.fail => Ok(&self.rest[..k]),
            _ => Ok(&self.rest[..n]),
        }
    }
    fn consume(&mut self, n: usize) {
        self.rest = &self.rest[n..];
    }
}

pub struct Ctx<'a> {
    names: &'a NameCache,
    files: BTreeMap<&'a str, i64>,
}

impl<'a> Ctx<'a> {
    fn tag(&self, l: &Location) -> i64 {
        match l {
            Location::SourceLocation { line, character, filename } => {
                match self.names.resolve_file_name(*filename).and_then(|n| self.files.get(&path(n)[..])) {
                    Some(f) => (f * 1000 + *line as i64) * 1000 + *character as i64,
                    None => -2,
                }
            }
            Location::Synthetic => 0,
            _ => -1,
        }
    }

    /// The characters of a segment with their positions
    fn segment(&self, s: &LocatedStr, out: &mut Vec<(i64, char)>) {
        let mut t = self.tag(s.location());
        let contents: &str = s;
        for c in contents.chars() {
            out.push((t, c));
            if t > 0 {
                t = if c == '\n' { (t / 1000 + 1) * 1000 + 1 } else { t + 1 };
            }
        }
    }

    fn block(&self, b: &Block) -> Result<Vec<(i64, char)>, String> {
        let mut out = Vec::new();
        for s in b.span().segments() {
            self.segment(&s, &mut out);
        }
        let flat = b.into_string();
        if plain(&out) != flat {
            return Err(format!("the segments of a text give {:?}, the text is {:?}", plain(&out), flat));
        }
        if b.len() != flat.len() {
            return Err(format!("the length of {:?} is given as {}", flat, b.len()));
        }
        Ok(out)
    }

    fn sens(&self, b: &Block) -> BTreeSet<String> {
        b.sensitivity().map(|v| var_name(self.names, *v)).collect()
    }
}

#[cfg(hastur_verif)]
fn var_name(names: &NameCache, v: hastur::VariableName) -> String {
    hastur::verif_hooks::resolve_variable_name(names, v).map_or("<unknown>".into(), |s| s.to_string())
}
#[cfg(not(hastur_verif))]
fn var_name(names: &NameCache, v: hastur::VariableName) -> String {
    KNOWN.with(|k| {
        k.borrow().iter().find(|n| names.variable_name(n) == Some(v)).cloned().unwrap_or("<unknown>".into())
    })
}
#[cfg(not(hastur_verif))]
thread_local!(pub static KNOWN: std::cell::RefCell<BTreeSet<String>> = Default::default());

/// A flattened expression
#[derive(Debug, Clone)]
struct Item {
    k: String,
    t: Vec<(i64, char)>,
    l: i64,
    a: Vec<Vec<Item>>,
}

fn flatten(ctx: &Ctx, n: &AstNode, out: &mut Vec<Item>) -> Result<(), String> {
    let sub = |x: &AstNode| -> Result<Vec<Item>, String> {
        let mut v = Vec::new();
        flatten(ctx, x, &mut v)?;
        Ok(v)
    };
    let (k, a) = match n.children() {
        AstChildren::Empty => return Ok(()),
        AstChildren::Constant(s) => {
            let mut t = Vec::new();
            ctx.segment(&s.as_str(), &mut t);
            if !t.is_empty() {
                match out.last_mut() {
                    Some(ref mut last) if last.k == "t" => last.t.extend(t),
                    _ => out.push(Item { k: "t".to_string(), t, l: 0, a: vec![] }),
                }
            }
            return Ok(());
        }
        AstChildren::PreEvaluated(b) => {
            let t = ctx.block(b)?;
            if !t.is_empty() {
                match out.last_mut() {
                    Some(ref mut last) if last.k == "t" => last.t.extend(t),
                    _ => out.push(Item { k: "t".to_string(), t, l: 0, a: vec![] }),
                }
            }
            return Ok(());
        }
        AstChildren::Concat(v) => {
            for x in v {
                flatten(ctx, x, out)?;
            }
            return Ok(());
        }
        AstChildren::VariableReference(x) => ("r", vec![sub(x)?]),
        AstChildren::Eval(x) => ("e", vec![sub(x)?]),
        AstChildren::Strip(x) => ("strip", vec![sub(x)?]),
        AstChildren::Words(x) => ("words", vec![sub(x)?]),
        AstChildren::Word { index, words } => ("word", vec![sub(index)?, sub(words)?]),
    };
    out.push(Item { k: k.to_string(), t: vec![], l: ctx.tag(&n.location()), a });
    Ok(())
}

fn cmp_text(asp: &Aspects, what: &str, exp: &[(i64, char)], got: &[(i64, char)], text: bool) -> Result<(), String> {
    if text && plain(exp) != plain(got) {
        return Err(format!("{}: text is {:?}, specified {:?}", what, plain(got), plain(exp)));
    }
    if asp.has("tag") && plain(exp) == plain(got) {
        for (e, g) in exp.iter().zip(got) {
            if e.0 != g.0 {
                return Err(format!(
                    "{}: {:?} in {:?} is located at {}, written at {}",
                    what, g.1, plain(got), show_tag(g.0), show_tag(e.0)
                ));
            }
        }
    }
    Ok(())
}

fn show_tag(t: i64) -> String {
    match t {
        0 => "<synthetic>".into(),
        t if t < 0 => "<unknown>".into(),
        t => format!("file {} line {} character {}", t / 1000000, t / 1000 % 1000, t % 1000),
    }
}

/// An expression of the specification, in the same form: adjacent texts are
/// one, no matter when they were expanded
fn specified(v: &Value) -> Vec<Item> {
    let mut out: Vec<Item> = Vec::new();
    for i in v.as_array().unwrap() {
        let k = match i["k"].as_str().unwrap() {
            "p" => "t",
            k => k,
        };
        let t = tagged(&i["t"]);
        if k == "t" {
            match out.last_mut() {
                _ if t.is_empty() => continue,
                Some(ref mut last) if last.k == "t" => {
                    last.t.extend(t);
                    continue;
                }
                _ => {}
            }
        }
        let a = i["a"].as_array().unwrap().iter().map(specified).collect();
        out.push(Item { k: k.to_string(), t, l: i["l"].as_i64().unwrap(), a });
    }
    out
}

fn show(a: &[Item]) -> String {
    a.iter()
        .map(|i| match i.k.as_str() {
            "t" => format!("{:?}", plain(&i.t)),
            k => format!("{}({})", k, i.a.iter().map(|x| show(x)).collect::<Vec<_>>().join(",")),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn cmp_ast(asp: &Aspects, what: &str, exp: &[Item], got: &[Item]) -> Result<(), String> {
    if show(exp) != show(got) {
        if asp.has("ast") {
            return Err(format!("{}: expression is {}, specified {}", what, show(got), show(exp)));
        }
        return Ok(());
    }
    for (e, g) in exp.iter().zip(got) {
        cmp_text(asp, what, &e.t, &g.t, false)?;
        if asp.has("tag") && g.k != "t" && e.l != g.l {
            return Err(format!("{}: {} node is located at {}, written at {}", what, g.k, show_tag(g.l), show_tag(e.l)));
        }
        for (a, b) in e.a.iter().zip(&g.a) {
            cmp_ast(asp, what, a, b)?;
        }
    }
    Ok(())
}

fn cmp_block(asp: &Aspects, ctx: &Ctx, what: &str, exp: &Value, got: &Block, text: bool) -> Result<(), String> {
    let g = ctx.block(got)?;
    cmp_text(asp, what, &tagged(&exp["t"]), &g, text)?;
    if asp.has("sens") && string(&exp["t"]) == plain(&g) {
        let s = ctx.sens(got);
        let lower = strings(&exp["s"]);
        let upper = if exp.get("u").is_some() { strings(&exp["u"]) } else { lower.clone() };
        if !lower.is_subset(&s) {
            return Err(format!("{}: sensitive to {:?}, but depends on {:?}", what, s, lower));
        }
        let upper: BTreeSet<String> = upper.union(&lower).cloned().collect();
        if !s.is_subset(&upper) {
            return Err(format!("{}: sensitive to {:?}, but only {:?} were consulted", what, s, upper));
        }
    }
    Ok(())
}

fn fork(e: &Engine) -> Engine {
    Engine {
        database: e.database.clone(),
        command_char: e.command_char,
        working_directory: e.working_directory.clone(),
        ..Default::default()
    }
}

/// Read the first n main files, whether or not those before end with an error
fn read(p: &Program, n: usize, dir: &std::path::Path, names: &mut NameCache, engine: &mut Engine) -> Vec<String> {
    engine.command_char = p.cc;
    engine.working_directory = dir.to_path_buf();
    let mut out = vec![];
    for m in p.main.iter().take(n) {
        let (name, text) = &p.files[*m];
        let b = bytes(text);
        let mut input = Pieces { rest: &b, size: [1, 2, 3, 7, 64, 4096][p.id as usize % 6], fail: p.id % 4 < 2 };
        out.push(match engine.read_makefile(names, &mut input, name) {
            Ok(()) => "ok".to_string(),
            Err(MakefileError::ParseError(k)) => error_name(&k),
            Err(MakefileError::IOError(_)) => "IOError".to_string(),
        });
    }
    out
}

/// Compare; Err describes the first difference
pub fn check(p: &Program, exp: &Value, asp: &Aspects, dir: &std::path::Path) -> Result<(), String> {
    let mut names = NameCache::default();
    let mut engine = Engine::default();
    let ests = exp["sts"].as_array().unwrap();
    let sts = read(p, ests.len(), dir, &mut names, &mut engine);
    for (i, (st, est)) in sts.iter().zip(ests).enumerate() {
        let est = est.as_str().unwrap();
        if st != est {
            let differs = (st == "ok") != (est == "ok");
            if asp.has("st") || asp.has("okst") && differs {
                let which = if sts.len() > 1 { format!("makefile {} ", i + 1) } else { String::new() };
                return Err(format!("reading {}ends with {}, specified {}", which, st, est));
            }
            if differs {
                return Ok(());
            }
        }
    }
    let files: BTreeMap<&str, i64> =
        p.files.iter().enumerate().map(|(i, f)| (f.0.as_str(), i as i64 + 1)).collect();
    compare(&engine, &names, files, exp, asp)
}

pub fn compare_block(names: &NameCache, files: BTreeMap<&str, i64>, what: &str, exp: &Value, got: &Block, asp: &Aspects) -> Result<(), String> {
    cmp_block(asp, &Ctx { names, files }, what, exp, got, true)
}

pub fn check_ast(names: &NameCache, files: BTreeMap<&str, i64>, what: &str, exp: &Value, got: &AstNode, asp: &Aspects) -> Result<(), String> {
    let mut items = vec![];
    flatten(&Ctx { names, files }, got, &mut items)?;
    cmp_ast(asp, what, &specified(exp), &items)
}

/// Compare what can be observed of an engine
pub fn compare(engine: &Engine, names: &NameCache, files: BTreeMap<&str, i64>, exp: &Value, asp: &Aspects) -> Result<(), String> {
    #[cfg(not(hastur_verif))]
    KNOWN.with(|k| {
        // Every name the specification mentions
        fn mentioned(v: &Value, out: &mut BTreeSet<String>) {
            match v {
                Value::Array(a) => a.iter().for_each(|x| mentioned(x, out)),
                Value::Object(o) => {
                    for (n, x) in o {
                        match n.as_str() {
                            "s" | "u" => out.extend(x.as_array().into_iter().flatten().map(string)),
                            "n" => {
                                out.insert(string(x));
                            }
                            _ => mentioned(x, out),
                        }
                    }
                }
                _ => {}
            }
        }
        let mut all = BTreeSet::new();
        mentioned(exp, &mut all);
        *k.borrow_mut() = all;
    });

    // Variables
    let evars: BTreeMap<String, &Value> =
        exp["v"].as_array().unwrap().iter().map(|v| (string(&v["n"]), v)).collect();
    #[cfg(hastur_verif)]
    {
        let got: BTreeSet<String> =
            hastur::verif_hooks::variable_names(&engine.database).into_iter().map(|v| var_name(&names, v)).collect();
        for g in &got {
            if asp.has("vars") && !evars.contains_key(g) {
                return Err(format!("variable {:?} is defined, specified: not defined", g));
            }
        }
    }
    let database = engine.database.clone();
    for (n, e) in &evars {
        let var = names.variable_name(n).and_then(|v| database.get_variable(v));
        let var = match var {
            Some(v) => v,
            None => {
                if asp.has("vars") {
                    return Err(format!("variable {:?} is not defined, specified: defined", n));
                }
                continue;
            }
        };
        #[cfg(hastur_verif)]
        if asp.has("flavor") {
            use hastur::Flavor;
            let simple = hastur::verif_hooks::flavor(&var) == Flavor::Simple;
            if simple != (e["f"].as_str() == Some("S")) {
                return Err(format!("variable {:?} is {}simple, specified: {}", n, if simple { "" } else { "not " }, e["f"]));
            }
        }
        let what = format!("variable {:?}", n);
        {
            let ctx = Ctx { names: &names, files: files.clone() };
            let mut items = Vec::new();
            flatten(&ctx, var.ast(), &mut items)?;
            cmp_ast(asp, &what, &specified(&e["a"]), &items)?;
        }
        if let Some(x) = e["x"].as_array().unwrap().get(0) {
            let mut e2 = fork(&engine);
            let mut n2 = names.clone();
            let block = var.ast().eval(&mut n2, &mut e2);
            let ctx = Ctx { names: &n2, files: files.clone() };
            cmp_block(asp, &ctx, &format!("expansion of {:?}", n), x, &block, asp.has("vtext"))?;
            if asp.has("vtext") {
                let mut e3 = fork(&engine);
                let mut n3 = names.clone();
                let s = var.expand(&mut n3, &mut e3);
                if s != block.into_string() {
                    return Err(format!("{}: expand() gives {:?}, eval() gives {:?}", what, s, block.into_string()));
                }
            }
        }
    }

    // Rules
    if exp["lr"].as_bool() == Some(true) {
        return Ok(());
    }
    let erules: BTreeMap<String, &Value> =
        exp["r"].as_array().unwrap().iter().map(|v| (string(&v["n"]), v)).collect();
    let mut seen = BTreeSet::new();
    for rule in database.rules() {
        let n = names.resolve_file_name(rule.target_fname()).unwrap_or("<unknown>").to_string();
        if asp.has("rules") {
            if !seen.insert(n.clone()) {
                return Err(format!("target {:?} has two rules", n));
            }
            if !erules.contains_key(&n) {
                return Err(format!("there is a rule for {:?}, specified: none", n));
            }
        }
    }
    for (n, e) in &erules {
        let rule = match names.file_name(n).and_then(|f| database.get_rule(f)) {
            Some(r) => r,
            None => {
                if asp.has("rules") {
                    return Err(format!("there is no rule for {:?}, specified: one", n));
                }
                continue;
            }
        };
        let text = asp.has("rules");
        {
            let ctx = Ctx { names: &names, files: files.clone() };
            cmp_block(asp, &ctx, &format!("target {:?}", n), &e["t"], rule.target(), text)?;
            let deps = e["d"].as_array().unwrap();
            if deps.len() != rule.dependencies().len() {
                if text {
                    return Err(format!(
                        "prerequisites of {:?} are {:?}, specified {:?}", n,
                        rule.dependencies().iter().map(|d| d.into_string()).collect::<Vec<_>>(),
                        deps.iter().map(|d| string(&d["t"])).collect::<Vec<_>>()
                    ));
                }
            } else {
                for (i, (d, g)) in deps.iter().zip(rule.dependencies()).enumerate() {
                    cmp_block(asp, &ctx, &format!("prerequisite {} of {:?}", i + 1, n), d, g, text)?;
                }
            }
            #[cfg(hastur_verif)]
            if asp.has("colon") {
                let g = match hastur::verif_hooks::rule_type(rule) {
                    hastur::RuleType::Standard => "S",
                    hastur::RuleType::DoubleColon => "D",
                };
                if g != e["g"].as_str().unwrap() {
                    return Err(format!("rule for {:?} has type {}, specified {}", n, g, e["g"]));
                }
            }
        }
        let cmds = e["m"].as_array().unwrap();
        let got = rule.recipe().commands();
        if cmds.len() != got.len() {
            if asp.has("ncmds") || asp.has("cmds") {
                return Err(format!("rule for {:?} has {} commands, specified {}", n, got.len(), cmds.len()));
            }
            continue;
        }
        #[cfg(hastur_verif)]
        for (i, (c, g)) in cmds.iter().zip(got).enumerate() {
            let what = format!("command {} of {:?}", i + 1, n);
            let ast = hastur::verif_hooks::command_ast(g);
            {
                let ctx = Ctx { names: &names, files: files.clone() };
                let mut items = Vec::new();
                flatten(&ctx, ast, &mut items)?;
                cmp_ast(asp, &what, &specified(&c["a"]), &items)?;
            }
            if let Some(x) = c["x"].as_array().unwrap().get(0) {
                let mut e2 = fork(&engine);
                let mut n2 = names.clone();
                let block = ast.eval(&mut n2, &mut e2);
                let ctx = Ctx { names: &n2, files: files.clone() };
                cmp_block(asp, &ctx, &format!("expansion of {}", what), x, &block, asp.has("cmds"))?;
            }
        }
    }
    Ok(())
}
