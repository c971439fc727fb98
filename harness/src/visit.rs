//! Visiting expressions
use hastur::ast::visit::{MutVisitor, Visitor};
use hastur::ast::{self, AstChildren, AstNode};
use hastur::evaluated::{constant, Block};
use hastur::source_location::{LocatedString, Location};
use hastur::{FileName, NameCache};
use serde_json::{json, Value};
use std::sync::Arc;

fn build(file: FileName, t: &Value) -> AstNode {
    let n = t["n"].as_u64().unwrap() as u32;
    let l = || Location::SourceLocation { filename: file, line: n, character: 1 };
    let text = || LocatedString::synthetic_new(n.to_string());
    let part = |i: usize| build(file, &t["a"][i]);
    match t["k"].as_str().unwrap() {
        "empty" => ast::empty(),
        "constant" => ast::constant(text()),
        "preevaluated" => {
            let mut b = Block::default();
            b.push(constant(text()));
            ast::preevaluated(l(), Arc::new(b))
        }
        "variable_reference" => ast::variable_reference(l(), part(0)),
        "eval" => ast::eval(l(), part(0)),
        "strip" => ast::strip(l(), part(0)),
        "words" => ast::words(l(), part(0)),
        "word" => ast::word(l(), part(0), part(1)),
        "concat" => {
            // As it is, without dropping anything
            let mut c = ast::collapsing_concat(l(), vec![]);
            *c.children_mut() = AstChildren::Concat((0..t["a"].as_array().unwrap().len()).map(part).collect());
            c
        }
        k => panic!("{}", k),
    }
}

/// The number of a node
fn number(n: &AstNode) -> i64 {
    match n.children() {
        AstChildren::Empty => 0,
        AstChildren::Constant(s) => s.parse().unwrap(),
        _ => match n.location() {
            Location::SourceLocation { line, .. } => line as i64,
            _ => -1,
        },
    }
}

/// A tree as it is in the specification
fn show(n: &AstNode) -> Value {
    let (k, a) = match n.children() {
        AstChildren::Empty => ("empty", vec![]),
        AstChildren::Constant(_) => ("constant", vec![]),
        AstChildren::PreEvaluated(b) => return json!({"k": "preevaluated", "n": b.into_string().parse::<i64>().unwrap(), "a": []}),
        AstChildren::Concat(v) => ("concat", v.iter().map(show).collect()),
        AstChildren::VariableReference(x) => ("variable_reference", vec![show(x)]),
        AstChildren::Eval(x) => ("eval", vec![show(x)]),
        AstChildren::Strip(x) => ("strip", vec![show(x)]),
        AstChildren::Words(x) => ("words", vec![show(x)]),
        AstChildren::Word { index, words } => ("word", vec![show(index), show(words)]),
    };
    json!({"k": k, "n": number(n), "a": a})
}

type Event = (&'static str, i64, Vec<i64>);

/// Shown a node as such, remember its number for the method of its kind
#[derive(Default)]
struct Recorder {
    events: Vec<Event>,
    stop: String,
    current: i64,
}
impl Recorder {
    fn ast(&mut self, n: &AstNode) {
        self.current = number(n);
        self.events.push(("ast", self.current, vec![]));
    }
    fn kind(&mut self, k: &'static str, own: Option<i64>, parts: Vec<i64>) -> bool {
        let n = own.unwrap_or(self.current);
        self.events.push((k, n, parts));
        self.stop != k
    }
}

macro_rules! recorder {
    ($trait:ident, $($m:ident)?) => {
        impl<'n> $trait<'n> for Recorder {
            fn visit_ast(&mut self, ast: &'n $($m)? AstNode) {
                self.ast(ast);
                <Self as $trait>::super_ast(self, ast)
            }
            fn visit_empty(&mut self) {
                if self.kind("empty", Some(0), vec![]) { <Self as $trait>::super_empty(self) }
            }
            fn visit_constant(&mut self, c: &'n $($m)? LocatedString) {
                if self.kind("constant", c.parse().ok(), vec![]) { <Self as $trait>::super_constant(self, c) }
            }
            fn visit_pre_evaluated(&mut self, b: &'n $($m)? Arc<Block>) {
                if self.kind("preevaluated", b.into_string().parse().ok(), vec![]) { <Self as $trait>::super_pre_evaluated(self, b) }
            }
            fn visit_concat(&mut self, v: &'n $($m)? Vec<AstNode>) {
                if self.kind("concat", None, v.iter().map(number).collect()) { <Self as $trait>::super_concat(self, v) }
            }
            fn visit_variable_reference(&mut self, x: &'n $($m)? AstNode) {
                if self.kind("variable_reference", None, vec![number(x)]) { <Self as $trait>::super_variable_reference(self, x) }
            }
            fn visit_eval(&mut self, x: &'n $($m)? AstNode) {
                if self.kind("eval", None, vec![number(x)]) { <Self as $trait>::super_eval(self, x) }
            }
            fn visit_strip(&mut self, x: &'n $($m)? AstNode) {
                if self.kind("strip", None, vec![number(x)]) { <Self as $trait>::super_strip(self, x) }
            }
            fn visit_word(&mut self, i: &'n $($m)? AstNode, w: &'n $($m)? AstNode) {
                if self.kind("word", None, vec![number(i), number(w)]) { <Self as $trait>::super_word(self, i, w) }
            }
            fn visit_words(&mut self, x: &'n $($m)? AstNode) {
                if self.kind("words", None, vec![number(x)]) { <Self as $trait>::super_words(self, x) }
            }
        }
    };
}
recorder!(Visitor,);
recorder!(MutVisitor, mut);

/// Visitors that override one method only
macro_rules! single {
    ($name:ident, $kind:expr, $method:ident, ($($p:ident: ($($t:tt)*)),*), |$s:ident| $rec:expr, $super:ident) => {
        mod $name {
            use super::*;
            #[derive(Default)]
            pub struct Shared(pub Vec<(i64, Vec<i64>)>);
            impl<'n> Visitor<'n> for Shared {
                fn $method(&mut self $(, $p: &'n $($t)*)*) {
                    { let $s = &mut self.0; $rec; }
                    <Self as Visitor>::$super(self $(, $p)*)
                }
            }
            #[derive(Default)]
            pub struct Mutable(pub Vec<(i64, Vec<i64>)>);
            impl<'n> MutVisitor<'n> for Mutable {
                fn $method(&mut self $(, $p: &'n mut $($t)*)*) {
                    { let $s = &mut self.0; $rec; }
                    <Self as MutVisitor>::$super(self $(, $p)*)
                }
            }
            pub fn run(node: &AstNode, out: &mut Vec<(&'static str, Vec<(i64, Vec<i64>)>)>) {
                let mut v = Shared::default();
                Visitor::visit_ast(&mut v, node);
                out.push(($kind, v.0));
                let mut copy = node.clone();
                let mut v = Mutable::default();
                MutVisitor::visit_ast(&mut v, &mut copy);
                out.push(($kind, v.0));
            }
        }
    };
}
single!(one_ast, "ast", visit_ast, (x: (AstNode)), |s| s.push((number(x), vec![])), super_ast);
single!(one_empty, "empty", visit_empty, (), |s| s.push((0, vec![])), super_empty);
single!(one_constant, "constant", visit_constant, (x: (LocatedString)), |s| s.push((x.parse().unwrap(), vec![])), super_constant);
single!(one_pre, "preevaluated", visit_pre_evaluated, (x: (Arc<Block>)), |s| s.push((x.into_string().parse().unwrap(), vec![])), super_pre_evaluated);
single!(one_concat, "concat", visit_concat, (x: (Vec<AstNode>)), |s| s.push((-1, x.iter().map(number).collect())), super_concat);
single!(one_ref, "variable_reference", visit_variable_reference, (x: (AstNode)), |s| s.push((-1, vec![number(x)])), super_variable_reference);
single!(one_eval, "eval", visit_eval, (x: (AstNode)), |s| s.push((-1, vec![number(x)])), super_eval);
single!(one_strip, "strip", visit_strip, (x: (AstNode)), |s| s.push((-1, vec![number(x)])), super_strip);
single!(one_word, "word", visit_word, (x: (AstNode), y: (AstNode)), |s| s.push((-1, vec![number(x), number(y)])), super_word);
single!(one_words, "words", visit_words, (x: (AstNode)), |s| s.push((-1, vec![number(x)])), super_words);

/// Overrides nothing
struct Nothing;
impl<'n> Visitor<'n> for Nothing {}
impl<'n> MutVisitor<'n> for Nothing {}

struct Editor(String);
impl Editor {
    fn part<'n>(&mut self, k: &str, x: &'n mut AstNode) -> &'n mut AstNode {
        if self.0 == k {
            *x = ast::constant(LocatedString::synthetic_new("7000"));
        }
        x
    }
}
impl<'n> MutVisitor<'n> for Editor {
    fn visit_constant(&mut self, c: &'n mut LocatedString) {
        if self.0 == "constant" {
            *c = LocatedString::synthetic_new((c.parse::<i64>().unwrap() + 5000).to_string());
        }
        self.super_constant(c)
    }
    fn visit_pre_evaluated(&mut self, b: &'n mut Arc<Block>) {
        if self.0 == "preevaluated" {
            let mut n = Block::default();
            n.push(constant(LocatedString::synthetic_new((b.into_string().parse::<i64>().unwrap() + 5000).to_string())));
            *b = Arc::new(n);
        }
        self.super_pre_evaluated(b)
    }
    fn visit_concat(&mut self, v: &'n mut Vec<AstNode>) {
        if self.0 == "concat" {
            v.reverse();
        }
        self.super_concat(v)
    }
    fn visit_variable_reference(&mut self, x: &'n mut AstNode) {
        let x = self.part("variable_reference", x);
        self.super_variable_reference(x)
    }
    fn visit_eval(&mut self, x: &'n mut AstNode) {
        let x = self.part("eval", x);
        self.super_eval(x)
    }
    fn visit_strip(&mut self, x: &'n mut AstNode) {
        let x = self.part("strip", x);
        self.super_strip(x)
    }
    fn visit_words(&mut self, x: &'n mut AstNode) {
        let x = self.part("words", x);
        self.super_words(x)
    }
    fn visit_word(&mut self, i: &'n mut AstNode, w: &'n mut AstNode) {
        if self.0 == "word" {
            std::mem::swap(i, w);
        }
        self.super_word(i, w)
    }
}

pub fn check(case: &Value, o: &Value) -> Result<(), String> {
    let mut names = NameCache::default();
    let file = names.intern_file_name("f".into());
    let mut node = build(file, &case["tree"]);
    let stop = case["stop"].as_str().unwrap();
    if show(&node) != case["tree"] {
        return Err(format!("the expression is made as {}, specified {}", show(&node), case["tree"]));
    }
    let ints = |v: &Value| v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect::<Vec<_>>();
    let exp: Vec<(String, i64, Vec<i64>)> = o["shown"].as_array().unwrap().iter().map(|e| (e[0].as_str().unwrap().to_string(), e[1].as_i64().unwrap(), ints(&e[2]))).collect();
    let compare = |what: &str, got: &Vec<Event>| -> Result<(), String> {
        if got.len() == exp.len() && got.iter().zip(&exp).all(|(g, e)| g.0 == e.0 && g.1 == e.1 && g.2 == e.2) {
            Ok(())
        } else {
            Err(format!("{} is shown {:?}, specified {:?}", what, got, exp))
        }
    };
    let mut r = Recorder { stop: stop.into(), ..Default::default() };
    Visitor::visit_ast(&mut r, &node);
    compare("the visitor", &r.events)?;
    let mut r = Recorder { stop: stop.into(), ..Default::default() };
    MutVisitor::visit_ast(&mut r, &mut node);
    compare("the mutable visitor", &r.events)?;
    if show(&node) != case["tree"] {
        return Err("visiting changes the expression".into());
    }
    if stop != "none" {
        return Ok(());
    }
    Visitor::visit_ast(&mut Nothing, &node);
    MutVisitor::visit_ast(&mut Nothing, &mut node);
    if show(&node) != case["tree"] {
        return Err("visiting changes the expression".into());
    }
    let mut got = vec![];
    one_ast::run(&node, &mut got);
    one_empty::run(&node, &mut got);
    one_constant::run(&node, &mut got);
    one_pre::run(&node, &mut got);
    one_concat::run(&node, &mut got);
    one_ref::run(&node, &mut got);
    one_eval::run(&node, &mut got);
    one_strip::run(&node, &mut got);
    one_word::run(&node, &mut got);
    one_words::run(&node, &mut got);
    for (k, events) in got {
        let e: Vec<(i64, Vec<i64>)> = exp.iter().filter(|e| e.0 == k).map(|e| (e.1, e.2.clone())).collect();
        let same = events.len() == e.len() && events.iter().zip(&e).all(|(g, e)| (g.0 < 0 || g.0 == e.0) && g.1 == e.1);
        if !same {
            return Err(format!("a visitor of {} nodes is shown {:?}, specified {:?}", k, events, e));
        }
    }
    for e in o["edits"].as_array().unwrap() {
        let mut copy = node.clone();
        MutVisitor::visit_ast(&mut Editor(e[0].as_str().unwrap().into()), &mut copy);
        if show(&copy) != e[1] {
            return Err(format!("after editing {} nodes: {}, specified {}", e[0], show(&copy), e[1]));
        }
    }
    Ok(())
}
