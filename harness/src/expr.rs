//! Expressions put together from parts
use crate::program::{check_ast, compare, compare_block, Aspects};
use crate::text::*;
use hastur::ast::{self, AstChildren, AstNode};
use hastur::evaluated::{constant, Block};
use hastur::source_location::{LocatedString, Location};
use hastur::{Engine, FileName, NameCache};
use serde_json::Value;
use std::sync::Arc;

fn build(file: FileName, t: &Value) -> AstNode {
    let n = t["n"].as_u64().unwrap() as u32;
    let l = || Location::SourceLocation { filename: file, line: n, character: 1 };
    #[cfg(hastur_verif)]
    let text = || hastur::verif_hooks::located_string(l(), string(&t["t"]));
    #[cfg(not(hastur_verif))]
    let text = || LocatedString::synthetic_new(string(&t["t"]));
    let parts = || t["a"].as_array().unwrap().iter().map(|x| build(file, x)).collect::<Vec<_>>();
    match t["k"].as_str().unwrap() {
        "empty" => ast::empty(),
        "constant" => ast::constant(text()),
        "preevaluated" => {
            let mut b = Block::default();
            b.push(constant(text()));
            ast::preevaluated(l(), Arc::new(b))
        }
        "variable_reference" => ast::variable_reference(l(), parts().remove(0)),
        "eval" => ast::eval(l(), parts().remove(0)),
        "join" => ast::collapsing_concat(l(), parts()),
        "concat" => {
            // As it is, without dropping anything
            let mut c = ast::collapsing_concat(l(), vec![]);
            *c.children_mut() = AstChildren::Concat(parts());
            c
        }
        k => panic!("{}", k),
    }
}

pub fn check(case: &Value, exp: &Value, asp: &Aspects) -> Result<(), String> {
    let mut names = NameCache::default();
    let mut engine = Engine::default();
    let pre = string(&case["pre"]);
    engine
        .read_makefile(&mut names, &mut pre.as_bytes(), "1")
        .map_err(|e| format!("the makefile is not read: {:?}", e))?;
    let node = build(names.intern_file_name("2".to_string()), &case["tree"]);
    let files = || vec![("1", 1), ("2", 2)].into_iter().collect();
    check_ast(&names, files(), "the expression", &exp["a"], &node, asp)?;
    for (i, o) in exp["out"].as_array().unwrap().iter().enumerate() {
        let b = node.eval(&mut names, &mut engine);
        compare_block(&names, files(), &format!("evaluation {}", i + 1), o, &b, asp)?;
    }
    check_ast(&names, files(), "the expression afterwards", &exp["a"], &node, asp)?;
    compare(&engine, &names, files(), &exp["e"][0], asp)
}
