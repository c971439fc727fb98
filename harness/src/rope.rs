//! Blocks of text: runs histories of operations on real blocks and asks
//! everything that can be asked of their spans.
use crate::text::*;
use hastur::evaluated::*;
use hastur::source_location::{LocatedString, Location};
use nom::{AtEof, Compare, CompareResult, FindSubstring, InputIter, InputLength, InputTake, InputTakeAtPosition, Offset, Slice};
use serde_json::Value;
use std::sync::Arc;

#[cfg(hastur_verif)]
fn constant_at(names: &mut hastur::NameCache, f: i64, t: String) -> LocatedString {
    let filename = names.intern_file_name(f.to_string());
    hastur::verif_hooks::located_string(Location::SourceLocation { filename, line: 1, character: 1 }, t)
}
#[cfg(not(hastur_verif))]
fn constant_at(_: &mut hastur::NameCache, _: i64, t: String) -> LocatedString {
    LocatedString::synthetic_new(t)
}

fn tag(names: &hastur::NameCache, l: &Location) -> i64 {
    match l {
        Location::SourceLocation { line, character, filename } => match names.resolve_file_name(*filename).map(|n| n.parse::<i64>()) {
            Some(Ok(f)) => (f * 100 + *line as i64) * 1000 + *character as i64,
            _ => -2,
        },
        Location::Synthetic => 0,
        _ => -1,
    }
}

macro_rules! ensure {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

type Tagged = Vec<(i64, char)>;

fn collect<'a>(names: &hastur::NameCache, segments: impl Iterator<Item = hastur::source_location::LocatedStr<'a>>) -> Tagged {
    let mut out = vec![];
    for s in segments {
        let mut t = tag(names, s.location());
        let c: &str = &s;
        for c in c.chars() {
            out.push((t, c));
            if t > 0 {
                t = if c == '\n' { (t / 1000 + 1) * 1000 + 1 } else { t + 1 };
            }
        }
    }
    out
}

/// Without the hooks all constants are synthetic
fn expected(v: &Value) -> Tagged {
    let t = tagged(v);
    if cfg!(hastur_verif) { t } else { t.into_iter().map(|(_, c)| (0, c)).collect() }
}

fn span(names: &hastur::NameCache, what: &str, s: &BlockSpan, exp: &[(i64, char)]) -> Result<(), String> {
    let flat = plain(exp);
    ensure!(s.into_string() == flat, "{}: the text is {:?}, specified {:?}", what, s.into_string(), flat);
    ensure!(s.len() == flat.len() && s.input_len() == flat.len(), "{}: length {}, specified {}", what, s.len(), flat.len());
    ensure!(s.chars().eq(flat.chars()) && s.iter_elements().eq(flat.chars()), "{}: characters of {:?}", what, flat);
    ensure!(s.char_indices().eq(flat.char_indices()) && s.iter_indices().eq(flat.char_indices()), "{}: character indices {:?} of {:?}", what, s.char_indices().collect::<Vec<_>>(), flat);
    let segs = collect(names, s.segments());
    ensure!(segs == exp, "{}: segments {:?}, specified {:?}", what, segs, exp);
    let loc = s.location().map(|l| tag(names, &l));
    ensure!(loc == exp.first().map(|x| x.0), "{}: location {:?}, specified {:?}", what, loc, exp.first().map(|x| x.0));
    Ok(())
}

fn block(names: &hastur::NameCache, what: &str, b: &Block, exp: &[(i64, char)]) -> Result<(), String> {
    let flat = plain(exp);
    ensure!(b.into_string() == flat, "{}: the text is {:?}, specified {:?}", what, b.into_string(), flat);
    ensure!(b.len() == flat.len(), "{}: length {}, specified {}", what, b.len(), flat.len());
    let mut parts = String::new();
    for c in b.content() {
        let mut p = String::new();
        c.append_to_string(&mut p);
        ensure!(c.chars().eq(p.chars()) && c.char_indices().eq(p.char_indices()), "{}: a part {:?}", what, p);
        ensure!(plain(&collect(names, c.segments())) == p, "{}: segments of a part {:?}", what, p);
        parts += &p;
    }
    ensure!(parts == flat, "{}: the parts give {:?}, specified {:?}", what, parts, flat);
    span(names, what, &b.span(), exp)
}

fn order(r: CompareResult) -> i64 {
    match r {
        CompareResult::Ok => 0,
        CompareResult::Incomplete => 1,
        CompareResult::Error => 2,
    }
}
fn int(v: Option<usize>) -> i64 {
    v.map_or(-1, |x| x as i64)
}
const PREDS: [fn(char) -> bool; 4] = [|c| c == '\n', |c| c == 'a' || c == 'b', |c| c as u32 > 127, |c| c == ' ' || c == ';'];

/// Check the answers of a span `s` with text `exp`, for which `q` is specified
fn answers(names: &hastur::NameCache, what: &str, s: BlockSpan, exp: &[(i64, char)], needles: &[String], q: &Value, offs: &[usize]) -> Result<(), String> {
    span(names, what, &s, exp)?;
    ensure!(s.at_eof(), "{}: not at the end", what);
    for (i, n) in needles.iter().enumerate() {
        let n = n.as_str();
        let got = [order(s.compare(n)), order(s.compare_no_case(n)), int(s.find_substring(n))];
        for k in 0..3 {
            ensure!(got[k] == q[k][i].as_i64().unwrap(), "{}: {} {:?} in {:?} gives {}, specified {}", what,
                ["compare", "compare_no_case", "find_substring"][k], n, plain(exp), got[k], q[k][i]);
        }
    }
    let cuts = |what: &str, r: nom::IResult<BlockSpan, BlockSpan, u32>, at: usize| -> Result<(), String> {
        match r {
            Ok((rest, got)) => {
                let n = exp.iter().scan(0, |o, c| { let x = *o; *o += c.1.len_utf8(); Some(x) }).take_while(|o| *o < at).count();
                span(names, &format!("{} (before)", what), &got, &exp[..n])?;
                span(names, &format!("{} (rest)", what), &rest, &exp[n..])?;
                ensure!(s.offset(&got) == 0, "{}: offset of the first part is {}", what, s.offset(&got));
                ensure!(s.offset(&rest) == at, "{}: offset of the rest is {}, specified {}", what, s.offset(&rest), at);
                Ok(())
            }
            Err(e) => Err(format!("{}: {:?}", what, e)),
        }
    };
    for (i, p) in PREDS.iter().enumerate() {
        let exp_pos = q[3][i].as_i64().unwrap();
        ensure!(int(s.position(p)) == exp_pos, "{}: position {} in {:?} gives {}, specified {}", what, i, plain(exp), int(s.position(p)), exp_pos);
        let at = if exp_pos < 0 { s.len() } else { exp_pos as usize };
        cuts(&format!("{}: split_at_position {}", what, i), s.split_at_position(p), at)?;
        let r1 = s.split_at_position1(p, nom::ErrorKind::Custom(7));
        if at == 0 {
            ensure!(r1.is_err(), "{}: split_at_position1 {} succeeds at the start", what, i);
        } else {
            cuts(&format!("{}: split_at_position1 {}", what, i), r1, at)?;
        }
    }
    let n = exp.len();
    for k in 0..n + 2 {
        let e = if k <= n { (offs[k] - offs[0]) as i64 } else { -1 };
        ensure!(int(s.slice_index(k)) == e, "{}: slice_index {} of {:?} gives {}, specified {}", what, k, plain(exp), int(s.slice_index(k)), e);
        if k <= n {
            let at = e as usize;
            span(names, &format!("{}: take {}", what, at), &s.take(at), &exp[..k])?;
            let (rest, first) = s.take_split(at);
            span(names, &format!("{}: take_split {} (rest)", what, at), &rest, &exp[k..])?;
            span(names, &format!("{}: take_split {} (first)", what, at), &first, &exp[..k])?;
        }
    }
    Ok(())
}

/// Nodes of all kinds with the contents of a block, and references to parts of them
fn nodes(names: &hastur::NameCache, what: &str, b: &Block, exp: &[(i64, char)], offs: &[usize]) -> Result<(), String> {
    let flat = plain(exp);
    let value = Arc::new(b.clone());
    let other = |s: &str| {
        let mut o = Block::default();
        o.push(constant(LocatedString::synthetic_new(s)));
        Arc::new(o)
    };
    let reference = VariableReference::new(other("n"), value.clone());
    let substitution = SubstitutionReference::new(other("n"), other("k"), other("r"), value.clone());
    let evaluated = Evaluated::new(value.clone());
    ensure!(reference.name().into_string() == "n" && substitution.name().into_string() == "n", "{}: name of a node", what);
    ensure!(substitution.key().into_string() == "k" && substitution.replacement().into_string() == "r", "{}: key and replacement of a node", what);
    ensure!(substitution.value().into_string() == flat && evaluated.value().into_string() == flat, "{}: value of a node", what);
    let mut all = vec![
        EvaluatedNode::Concat(value),
        EvaluatedNode::VariableReference(reference),
        EvaluatedNode::SubstitutionReference(substitution),
        EvaluatedNode::Evaluated(evaluated),
    ];
    let synthetic: Tagged = exp.iter().map(|x| (0, x.1)).collect();
    all.push(EvaluatedNode::Constant(LocatedString::synthetic_new(flat.clone())));
    for (k, n) in all.into_iter().enumerate() {
        let what = format!("{}, node {}", what, k);
        let exp: &[(i64, char)] = if k == 4 { &synthetic } else { exp };
        ensure!(n.len() == flat.len(), "{}: length {}, specified {}", what, n.len(), flat.len());
        ensure!(n.chars().eq(flat.chars()), "{}: characters of {:?}", what, flat);
        let segs = collect(names, n.segments());
        ensure!(segs == exp, "{}: segments {:?}, specified {:?}", what, segs, exp);
        let n = Arc::new(n);
        for a in 0..exp.len() {
            for b in a..exp.len() + 1 {
                let (x, y) = (offs[a], offs[b]);
                let r = ContentReference::new_from_node_slice(n.clone(), x, y - x);
                let s = &flat[x..y];
                let what = format!("{}, bytes {}..{}", what, x, y);
                ensure!(r.chars().eq(s.chars()), "{}: characters of {:?}", what, s);
                ensure!(r.char_indices().eq(s.char_indices()), "{}: character indices of {:?}", what, s);
                let segs = collect(names, r.segments());
                ensure!(segs == &exp[a..b], "{}: segments {:?}, specified {:?}", what, segs, &exp[a..b]);
                let mut t = "<".to_string();
                r.append_to_string(&mut t);
                ensure!(t == format!("<{}", s), "{}: append_to_string gives {:?}", what, t);
            }
        }
    }
    Ok(())
}

pub fn check(case: &Value, o: &Value) -> Result<(), String> {
    let mut names = hastur::NameCache::default();
    let mut pool: Vec<Block> = vec![];
    let mut konst = |names: &mut hastur::NameCache, f: i64, t: &str| constant(constant_at(names, f, t.into()));
    let mut b = Block::default();
    b.push(konst(&mut names, 1, "aé"));
    pool.push(b);
    let mut b = Block::default();
    let mut inner = Block::default();
    inner.push(konst(&mut names, 3, "你\nb"));
    b.push(konst(&mut names, 2, "x"));
    b.push(concat(Arc::new(inner)));
    pool.push(b);
    pool.push(Block::default());

    let char_at = |b: &Block, k: usize| -> usize {
        let s = b.into_string();
        let r = s.char_indices().map(|x| x.0).chain(std::iter::once(s.len())).nth(k).unwrap();
        r
    };
    for (step, (op, seen)) in case["ops"].as_array().unwrap().iter().zip(o["seen"].as_array().unwrap()).enumerate() {
        let g = |k: &str| op[k].as_i64().unwrap_or(1) as usize - if k == "i" || k == "j" { 1 } else { 0 };
        let i = g("i");
        let other = pool.get(g("j")).cloned().unwrap_or_default();
        let (a, b) = match op["a"].as_i64() {
            Some(_) => (char_at(&other, g("a")), char_at(&other, g("b"))),
            None => (0, 0),
        };
        let part = || -> BlockSpan {
            let whole = other.span();
            match step % 5 {
                _ if a == 0 && b == other.len() => whole,
                0 if a == 0 => whole.slice(..b),
                0 | 1 => whole.slice(a..b),
                2 => whole.slice(..b).slice(a..),
                3 => whole.slice(a..).slice(..b - a),
                _ => whole.slice(..b).slice(a..b),
            }
        };
        match op["o"].as_str().unwrap() {
            "pushc" => {
                let c = konst(&mut names, g("f") as i64, &string(&op["t"]));
                pool[i].push(c)
            }
            "syn" => pool[i].push(match g("c") {
                32 => ContentReference::space(),
                10 => ContentReference::newline(),
                _ => ContentReference::semicolon(),
            }),
            "pushb" => {
                let v = Arc::new(other);
                let n = Arc::new(pool[0].clone());
                pool[i].push(match op["n"].as_str().unwrap() {
                    "concat" => concat(v),
                    "variable" => variable_reference(n, v),
                    "substitution" => substitution_reference(n.clone(), n.clone(), n, v),
                    _ => ContentReference::new_from_node(Arc::new(EvaluatedNode::Evaluated(Evaluated::new(v)))),
                })
            }
            "pushs" => pool[i].push_all_contents(part()),
            "pushr" => pool[i].push(part().to_content_reference()),
            "pushp" => {
                if a < other.len() {
                    pool[i].push(ContentReference::new_from_node_slice(Arc::new(EvaluatedNode::Concat(Arc::new(other))), a, b - a))
                }
            }
            "none" => {}
            "new" => pool.push(Block::default()),
            "copy" => pool.push(other),
            "span" => pool.push((*part().to_new_block()).clone()),
            x => panic!("operation {}", x),
        }
        let seen = seen.as_array().unwrap();
        ensure!(seen.len() == pool.len(), "{} blocks, specified {}", pool.len(), seen.len());
        for (k, (b, e)) in pool.iter().zip(seen).enumerate() {
            block(&names, &format!("block {} after operation {}", k + 1, step + 1), b, &expected(e))?;
        }
    }
    let target = &pool[case["q"].as_u64().unwrap() as usize - 1];
    let exp = expected(&o["q"]["t"]);
    let offs: Vec<usize> = o["q"]["off"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let needles: Vec<String> = case["needles"].as_array().unwrap().iter().map(string).collect();
    let whole = target.span();
    let n = exp.len();
    nodes(&names, &format!("block {}", case["q"]), target, &exp, &offs)?;
    for a in 0..=n {
        for b in a..=n {
            let (x, y) = (offs[a], offs[b]);
            let q = &o["q"]["q"][a][b - a];
            let e = &exp[a..b];
            let forms = [
                whole.slice(x..y),
                whole.slice(x..).slice(..y - x),
                whole.slice(..y).slice(x..),
                whole.slice(..y).slice(x..y),
                if x == 0 { whole.slice(..y) } else { whole.slice(x..y) },
                if x == 0 && b == n { whole } else { whole.slice(x..y) },
            ];
            for (k, s) in forms.iter().enumerate() {
                let what = format!("block {}, bytes {}..{} (form {})", case["q"], x, y, k);
                answers(&names, &what, *s, e, &needles, q, &offs[a..=b])?;
                ensure!(whole.offset(s) == x, "{}: the offset is {}", what, whole.offset(s));
            }
            for form in &forms {
                let copy = form.to_new_block();
                let what = format!("a copy of block {}, bytes {}..{}", case["q"], x, y);
                block(&names, &what, &copy, e)?;
                answers(&names, &what, copy.span(), e, &needles, q, &offs[a..=b])?;
                let mut sum = Block::default();
                sum.push_all_contents(*form);
                block(&names, &format!("the contents of block {}, bytes {}..{}", case["q"], x, y), &sum, e)?;
            }
            for c in a..=b {
                for d in c..=b {
                    let (u, v) = (offs[c] - x, offs[d] - x);
                    let s = forms[0].slice(u..v);
                    span(&names, &format!("block {}, {}..{} of bytes {}..{}", case["q"], u, v, x, y), &s, &exp[c..d])?;
                    ensure!(forms[0].offset(&s) == u, "block {}: the offset of {}..{} in {}..{} is {}", case["q"], u, v, x, y, forms[0].offset(&s));
                }
            }
        }
    }
    Ok(())
}
