//! The order of source locations
use hastur::evaluated::{Block, ContentReference};
use hastur::source_location::{LocatedString, Location};
use hastur::NameCache;
use serde_json::Value;
use std::cmp::Ordering;
use std::sync::Arc;

fn location(names: &mut NameCache, blocks: &[Arc<Block>], v: &Value) -> Location {
    let n = |k: &str| v[k].as_u64().unwrap() as u32;
    match v["k"].as_str().unwrap() {
        "source" => Location::SourceLocation { filename: names.intern_file_name(v["o"].to_string()), line: n("l"), character: n("c") },
        "eval" => Location::EvalLocation { tree_node: blocks[n("o") as usize].clone(), line: n("l"), character: n("c") },
        _ => Location::Synthetic,
    }
}

pub fn check(case: &Value, o: &Value) -> Result<(), String> {
    let mut names = NameCache::default();
    let blocks: Vec<Arc<Block>> = (0..5)
        .map(|k| {
            let mut b = Block::default();
            for _ in 0..k {
                b.push(ContentReference::space())
            }
            Arc::new(b)
        })
        .collect();
    let a = location(&mut names, &blocks, &case["a"]);
    for (b, r) in case["b"].as_array().unwrap().iter().zip(o["r"].as_array().unwrap()) {
        let what = format!("{} and {}", case["a"], b);
        let b = location(&mut names, &blocks, b);
        let r = match r.as_i64().unwrap() {
            -1 => Some(Ordering::Less),
            0 => Some(Ordering::Equal),
            1 => Some(Ordering::Greater),
            _ => None,
        };
        let compare = |x: Option<Ordering>, kind: &str| if x == r { Ok(()) } else { Err(format!("{} of {}: {:?}, specified {:?}", kind, what, x, r)) };
        compare(a.partial_cmp(&b), "the order")?;
        compare(b.partial_cmp(&a).map(|x| x.reverse()), "the reversed order")?;
        if (a == b) != (r == Some(Ordering::Equal)) {
            return Err(format!("equality of {}", what));
        }
        if (a < b) != (r == Some(Ordering::Less)) || (a > b) != (r == Some(Ordering::Greater))
            || (a <= b) != (r == Some(Ordering::Less) || r == Some(Ordering::Equal))
            || (a >= b) != (r == Some(Ordering::Greater) || r == Some(Ordering::Equal)) {
            return Err(format!("the comparison operators on {}", what));
        }
        #[cfg(hastur_verif)]
        for (x, y) in &[("", ""), ("a", "b"), ("b", "a"), ("a", "")] {
            let x = hastur::verif_hooks::located_string(a.clone(), x.to_string());
            let y = hastur::verif_hooks::located_string(b.clone(), y.to_string());
            compare(x.partial_cmp(&y), "the order of texts at")?;
            compare(x.as_str().partial_cmp(&y.as_str()), "the order of borrowed texts at")?;
            if x.location() != &a {
                return Err(format!("the location of a text at {}", case["a"]));
            }
        }
    }
    // Parts of a text that starts there
    #[cfg(hastur_verif)]
    for (t, places) in case["texts"].as_array().unwrap().iter().zip(o["at"].as_array().unwrap()) {
        let t = crate::text::string(t);
        let whole = hastur::verif_hooks::located_string(a.clone(), t.clone());
        for ((i, c), p) in t.char_indices().zip(places.as_array().unwrap()) {
            let p = location(&mut names, &blocks, p);
            for end in (i..=t.len()).filter(|e| t.is_char_boundary(*e)) {
                let owned = whole.slice(i, end - i);
                let all = whole.as_str();
                let part = all.slice(i, end - i);
                let text: &str = &part;
                if part.location() != &p || owned.location() != &p || text != &t[i..end] || &**owned != text {
                    return Err(format!("{:?} at {}: bytes {}..{} are {:?} at {:?}, specified at {:?}", t, case["a"], i, end, text, part.location(), p));
                }
            }
            let rest = whole.as_str();
            let rest = rest.slice(i, t.len() - i);
            let again = rest.slice(0, c.len_utf8());
            if again.location() != &p {
                return Err(format!("{:?} at {}: a part of the part from byte {}", t, case["a"], i));
            }
            if let Some(q) = places.get(t[..i].chars().count() + 1) {
                let q = location(&mut names, &blocks, q);
                if rest.slice(c.len_utf8(), 0).location() != &q {
                    return Err(format!("{:?} at {}: the second character from byte {} is not at {:?}", t, case["a"], i, q));
                }
            }
        }
    }
    let s = LocatedString::synthetic_new("x");
    if s.location() != &Location::Synthetic {
        return Err("synthetic_new".into());
    }
    Ok(())
}
