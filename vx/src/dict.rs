//! Literals of the source tree: a search heuristic for the executable contracts. Literals that a
//! changed tree has beyond the committed baseline are worth trying as names, texts and numbers.
use std::collections::BTreeMap;

type Counts = BTreeMap<String, usize>;

fn int_of(l: &proc_macro2::Literal) -> Option<i64> {
    match syn::parse_str::<syn::Lit>(&l.to_string()) {
        Ok(syn::Lit::Int(i)) => i.base10_parse::<i64>().ok(),
        Ok(syn::Lit::Byte(b)) => Some(b.value() as i64),
        _ => None,
    }
}

fn walk(ts: proc_macro2::TokenStream, strs: &mut Counts, ints: &mut Counts) {
    let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            proc_macro2::TokenTree::Group(g) => walk(g.stream(), strs, ints),
            proc_macro2::TokenTree::Literal(l) => {
                match syn::parse_str::<syn::Lit>(&l.to_string()) {
                    Ok(syn::Lit::Str(s)) => *strs.entry(s.value()).or_default() += 1,
                    Ok(syn::Lit::Char(c)) => *strs.entry(c.value().to_string()).or_default() += 1,
                    Ok(syn::Lit::ByteStr(s)) => *strs.entry(String::from_utf8_lossy(&s.value()).to_string()).or_default() += 1,
                    _ => {}
                }
                if let Some(a) = int_of(l) {
                    *ints.entry(a.to_string()).or_default() += 1;
                    // constant expressions of two literals
                    let mut j = i + 1;
                    let mut op = String::new();
                    while let Some(proc_macro2::TokenTree::Punct(p)) = v.get(j) {
                        op.push(p.as_char());
                        j += 1;
                    }
                    if let Some(proc_macro2::TokenTree::Literal(m)) = v.get(j) {
                        if let Some(b) = int_of(m) {
                            let r = match op.as_str() {
                                "<<" if b < 40 => a.checked_shl(b as u32),
                                "*" => a.checked_mul(b),
                                "+" => a.checked_add(b),
                                "-" => a.checked_sub(b),
                                _ => None,
                            };
                            if let Some(r) = r {
                                *ints.entry(r.to_string()).or_default() += 1;
                            }
                        }
                    }
                }
            }
            proc_macro2::TokenTree::Ident(id) => {
                let n: u64 = match id.to_string().as_str() {
                    "u8" => 256,
                    "i8" => 128,
                    "u16" => 65536,
                    "i16" => 32768,
                    "u32" => 4294967296,
                    "i32" => 2147483648,
                    _ => 0,
                };
                if n != 0 {
                    *ints.entry(n.to_string()).or_default() += 1;
                }
            }
            _ => {}
        }
    }
}

fn files(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            files(&p, out)
        } else {
            out.push(p)
        }
    }
}

pub fn rust_files(repo: &str) -> Vec<std::path::PathBuf> {
    let mut fs = vec![];
    files(&std::path::Path::new(repo).join("src"), &mut fs);
    fs.sort();
    fs.into_iter().filter(|p| p.extension().map_or(false, |e| e == "rs")).collect()
}

fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn dict(repo: &str) -> String {
    let (mut strs, mut ints) = (Counts::new(), Counts::new());
    let mut fs = vec![];
    files(&std::path::Path::new(repo).join("src"), &mut fs);
    fs.sort();
    for p in fs {
        let Ok(t) = std::fs::read_to_string(&p) else { continue };
        if p.extension().map_or(false, |e| e == "rs") {
            if let Ok(ts) = t.parse::<proc_macro2::TokenStream>() {
                walk(ts, &mut strs, &mut ints);
            }
        } else {
            // templates: their lines, and the numbers in them
            for w in t.split(|c: char| !c.is_ascii_alphanumeric()) {
                if !w.is_empty() && w.bytes().all(|b| b.is_ascii_digit()) && w.len() < 19 {
                    *ints.entry(w.to_string()).or_default() += 1;
                }
            }
            for l in t.lines() {
                let l = l.trim();
                if !l.is_empty() && l.len() <= 80 {
                    *strs.entry(l.to_string()).or_default() += 1;
                }
            }
        }
    }
    let f = |m: &Counts| m.iter().map(|(k, n)| format!("{}: {n}", quoted(k))).collect::<Vec<_>>().join(",\n");
    format!("{{\n\"strs\": {{\n{}\n}},\n\"ints\": {{\n{}\n}}\n}}\n", f(&strs), f(&ints))
}
