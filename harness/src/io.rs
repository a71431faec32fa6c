use crate::fw::*;
use crate::tree::{random_tree, to_rule, tree_of, T};
use serde_json::{json, Value};
use syntaxis::tool::gui::ast_drawer::ASTDrawer;
use syntaxis::tool::serde_ast;

// ---------------------------------------------------------------- C17
#[derive(Debug, PartialEq, Clone)]
enum J { Leaf(usize, String, String), Node(usize, String, Vec<J>) }

fn ref_leaf(v: &Value) -> Option<J> {
    let o = v.as_object();
    let g = |k: &str| o.and_then(|o| o.get(k));
    Some(J::Leaf(g("token_type")?.as_u64()? as usize, g("token_name")?.as_str()?.into(), g("text").and_then(|t| t.as_str()).unwrap_or("<no text>").into()))
}
fn ref_node(v: &Value) -> Option<J> {
    let o = v.as_object()?;
    let cs = o.get("children")?.as_array()?;
    let ri = o.get("rule_index")?.as_u64()? as usize;
    let rn = o.get("rule_name")?.as_str()?.to_string();
    let mut out = vec![];
    for c in cs {
        let has = c.as_object().and_then(|o| o.get("children")).map_or(false, |x| !x.is_null());
        out.push(if has { ref_node(c)? } else { ref_leaf(c)? });
    }
    Some(J::Node(ri, rn, out))
}
fn conv(t: &T) -> J {
    match t { T::Leaf(x) => J::Leaf(x.token_type, x.token_name.clone(), x.text.clone()), T::Err(_) => J::Leaf(usize::MAX, "ERROR".into(), "".into()),
        T::Node(a, b, c) => J::Node(*a, b.clone(), c.iter().map(conv).collect()) }
}
// a reader that hands out the document in pieces, now and then interrupted
struct Pieces<'a> { rest: &'a [u8], size: usize, k: usize }
impl std::io::Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.k += 1;
        if self.k % 5 == 3 { return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)); }
        let n = self.size.min(self.rest.len()).min(b.len());
        b[..n].copy_from_slice(&self.rest[..n]);
        self.rest = &self.rest[n..];
        Ok(n)
    }
}
fn check17(s: &str) -> Result<bool, String> {
    let want = serde_json::from_str::<Value>(s).ok().and_then(|v| ref_node(&v));
    let a = serde_ast::from_str(s).ok().map(|r| conv(&tree_of(&r)));
    let b = serde_ast::from_reader(s.as_bytes()).ok().map(|r| conv(&tree_of(&r)));
    eq("from_str", a, want.clone())?;
    eq("from_reader", b, want.clone())?;
    let size = [1, 7, 64, 1000, 1 << 20][s.len() % 5];
    let c = serde_ast::from_reader(Pieces { rest: s.as_bytes(), size, k: 0 }).ok().map(|r| conv(&tree_of(&r)));
    eq(&format!("from_reader, {} bytes at a time", size), c, want.clone())?;
    Ok(s.len() > 60)
}
fn rand_scalar(rng: &mut Rng) -> Value {
    if let Some(i) = rng.dint(20) { return json!(i) }
    if let Some(s) = rng.dstr(20) { return json!(s) }
    match rng.below(9) { 0 => json!(null), 1 => json!(-1), 2 => json!(1.5), 3 => json!("x"), 4 => json!([]), 5 => json!({}), 6 => json!(true), 7 => json!(18446744073709551615u64), _ => json!(3) }
}
fn rand_text(rng: &mut Rng) -> String {
    let n = rng.below(4);
    (0..n).map(|_| rng.dstr(25).unwrap_or(rng.pick(&["a", "\n", "\"", "\\", "é", "<no text>", "", "0", "𝒳", "\u{0}", " ", "\t"]).to_string())).collect()
}
fn rand_json(rng: &mut Rng, depth: usize, bad: usize) -> Value {
    let leaf = depth == 0 || rng.chance(50);
    let mut m = serde_json::Map::new();
    if leaf {
        m.insert("token_type".into(), json!(rng.dint(10).unwrap_or(rng.below(30))));
        m.insert("token_name".into(), json!(rand_text(rng)));
        if rng.chance(70) { m.insert("text".into(), json!(rand_text(rng))); }
        if rng.chance(10) { m.insert("children".into(), json!(null)); }
    } else {
        let n = rng.below(4);
        m.insert("children".into(), Value::Array((0..n).map(|_| rand_json(rng, depth - 1, bad)).collect()));
        m.insert("rule_index".into(), json!(rng.dint(10).unwrap_or(rng.below(12))));
        m.insert("rule_name".into(), json!(rand_text(rng)));
    }
    if rng.chance(10) { m.insert("extra".into(), rand_scalar(rng)); }
    if rng.chance(bad) {
        let keys: Vec<String> = m.keys().cloned().collect();
        let k = rng.pick(&keys).clone();
        if rng.chance(40) { m.remove(&k); } else { let v = rand_scalar(rng); m.insert(k, v); }
    }
    if rng.chance(bad / 4) { return rand_scalar(rng); }
    Value::Object(m)
}
pub fn c17(c: &mut Ctx) {
    c.rule = "JSON documents, well-formed trees and trees with one or more fields removed or of another type, and non-JSON text; non-trivial: longer than 60 bytes".into();
    // one field of every kind of node removed or replaced by every scalar, at root, inner node and leaf
    let base = json!({"rule_index":0,"rule_name":"a","children":[{"token_type":2,"token_name":"T","text":"x"},{"rule_index":1,"rule_name":"b","children":[{"token_type":3,"token_name":"U"}]},{"token_type":4,"token_name":"V","text":"y","children":null}]});
    let paths = ["", "/children/0", "/children/1", "/children/1/children/0", "/children/2"];
    let scal = [json!(null), json!(-1), json!(1.5), json!("x"), json!([]), json!({}), json!(true), json!(18446744073709551615u64), json!(4294967296u64), json!(0)];
    for p in paths { for f in ["rule_index", "rule_name", "children", "token_type", "token_name", "text"] {
        let mut v = base.clone();
        if let Some(o) = v.pointer_mut(p).and_then(|x| x.as_object_mut()) { o.remove(f); }
        let s = v.to_string(); c.case(s.clone(), || check17(&s));
        for x in scal.iter() {
            let mut v = base.clone();
            if let Some(o) = v.pointer_mut(p).and_then(|x| x.as_object_mut()) { o.insert(f.into(), x.clone()); }
            let s = v.to_string(); c.case(s.clone(), || check17(&s));
        }
    } }
    for p in &paths[1..] { for x in scal.iter() { let mut v = base.clone(); *v.pointer_mut(p).unwrap() = x.clone(); let s = v.to_string(); c.case(s.clone(), || check17(&s)); } }
    for x in scal.iter() { let s = x.to_string(); c.case(s.clone(), || check17(&s)); }
    c.exhaustive_note = "every field of every kind of node removed or replaced by each of 10 scalars in a sample document".into();
    let n = if c.thorough { 300000 } else { 15000 };
    for k in 0..n {
        if !c.time_left() { break; }
        let v = rand_json(&mut c.rng, 3, if k % 2 == 0 { 0 } else { 12 });
        let mut s = v.to_string();
        if k % 20 == 19 { let cs: Vec<char> = s.chars().collect(); let cut = c.rng.below(cs.len() + 1); s = cs[..cut].iter().collect(); }
        // something before or after the document
        let odd = [" ", "\n", "x", "}", "]", ",", "null", "0", "{}", "\u{feff}", "//", "/* */", "\u{0}", "#", ";", "\u{a0}"];
        let x = *c.rng.pick(&odd);
        if k % 20 == 18 { s.push_str(x); if c.rng.chance(30) { s.push_str(*c.rng.pick(&odd)); } }
        if k % 20 == 17 { s.insert_str(0, x); }
        if k % 20 == 16 { let t = s.clone(); s.push_str(x); s.push_str(&t); }
        c.case(s.clone(), || check17(&s));
    }
    // long documents: many children, long texts
    for n in sizes(&[50, 3000], 200_000) {
        let leaf = r#"{"token_type":2,"token_name":"T","text":"some text"}"#;
        let m = n.min(20_000);
        let s = format!(r#"{{"rule_index":0,"rule_name":"a","children":[{}]}}"#, vec![leaf; m].join(","));
        c.case(s.clone(), || check17(&s));
        let s = format!(r#"{{"rule_index":0,"rule_name":"a","children":[{{"token_type":2,"token_name":"T","text":"{}"}}]}}"#, "x".repeat(n));
        c.case(s.clone(), || check17(&s));
        let s = format!(r#"{{"rule_index":{},"rule_name":"a","children":[{{"token_type":{},"token_name":"T"}}]}}"#, n, n);
        c.case(s.clone(), || check17(&s));
    }
    // depth
    for d in [1usize, 50, 120, 127, 128, 200, 1000] {
        let s = format!("{}{}{}", "{\"rule_index\":1,\"rule_name\":\"r\",\"children\":[".repeat(d), "{\"token_type\":2,\"token_name\":\"T\"}", "]}".repeat(d));
        c.case(s.clone(), || check17(&s));
    }
}

// ---------------------------------------------------------------- C18
#[derive(Debug, PartialEq, Clone)]
enum V { Str(String), Arr(Vec<V>), Obj(Vec<(String, V)>) }

struct P<'a> { s: &'a [char], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i].is_whitespace()) { self.i += 1; } }
    fn peek(&self) -> Option<char> { self.s.get(self.i).cloned() }
    fn eat(&mut self, c: char) -> Result<(), String> { self.ws(); if self.peek() == Some(c) { self.i += 1; Ok(()) } else { Err(format!("expected {:?} at {} of the literal, found {:?}", c, self.i, self.peek())) } }
    fn value(&mut self) -> Result<V, String> {
        self.ws();
        match self.peek() {
            Some('{') => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.peek() == Some('}') { self.i += 1; return Ok(V::Obj(v)); }
                    let mut k = String::new();
                    while let Some(c) = self.peek() { if c.is_alphanumeric() || c == '_' { k.push(c); self.i += 1 } else { break } }
                    if k.is_empty() { return Err(format!("no key at {} of the literal", self.i)); }
                    self.eat(':')?;
                    let x = self.value()?;
                    v.push((k, x));
                    self.ws();
                    if self.peek() == Some(',') { self.i += 1; } else { self.eat('}')?; return Ok(V::Obj(v)); }
                }
            }
            Some('[') => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.peek() == Some(']') { self.i += 1; return Ok(V::Arr(v)); }
                    v.push(self.value()?);
                    self.ws();
                    if self.peek() == Some(',') { self.i += 1; } else { self.eat(']')?; return Ok(V::Arr(v)); }
                }
            }
            Some('`') => self.template(),
            Some(q @ ('"' | '\'')) => self.string(q),
            Some(c) if c.is_ascii_digit() => { let mut k = String::new(); while let Some(c) = self.peek() { if c.is_ascii_digit() { k.push(c); self.i += 1 } else { break } } Ok(V::Str(k)) }
            x => Err(format!("unexpected {:?} at {} of the literal", x, self.i)),
        }
    }
    fn esc(&mut self, out: &mut String) -> Result<(), String> {
        // after the backslash
        let c = self.peek().ok_or("unfinished escape")?;
        self.i += 1;
        match c {
            'n' => out.push('\n'), 't' => out.push('\t'), 'r' => out.push('\r'), 'b' => out.push('\u{8}'), 'f' => out.push('\u{c}'), 'v' => out.push('\u{b}'),
            '0' if !self.peek().map_or(false, |c| c.is_ascii_digit()) => out.push('\0'),
            '0'..='9' => return Err("octal escape is a syntax error".into()),
            'x' | 'u' => {
                let mut h = String::new();
                if c == 'u' && self.peek() == Some('{') { self.i += 1; while let Some(c) = self.peek() { self.i += 1; if c == '}' { break } h.push(c); } }
                else { for _ in 0..(if c == 'x' { 2 } else { 4 }) { h.push(self.peek().ok_or("short escape")?); self.i += 1; } }
                let n = u32::from_str_radix(&h, 16).map_err(|_| format!("bad escape {}", h))?;
                out.push(char::from_u32(n).ok_or("lone surrogate")?);
            }
            '\r' => { if self.peek() == Some('\n') { self.i += 1; } }
            '\n' | '\u{2028}' | '\u{2029}' => {}
            c => out.push(c),
        }
        Ok(())
    }
    fn template(&mut self) -> Result<V, String> {
        self.i += 1;
        let mut out = String::new();
        loop {
            let c = self.peek().ok_or("template literal does not end")?;
            self.i += 1;
            match c {
                '`' => return Ok(V::Str(out)),
                '$' if self.peek() == Some('{') => return Err(format!("substitution ${{ at {}: text would be evaluated as code", self.i)),
                '\\' => self.esc(&mut out)?,
                '\r' => { if self.peek() == Some('\n') { self.i += 1; } out.push('\n') }
                c => out.push(c),
            }
        }
    }
    fn string(&mut self, q: char) -> Result<V, String> {
        self.i += 1;
        let mut out = String::new();
        loop {
            let c = self.peek().ok_or("string does not end")?;
            self.i += 1;
            match c {
                c if c == q => return Ok(V::Str(out)),
                '\n' | '\r' => return Err("line break in a string".into()),
                '\\' => self.esc(&mut out)?,
                c => out.push(c),
            }
        }
    }
}

fn want18(t: &T) -> V {
    match t {
        T::Leaf(x) | T::Err(x) => V::Obj(vec![("name".into(), V::Str(x.token_name.clone())), ("text".into(), V::Str(x.text.clone()))]),
        T::Node(r, n, c) => V::Obj(vec![("name".into(), V::Str(n.clone())), ("id".into(), V::Str(r.to_string())), ("children".into(), V::Arr(c.iter().map(want18).collect()))]),
    }
}
fn norm(v: V) -> V {
    match v { V::Obj(mut o) => { o.sort_by(|a, b| a.0.cmp(&b.0)); V::Obj(o.into_iter().map(|(k, v)| (k, norm(v))).collect()) } V::Arr(a) => V::Arr(a.into_iter().map(norm).collect()), s => s }
}

/// the script element's text as an HTML parser sees it: up to the first "</script"; with "<!--" followed by "<script" it may not end at all
fn script_text(html: &str) -> Result<&str, String> {
    let at = html.find("const ast = ").ok_or("no tree data in the file")?;
    let low = html.to_ascii_lowercase();
    let end = low[at..].find("</script").map(|e| at + e).ok_or("script element does not end")?;
    if low[at..end].contains("<!--") { return Err("data contains <!-- which changes how the script element ends".into()); }
    Ok(&html[at + "const ast = ".len()..end])
}

fn check18(d: &ASTDrawer, t: &T, file: &str, tail: &str) -> Result<bool, String> {
    let r = to_rule(t);
    d.draw(&r, "n", file);
    let bytes = std::fs::read(file).map_err(|e| e.to_string())?;
    let html = String::from_utf8(bytes).map_err(|_| "file is not UTF-8".to_string())?;
    let sc = script_text(&html)?;
    let cs: Vec<char> = sc.chars().collect();
    let mut p = P { s: &cs, i: 0 };
    let v = p.value()?;
    p.eat(';')?;
    eq("evaluated data", norm(v), norm(want18(t)))?;
    // what follows is the template's own script
    let rest: String = cs[p.i..].iter().collect();
    if !rest.starts_with(tail) { return Err("the rest of the script is not the template's".into()); }
    Ok(true)
}
fn retext(t: &mut T, rng: &mut Rng) {
    static BITS: [&str; 28] = [" ", "\t", "  ", "\u{feff}", "`", "\\", "$", "{", "}", "${", "${x}", "\r", "\n", "\r\n", "<", "/", "</script>", "<!--", "\"", "'", "a", "é", "𝒳", "\u{2028}", "n", "u0041", "\\`", "</SCRIPT "];
    let mut s = || { let n = rng.below(5); (0..n).map(|_| rng.dstr(25).unwrap_or(rng.pick(&BITS).to_string())).collect::<String>() };
    match t {
        T::Leaf(x) | T::Err(x) => { x.text = s(); x.token_name = s(); }
        T::Node(_, n, c) => { *n = s(); for x in c.iter_mut() { retext(x, rng); } }
    }
}
pub fn c18(c: &mut Ctx) {
    c.rule = "trees whose names and texts mix back-ticks, backslashes, ${, line ends, quotes and </script>; every case non-trivial".into();
    let dir = std::env::temp_dir().join(format!("vx-c18-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("t.html").to_str().unwrap().to_string();
    let d = ASTDrawer::new();
    let plain = T::Node(0, "r".into(), vec![]);
    d.draw(&to_rule(&plain), "n", &file);
    let html = std::fs::read_to_string(&file).unwrap();
    let tail = script_text(&html).ok().and_then(|s| s.find("};").map(|i| s[i + 2..].to_string())).unwrap_or("\u{1}no data".into());
    let leaf = |text: &str| { let mut r = Rng(3); let mut k = crate::tree::mk_token(&mut r, 2, 0); k.text = text.into(); k.token_name = text.into(); k };
    let al = [' ', '`', '\\', '$', '{', '\r', '\n', '<', '/', 's', '!', '-', '>', 'n'];
    for a in al { for b in al { for e in [None, Some('{'), Some('`'), Some('\\'), Some('$')] {
        let mut s = format!("{}{}", a, b);
        if let Some(e) = e { s.push(e) }
        let t = T::Node(7, s.clone(), vec![T::Leaf(leaf(&s)), T::Err(leaf(&s))]);
        c.case(format!("{:?}", t), || check18(&d, &t, &file, &tail));
    } } }
    c.exhaustive_note = "all names and texts of 2 characters over 14 special characters, and 3 with a special third".into();
    let n = if c.thorough { 50000 } else { 2500 };
    for k in 0..n {
        if !c.time_left() { break; }
        let mut next = 0;
        let mut t = random_tree(&mut c.rng, 1 + k % 3, 4, &mut next);
        retext(&mut t, &mut c.rng);
        c.case(format!("{:?}", t), || check18(&d, &t, &file, &tail));
    }
    for t in crate::tree::shapes(&mut c.rng, 3) { c.case(format!("{:?}", t), || check18(&d, &t, &file, &tail)); }
    for n in sizes(&[], 100_000) { let t = T::Node(n, "r".into(), vec![T::Leaf(leaf(&"`".repeat(n)))]); c.case(format!("a text of {} back-ticks", n), || check18(&d, &t, &file, &tail)); }
    let big: String = "x`\\".repeat(200_000);
    let t = T::Node(7, "big".into(), vec![T::Leaf(leaf(&big))]);
    c.case("one leaf with a text of 600000 characters".into(), || check18(&d, &t, &file, &tail));
    let _ = std::fs::remove_dir_all(&dir);
}
