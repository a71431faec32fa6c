use crate::fw::*;
use crate::gen_lexer::GenLexer;
use regex::Regex;
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::Token;
use syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer as L0;
use syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer as L1;

#[derive(Clone, Debug, PartialEq)]
pub struct K { ty: usize, name: String, text: String, cs: usize, ce: usize, sl: usize, sc: usize, el: usize, ec: usize, idx: usize, ch: usize }

fn k(t: &Token) -> K {
    K { ty: t.token_type, name: t.token_name.clone(), text: t.text.clone(), cs: t.char_start_index, ce: t.char_stop_index, sl: t.start.line, sc: t.start.char_position,
        el: t.stop.line, ec: t.stop.char_position, idx: t.token_index, ch: t.channel }
}

/// (line breaks before, bytes since the last one) of every place
fn places(s: &str) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 0)];
    for b in s.as_bytes() { let (l, c) = v[v.len() - 1]; v.push(if *b == b'\n' { (l + 1, 0) } else { (l, c + 1) }); }
    v
}

/// reference: all tokens of single scans; bool: whole input consumed
fn ref_scan(s: &str, re: &[Regex], names: &[String], stop: bool) -> (Vec<K>, bool) {
    let mut out = vec![];
    let mut at = 0;
    let pos = places(s);
    loop {
        if at == s.len() {
            if stop {
                let (l, c) = pos[at];
                out.push(K { ty: 1, name: "_STOP".into(), text: "_STOP".into(), cs: at, ce: at, sl: l, sc: c, el: l, ec: c, idx: out.len(), ch: 0 });
            }
            return (out, true);
        }
        let mut best: Option<(usize, usize)> = None;
        for (i, r) in re.iter().enumerate() {
            if let Some(m) = r.find(&s[at..]) {
                if m.start() == 0 && m.end() > 0 && best.map_or(true, |b| m.end() > b.1) { best = Some((i, m.end())); }
            }
        }
        match best {
            None => return (out, false),
            Some((i, n)) => {
                let (l, c) = pos[at];
                let (l2, c2) = pos[at + n];
                out.push(K { ty: i + 2, name: names[i + 2].clone(), text: s[at..at + n].into(), cs: at, ce: at + n, sl: l, sc: c, el: l2, ec: c2, idx: out.len(), ch: 0 });
                at += n;
            }
        }
    }
}

pub struct Cfg { which: usize, input: String, res: Option<Vec<&'static str>> }

/// channels asked for: the one tokens are on, and another one
fn chans(c: &Cfg) -> Vec<usize> { let v = sizes(&[1, 2], usize::MAX); vec![0, v[c.input.len() % v.len()]] }
struct Run { toks: Vec<K>, cursors: Vec<usize>, err: bool, bulk: Vec<Vec<K>>, re: Vec<Regex>, names: Vec<String>, stop: bool, skip: Vec<usize>, err2: bool, late: (usize, Vec<K>, usize) }

macro_rules! drive {
    ($ty:ident, $cfg:expr, $stop:expr, $skip:expr, $bulk:expr) => {{
        let mk = || {
            let mut l = $ty::new(&$cfg.input);
            if let Some(r) = &$cfg.res {
                l.regex_list = r.iter().map(|x| pool(x)).collect();
                let mut names = vec!["_START", "_STOP"];
                for i in 0..r.len() { names.push(NAMES[i % NAMES.len()]); }
                l.token_names = names;
            }
            l
        };
        let mut l = mk();
        let mut toks = vec![];
        let mut cursors = vec![l.cursor];
        let mut err = false;
        for _ in 0..$cfg.input.len() + 3 {
            match l.scan() { Ok(t) => { toks.push(k(&t)); cursors.push(l.cursor) } Err(_) => { err = true; cursors.push(l.cursor); break; } }
        }
        let err2 = l.scan().is_err();
        let bulk = if !$bulk { vec![] } else { chans($cfg) }.into_iter().map(|ch| mk().scan_all_on_channel_tokens(ch).iter().map(k).collect()).collect();
        // a bulk scan after some single ones, and another one after it
        let late = if !$bulk { (0, vec![], 0) } else {
            let mut l = mk();
            let mut j = 0;
            while j < 1 + $cfg.input.len() % 3 && l.scan().is_ok() { j += 1; }
            let t = l.scan_all_on_channel_tokens(0).iter().map(k).collect();
            (j, t, l.scan_all_on_channel_tokens(0).len())
        };
        Run { toks, cursors, err, bulk, late, re: l.regex_list.clone(), names: l.token_names.iter().map(|s| s.to_string()).collect(), stop: $stop, skip: $skip, err2 }
    }};
}
static NAMES: [&str; 7] = ["TA", "TB", "TC", "TD", "TE", "TF", "TG"];

thread_local!(static CACHE: std::cell::RefCell<std::collections::HashMap<String, Regex>> = Default::default());
fn pool(x: &str) -> Regex {
    CACHE.with(|c| c.borrow_mut().entry(x.to_string()).or_insert_with(|| Regex::new(x).unwrap()).clone())
}
fn run(c: &Cfg, bulk: bool) -> Run {
    match c.which {
        0 => drive!(L0, c, false, vec![L0::LINE_COMMENT, L0::BLOCK_COMMENT, L0::WS], bulk),
        1 => drive!(L1, c, true, vec![L1::WHITE_SPACE], bulk),
        _ => drive!(GenLexer, c, true, vec![GenLexer::WHITE_SPACE], bulk),
    }
}

fn check07(c: &Cfg) -> Result<bool, String> {
    let r = run(c, false);
    let (want, _) = ref_scan(&c.input, &r.re, &r.names, r.stop);
    for (i, w) in want.iter().enumerate() {
        match r.toks.get(i) {
            None => return Err(format!("scan {} fails, specified {:?}", i, w)),
            Some(g) => eq(&format!("scan {} (number, text, offsets)", i), (g.ty, &g.text, g.cs, g.ce), (w.ty, &w.text, w.cs, w.ce))?,
        }
    }
    if r.toks.len() > want.len() { return Err(format!("scan {} gives {:?}, specified: scanning fails", want.len(), r.toks[want.len()])); }
    eq("scanning ends with a failure", r.err, true)?;
    eq("scanning keeps failing", r.err2, true)?;
    if r.toks.last().map_or(true, |t| t.ty != 1) {
        let n = r.cursors.len();
        eq("cursor after a failed scan", r.cursors[n - 1], want.last().map_or(0, |t| t.ce))?;
    }
    Ok(want.len() > 2)
}
fn check08(c: &Cfg) -> Result<bool, String> {
    let r = run(c, true);
    // against the single scans of the code itself
    for (k, ch) in chans(c).into_iter().enumerate() {
        let want: Vec<K> = r.toks.iter().filter(|t| !r.skip.contains(&t.ty) && t.ch == ch).cloned().collect();
        eq(&format!("bulk scan on channel {}", ch), r.bulk[k].clone(), want)?;
    }
    let want: Vec<K> = r.toks.iter().skip(r.late.0).filter(|t| !r.skip.contains(&t.ty) && t.ch == 0).cloned().collect();
    eq(&format!("bulk scan after {} single scans", r.late.0), r.late.1.clone(), want)?;
    eq("tokens of a second bulk scan", r.late.2, 0)?;
    eq("single scans end", r.err, true)?;
    Ok(r.bulk[0].len() > 1 && r.bulk[0].len() < r.toks.len())
}
fn check09(c: &Cfg) -> Result<bool, String> {
    let r = run(c, true);
    // positions are judged against where the token's own text lies
    let mut at = 0;
    let pos = places(&c.input);
    for (i, t) in r.toks.iter().enumerate() {
        let n = if t.ty == 1 && r.stop { 0 } else { t.text.len() };
        if at + n > c.input.len() { return Err(format!("token {} {:?} runs past the input", i, t)); }
        let (a, b) = (pos[at], pos[at + n]);
        eq(&format!("start line and column of token {} {:?}", i, t.text), (t.sl, t.sc), a)?;
        eq(&format!("stop line and column of token {} {:?}", i, t.text), (t.el, t.ec), b)?;
        eq(&format!("index of token {} {:?}", i, t.text), t.idx, i)?;
        at += n;
    }
    // the same holds for what bulk scans return
    let place = |t: &K| ((t.sl, t.sc), (t.el, t.ec), t.idx);
    for (what, j, ts) in [("bulk scan".to_string(), 0, &r.bulk[0]), (format!("bulk scan after {} single scans", r.late.0), r.late.0, &r.late.1)] {
        for t in ts.iter() {
            if let Some(w) = r.toks.iter().skip(j).find(|w| w.cs == t.cs && w.ty == t.ty) { eq(&format!("place and index of token {:?} in a {}", t.text, what), place(t), place(w))?; }
        }
    }
    Ok(r.toks.len() > 2 && c.input.contains('\n'))
}

static POOL: [&str; 18] = ["^([a-z]+)", "^(if)", "^(a|ab)", "^(a*)", "^([ \\n]+)", "^(\\n)", "^(ε+)", "^(/\\*(?s:.)*?\\*/)", "^(ab?c?)", "^()", "^(é|e)", "^([0-9]+)",
    "^(.)", "^(a\\n)", "^((?s:.)b)", "^(\\r\\n)", "^(/)", "^(b+\\n*)"];
static CHUNKS: [&str; 52] = ["a", "b", "ab", "abc", "if", " ", "\n", "\n\n", "ε", "é", "/", "/*", "*/", "/* x\n y */", "//c\n", "0", "12", "+", "*", ";", ":", "::=", "|", "(", ")", "'x'", "/re\\/x/", "Ab",
    "epsilon", "?", "\r\n", "\t", "fragment", "_", "\u{c}", "\r", "#", "''", "'\\''", ".", "..", "~", "=>", "->", ":=", "=", " \u{c} ", "ab()", "if()", "\u{c}\n", "\u{c} \n ", "//\n"];
// inputs with a character no built-in rule matches
static BAD: [&str; 3] = ["@", "𝒳", "\u{0}"];

fn gen(rng: &mut Rng) -> Cfg {
    let mut input = String::new();
    for _ in 0..rng.below(12) {
        let d = rng.dstr(25);
        let s = match &d { Some(s) => s.as_str(), None => if rng.chance(3) { *rng.pick(&BAD) } else { *rng.pick(&CHUNKS) } };
        let times = if rng.chance(3) { 1 + rng.below(40) } else if let Some(i) = rng.dint(5) { i.min(3000) } else { 1 };
        for _ in 0..times { input.push_str(s); }
    }
    let res = if rng.chance(50) { None } else { Some((0..1 + rng.below(6)).map(|_| *rng.pick(&POOL)).collect()) };
    Cfg { which: rng.below(3), input, res }
}
fn desc(c: &Cfg) -> String {
    format!("lexer {}; rules {:?}; input {:?}", ["tool::syntaxis", "tool::v1", "generated from the template"][c.which], c.res, c.input)
}
fn go(c: &mut Ctx, f: fn(&Cfg) -> Result<bool, String>) {
    // every input of up to 4 characters over a small alphabet, per lexer
    let al = ['a', '\n', ' ', '/', 'ε', '*', '\u{c}'];
    let mut ins = vec![String::new()];
    let mut lo = 0;
    for _ in 0..(if c.thorough { 5 } else { 3 }) { let hi = ins.len(); for i in lo..hi { for a in al { let mut s = ins[i].clone(); s.push(a); ins.push(s); } } lo = hi; }
    c.exhaustive_note = format!("all inputs of up to {} characters over {:?} for each of the three lexers with its own rules", if c.thorough { 5 } else { 3 }, al);
    for (n, s) in ins.into_iter().enumerate() { if n % c.shard.1 != c.shard.0 { continue; } for w in 0..3 { let cfg = Cfg { which: w, input: s.clone(), res: None }; c.case(desc(&cfg), || f(&cfg)); } }
    // long tokens
    for n in sizes(&[300, 1500, 70_000], 200_000) {
        let x = |s: &str| s.repeat(n / s.len() + 1);
        for (k, s) in [x("a"), x(" "), x("\n"), format!("'{}'", x("b")), format!("/{}/", x("é")), format!("//{}\n", x("c")), format!("/*{}*/", x("d\n")), x("ε"), format!("{}()", x("a")), format!("\u{c}{}", x("\n"))].into_iter().enumerate() {
            if k % c.shard.1 != c.shard.0 % 8 && k % 8 != c.shard.0 % 8 || (k == 7 && n > 5000) { continue; }
            for w in 0..3 { let cfg = Cfg { which: w, input: format!("ab {};", s), res: None }; c.case(desc(&cfg), || f(&cfg)); }
        }
    }
    // many tokens
    for n in sizes(&[600], 70_000) {
        if n < 600 { continue; }
        for (k, s) in ["a;", "\n", ";\n", ": "].into_iter().enumerate() {
            if k != c.shard.0 % 4 && n > 5000 { continue; }
            let one = if s == "\n" { ";\n;".repeat(n / 2) } else { s.repeat(n / 2 + 1) };
            for w in 0..3 { let cfg = Cfg { which: w, input: one.clone(), res: None }; c.case(desc(&cfg), || f(&cfg)); }
        }
    }
    let n = if c.thorough { 100000 } else { 5000 };
    for _ in 0..n { if !c.time_left() { break; } let cfg = gen(&mut c.rng); c.case(desc(&cfg), || f(&cfg)); }
}
pub fn c07(c: &mut Ctx) { c.rule = "texts x lexers x rule lists (built-in and random); non-trivial: three or more tokens".into(); go(c, check07) }
pub fn c08(c: &mut Ctx) { c.rule = "texts x lexers x rule lists (built-in and random); non-trivial: some tokens kept and some skipped".into(); go(c, check08) }
pub fn c09(c: &mut Ctx) { c.rule = "texts x lexers x rule lists (built-in and random); non-trivial: three or more tokens and a line break".into(); go(c, check09) }
