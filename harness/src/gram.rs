use crate::fw::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syntaxis::tool::grammar::{Collection, Grammar, Production, ProductionItem as It};

#[derive(Clone, Debug)]
pub struct G {
    pub named: Vec<usize>,
    pub unnamed: Vec<usize>,
    pub terms: Vec<usize>,
    pub prods: Vec<(usize, Vec<It>)>,
    pub style: usize,
}

impl G {
    pub fn nts(&self) -> Vec<usize> { self.named.iter().chain(self.unnamed.iter()).cloned().collect() }
    /// the name of a named rule; the styles keep different rules' names different
    pub fn name(&self, n: usize) -> String {
        match self.style {
            1 => n.to_string(),
            2 => n.wrapping_add(1).to_string(),
            3 => if n == 0 { String::new() } else { format!("_{}", n) },
            4 => format!("T{}", n),
            5 => format!(" é{}\n", n),
            6 => format!("{}{}", dict().strs.first().map_or("", |s| s.as_str()), n),
            7 => format!("{}{}", n, dict().strs.last().map_or("", |s| s.as_str())),
            _ => format!("r{}", n),
        }
    }
    pub fn desc(&self) -> String {
        let mut s = format!("named {:?} (as {:?} ..) unnamed {:?} terminals {:?};", self.named, self.name(0), self.unnamed, self.terms);
        for (l, r) in self.prods.iter() {
            s.push_str(&format!(" R{} ->", l));
            for x in r { s.push_str(&match x { It::NonTerminal(i) => format!(" R{}", i), It::Terminal(i) => format!(" t{}", i) }); }
            s.push(';');
        }
        s
    }
    pub fn build(&self) -> Grammar {
        let mut g = Grammar::new("g");
        for t in self.terms.iter() { g.vocabulary.add_terminal(*t, &format!("T{}", t)); }
        for n in self.named.iter() { g.vocabulary.add_named_nonterminal(*n, &self.name(*n)); }
        for n in self.unnamed.iter() { g.vocabulary.add_unnamed_nonterminal(*n); }
        for (l, r) in self.prods.iter() { g.productions.insert(Production { left: *l, right: r.clone() }); }
        g
    }
}

pub type First = BTreeMap<usize, (bool, BTreeSet<usize>)>;

pub fn ref_nullable(g: &G) -> BTreeSet<usize> {
    let mut n = BTreeSet::new();
    loop {
        let add: Vec<usize> = g.prods.iter()
            .filter(|(l, r)| !n.contains(l) && r.iter().all(|x| matches!(x, It::NonTerminal(i) if n.contains(i))))
            .map(|(l, _)| *l).collect();
        if add.is_empty() { return n; }
        n.extend(add);
    }
}

/// FIRST by reachability in the "can begin with" graph
pub fn ref_first(g: &G) -> First {
    let null = ref_nullable(g);
    let mut edges: BTreeMap<usize, BTreeSet<It2>> = BTreeMap::new();
    for (l, r) in g.prods.iter() {
        for x in r {
            edges.entry(*l).or_default().insert(conv(x));
            match x { It::NonTerminal(i) if null.contains(i) => {}, _ => break }
        }
    }
    let mut out = First::new();
    for a in g.nts() {
        let mut seen = BTreeSet::new();
        let mut set = BTreeSet::new();
        let mut todo = vec![a];
        while let Some(x) = todo.pop() {
            if !seen.insert(x) { continue; }
            if let Some(es) = edges.get(&x) {
                for e in es { match e { It2::T(t) => { set.insert(*t); } It2::N(n) => todo.push(*n) } }
            }
        }
        out.insert(a, (null.contains(&a), set));
    }
    out
}
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
pub enum It2 { T(usize), N(usize) }
fn conv(x: &It) -> It2 { match x { It::NonTerminal(i) => It2::N(*i), It::Terminal(i) => It2::T(*i) } }

pub fn first_of(f: &First, r: &[It]) -> (bool, BTreeSet<usize>) {
    let mut set = BTreeSet::new();
    for x in r {
        match x {
            It::Terminal(t) => { set.insert(*t); return (false, set); }
            It::NonTerminal(n) => {
                let (e, s) = &f[n];
                set.extend(s.iter().cloned());
                if !e { return (false, set); }
            }
        }
    }
    (true, set)
}

pub fn ref_follow(g: &G, f: &First) -> BTreeMap<usize, BTreeSet<usize>> {
    // base facts and inclusion edges, then reachability
    let mut base: BTreeMap<usize, BTreeSet<usize>> = g.nts().into_iter().map(|n| (n, BTreeSet::new())).collect();
    base.entry(0).or_default().insert(1);
    let mut from: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new(); // B -> { A : follow A subset follow B }
    for (l, r) in g.prods.iter() {
        for i in 0..r.len() {
            if let It::NonTerminal(b) = r[i] {
                let (e, s) = first_of(f, &r[i + 1..]);
                base.entry(b).or_default().extend(s);
                if e { from.entry(b).or_default().insert(*l); }
            }
        }
    }
    let mut out = BTreeMap::new();
    for b in g.nts() {
        let mut seen = BTreeSet::new();
        let mut todo = vec![b];
        let mut set = BTreeSet::new();
        while let Some(x) = todo.pop() {
            if !seen.insert(x) { continue; }
            set.extend(base[&x].iter().cloned());
            if let Some(v) = from.get(&x) { todo.extend(v.iter().cloned()); }
        }
        out.insert(b, set);
    }
    out
}

pub fn coll(x: &(bool, BTreeSet<usize>)) -> Collection {
    Collection { allow_epsilon: x.0, set: x.1.iter().cloned().collect() }
}
pub fn uncoll(c: &Collection) -> (bool, BTreeSet<usize>) { (c.allow_epsilon, c.set.iter().cloned().collect()) }
pub fn firsts(f: &First) -> HashMap<usize, Collection> { f.iter().map(|(k, v)| (*k, coll(v))).collect() }

pub fn random_g(rng: &mut Rng, big: bool) -> G {
    let nn = 1 + rng.below(if big { 7 } else { 4 });
    let nt = 1 + rng.below(if big { 6 } else { 3 });
    // ids of terminals and rules overlap on purpose
    let mut ids = vec![0usize];
    while ids.len() < nn { let i = match rng.dint(15) { Some(i) => i, None => match rng.below(8) { 0 => *rng.pick(&FAR), 1 => 100 + rng.below(5), _ => ids.len() } }; if !ids.contains(&i) { ids.push(i) } }
    let mut terms: Vec<usize> = (0..nt).map(|i| i + 2).collect();
    if let Some(i) = rng.dint(20) { if i > 1 && !terms.contains(&i) { terms.push(i) } }
    if rng.chance(10) { let i = *rng.pick(&FAR); if !terms.contains(&i) { terms.push(i) } }
    // the two reserved terminals may stand in productions as well
    for i in 0..2 { if rng.chance(12) { terms.push(i) } }
    let mut named = vec![];
    let mut unnamed = vec![];
    for (k, i) in ids.iter().enumerate() { if k == 0 && rng.chance(90) || rng.chance(70) { named.push(*i) } else { unnamed.push(*i) } }
    let mut prods = vec![];
    let total = 1 + rng.below(if big { 14 } else { 7 });
    let eps = 5 + rng.below(40);
    for _ in 0..total {
        let l = *rng.pick(&ids);
        let len = if rng.chance(eps) { 0 } else { 1 + rng.below(if big { 5 } else { 3 }) };
        let r: Vec<It> = (0..len).map(|_| if rng.chance(60) { It::NonTerminal(*rng.pick(&ids)) } else { It::Terminal(*rng.pick(&terms)) }).collect();
        if !prods.contains(&(l, r.clone())) { prods.push((l, r)); }
    }
    // a production that differs from another in one place
    if rng.chance(15) {
        let (l, mut r) = rng.pick(&prods).clone();
        if rng.chance(40) { for _ in 0..8 { let x = if rng.chance(70) { It::Terminal(*rng.pick(&terms)) } else { It::NonTerminal(*rng.pick(&ids)) }; r.push(x); } if !prods.contains(&(l, r.clone())) { prods.push((l, r.clone())); } }
        if !r.is_empty() {
            let i = *rng.pick(&[0, r.len() - 1, r.len() / 2]);
            r[i] = if rng.chance(50) { It::NonTerminal(*rng.pick(&ids)) } else { It::Terminal(*rng.pick(&terms)) };
            if !prods.contains(&(l, r.clone())) { prods.push((l, r)); }
        }
    }
    G { named, unnamed, terms, prods, style: if rng.chance(60) { 0 } else { rng.below(8) } }
}

/// long and wide grammars: chains (left and right), many alternatives, long nullable right-hand sides
pub fn shape_gs() -> Vec<G> {
    let mut out = vec![];
    for n in sizes(&[9, 40, 120], 400) {
        if n < 2 { continue; }
        let (t, u) = (It::Terminal, It::NonTerminal);
        let named: Vec<usize> = (0..n).filter(|i| i % 5 != 4).collect();
        let unnamed: Vec<usize> = (0..n).filter(|i| i % 5 == 4).collect();
        let g = |terms: Vec<usize>, prods: Vec<(usize, Vec<It>)>| G { named: named.clone(), unnamed: unnamed.clone(), terms, prods, style: 0 };
        // each rule is the next one
        let mut p: Vec<(usize, Vec<It>)> = (0..n - 1).map(|i| (i, vec![u(i + 1)])).collect();
        p.push((n - 1, vec![t(2)]));
        p.push((n - 1, vec![]));
        out.push(g(vec![2], p));
        // each rule ends in the next one and is followed by its own terminal
        let mut p: Vec<(usize, Vec<It>)> = (0..n - 1).map(|i| (i, vec![t(2), u(i + 1)])).collect();
        for i in 0..n { p.push((i, vec![u(i), t(3 + i)])); }
        p.push((n - 1, vec![t(2)]));
        out.push(g((2..n + 3).collect(), p));
        // many alternatives, each a rule with its own terminal; LL(1)
        let mut p: Vec<(usize, Vec<It>)> = (1..n).map(|i| (0, vec![u(i), t(2)])).collect();
        for i in 1..n { p.push((i, vec![t(2 + i)])); }
        out.push(g((2..n + 2).collect(), p));
        // a long right-hand side of nullable rules; LL(1)
        let mut p: Vec<(usize, Vec<It>)> = vec![(0, (1..n).map(u).chain(Some(t(2))).collect())];
        for i in 1..n { p.push((i, vec![])); p.push((i, vec![t(2 + i)])); }
        out.push(g((2..n + 2).collect(), p));
        // long productions that differ in one place
        let but = |j: usize| (0..n).map(|i| if i == j { t(3) } else { t(2) }).collect::<Vec<_>>();
        out.push(g(vec![2, 3], [n, 0, n / 2, n - 1].into_iter().map(|j| (0, but(j))).collect()));
        // a chain of nullable rules, deepest first to be known
        let mut p: Vec<(usize, Vec<It>)> = (0..n - 1).map(|i| (i, vec![u(i + 1), u(i + 1)])).collect();
        p.push((n - 1, vec![]));
        out.push(g(vec![2], p));
    }
    out
}

/// every grammar over two rules and one terminal, at most two productions per rule, right-hand sides up to length 2
pub fn small_gs() -> Vec<G> {
    let syms = [It::NonTerminal(0), It::NonTerminal(1), It::Terminal(2)];
    let mut rhs: Vec<Vec<It>> = vec![vec![]];
    for a in syms { rhs.push(vec![a]); }
    for a in syms { for b in syms { rhs.push(vec![a, b]); } }
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..rhs.len() { sets.push(vec![i]); for j in 0..i { sets.push(vec![j, i]); } }
    let mut out = vec![];
    for a in sets.iter() { for b in sets.iter() {
        let mut prods = vec![];
        for i in a { prods.push((0, rhs[*i].clone())); }
        for i in b { prods.push((1, rhs[*i].clone())); }
        out.push(G { named: vec![0], unnamed: vec![1], terms: vec![2], prods, style: 0 });
    } }
    out
}

fn check_first(g: &G) -> Result<bool, String> {
    let want = ref_first(g);
    let gr = g.build();
    let mut nt = false;
    for _ in 0..2 {
        let (f, p) = gr.first_set();
        eq("rules with a FIRST set", f.keys().cloned().collect::<BTreeSet<_>>(), want.keys().cloned().collect())?;
        for (k, v) in want.iter() {
            nt |= v.1.len() > 0 && v.0;
            eq(&format!("FIRST of R{} (nullable, set)", k), uncoll(&f[k]), v.clone())?;
        }
        let ks: HashSet<(usize, Vec<It>)> = p.keys().map(|p| (p.left, p.right.clone())).collect();
        eq("productions with a FIRST set", ks, g.prods.iter().cloned().collect())?;
        for (pr, c) in p.iter() {
            eq(&format!("FIRST of production {:?} (nullable, set)", pr), uncoll(c), first_of(&want, &pr.right))?;
        }
    }
    Ok(nt)
}

fn check_follow(g: &G, f: &First) -> Result<bool, String> {
    let want = ref_follow(g, f);
    let gr = g.build();
    let got = gr.follow_set(&firsts(f));
    let got: BTreeMap<usize, BTreeSet<usize>> = got.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect();
    for (k, v) in want.iter() {
        eq(&format!("FOLLOW of R{}", k), got.get(k).cloned(), Some(v.clone()))?;
    }
    eq("rules with a FOLLOW set", got.keys().cloned().collect::<BTreeSet<_>>(), want.keys().cloned().collect())?;
    Ok(want.iter().any(|(k, v)| *k != 0 && v.len() > 1))
}

fn check_table(g: &G, pf: &[(bool, BTreeSet<usize>)], fol: &BTreeMap<usize, BTreeSet<usize>>) -> Result<bool, String> {
    let gr = g.build();
    let fs: HashMap<Production, Collection> = g.prods.iter().zip(pf).map(|((l, r), c)| (Production { left: *l, right: r.clone() }, coll(c))).collect();
    let fo: HashMap<usize, HashSet<usize>> = fol.iter().map(|(k, v)| (*k, v.iter().cloned().collect())).collect();
    let t = gr.ll1_table(&fs, &fo);
    let mut pred: BTreeMap<(usize, usize), Vec<(usize, Vec<It>)>> = BTreeMap::new();
    for (p, c) in g.prods.iter().zip(pf) {
        let mut la = c.1.clone();
        if c.0 { la.extend(fol[&p.0].iter().cloned()); }
        for x in la { pred.entry((p.0, x)).or_default().push(p.clone()); }
    }
    for (k, ps) in pred.iter() {
        match t.get(k) {
            None => return Err(format!("no entry for (R{}, t{}), predicted: {:?}", k.0, k.1, ps)),
            Some(p) => {
                if !ps.contains(&(p.left, p.right.clone())) { return Err(format!("entry for (R{}, t{}) is {:?}, predicted: {:?}", k.0, k.1, p, ps)); }
            }
        }
    }
    for (k, p) in t.iter() {
        if !pred.contains_key(k) { return Err(format!("entry for (R{}, t{}) is {:?}, but no production is predicted", k.0, k.1, p)); }
    }
    Ok(pred.len() > 1)
}

pub fn c02(c: &mut Ctx) {
    c.rule = "grammars; non-trivial: some rule is nullable and has a non-empty FIRST set".into();
    c.exhaustive_note = "all grammars over two rules and one terminal with at most two productions each of length at most 2".into();
    for g in small_gs() { c.case(g.desc(), || check_first(&g)); }
    for g in shape_gs() { for _ in 0..3 { c.case(g.desc(), || check_first(&g)); } }
    let n = if c.thorough { 400000 } else { 15000 };
    for k in 0..n { if !c.time_left() { break; } let g = random_g(&mut c.rng, k % 2 == 1); c.case(g.desc(), || check_first(&g)); }
}

fn random_first(rng: &mut Rng, g: &G) -> First {
    g.nts().into_iter().map(|n| {
        let mut s = BTreeSet::new();
        for t in g.terms.iter() { if rng.chance(40) { s.insert(*t); } }
        (n, (rng.chance(40), s))
    }).collect()
}

pub fn c03(c: &mut Ctx) {
    c.rule = "grammars with their FIRST sets (and with arbitrary FIRST sets); non-trivial: some rule other than the start rule has two or more FOLLOW symbols".into();
    c.exhaustive_note = "all grammars over two rules and one terminal with at most two productions each of length at most 2".into();
    for g in small_gs() { let f = ref_first(&g); c.case(g.desc(), || check_follow(&g, &f)); }
    for g in shape_gs() { let f = ref_first(&g); for _ in 0..3 { c.case(g.desc(), || check_follow(&g, &f)); } }
    let n = if c.thorough { 400000 } else { 15000 };
    for k in 0..n {
        if !c.time_left() { break; }
        let g = random_g(&mut c.rng, k % 2 == 1);
        let f = if k % 4 < 3 { ref_first(&g) } else { random_first(&mut c.rng, &g) };
        c.case(format!("{} FIRST {:?}", g.desc(), f), || check_follow(&g, &f));
    }
}

pub fn c04(c: &mut Ctx) {
    c.rule = "grammars with per-production FIRST sets and FOLLOW sets, their own or arbitrary ones; non-trivial: two or more entries".into();
    c.exhaustive_note = "all grammars over two rules and one terminal with at most two productions each of length at most 2".into();
    for g in small_gs().into_iter().chain(shape_gs()) {
        let f = ref_first(&g);
        let fo = ref_follow(&g, &f);
        let pf: Vec<_> = g.prods.iter().map(|(_, r)| first_of(&f, r)).collect();
        c.case(g.desc(), || check_table(&g, &pf, &fo));
    }
    let n = if c.thorough { 400000 } else { 15000 };
    for k in 0..n {
        if !c.time_left() { break; }
        let g = random_g(&mut c.rng, k % 2 == 1);
        let (pf, fo);
        if k % 3 < 2 {
            let f = ref_first(&g);
            fo = ref_follow(&g, &f);
            pf = g.prods.iter().map(|(_, r)| first_of(&f, r)).collect::<Vec<_>>();
        } else {
            let rng = &mut c.rng;
            pf = g.prods.iter().map(|_| { let mut s = BTreeSet::new(); for t in g.terms.iter() { if rng.chance(30) { s.insert(*t); } } (rng.chance(40), s) }).collect();
            fo = g.nts().into_iter().map(|n| { let mut s = BTreeSet::new(); for t in 1..5 { if rng.chance(30) { s.insert(t); } } (n, s) }).collect();
        }
        c.case(format!("{} FIRST {:?} FOLLOW {:?}", g.desc(), pf, fo), || check_table(&g, &pf, &fo));
    }
}
