use crate::fw::*;
use std::collections::BTreeMap;
use syntaxis::runtime::vocabulary::Vocabulary;

#[derive(Clone, Debug)]
pub enum Op { T(usize, String), N(usize, String), U(usize) }

#[derive(Clone, Default)]
struct Model { t: BTreeMap<usize, String>, n: BTreeMap<usize, String>, u: std::collections::BTreeSet<usize> }

fn same(v: &Vocabulary, m: &Model, ids: &[usize], names: &[&str]) -> Result<(), String> {
    for i in ids {
        eq(&format!("terminal name of {}", i), v.get_terminal_name_by_id(*i), m.t.get(i).cloned())?;
        eq(&format!("rule name of {}", i), v.get_nonterminal_name_by_id(*i), m.n.get(i).cloned())?;
        eq(&format!("is_terminal_id({})", i), v.is_terminal_id(*i), m.t.contains_key(i))?;
        eq(&format!("is_nonterminal_id({})", i), v.is_nonterminal_id(*i), m.u.contains(i))?;
        if let Some(n) = m.t.get(i) { eq("get_terminal_name", v.get_terminal_name(*i), n.clone())?; }
        if let Some(n) = m.n.get(i) { eq("get_nonterminal_name_with_default", v.get_nonterminal_name_with_default(*i), n.clone())?; }
        else { eq("get_nonterminal_name_with_default", v.get_nonterminal_name_with_default(*i), i.to_string())?; }
    }
    for n in names {
        let ti = m.t.iter().find(|(_, x)| x == n).map(|(i, _)| *i);
        let ni = m.n.iter().find(|(_, x)| x == n).map(|(i, _)| *i);
        eq(&format!("terminal id of {:?}", n), v.get_terminal_id_by_name(n), ti)?;
        eq(&format!("rule id of {:?}", n), v.get_nonterminal_id_by_name(n), ni)?;
        eq(&format!("is_terminal_name_defined({:?})", n), v.is_terminal_name_defined(n), ti.is_some())?;
        eq(&format!("is_nonterminal_name_defined({:?})", n), v.is_nonterminal_name_defined(n), ni.is_some())?;
    }
    let mut a: Vec<usize> = v.get_all_terminals().iter().cloned().collect();
    a.sort();
    eq("all terminals", a, m.t.keys().cloned().collect())?;
    let mut a: Vec<usize> = v.get_all_nonterminals().iter().cloned().collect();
    a.sort();
    eq("all rules", a, m.u.iter().cloned().collect())
}

fn run(ops: &[Op], ids: &[usize], names: &[&str]) -> Result<bool, String> {
    let mut v = Vocabulary::new();
    let mut m = Model::default();
    m.t.insert(0, "_START".into());
    m.t.insert(1, "_STOP".into());
    same(&v, &m, ids, names)?;
    let mut refused = false;
    let mut acc = false;
    for op in ops {
        let (got, want) = match op {
            Op::T(i, n) => {
                let ok = !m.t.contains_key(i) && !m.t.values().any(|x| x == n);
                if ok { m.t.insert(*i, n.clone()); }
                (v.add_terminal(*i, n), ok)
            }
            Op::N(i, n) => {
                let ok = !m.u.contains(i) && !m.n.values().any(|x| x == n);
                if ok { m.u.insert(*i); m.n.insert(*i, n.clone()); }
                (v.add_named_nonterminal(*i, n), ok)
            }
            Op::U(i) => (v.add_unnamed_nonterminal(*i), m.u.insert(*i)),
        };
        refused |= !want;
        acc |= want;
        eq(&format!("{:?} accepted", op), got, want)?;
        same(&v, &m, ids, names)?;
    }
    Ok(refused && acc)
}

pub fn c01(c: &mut Ctx) {
    c.rule = "sequences of definitions; non-trivial: at least one accepted and one refused".into();
    let ids = [0usize, 2, 3];
    let names = ["_START", "_STOP", "a", "b", "zz"];
    let mut all = vec![];
    for i in ids { all.push(Op::U(i)); for n in ["a", "b", "_STOP"] { all.push(Op::T(i, n.into())); all.push(Op::N(i, n.into())); } }
    let idl = [0usize, 1, 2, 3, 7];
    for a in all.iter() { for b in all.iter() {
        let s = vec![a.clone(), b.clone()];
        c.case(format!("{:?}", s), || run(&s, &idl, &names));
        for d in all.iter() {
            let s = vec![a.clone(), b.clone(), d.clone()];
            c.case(format!("{:?}", s), || run(&s, &idl, &names));
        }
    } }
    c.exhaustive_note = "all sequences of 2 and 3 definitions over 3 ids x 3 names x 3 kinds".into();
    let ids = [0usize, 1, 2, 3, 4, 5, 6, usize::MAX];
    let mut ids = ids.to_vec();
    ids.extend(sizes(&[], usize::MAX));
    let mut owned: Vec<String> = ["_START", "_STOP", "a", "b", "ab", "", "é", "A", "_start", "'+'", " a", "a ", "0", "3", "_", "\"", "a\nb"].iter().map(|s| s.to_string()).collect();
    for s in dict().strs.iter() { owned.extend([s.clone(), format!("a{}", s), format!("{}a", s), format!("{}{}", s, s)]); }
    let names: Vec<&str> = owned.iter().map(|s| s.as_str()).collect();
    // many definitions
    for n in sizes(&[100, 400], 3000) {
        let s: Vec<Op> = (0..n).flat_map(|i| [Op::T(i + 2, format!("t{}", i)), Op::N(i, format!("n{}", i)), Op::U(i + n), Op::T(i + 2, format!("t{}", i + 1)), Op::N(i + 1, format!("n{}", i))]).collect();
        c.case(format!("{} definitions", s.len()), || {
            let mut v = Vocabulary::new();
            let mut m = Model::default();
            m.t.insert(0, "_START".into());
            m.t.insert(1, "_STOP".into());
            for op in s.iter() {
                let (got, want) = match op {
                    Op::T(i, x) => { let ok = !m.t.contains_key(i) && !m.t.values().any(|y| x == y); if ok { m.t.insert(*i, x.clone()); } (v.add_terminal(*i, x), ok) }
                    Op::N(i, x) => { let ok = !m.u.contains(i) && !m.n.values().any(|y| x == y); if ok { m.u.insert(*i); m.n.insert(*i, x.clone()); } (v.add_named_nonterminal(*i, x), ok) }
                    Op::U(i) => (v.add_unnamed_nonterminal(*i), m.u.insert(*i)),
                };
                eq(&format!("{:?} accepted", op), got, want)?;
            }
            let ids: Vec<usize> = (0..2 * n + 4).collect();
            let names: Vec<String> = (0..n + 2).flat_map(|i| [format!("t{}", i), format!("n{}", i)]).collect();
            same(&v, &m, &ids, &names.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
            Ok(true)
        });
    }
    let n = if c.thorough { 100000 } else { 4000 };
    for _ in 0..n {
        if !c.time_left() { break; }
        let len = 1 + c.rng.below(25);
        let mut s = vec![];
        for _ in 0..len {
            let i = *c.rng.pick(&ids);
            let nm = c.rng.pick(&names).to_string();
            s.push(match c.rng.below(5) { 0 | 1 => Op::T(i, nm), 2 | 3 => Op::N(i, nm), _ => Op::U(i) });
        }
        c.case(format!("{:?}", s), || run(&s, &ids, &names));
    }
}
