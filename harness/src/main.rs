//! Executable form of the contracts: `oracle ID OUT.json CUR.txt [--seed N] [--tier quick|thorough] [--millis N]`
//! Runs the real code of /repo on generated inputs and compares it with the specification.
//! Exit 0: everything agreed; 1: a failing input was found (written to OUT.json).
#![allow(clippy::all)]
mod fw;
mod gram;
mod lang;
mod lex;
mod tree;
mod voc;
mod io;
mod front;
#[allow(unused_imports, dead_code)]
mod gen_lexer {
    include!(concat!(env!("OUT_DIR"), "/gen_lexer.rs"));
}
use fw::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut seed = 1u64;
    let mut tier = "quick".to_string();
    let mut millis = 4000u64;
    let mut shard = (0usize, 1usize);
    let mut i = 4;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--seed" => seed = a[i + 1].parse().unwrap_or(1),
            "--tier" => tier = a[i + 1].clone(),
            "--dict" => { if let Ok(s) = std::fs::read_to_string(&a[i + 1]) { fw::load_dict(&s) } }
            "--millis" => millis = a[i + 1].parse().unwrap(),
            "--shard" => {
                let (x, y) = a[i + 1].split_once('/').unwrap();
                shard = (x.parse().unwrap(), y.parse().unwrap());
            }
            _ => {}
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let id = a[1].clone();
    let out = a[2].clone();
    let cur = a[3].clone();
    // deep recursion of the code under test must not depend on the default stack
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut c = Ctx::new(&id, &out, &cur, seed, tier == "thorough", millis);
            c.shard = shard;
            match id.as_str() {
                "C01" => voc::c01(&mut c),
                "C02" => gram::c02(&mut c),
                "C03" => gram::c03(&mut c),
                "C04" => gram::c04(&mut c),
                "C05" => lang::c05(&mut c),
                "C06" => lang::c06(&mut c),
                "C07" => lex::c07(&mut c),
                "C08" => lex::c08(&mut c),
                "C09" => lex::c09(&mut c),
                "C10" => tree::c10(&mut c),
                "C11" => tree::c11(&mut c),
                "C12" => front::c12(&mut c),
                "C13" => front::c13(&mut c),
                "C14" => front::c14(&mut c),
                "C15" => front::c15(&mut c),
                "C16" => front::c16(&mut c),
                "C17" => io::c17(&mut c),
                "C18" => io::c18(&mut c),
                _ => std::process::exit(2),
            }
            c.finish();
        })
        .unwrap();
    let _ = h.join();
    std::process::exit(2);
}
