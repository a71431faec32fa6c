// Renders the repository's lexer template exactly as its generator does, for a fixed rule table,
// so the oracle can run the code the template produces.
use std::{env, fs, path::Path};
fn main() {
    let tpl = "/repo/src/tool/templates/target/rust/lexer.tera";
    println!("cargo:rerun-if-changed={}", tpl);
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-check-cfg=cfg(gen_lexer)");
    let out = Path::new(&env::var("OUT_DIR").unwrap()).join("gen_lexer.rs");
    let text = fs::read_to_string(tpl).unwrap_or_default();
    let mut tera = tera::Tera::default();
    let mut ctx = tera::Context::new();
    let toks = serde_json::json!([
        {"token_type": 2, "token_name": "WORD", "regex": "^([a-z]+)"},
        {"token_type": 3, "token_name": "NUM", "regex": "^([0-9]+)"},
        {"token_type": 4, "token_name": "WHITE_SPACE", "regex": "^([ \\n\\r\\t]+)"},
        {"token_type": 5, "token_name": "OP", "regex": "^(\\+|\\*)"},
        {"token_type": 6, "token_name": "CALL", "regex": "^([a-z]+\\(\\))"},
        {"token_type": 7, "token_name": "PAGE", "regex": "^(\\x0c[ \\n]*)"},
        {"token_type": 8, "token_name": "COMMENT", "regex": "^(/\\*[^*]*\\*/|//[^\\n]*\\n)"},
        {"token_type": 9, "token_name": "TEXT", "regex": "^('[^']*')"},
        {"token_type": 10, "token_name": "SEMI", "regex": "^(;)"},
    ]);
    ctx.insert("tokens", &toks);
    ctx.insert("name", "Gen");
    tera.autoescape_on(vec![]);
    let r = tera.add_raw_template("lexer.tera", &text).and_then(|_| tera.render("lexer.tera", &ctx));
    match r {
        Ok(s) => fs::write(out, s).unwrap(),
        Err(e) => fs::write(out, format!("compile_error!({:?});", e.to_string())).unwrap(),
    }
}
