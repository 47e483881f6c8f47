//! vpextract: mechanical extraction of the functions of /repo into Verus input.
//!
//! usage: vpextract REPO CONTRACTS_DIR VERUS_LIB_DIR OUT_DIR [LOST_FILE]
//!
//! Every run parses the current sources, applies the fixed rewriting rules
//! (see DESIGN.md, "Extraction"), attaches the contracts from CONTRACTS_DIR at
//! structural anchors and writes OUT_DIR/*.rs plus OUT_DIR/map.json.
mod contracts;
mod print;
mod rewrite;
mod walk;

use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// One function as emitted.
pub struct FnRec {
    pub key: String,
    pub module: String,
    pub start: usize,
    pub end: usize,
    pub src: String,
    pub src_line: usize,
    pub src_end: usize,
    pub status: String, // verified | trusted | lost | nocontract
    pub reason: String,
    pub contract: bool,
    pub loops: usize,
    pub closures: usize,
    pub calls: Vec<String>,
    pub body_hash: u64,
    pub shape: String,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, cdir, ldir, out) = (&a[1], &a[2], &a[3], &a[4]);
    let mut lost: BTreeMap<String, String> = BTreeMap::new();
    if let Some(p) = a.get(5) {
        if let Ok(s) = std::fs::read_to_string(p) {
            for l in s.lines() {
                let mut it = l.splitn(2, '\t');
                let k = it.next().unwrap().to_string();
                lost.insert(k, it.next().unwrap_or("").to_string());
            }
        }
    }
    std::fs::create_dir_all(out).unwrap();
    let mut files: Vec<_> = std::fs::read_dir(cdir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "vc"))
        .collect();
    files.sort();
    let mut modules: Vec<String> = vec![];
    let mut recs: Vec<FnRec> = vec![];
    let mut notes: Vec<String> = vec![];
    let specs: Vec<contracts::FileSpec> = files.iter().map(|f| contracts::parse(f)).collect();
    // macros are looked up over every file
    let mut macros: BTreeMap<String, syn::ItemMacro> = BTreeMap::new();
    let mut asts: Vec<syn::File> = vec![];
    for sp in &specs {
        let p = Path::new(repo).join(&sp.source);
        let text = match std::fs::read_to_string(&p) {
            Ok(t) => t,
            Err(e) => {
                notes.push(format!("cannot read {}: {e}", sp.source));
                String::new()
            }
        };
        let f = match syn::parse_file(&text) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("parse error {}: {e}", sp.source);
                std::process::exit(3)
            }
        };
        for it in &f.items {
            if let syn::Item::Macro(m) = it {
                if let Some(id) = &m.ident {
                    macros.insert(id.to_string(), m.clone());
                }
            }
        }
        let mut f = f;
        syn::visit_mut::VisitMut::visit_file_mut(&mut rewrite::UnitRw, &mut f);
        syn::visit_mut::VisitMut::visit_file_mut(&mut rewrite::GhostFieldRw { fields: &sp.ghost_fields, here: vec![] }, &mut f);
        asts.push(f);
    }
    let mut cow_fields: BTreeSet<String> = BTreeSet::new();
    for sp in &specs {
        cow_fields.extend(sp.cow_fields.iter().cloned());
    }
    for (sp, ast) in specs.iter().zip(asts) {
        modules.push(sp.module.clone());
        let ctx = rewrite::Ctx { macros: &macros, cow_fields: &cow_fields };
        let mut w = walk::Walker::new(sp, ctx, &lost);
        w.file(ast);
        std::fs::write(Path::new(out).join(format!("{}.rs", sp.module)), &w.out.text).unwrap();
        recs.extend(w.recs);
        notes.extend(w.notes);
    }
    // library modules are copied as they are
    let mut libs: Vec<String> = vec![];
    let mut lf: Vec<_> = std::fs::read_dir(ldir).unwrap().map(|e| e.unwrap().path()).collect();
    lf.sort();
    for p in lf {
        if p.extension().map_or(false, |e| e == "rs") {
            let stem = p.file_stem().unwrap().to_string_lossy().to_string();
            std::fs::copy(&p, Path::new(out).join(p.file_name().unwrap())).unwrap();
            libs.push(stem);
        }
    }
    let mut main = String::from("#![allow(unused, non_snake_case, non_camel_case_types, dead_code)]\n");
    for m in libs.iter().chain(modules.iter()) {
        main.push_str(&format!("pub mod {m};\n"));
    }
    main.push_str("fn main() {}\n");
    std::fs::write(Path::new(out).join("main.rs"), main).unwrap();
    // map
    let mut j = String::from("{\"functions\":[\n");
    for (i, r) in recs.iter().enumerate() {
        if i > 0 {
            j.push_str(",\n");
        }
        j.push_str(&format!(
            "{{\"key\":{},\"module\":{},\"start\":{},\"end\":{},\"src\":{},\"src_line\":{},\"src_end\":{},\"status\":{},\"reason\":{},\"contract\":{},\"loops\":{},\"closures\":{},\"calls\":[{}],\"hash\":\"{:016x}\",\"shape\":\"{}\"}}",
            json_str(&r.key), json_str(&r.module), r.start, r.end, json_str(&r.src), r.src_line, r.src_end,
            json_str(&r.status), json_str(&r.reason), r.contract, r.loops, r.closures,
            r.calls.iter().map(|c| json_str(c)).collect::<Vec<_>>().join(","), r.body_hash, r.shape
        ));
    }
    j.push_str("\n],\"modules\":[");
    j.push_str(&modules.iter().map(|m| json_str(m)).collect::<Vec<_>>().join(","));
    j.push_str("],\"libs\":[");
    j.push_str(&libs.iter().map(|m| json_str(m)).collect::<Vec<_>>().join(","));
    j.push_str("],\"notes\":[");
    j.push_str(&notes.iter().map(|m| json_str(m)).collect::<Vec<_>>().join(","));
    j.push_str("]}\n");
    std::fs::write(Path::new(out).join("map.json"), j).unwrap();
}
