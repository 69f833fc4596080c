//! vx: mechanical extractor. Reads the real Rust sources of the crate under verification, applies a
//! fixed list of semantics-preserving rewrites (documented in DESIGN.md), attaches the contracts
//! found in overlay files and prints one Verus file plus a JSON map from lines to obligations.
mod inline;
mod overlay;
mod printer;
mod rewrite;

use overlay::Overlay;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

/// One module of the generated file.
struct ModCfg {
    path: String,
    src: String,
    mode: Mode,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// types and bodies
    Body,
    /// function bodies are dropped: only the contracts remain (external_body)
    Contract,
}

fn main() {
    // vx --repo DIR --out FILE --map FILE --tags A,B --unit FILE
    let mut repo = PathBuf::from("/repo");
    let mut out = PathBuf::new();
    let mut map = PathBuf::new();
    let mut tags: BTreeSet<String> = BTreeSet::new();
    let mut unit = PathBuf::new();
    let mut probe = 0u8;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let v = it.next().expect("value");
        match a.as_str() {
            "--repo" => repo = v.into(),
            "--out" => out = v.into(),
            "--map" => map = v.into(),
            "--probe" => probe = v.parse().expect("probe"),
            "--unit" => unit = v.into(),
            "--tags" => tags = v.split(',').filter(|s| !s.is_empty()).map(String::from).collect(),
            _ => panic!("unknown argument {a}"),
        }
    }
    match run(&repo, &unit, &tags, probe) {
        Ok((text, m)) => {
            std::fs::write(&out, text).unwrap();
            std::fs::write(&map, serde_json::to_string_pretty(&m).unwrap()).unwrap();
        }
        Err(e) => {
            std::fs::write(&map, serde_json::to_string_pretty(&json!({"error": e})).unwrap()).unwrap();
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    }
}

type R<T> = Result<T, String>;

fn run(repo: &PathBuf, unit: &PathBuf, tags: &BTreeSet<String>, probe: u8) -> R<(String, serde_json::Value)> {
    let base = unit.parent().unwrap().to_path_buf();
    let utext = std::fs::read_to_string(unit).map_err(|e| format!("{unit:?}: {e}"))?;
    let mut mods: Vec<ModCfg> = vec![];
    let mut overlays = vec![];
    let mut specs: Vec<(Vec<String>, String)> = vec![];
    for l in utext.lines() {
        let l = l.split('#').next().unwrap().trim();
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.as_slice() {
            [] => {}
            ["mod", path, src, mode] => mods.push(ModCfg {
                path: if *path == "crate" { String::new() } else { path.to_string() },
                src: src.to_string(),
                mode: if *mode == "body" { Mode::Body } else { Mode::Contract },
            }),
            ["overlay", f] => overlays.push(base.join(f)),
            ["spec", f] => specs.push((vec![], base.join(f).to_string_lossy().into())),
            ["spec", f, t] => specs.push((
                t.split(',').map(String::from).collect(),
                base.join(f).to_string_lossy().into(),
            )),
            _ => return Err(format!("bad unit line: {l}")),
        }
    }
    let files = module_files(repo)?;
    let known: BTreeSet<String> = std::fs::read_to_string(base.join("modules.txt"))
        .map_err(|e| format!("modules.txt: {e}"))?
        .split_whitespace()
        .map(String::from)
        .collect();
    for m in &mut mods {
        if let Some(f) = files.get(&m.path) {
            m.src = f.clone();
        }
    }
    // modules the unit files do not know of: part of every unit that contains their parent
    for (path, src) in &files {
        if path.is_empty() || known.contains(path) || mods.iter().any(|m| m.path == *path) {
            continue;
        }
        let parent = path.rsplit_once("::").map_or("", |x| x.0).to_string();
        let mode = match mods.iter().find(|m| m.path == parent) {
            Some(m) => m.mode,
            None if parent.is_empty() => {
                if mods.iter().any(|m| m.mode == Mode::Body && !m.path.is_empty()) { Mode::Body } else { Mode::Contract }
            }
            None => continue,
        };
        mods.push(ModCfg { path: path.clone(), src: src.clone(), mode });
    }
    let mut ov = Overlay::default();
    for f in &overlays {
        let t = std::fs::read_to_string(f).map_err(|e| format!("{f:?}: {e}"))?;
        ov.parse(&f.to_string_lossy(), &t, tags)?;
    }
    let mut cx = rewrite::Cx::new(ov);
    cx.probe = probe;
    // first pass: parse everything, collect macros / inlinable functions / predicate specs
    let mut parsed = vec![];
    for m in &mods {
        let p = repo.join(&m.src);
        let t = std::fs::read_to_string(&p).map_err(|e| format!("{p:?}: {e}"))?;
        let f = syn::parse_file(&t).map_err(|e| format!("{}: {e}", m.src))?;
        cx.collect(&m.path, &f);
        parsed.push(f);
    }
    for _ in 0..2 {
        // predicates that use predicates of a later module
        for (m, f) in mods.iter().zip(&parsed) {
            cx.collect(&m.path, f);
        }
    }
    for (m, f) in mods.iter().zip(&parsed) {
        if m.mode == Mode::Body {
            cx.collect_helpers(&m.path, f);
        }
    }
    cx.drop_recursive();
    // second pass: rewrite + print
    let mut pr = printer::Printer::new();
    pr.raw("#![feature(allocator_api)]\n#![allow(unused, dead_code, non_snake_case, non_camel_case_types, unused_parens, unused_braces, unused_mut)]\nuse vstd::prelude::*;\nverus! {\n");
    pr.raw("pub mod spec {\n#[allow(unused_imports)] use super::*;\nuse vstd::prelude::*;\n");
    let mut specsrc = vec![];
    for (ts, f) in &specs {
        if !ts.is_empty() && !ts.iter().any(|t| tags.contains(t)) {
            continue;
        }
        let t = std::fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?;
        let t = overlay::filter_tagged(&t, tags);
        specsrc.push(f.clone());
        pr.raw(&format!("// ==== {f}\n"));
        pr.raw(&t);
        pr.raw("\n");
    }
    pr.raw("}\n");
    if mods.iter().any(|m| m.path.is_empty()) {
        pr.raw("#[allow(unused_imports)] use crate::spec::*;\n");
    }
    // module tree
    let mut tree: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, m) in mods.iter().enumerate() {
        tree.entry(m.path.clone()).or_default().push(i);
    }
    emit_tree(&mut pr, &mut cx, &mods, &parsed, "", repo)?;
    pr.raw("}\nfn main() {}\n");
    let lost = cx.lost_anchors();
    let m = json!({
        "lines": pr.lines_json(),
        "functions": cx.functions,
        "lost": lost,
        "unsupported": cx.unsupported,
        "rewrites": cx.rewrites,
        "specs": specsrc,
    });
    Ok((pr.finish(), m))
}

/// every module of the crate and the file it is in, relative to the repository
fn module_files(repo: &PathBuf) -> R<BTreeMap<String, String>> {
    fn walk(repo: &PathBuf, path: &str, src: &str, dir: &str, out: &mut BTreeMap<String, String>) -> R<()> {
        out.insert(path.to_string(), src.to_string());
        let p = repo.join(src);
        let t = std::fs::read_to_string(&p).map_err(|e| format!("{p:?}: {e}"))?;
        let f = syn::parse_file(&t).map_err(|e| format!("{src}: {e}"))?;
        for i in &f.items {
            let syn::Item::Mod(m) = i else { continue };
            if m.content.is_some() || m.attrs.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("path")) {
                continue;
            }
            let name = m.ident.to_string();
            let child = if path.is_empty() { name.clone() } else { format!("{path}::{name}") };
            let sub = format!("{dir}/{name}");
            let file = [format!("{sub}.rs"), format!("{sub}/mod.rs")].into_iter().find(|f| repo.join(f).exists());
            if let Some(file) = file {
                walk(repo, &child, &file, &sub, out)?;
            }
        }
        Ok(())
    }
    let mut out = BTreeMap::new();
    walk(repo, "", "src/lib.rs", "src", &mut out)?;
    Ok(out)
}

fn emit_tree(
    pr: &mut printer::Printer,
    cx: &mut rewrite::Cx,
    mods: &[ModCfg],
    parsed: &[syn::File],
    prefix: &str,
    repo: &PathBuf,
) -> R<()> {
    // the module's own items
    if let Some(i) = mods.iter().position(|m| m.path == prefix) {
        cx.emit_file(pr, &mods[i].path, &mods[i].src, mods[i].mode, &parsed[i])?;
    }
    // children
    let mut seen = BTreeSet::new();
    for m in mods {
        let rest = if prefix.is_empty() {
            Some(m.path.as_str())
        } else {
            m.path.strip_prefix(prefix).and_then(|r| r.strip_prefix("::"))
        };
        let Some(rest) = rest else { continue };
        if rest.is_empty() {
            continue;
        }
        let head = rest.split("::").next().unwrap().to_string();
        if seen.insert(head.clone()) {
            let child = if prefix.is_empty() { head.clone() } else { format!("{prefix}::{head}") };
            pr.raw(&format!("pub mod {head} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::spec::*;\n"));
            if !cx.ov.prelude.is_empty() && !cx.ov.noprelude.contains(&child) {
                pr.raw(&format!("broadcast use {{{}}};\n", cx.ov.prelude.trim()));
            }
            emit_tree(pr, cx, mods, parsed, &child, repo)?;
            pr.raw("}\n");
        }
    }
    Ok(())
}
