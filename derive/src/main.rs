//! Runs the generated programs (C13).
#![allow(unused, clippy::all, non_camel_case_types, uncommon_codepoints)]
#[macro_use]
extern crate amplify;
#[macro_use]
extern crate strict_encoding;

use std::process::Command;
use vderive::*;

include!(env!("VERIF_GEN"));

/// Programs for the compiler: file names tell whether they are to be accepted.
fn programs() -> Vec<std::path::PathBuf> {
    let mut v: Vec<_> = std::fs::read_dir(std::env::var("VERIF_PROGRAMS").expect("VERIF_PROGRAMS"))
        .expect("programs")
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().is_some_and(|e| e == "rs"))
        .collect();
    v.sort();
    v
}

fn compile(p: &std::path::Path) -> (bool, String) {
    let args = std::env::var("VERIF_RUSTC_ARGS").expect("VERIF_RUSTC_ARGS");
    let out = p.with_extension("rmeta");
    let r = Command::new("rustc").args(args.split('\n')).arg("-o").arg(&out).arg(p).output().expect("rustc");
    let _ = std::fs::remove_file(&out);
    (r.status.success(), String::from_utf8_lossy(&r.stderr).into_owned())
}

fn main() {
    let n = TYPES.len() as u64;
    let progs = if std::env::var("VERIF_PROGRAMS").is_ok() { programs() } else { vec![] };
    let m = progs.len() as u64;
    let p = Prop::new(
        "C13",
        "random type definitions (named, tuple and unit structs, enums, lifetimes, type and const generics with bounds, defaults and where \
         clauses, raw identifiers, macro-made and shadowing ones) compiled with each strategy, identifier and crate path, their commitments \
         compared for random values; programs with missing, unknown, repeated and mistyped arguments given to the compiler next to their \
         valid neighbours; distinct by (type, value, strategy, tag) and by program",
    )
    .family("types", n, n, |c| {
        let (name, f) = TYPES[c.idx as usize];
        c.note(format!("generated type {name}"));
        c.sample(|| format!("generated type {name}"));
        for _ in 0..if c.thorough { 400 } else { 60 } {
            f(c).map_err(|e| format!("{name}: {e}"))?;
        }
        c.ev("types", 1);
        Ok(())
    })
    .family("programs", m, m, move |c| {
        let p = &progs[c.idx as usize];
        let name = p.file_stem().unwrap().to_string_lossy().into_owned();
        let text = std::fs::read_to_string(p).expect("program");
        let (ok, err) = compile(p);
        c.sample(|| format!("{name}: {}", text.lines().filter(|l| l.contains("commit_encode")).collect::<Vec<_>>().join(" ")));
        c.sig_bytes(text.as_bytes());
        if name.starts_with("good") {
            c.ev("valid programs accepted", 1);
            ensure!(ok, "the valid program {name} is refused:\n{}\n{}", text, err.chars().take(1500).collect::<String>());
        } else {
            c.ev("invalid programs refused", 1);
            c.note(text.clone());
            ensure!(!ok, "{name}: the compiler accepts a derive it must refuse:\n{text}");
        }
        Ok(())
    })
    .require("types", n)
    .require("values committed", 20 * n)
    .require("invalid programs refused", 20.min(m));
    runner::main(vec![p]);
}
