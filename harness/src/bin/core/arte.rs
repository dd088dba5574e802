//! C26: what the code generates against what the repository publishes.
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

use armor::AsciiArmor;
use commit_verify::mpc::{Commitment, Leaf, MerkleBlock, MerkleConcealed, MerkleProof, MerkleTree};
use commit_verify::stl::{commit_verify_stl, LIB_ID_COMMIT_VERIFY};
use commit_verify::{CommitmentLayout, MerkleHash, MerkleNode, ReservedBytes, StrictHash};
use sha2::Digest;
use strict_encoding::{StrictDumb, StrictType};
use strict_types::{StlFormat, TypeLib};
use vharness::*;

const PUBLISHED: &str = "/repo/stl";
const BASE: &str = "CommitVerify@0.1.0";
const HEADER: &str = "
  Description: Client-side-validation deterministic commitments
  Author: Dr Maxim Orlovsky <orlovsky@lnp-bp.org>
  Copyright (C) 2023-2024 LNP/BP Standards Association. All rights reserved.
  License: Apache-2.0";
static N: AtomicU64 = AtomicU64::new(0);

fn published(name: &str) -> R<Vec<u8>> {
    std::fs::read(format!("{PUBLISHED}/{name}")).map_err(|e| format!("published file {name} can't be read: {e}"))
}
fn text(name: &str) -> R<String> { String::from_utf8(published(name)?).map_err(|_| format!("{name} is not text")) }
fn ext(f: u64) -> &'static str { ["stl", "sta", "sty"][f as usize % 3] }
fn format_of(f: u64) -> StlFormat {
    match f % 3 {
        0 => StlFormat::Binary,
        1 => StlFormat::Armored,
        _ => StlFormat::Source,
    }
}

struct Scratch(PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch {
        let d = PathBuf::from(std::env::var("VERIF_WORK").unwrap_or("/verif/work".into()))
            .join(format!("c26-{tag}-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

fn differ(name: &str, got: &[u8], want: &[u8]) -> R {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let show = |b: &[u8]| String::from_utf8_lossy(&b[at.saturating_sub(30)..(at + 50).min(b.len())]).into_owned();
    Err(format!(
        "generated {name} ({} bytes) differs from the published one ({} bytes) at byte {at}: generated {:?}, published {:?}",
        got.len(),
        want.len(),
        show(got),
        show(want)
    ))
}

/// Names, owning library and count of the types the code encodes for consensus.
fn consensus_types() -> Vec<(String, String)> {
    fn t<T: StrictType>() -> (String, String) {
        (T::STRICT_LIB_NAME.to_string(), T::strict_name().map(|n| n.to_string()).unwrap_or_default())
    }
    vec![
        t::<Commitment>(),
        t::<Leaf>(),
        t::<MerkleBlock>(),
        t::<MerkleConcealed>(),
        t::<MerkleProof>(),
        t::<MerkleTree>(),
        t::<MerkleHash>(),
        t::<MerkleNode>(),
        t::<StrictHash>(),
        t::<commit_verify::mpc::Message>(),
        t::<commit_verify::mpc::ProtocolId>(),
        t::<commit_verify::mpc::Method>(),
        t::<commit_verify::NodeBranching>(),
    ]
    .into_iter()
    .chain((1..=32).map(|n| ("CommitVerify".to_string(), format!("ReservedBytes{n}"))))
    .collect()
}

fn layouts() -> Vec<(&'static str, String)> {
    vec![
        ("MerkleNode", MerkleNode::commitment_layout().to_string()),
        ("Leaf", Leaf::commitment_layout().to_string()),
        ("MerkleConcealed", MerkleConcealed::commitment_layout().to_string()),
        ("MerkleBlock", MerkleBlock::commitment_layout().to_string()),
        ("MerkleTree", MerkleTree::commitment_layout().to_string()),
    ]
}

/// Published lexicon, cut into paragraphs.
fn paragraphs() -> R<Vec<String>> { Ok(text("Merkle.vesper")?.split("\n\n").map(|s| s.trim_matches('\n').to_string()).collect()) }

fn check_layouts(c: &mut Case) -> R {
    let par = paragraphs()?;
    let found: Vec<&String> = par.iter().filter(|p| p.starts_with("commitment ")).collect();
    let made = layouts();
    ensure_eq!(made.len(), found.len(), "number of commitment paragraphs published");
    for ((name, got), want) in made.iter().zip(&found) {
        ensure_eq!(got.trim_end_matches('\n').to_string(), want.to_string(), "Vesper text of {name}");
        c.ev("vesper layouts compared", 1);
        c.sig_bytes(format!("vesper {name}").as_bytes());
    }
    Ok(())
}

fn check_lib(c: &mut Case, lib: &TypeLib) -> R {
    let want = published(&format!("{BASE}.stl"))?;
    ensure_eq!(lib.id().to_string(), LIB_ID_COMMIT_VERIFY.to_string(), "declared id of the library");
    let bytes = enc(lib)?;
    differ(&format!("{BASE}.stl"), &bytes, &want)?;
    let (back, used) = dec::<TypeLib>(&want).map_err(|e| format!("published binary library can't be decoded: {e}"))?;
    ensure_eq!(used, want.len(), "published binary library length");
    ensure!(&back == lib, "decoded published library differs from the one the code builds");
    let arm = text(&format!("{BASE}.sta"))?;
    let from_arm =
        TypeLib::from_ascii_armored_str(arm.trim_end()).map_err(|e| format!("published armored library can't be parsed: {e}"))?;
    ensure!(&from_arm == lib, "armored published library differs from the one the code builds");
    differ(&format!("{BASE}.sta"), format!("{}\n", lib.to_ascii_armored_string()).as_bytes(), arm.as_bytes())?;
    let src = text(&format!("{BASE}.sty"))?;
    ensure!(src.contains(&format!("Id: {:+}\n", lib.id())), "published source form has a different id");
    let (id, deps): (String, Vec<String>) =
        (hex(&sha2::Sha256::digest(&bytes)), lib.dependencies.iter().map(|d| d.to_string()).collect());
    ensure!(arm.contains(&format!("Check-SHA256: {id}")), "checksum of the armored form doesn't match the library bytes");
    ensure!(deps.len() == 1 && deps[0].contains("Std"), "library depends on {deps:?}");
    c.ev("libraries compared", 1);
    c.sig_bytes(b"lib");
    Ok(())
}

pub fn c26() -> Prop {
    Prop::new(
        "C26",
        "the library, its three serializations and the Vesper lexicon generated repeatedly (in many threads, after other uses of the code, \
         by commit-stl in scratch directories under different formats, environments and existing files) against the published bytes; every \
         consensus type looked up in the published library; distinct by artefact and way of making it",
    )
    .family("library", 24, 400, |c| {
        if c.rng.bool() {
            // Other uses of the code first.
            let (s, _) = gen_shallow(&mut c.rng, 8, 4);
            let t = try_tree(&source(&s)).map_err(|e| e.to_string())?;
            let _ = enc(&t)?;
        }
        if c.rng.bool() {
            return check_lib(c, &commit_verify_stl());
        }
        let libs: Vec<TypeLib> = std::thread::scope(|s| {
            let h: Vec<_> = (0..4).map(|_| s.spawn(commit_verify_stl)).collect();
            h.into_iter().map(|h| h.join().expect("library")).collect()
        });
        for l in &libs {
            check_lib(c, l)?;
        }
        c.sig(&[4]);
        Ok(())
    })
    .family("serialize", 12, 120, |c| {
        let f = c.idx;
        let d = Scratch::new("ser");
        let name = format!("{BASE}.{}", ext(f));
        if c.rng.bool() {
            std::fs::write(d.0.join(&name), vec![b'#'; c.rng.below(200_000) as usize]).map_err(|e| e.to_string())?;
        }
        commit_verify_stl().serialize(format_of(f), Some(&d.0), "0.1.0", Some(HEADER)).map_err(|e| e.to_string())?;
        let got = std::fs::read(d.0.join(&name)).map_err(|e| format!("no {name}: {e}"))?;
        differ(&name, &got, &published(&name)?)?;
        c.ev("files compared", 1);
        c.sig_bytes(name.as_bytes());
        Ok(())
    })
    .family("types", 4, 40, |c| {
        let (lib, _) = dec::<TypeLib>(&published(&format!("{BASE}.stl"))?).map_err(|e| e.to_string())?;
        let src = text(&format!("{BASE}.sty"))?;
        let names: Vec<String> = lib.types.iter().map(|(n, _)| n.to_string()).collect();
        for (owner, name) in consensus_types() {
            ensure_eq!(owner, "CommitVerify".to_string(), "library of {name}");
            ensure!(names.contains(&name), "consensus type {name} is missing from the published library");
            ensure!(src.contains(&format!("\ndata {name} ")), "consensus type {name} is missing from the published source form");
            c.ev("types looked up", 1);
            c.sig_bytes(name.as_bytes());
        }
        // The Rust names used for the 32 sizes are the ones looked up.
        macro_rules! sizes { ($($n:literal)*) => { $( {
            let got = ReservedBytes::<$n>::strict_name().map(|n| n.to_string());
            ensure_eq!(got, Some(format!("ReservedBytes{}", $n)), "type name");
            ensure_eq!(enc(&ReservedBytes::<$n>::strict_dumb())?, vec![0u8; $n], "encoding of ReservedBytes{}", $n);
        } )* } }
        sizes!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
        Ok(())
    })
    .family("vesper", 16, 200, |c| {
        let threads = 1 + c.rng.below(4);
        if threads == 1 {
            return check_layouts(c);
        }
        let first = layouts();
        let all: Vec<_> = std::thread::scope(|s| {
            let h: Vec<_> = (0..threads).map(|_| s.spawn(layouts)).collect();
            h.into_iter().map(|h| h.join().expect("layouts")).collect()
        });
        for a in all {
            ensure_eq!(a, first, "Vesper texts made in another thread");
        }
        check_layouts(c)
    })
    .family("cli", 9, 60, |c| {
        let Ok(exe) = std::env::var("VERIF_COMMIT_STL") else { panic!("VERIF_COMMIT_STL not set") };
        let f = c.idx;
        let d = Scratch::new("cli");
        let name = format!("{BASE}.{}", ext(f));
        let mut cmd = Command::new(&exe);
        let flag = if c.rng.bool() { format!("--{}", ext(f)) } else { ext(f).to_string() };
        let out: PathBuf = match c.rng.below(3) {
            0 => {
                cmd.arg(&flag).arg(".").current_dir(&d.0);
                d.0.clone()
            }
            1 => {
                let sub = d.0.join("stl");
                std::fs::create_dir_all(&sub).map_err(|e| e.to_string())?;
                cmd.arg(&flag).current_dir(&d.0); // the default directory
                sub
            }
            _ => {
                cmd.arg(&flag).arg(&d.0).current_dir("/");
                d.0.clone()
            }
        };
        if c.rng.bool() {
            cmd.env_clear();
        } else {
            cmd.env("LANG", "tr_TR.UTF-8").env("TZ", "Asia/Tokyo").env("RUST_BACKTRACE", "full");
        }
        if c.rng.bool() {
            std::fs::write(out.join("Merkle.vesper"), vec![b'x'; 50_000]).map_err(|e| e.to_string())?;
        }
        let r = cmd.output().map_err(|e| panic!("{exe}: {e}")).unwrap();
        ensure!(r.status.success(), "commit-stl {flag} failed: {}", String::from_utf8_lossy(&r.stderr));
        for n in [name.as_str(), "Merkle.vesper"] {
            let read = |p: &Path| std::fs::read(p).map_err(|e| format!("commit-stl {flag} made no {n}: {e}"));
            differ(n, &read(&out.join(n))?, &published(n)?)?;
            c.ev("files compared", 1);
            c.sig_bytes(format!("{n} {flag}").as_bytes());
        }
        c.ev("runs of commit-stl", 1);
        c.sample(|| format!("commit-stl {flag}: {name} and Merkle.vesper equal to /repo/stl byte for byte"));
        Ok(())
    })
    .require("libraries compared", 20)
    .require("files compared", 25)
    .require("types looked up", 40)
    .require("vesper layouts compared", 40)
    .require("runs of commit-stl", 9)
}
