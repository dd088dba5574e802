//! C25: one workload, built with every configuration; prints everything observable, in sections.
//! Item `i` of a section depends on the seed, the section and `i` only, so that a shorter run is a
//! part of a longer one.
#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
extern crate amplify;
#[macro_use]
extern crate strict_encoding;

#[path = "../../harness/src/lib.rs"]
mod bridge;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{Debug, Display};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

use amplify::confinement::{Confined, LargeVec, SmallOrdSet, SmallVec, TinyOrdMap, TinyVec};
use amplify::num::{u256, u5};
use amplify::{Bytes32, Wrapper};
use bridge::*;
#[cfg(feature = "derive")]
use commit_verify::CommitEncode as CommitEncodeDerive;
use commit_verify::mpc::{Commitment, Leaf, MerkleBlock, MerkleConcealed, MerkleProof, MerkleTree, Message, Method, MultiSource, Proof, ProtocolId};
use commit_verify::{
    CommitEncode, CommitEngine, CommitId, CommitVerify, CommitmentId, CommitmentLayout, CommitmentProtocol, Conceal, ConvolveCommit,
    ConvolveCommitProof, DigestExt, EmbedCommitProof, EmbedCommitVerify, EmbedVerifyError, MerkleBuoy, MerkleHash, MerkleNode, NodeBranching,
    ReservedBytes, Ripemd160, Sha256, StrictHash, TryCommitVerify, UntaggedProtocol,
};
use single_use_seals::{ClientSideWitness, NoWitness, PublishedWitness, SealError, SealWitness, SingleUseSeal};
use strict_encoding::{StrictDecode, StrictEncode};

const LIB: &str = "VerifConfig";

// ---------------------------------------------------------------- transcript

pub struct Tx {
    section: &'static str,
    idx: u64,
    out: Vec<u8>,
}
impl Tx {
    fn line(&mut self, name: &str, shown: &str, full: &[u8]) {
        let s: String = shown.chars().take(160).map(|c| if c.is_control() { ' ' } else { c }).collect();
        let _ = writeln!(self.out, "{}\t{}\t{name}\t{s}\t{}", self.section, self.idx, hex(&sha(full)[..8]));
    }
    fn bytes(&mut self, name: &str, b: &[u8]) { self.line(name, &hex(&b[..b.len().min(80)]), b) }
    fn text(&mut self, name: &str, t: impl Display) {
        let t = t.to_string();
        self.line(name, &t, t.as_bytes())
    }
    fn debug(&mut self, name: &str, t: &impl Debug) { self.text(name, format!("{t:?}")) }
    fn enc<T: StrictEncode>(&mut self, name: &str, v: &T) {
        match enc(v) {
            Ok(b) => self.bytes(name, &b),
            Err(e) => self.text(name, e),
        }
    }
    /// A result with its texts.
    fn res<T: StrictEncode, E: Debug + Display>(&mut self, name: &str, r: &Result<T, E>) {
        match r {
            Ok(v) => self.enc(name, v),
            Err(e) => self.text(name, format!("{e:?} / {e}")),
        }
    }
    fn unit<E: Debug + Display>(&mut self, name: &str, r: Result<(), E>) {
        match r {
            Ok(()) => self.text(name, "ok"),
            Err(e) => self.text(name, format!("{e:?} / {e}")),
        }
    }
}

struct Run {
    seed: u64,
    permille: u64,
    /// Small values for interpreters, which are a thousand times slower.
    tiny: bool,
    only: Option<String>,
    /// Nothing is printed; only what the sanitizers see counts (C28).
    quiet: bool,
    /// Every item runs twice; memory the second run does not give back is reported (C28).
    leak: bool,
}
/// Live heap bytes, for the leak oracle.
#[cfg(feature = "count")]
mod count {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
    pub struct Count;
    pub static LIVE: AtomicI64 = AtomicI64::new(0);
    pub static CALLS: AtomicU64 = AtomicU64::new(0);
    unsafe impl GlobalAlloc for Count {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            CALLS.fetch_add(1, Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Count = Count;
}
#[cfg(feature = "count")]
fn live() -> (i64, u64) { (count::LIVE.load(std::sync::atomic::Ordering::Relaxed), count::CALLS.load(std::sync::atomic::Ordering::Relaxed)) }
#[cfg(not(feature = "count"))]
fn live() -> (i64, u64) { (0, 0) }

impl Run {
    fn section(&self, section: &'static str, n: u64, f: impl Fn(&mut Rng, &mut Tx)) {
        if self.only.as_deref().is_some_and(|o| !o.split(',').any(|o| o == section)) {
            return;
        }
        let n = (n * self.permille).div_ceil(1000);
        let mode = if self.tiny { "tiny" } else { "" };
        let so = std::io::stdout();
        for idx in 0..n {
            if self.leak {
                let once = || {
                    let mut rng = Rng::new(format!("{section} {idx} {}{mode}", self.seed).as_bytes());
                    let mut t = Tx { section, idx, out: vec![] };
                    catch_unwind(AssertUnwindSafe(|| f(&mut rng, &mut t))).is_err()
                };
                once();
                // what is kept once for all (caches, statics) is there now; growing again and again is a leak
                let (a, calls) = live();
                once();
                let (b, more) = live();
                once();
                let c = live().0;
                println!("{section}\t{idx}\theld\t{}\t{}", b - a, more - calls);
                if b > a && c > b {
                    println!("LEAK {section} {idx}: {} bytes, then {} bytes more", b - a, c - b);
                }
                continue;
            }
            let mut rng = Rng::new(format!("{section} {idx} {}{mode}", self.seed).as_bytes());
            let mut t = Tx { section, idx, out: vec![] };
            if catch_unwind(AssertUnwindSafe(|| f(&mut rng, &mut t))).is_err() {
                t.text("panic", "panicked");
            }
            if self.quiet {
                continue;
            }
            let mut so = so.lock();
            so.write_all(&t.out).unwrap();
            so.flush().unwrap();
        }
    }
}

// ---------------------------------------------------------------- multi-protocol commitments

fn tree_facts(t: &mut Tx, tree: &MerkleTree, known: &[H], stranger: &H) {
    t.enc("tree", tree);
    t.debug("tree debug", tree);
    t.text("numbers", format!("{:?} {} {} {} {}", tree.depth(), tree.cofactor(), tree.entropy(), tree.width_limit(), tree.factored_width()));
    for k in known.iter().chain([stranger]) {
        t.text("position", tree.protocol_id_pos(pid(k)));
    }
}
fn block_facts(t: &mut Tx, b: &MerkleBlock, stranger: &H) {
    t.enc("block", b);
    t.debug("block debug", b);
    t.text("commitment", b.commit_id());
    t.enc("concealed", &b.conceal());
    t.debug("concealed debug", &b.conceal());
    t.text("concealed commitment", b.conceal().commit_id());
    t.text("widths", format!("{} {} {}", b.width_limit(), b.factored_width(), b.protocol_id_pos(pid(stranger))));
    let known: Vec<ProtocolId> = b.known_protocol_ids().collect();
    t.debug("known", &known);
    t.debug("messages", &b.to_known_message_map());
    for (p, proof) in b.clone().into_known_proofs() {
        t.enc("proof", &proof);
        t.text("proof of", p);
    }
    t.res("proof of a stranger", &b.to_merkle_proof(pid(stranger)));
}
fn proof_facts(t: &mut Tx, p: &MerkleProof, pr: &H, m: &H) {
    t.enc("proof", p);
    t.debug("proof debug", p);
    if p.as_path().len() < 32 {
        t.text("proof numbers", format!("{:?} {} {}", p.depth(), p.width_limit(), p.factored_width()));
    }
    t.debug("path", &(p.merkle_root(), p.as_path(), p.to_path(), p.pos(), p.cofactor(), p.method()));
    t.res("convolved", &p.convolve(pid(pr), msg(m)));
    t.res("block with", &MerkleBlock::with(p, pid(pr), msg(m)));
}

/// The essentials with as few hashes as possible.
fn mini(run: &Run) {
    let small = |rng: &mut Rng, n: u64| loop {
        let (s, m) = gen_shallow(rng, n, 2);
        if !s.msgs.is_empty() {
            return (s, m);
        }
    };
    run.section("mini tree", 20, |rng, t| {
        let (s, _) = small(rng, 3);
        let tree = try_tree(&source(&s)).expect("placeable");
        t.enc("tree", &tree);
        t.text("commitment", tree.commit_id());
        for (p, proof) in tree.clone().into_proofs().take(1) {
            t.enc("proof", &proof);
            t.res("convolved", &proof.convolve(p, msg(&s.msgs[&raw(&p)])));
            t.res("wrong", &proof.convolve(pid(&[3; 32]), msg(&[4; 32])));
        }
    });
    run.section("mini block", 20, |rng, t| {
        let (s, _) = small(rng, 2);
        let full = MerkleBlock::from(try_tree(&source(&s)).expect("placeable"));
        t.enc("block", &full);
        let k = *s.msgs.keys().next().unwrap();
        let mut b = full.clone();
        t.debug("hidden", &b.conceal_except([pid(&k)]));
        t.enc("concealed", &b);
        t.debug("unknown", &b.clone().conceal_except([pid(&[9; 32])]).map_err(|e| e.to_string()));
        t.debug("merged", &b.merge_reveal(full));
        t.enc("united", &b);
    });
    run.section("mini sparse", 12, |rng, t| {
        let depth = *rng.pick(&[3u8, 17, 30, 31]);
        let cof = *rng.pick(&[0u16, 1, 500, 0xFFFF]);
        let m = gen_sparse(rng, depth, cof, 1, 0);
        let b = to_block(&m).expect("well-formed");
        t.enc("block", &b);
        t.text("widths", format!("{} {} {}", b.width_limit(), b.factored_width(), b.protocol_id_pos(pid(&[5; 32]))));
        t.debug("known", &b.known_protocol_ids().collect::<Vec<_>>());
        for (_, proof) in b.into_known_proofs() {
            t.enc("proof", &proof);
            t.text("proof numbers", format!("{:?} {} {}", proof.depth(), proof.width_limit(), proof.factored_width()));
        }
    });
    run.section("mini numbers", 12, |rng, t| {
        // every depth with small and large cofactors, nothing hashed
        for depth in 0..32u8 {
            for cof in [0, 1, rng.u32() as u16, 0xFFFF] {
                let b = to_block(&MBlock { depth, cofactor: cof, entropy: Some(5), nodes: vec![MNode::Hash(0, [3; 32])] }).expect("well-formed");
                let p = if rng.bool() { rng.h32() } else { le(rng.edge64()) };
                t.text("numbers", format!("{} {} {}", b.width_limit(), b.factored_width(), b.protocol_id_pos(pid(&p))));
                t.debug("unknown", &b.to_merkle_proof(pid(&p)).map_err(|e| e.to_string()));
            }
            let p = to_proof(&MProof { pos: rng.u32(), cofactor: depth as u16, path: vec![[1; 32]; depth as usize] }).expect("decodable");
            t.text("proof numbers", format!("{:?} {} {}", p.depth(), p.width_limit(), p.factored_width()));
        }
    });
    run.section("mini proof", 30, |rng, t| {
        let n = if rng.one_in(3) { rng.range(15, 31) } else { rng.below(3) };
        let cof = if rng.one_in(3) {
            0
        } else if rng.bool() { rng.below(3) as u16 } else { rng.u32() as u16 };
        let pr = if rng.bool() { rng.h32() } else { le(rng.edge64()) };
        let at = if rng.one_in(4) { rng.u32() } else { pos(&pr, cof, n as u8) };
        let p = to_proof(&MProof { pos: at, cofactor: cof, path: (0..n).map(|_| rng.h32()).collect() }).expect("decodable");
        t.res("convolved", &p.convolve(pid(&pr), msg(&[6; 32])));
    });
}

fn mpc(run: &Run) {
    let tiny = run.tiny;
    run.section("sources", 300, |rng, t| {
        let s = gen_src(rng, if tiny { 6 } else { 60 }, 31);
        let stranger = rng.h32();
        match try_tree(&source(&s)) {
            Ok(tree) => tree_facts(t, &tree, &s.msgs.keys().copied().collect::<Vec<_>>(), &stranger),
            Err(e) => t.text("error", format!("{e:?} / {e}")),
        }
    });
    run.section("forced", 40, |rng, t| {
        // placed with a cofactor, at the last one, or not at all
        let d = rng.range(3, if tiny { 4 } else { 12 }) as u8;
        let fit = tiny || !rng.one_in(6);
        let (lo, cof) = if fit { (d, rng.below(1 << (d - 1).min(8)) as u16) } else { (29, 0) };
        let cof = if rng.one_in(3) { 0 } else { cof };
        let Some(s) = gen_forced(rng, lo, if fit { d } else { 31 }, cof, fit) else { return };
        match try_tree(&source(&s)) {
            Ok(tree) => tree_facts(t, &tree, &s.msgs.keys().copied().collect::<Vec<_>>(), &[7; 32]),
            Err(e) => t.text("error", format!("{e:?} / {e}")),
        }
    });
    if tiny {
        mini(run);
        return entropy(run);
    }
    run.section("trees", 60, |rng, t| {
        let (s, _) = if tiny { gen_shallow(rng, 3, 2) } else { gen_shallow(rng, 14, 7) };
        let ks: Vec<H> = s.msgs.keys().copied().collect();
        let keep = rng.subset(&ks);
        let stranger = rng.h32();
        let tree = try_tree(&source(&s)).expect("placeable");
        tree_facts(t, &tree, &ks, &stranger);
        t.text("root", tree.root());
        t.text("tree commitment", tree.commit_id());
        t.enc("tree concealed", &tree.conceal());
        let full = MerkleBlock::from(&tree);
        block_facts(t, &full, &stranger);
        for (p, proof) in tree.clone().into_proofs() {
            proof_facts(t, &proof, &raw(&p), &s.msgs[&raw(&p)]);
            t.res("wrong message", &proof.convolve(p, msg(&stranger)));
            t.res("wrong protocol", &proof.convolve(pid(&stranger), msg(&stranger)));
        }
        let mut b = full.clone();
        t.debug("hidden", &b.conceal_except(keep.iter().map(pid).collect::<Vec<_>>()));
        block_facts(t, &b, &stranger);
        t.debug("unknown kept", &b.clone().conceal_except([pid(&stranger)]));
        t.unit("all but one", b.clone().conceal_other(pid(ks.first().unwrap_or(&stranger))));
        let mut u = b.clone();
        for k in &ks {
            let proof = full.to_merkle_proof(pid(k)).expect("known");
            match u.merge_reveal_path(&proof, pid(k), msg(&s.msgs[k])) {
                Ok(n) => t.text("merged", n),
                Err(e) => t.text("merged", format!("{e:?} / {e}")),
            }
            t.enc("united", &u);
        }
        match u.merge_reveal(full.clone()) {
            Ok(n) => t.text("merged with all", n),
            Err(e) => t.text("merged with all", format!("{e:?} / {e}")),
        }
        t.text("matches", format!("{} {}", u.matches(&full), tree.matches(&tree)));
        let mut other = s.clone();
        other.entropy ^= 1;
        t.unit("verify", tree.verify(&source(&s)));
        t.unit("verify other", tree.verify(&source(&other)));
        other.msgs.clear();
        other.min_depth = 0;
        t.unit("verify none", tree.verify(&source(&other)));
        if let Ok(o) = try_tree(&source(&Src { msgs: BTreeMap::from([(stranger, stranger)]), ..s.clone() })) {
            let r = u.merge_reveal(MerkleBlock::from(o));
            t.text("merged with another tree", format!("{:?} / {}", r, r.as_ref().map(|x| x.to_string()).unwrap_or_else(|e| e.to_string())));
        }
    });
    run.section("sparse", 120, |rng, t| {
        let depth = *rng.pick(&[1u8, 2, 5, 8, 16, 24, 30, 31]);
        let cof = *rng.pick(&[0u16, 1, 2, 3, 500, 499, 1000, 0x7FFF, 0xFFFF]);
        let depth = if tiny { *rng.pick(&[1u8, 2, 4, 31]) } else { depth };
        let k = if tiny { 1 } else { rng.range(1, 5) as usize };
        let m = gen_sparse(rng, depth, cof, k, if tiny { 0 } else { 3 });
        let stranger = rng.h32();
        let b = to_block(&m).expect("well-formed");
        block_facts(t, &b, &stranger);
        let v = gen_view(rng, &m);
        let mut v = to_block(&v).expect("well-formed");
        block_facts(t, &v, &stranger);
        match v.merge_reveal(b.clone()) {
            Ok(n) => t.text("merged", n),
            Err(e) => t.text("merged", format!("{e:?} / {e}")),
        }
        t.enc("union", &v);
        let known: Vec<H> = m.known().keys().copied().collect();
        let keep = rng.subset(&known);
        t.debug("hidden", &v.conceal_except(keep.iter().map(pid).collect::<Vec<_>>()));
        t.enc("kept", &v);
        for (p, proof) in b.clone().into_known_proofs() {
            proof_facts(t, &proof, &raw(&p), &m.known()[&raw(&p)]);
            let r = v.merge_reveal_path(&proof, p, msg(&m.known()[&raw(&p)]));
            t.debug("revealed again", &r);
            let r = v.merge_reveal_path(&proof, p, msg(&stranger));
            t.text("revealed wrongly", r.map(|x| x.to_string()).unwrap_or_else(|e| e.to_string()));
        }
    });
    run.section("proofs", 400, |rng, t| {
        let n = match rng.below(4) {
            0 => rng.below(3),
            1 => rng.range(29, 32),
            _ => rng.below(32),
        };
        let n = if tiny && n < 29 { n % 4 } else { n };
        let cof = match rng.below(3) {
            0 => rng.below(4) as u16,
            1 => *rng.pick(&[499, 500, 501, 0x7FFF, 0xFFFE, 0xFFFF]),
            _ => rng.u32() as u16,
        };
        let path: Vec<H> = (0..n).map(|_| rng.h32()).collect();
        let pr = if rng.bool() { rng.h32() } else { le(rng.edge64()) };
        let at = if rng.one_in(4) || n > 31 { rng.u32() } else { pos(&pr, cof, n as u8) };
        let p = to_proof(&MProof { pos: at, cofactor: cof, path }).expect("decodable");
        let m = rng.h32();
        proof_facts(t, &p, &pr, &m);
        let q = to_proof(&MProof { pos: at, cofactor: cof ^ 1, path: vec![] }).expect("decodable");
        t.text("matches", format!("{} {}", p.matches(&q), q.matches(&q)));
    });
    entropy(run);
}
fn entropy(run: &Run) {
    run.section("entropy", 4, |rng, t| {
        let s = gen_shallow(rng, 5, 4).0;
        let mut src = source(&s);
        let a = try_tree(&src).expect("static entropy");
        t.text("given", a.entropy());
        src.static_entropy = None;
        let r = catch_unwind(|| try_tree(&src));
        if cfg!(feature = "rand") {
            let e: Vec<u64> = (0..4).map(|_| try_tree(&src).map(|t| t.entropy()).unwrap_or(0)).collect();
            let all: BTreeSet<u64> = e.iter().copied().collect();
            let fine = matches!(r, Ok(Ok(_))) && all.len() == 4;
            t.text("absent, with randomness", if fine { "fresh".into() } else { format!("{e:?}") });
        } else {
            t.text("absent, without randomness", match r {
                Err(_) | Ok(Err(_)) => "refused".to_string(),
                Ok(Ok(x)) => format!("created with entropy {}", x.entropy()),
            });
        }
    });
}

// ---------------------------------------------------------------- decoding

fn decode(run: &Run) {
    let tiny = run.tiny;
    fn one<T: StrictEncode + StrictDecode + Debug>(t: &mut Tx, name: &str, b: &[u8]) {
        match dec::<T>(b) {
            Ok((v, n)) => {
                t.text(name, format!("{n} bytes: {v:?}"));
                t.enc(name, &v);
            }
            Err(e) => t.text(name, format!("{e:?} / {e}")),
        }
    }
    run.section("decode", 500, |rng, t| {
        let (s, m) = if tiny { gen_shallow(rng, 2, 2) } else { gen_shallow(rng, 8, 4) };
        let kind = rng.below(6);
        let mut b = match kind {
            0 => m.strict(),
            1 => m.block().strict(),
            2 => gen_view(rng, &m.block()).strict(),
            3 => {
                let n = rng.below(34) as usize;
                MProof { pos: rng.u32(), cofactor: rng.u32() as u16, path: (0..n).map(|_| rng.h32()).collect() }.strict()
            }
            4 => concealed_bytes(rng.below(34) as u8, rng.u32() as u16, &rng.h32()),
            _ => leaf_bytes(&rng.h32(), &rng.h32()),
        };
        let _ = s;
        for _ in 0..rng.below(3) {
            match rng.below(4) {
                0 if !b.is_empty() => {
                    let i = rng.below(b.len() as u64) as usize;
                    b[i] = if rng.bool() { rng.u8() } else { b[i] ^ 1 << rng.below(8) };
                }
                1 => b.truncate(rng.below(b.len() as u64 + 1) as usize),
                2 => b.push(rng.u8()),
                _ => {
                    let i = rng.below(b.len().min(12) as u64 + 1) as usize;
                    if i < b.len() {
                        b[i] = rng.u8() % 4;
                    }
                }
            }
        }
        // (announced list lengths beyond any memory: see C15)
        if b.len() > 8 && u32::from_le_bytes(b[4..8].try_into().unwrap()) < 1 << 16 {
            one::<MerkleBlock>(t, "block", &b);
        }
        one::<MerkleTree>(t, "tree", &b);
        one::<MerkleProof>(t, "proof", &b);
        one::<MerkleConcealed>(t, "concealed", &b);
        one::<Leaf>(t, "leaf", &b);
        one::<Method>(t, "method", &b);
        one::<Commitment>(t, "commitment", &b);
        one::<MerkleNode>(t, "node", &b);
        one::<ReservedBytes<2>>(t, "reserved", &b);
        one::<ReservedBytes<1, 1>>(t, "reserved one", &b);
    });
    run.section("text", 120, |rng, t| {
        let h = rng.h32();
        let (p, m) = (pid(&h), msg(&h));
        t.text("protocol", format!("{p} {p:?} {p:x} {p:X}"));
        t.text("message", format!("{m} {m:?} {m:x} {m:X}"));
        let c = Commitment::from(h);
        t.text("commitment", format!("{c} {c:?} {c:x}"));
        t.enc("method", &Method::default());
        t.text("method", format!("{:?} {}", Method::default(), Method::default()));
        let r = ReservedBytes::<3, 7>::default();
        t.text("reserved", format!("{r} {r:?}"));
        let mut s = hex(&h);
        match rng.below(6) {
            0 => s.truncate(rng.below(65) as usize),
            1 => s.push('0'),
            2 => s = s.to_uppercase(),
            3 => s.replace_range(3..4, "g"),
            4 => s = format!("0x{s}"),
            _ => {}
        }
        fn parsed<T: FromStr + Display>(t: &mut Tx, s: &str) where T::Err: Debug + Display {
            t.text("parsed", match T::from_str(s) {
                Ok(v) => v.to_string(),
                Err(e) => format!("{e:?} / {e}"),
            });
        }
        parsed::<ProtocolId>(t, &s);
        parsed::<Message>(t, &s);
        parsed::<Commitment>(t, &s);
        parsed::<MerkleHash>(t, &s);
        parsed::<StrictHash>(t, &s);
        let n = rng.below(40) as usize;
        let sl = rng.bytes(n);
        t.debug("slice", &ProtocolId::copy_from_slice(&sl));
        t.debug("slice", &Message::copy_from_slice(&sl));
        t.debug("slice", &Commitment::copy_from_slice(&sl));
        t.debug("leaves", &(Leaf::inhabited(p, m), Leaf::entropy(rng.u64(), rng.u32())));
        t.text("leaf ids", format!("{} {}", Leaf::inhabited(p, m).commit_id(), Leaf::entropy(rng.u64(), rng.u32()).commit_id()));
        let d = MultiSource::default();
        t.text("default source", format!("{:?} {:?} {} {:?}", d.method, d.min_depth, d.messages.len(), d.static_entropy));
        t.debug("source", &MultiSource::with_static_entropy(rng.u64()));
    });
}

// ---------------------------------------------------------------- engine

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[cfg_attr(feature = "derive", derive(CommitEncodeDerive))]
#[cfg_attr(feature = "derive", commit_encode(crate = commit_verify, strategy = strict, id = StrictHash))]
pub struct Note {
    a: u64,
    b: u16,
}
#[cfg(not(feature = "derive"))]
impl CommitEncode for Note {
    type CommitmentId = StrictHash;
    fn commit_encode(&self, e: &mut CommitEngine) { e.commit_to_serialized(self) }
}

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[cfg_attr(feature = "derive", derive(CommitEncodeDerive))]
#[cfg_attr(feature = "derive", commit_encode(crate = commit_verify, strategy = conceal, id = DocId))]
pub struct Secret {
    open: u32,
    secret: Option<u64>,
}
impl Conceal for Secret {
    type Concealed = Self;
    fn conceal(&self) -> Self { Secret { open: self.open, secret: None } }
}
#[cfg(not(feature = "derive"))]
impl CommitEncode for Secret {
    type CommitmentId = DocId;
    fn commit_encode(&self, e: &mut CommitEngine) { e.commit_to_concealed(self) }
}

#[derive(Wrapper, Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, From)]
#[wrapper(Deref)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[cfg_attr(feature = "derive", derive(CommitEncodeDerive))]
#[cfg_attr(feature = "derive", commit_encode(crate = commit_verify, strategy = transparent, id = DocId))]
pub struct Plain(Note);
#[cfg(not(feature = "derive"))]
impl CommitEncode for Plain {
    type CommitmentId = DocId;
    fn commit_encode(&self, e: &mut CommitEngine) { e.commit_to_serialized(&self.0) }
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct DocId([u8; 32]);
impl From<Sha256> for DocId {
    fn from(h: Sha256) -> Self { DocId(h.finish()) }
}
impl CommitmentId for DocId {
    const TAG: &'static str = "urn:verif:config:doc#1";
}
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Leafy(Note);
impl CommitEncode for Leafy {
    type CommitmentId = MerkleHash;
    fn commit_encode(&self, e: &mut CommitEngine) { e.commit_to_serialized(&self.0) }
}

#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Doc {
    notes: SmallVec<Note>,
    set: SmallOrdSet<Note>,
    map: TinyOrdMap<u16, Note>,
    opt: Option<u64>,
    secret: Secret,
    leaves: SmallVec<Leafy>,
}
impl CommitEncode for Doc {
    type CommitmentId = DocId;
    fn commit_encode(&self, e: &mut CommitEngine) {
        e.commit_to_linear_list(&self.notes);
        e.commit_to_linear_set(&self.set);
        e.commit_to_linear_map(&self.map);
        e.commit_to_option(&self.opt);
        e.commit_to_concealed(&self.secret);
        e.commit_to_merkle(&self.leaves);
        for n in self.notes.iter().take(3) {
            e.commit_to_hash(n);
        }
        e.commit_to_serialized(&self.secret);
    }
}
fn note(rng: &mut Rng) -> Note { Note { a: rng.edge64(), b: rng.u32() as u16 } }

fn engine(run: &Run) {
    let tiny = run.tiny;
    run.section("engine", 150, |rng, t| {
        let n = match rng.below(4) {
            0 => rng.below(3),
            1 => rng.below(300),
            _ => rng.below(20),
        };
        let n = if tiny { n % 3 } else { n };
        let notes: Vec<Note> = (0..n).map(|_| note(rng)).collect();
        let doc = Doc {
            set: Confined::try_from(notes.iter().copied().collect::<BTreeSet<_>>()).unwrap(),
            map: Confined::try_from(notes.iter().take(250).map(|n| (n.b, *n)).collect::<BTreeMap<_, _>>()).unwrap(),
            leaves: Confined::try_from(notes.iter().map(|n| Leafy(*n)).collect::<Vec<_>>()).unwrap(),
            notes: Confined::try_from(notes).unwrap(),
            opt: rng.bool().then(|| rng.edge64()),
            secret: Secret { open: rng.u32(), secret: rng.bool().then(|| rng.u64()) },
        };
        t.bytes("doc", &doc.commit_id().0);
        t.enc("doc strict", &doc);
        let mut e = doc.commit();
        t.debug("steps", &e.as_layout());
        let (h, steps) = e.finish_layout();
        t.bytes("hasher", &DocId::from(h).0);
        t.debug("layout", &steps);
        let x = note(rng);
        t.bytes("note", &raw(&x.commit_id()));
        t.bytes("plain", &Plain(x).commit_id().0);
        t.bytes("secret", &doc.secret.commit_id().0);
        t.bytes("leaf", &raw(&Leafy(x).commit_id()));
        t.bytes("reserved", &raw(&ReservedBytes::<5, 9>::default().commit_id()));
        t.text("layouts", format!("{}{}{}{}", Note::commitment_layout(), Plain::commitment_layout(), Secret::commitment_layout(), Leafy::commitment_layout()));
        let mut e = CommitEngine::new("urn:verif:config:any");
        let blob = rng.bytes(30);
        e.commit_to_serialized(&Doc { notes: Default::default(), ..doc.clone() }.notes_only());
        e.commit_to_linear_list(&SmallVec::try_from(blob.into_iter().map(Byte).collect::<Vec<_>>()).unwrap());
        e.set_finished();
        t.debug("finished", &e.finish_layout().1);
    });
    run.section("merklize", 200, |rng, t| {
        let n = match rng.below(5) {
            0 => rng.below(4),
            1 => 1 << rng.below(9),
            2 => (1 << rng.below(9)) + 1,
            _ => rng.below(70),
        };
        let n = if tiny { n % 4 } else { n };
        let l: Vec<Leafy> = (0..n).map(|_| Leafy(note(rng))).collect();
        t.text("small", MerkleHash::merklize(&SmallVec::try_from(l.clone()).unwrap()));
        t.text("large", MerkleHash::merklize(&LargeVec::try_from(l.clone()).unwrap()));
        t.text("set", MerkleHash::merklize(&SmallOrdSet::try_from(l.iter().copied().collect::<BTreeSet<_>>()).unwrap()));
        if n < 255 {
            t.text("tiny", MerkleHash::merklize(&TinyVec::try_from(l).unwrap()));
        }
        let (a, b) = (MerkleHash::from(rng.h32()), MerkleHash::from(rng.h32()));
        let (d, w) = (rng.u8(), rng.edge64());
        t.text("void", MerkleHash::void(d, w));
        t.text("single", MerkleHash::single(d, w, a));
        t.text("branches", MerkleHash::branches(d, w, a, b));
        for n in [MerkleNode::void(d, w), MerkleNode::single(d, w, a), MerkleNode::branches(d, w, a, b)] {
            t.enc("node", &n);
            t.text("node id", format!("{} {n:?}", n.commit_id()));
        }
        t.debug("kinds", &[NodeBranching::Void, NodeBranching::Single, NodeBranching::Branch]);
        // a buoy over a random cross-section
        let top = rng.below(6) as u8;
        let mut buoy = MerkleBuoy::new(u5::with(top + 1));
        fn cut(rng: &mut Rng, d: u8, out: &mut Vec<u8>) {
            if d < 31 && rng.one_in(2) && out.len() < 60 {
                cut(rng, d + 1, out);
                cut(rng, d + 1, out);
            } else {
                out.push(d);
            }
        }
        let mut ds = vec![];
        t.debug("top", &top);
        cut(rng, top + 1, &mut ds);
        let facts: Vec<(bool, u5)> = ds.iter().skip(1).map(|d| (buoy.push(u5::with(*d)), buoy.level())).collect();
        t.debug("buoy", &facts);
    });
    run.section("digest", 100, |rng, t| {
        let n = rng.below(70) as usize;
        let tag = rng.bytes(n);
        let n = rng.below(300) as usize;
        let data = rng.bytes(n);
        macro_rules! go {
            ($d:ty, $n:expr, $len:expr) => {{
                let mut d = <$d as DigestExt<$len>>::from_tag(&tag);
                DigestExt::<$len>::input_raw(&mut d, &data);
                DigestExt::<$len>::input_with_len::<0xFF>(&mut d, &data[..data.len().min(255)]);
                DigestExt::<$len>::input_with_len::<0xFFFF>(&mut d, &data);
                DigestExt::<$len>::input_with_len::<0xFFFFFF>(&mut d, &data);
                DigestExt::<$len>::input_with_len::<0xFFFFFFFF>(&mut d, &data);
                t.bytes($n, &DigestExt::<$len>::finish(d));
            }};
        }
        go!(Sha256, "sha", 32);
        go!(Ripemd160, "ripemd", 20);
    });
    run.section("layouts", 1, |_, t| {
        t.text("concealed", MerkleConcealed::commitment_layout());
        t.text("node", MerkleNode::commitment_layout());
        t.text("leaf", Leaf::commitment_layout());
        t.text("tree", MerkleTree::commitment_layout());
        t.text("block", MerkleBlock::commitment_layout());
        t.text("doc", Doc::commitment_layout());
        t.text("reserved", ReservedBytes::<3>::commitment_layout());
        t.debug("debug", &Doc::commitment_layout());
    });
}
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Byte(u8);
#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Notes(SmallVec<Note>);
impl Doc {
    fn notes_only(self) -> Notes { Notes(self.notes) }
}

// ---------------------------------------------------------------- schemes

pub enum Prot {}
impl CommitmentProtocol for Prot {}
#[derive(Clone, PartialEq, Eq, Debug, Display, Error)]
#[display("failed {0}")]
pub struct Fail(u64);
fn mix(tag: u64, m: u64) -> u64 { (m ^ tag).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23) ^ tag }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Com(u64);
impl CommitVerify<u64, Prot> for Com {
    fn commit(m: &u64) -> Self { Com(m % 7) }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Try(u64);
impl TryCommitVerify<u64, Prot> for Try {
    type Error = Fail;
    fn try_commit(m: &u64) -> Result<Self, Fail> { if m % 5 == 4 { Err(Fail(*m)) } else { Ok(Try(m % 3)) } }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Cont(u64);
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Prf(u64, u64);
impl EmbedCommitVerify<u64, Prot> for Cont {
    type Proof = Prf;
    type CommitError = Fail;
    fn embed_commit(&mut self, m: &u64) -> Result<Prf, Fail> {
        if m % 5 == 4 {
            return Err(Fail(*m));
        }
        let p = Prf(self.0, m % 4);
        self.0 = mix(self.0, *m % 8);
        Ok(p)
    }
}
impl EmbedCommitProof<u64, Cont, Prot> for Prf {
    fn restore_original_container(&self, c: &Cont) -> Result<Cont, EmbedVerifyError<Fail>> {
        if c.0 % 6 == 5 { Err(EmbedVerifyError::InvalidProof) } else { Ok(Cont(self.0)) }
    }
}
impl ConvolveCommit<u64, Prf, Prot> for Com {
    type Commitment = u64;
    type CommitError = Fail;
    fn convolve_commit(&self, s: &u64, m: &u64) -> Result<(u64, Prf), Fail> {
        if m % 5 == 4 { Err(Fail(*m)) } else { Ok((mix(*s, *m % 8) ^ self.0, Prf(self.0, *s))) }
    }
}
impl ConvolveCommitProof<u64, Com, Prot> for Prf {
    type Suppl = u64;
    fn restore_original(&self, c: &u64) -> Com { if c % 3 == 2 { Com(self.0 ^ 1) } else { Com(self.0) } }
    fn extract_supplement(&self) -> &u64 { &self.1 }
}

fn schemes(run: &Run) {
    run.section("schemes", 300, |rng, t| {
        let (m, n, x) = (rng.below(20), rng.below(20), rng.below(12));
        t.unit("commit", CommitVerify::<u64, Prot>::verify(&<Com as CommitVerify<u64, Prot>>::commit(&m), &n));
        if let Ok(c) = <Try as TryCommitVerify<u64, Prot>>::try_commit(&m) {
            t.unit("try", c.verify(&n));
        }
        let mut c = Cont(x);
        if let Ok(mut p) = c.embed_commit(&m) {
            t.debug("embedded", &(&c, &p));
            if rng.one_in(3) {
                p.1 ^= 1;
            }
            if rng.one_in(4) {
                c.0 ^= 1;
            }
            t.unit("embed", c.verify(&n, &p));
            t.unit("embed same", c.verify(&m, &p));
        }
        if let Ok((mut v, p)) = Com(x).convolve_commit(&n, &m) {
            if rng.one_in(3) {
                v ^= 1;
            }
            t.debug("convolved", &(v, &p));
            t.unit("convolve", ConvolveCommitProof::<u64, Com, Prot>::verify(&p, &n, &v));
            t.unit("convolve same", ConvolveCommitProof::<u64, Com, Prot>::verify(&p, &m, &v));
        }
    });
}

// ---------------------------------------------------------------- seals

macro_rules! strict {
    ($($i:item)*) => { $(
        #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = LIB)]
        #[derive(serde_crate::Serialize, serde_crate::Deserialize)]
        #[serde(crate = "serde_crate")]
        $i
    )* };
}
strict! {
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Display)]
    #[display("seal#{0}")]
    pub struct Seal(u32);
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct Public { id: u32, mask: u64, commitment: u64 }
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct Client { key: u64, fails: u8 }
}
#[derive(Clone, PartialEq, Eq, Debug, Display, Error)]
#[display("client failure {0}")]
pub struct CErr(u8);
#[derive(Clone, PartialEq, Eq, Debug, Display, Error)]
#[display("publication {0} lacks {1}")]
pub struct PErr(u32, u64);
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Display)]
#[display("pub:{0}")]
pub struct PubId(u32);
impl SingleUseSeal for Seal {
    type Message = u64;
    type PubWitness = Public;
    type CliWitness = Client;
    fn is_included(&self, m: u64, w: &SealWitness<Self>) -> bool { w.published.mask >> ((self.0 as u64 + m % 64) % 64) & 1 == 1 }
}
impl ClientSideWitness for Client {
    type Seal = Seal;
    type Proof = u64;
    type Error = CErr;
    fn convolve_commit(&self, m: u64) -> Result<u64, CErr> { if self.fails != 0 { Err(CErr(self.fails)) } else { Ok(mix(self.key, m)) } }
    fn merge(&mut self, _: Self) -> Result<(), impl std::error::Error> { Ok::<_, CErr>(()) }
}
impl PublishedWitness<Seal> for Public {
    type PubId = PubId;
    type Error = PErr;
    fn pub_id(&self) -> PubId { PubId(self.id) }
    fn verify_commitment(&self, p: u64) -> Result<(), PErr> { if p == self.commitment { Ok(()) } else { Err(PErr(self.id, p)) } }
}
fn witness(rng: &mut Rng, m: u64) -> SealWitness<Seal> {
    let key = rng.u64();
    let mask = match rng.below(3) {
        0 => u64::MAX,
        1 => !(1 << rng.below(64)),
        _ => rng.u64(),
    };
    let commitment = if rng.one_in(3) { rng.u64() } else { mix(key, m) };
    SealWitness::new(Public { id: rng.u32(), mask, commitment }, Client { key, fails: if rng.one_in(4) { rng.u8() } else { 0 } })
}

fn seals(run: &Run) {
    use std::error::Error as _;
    run.section("seals", 300, |rng, t| {
        let m = rng.edge64();
        let w = witness(rng, m);
        let seals: Vec<Seal> = (0..rng.below(5)).map(|_| Seal(rng.below(100) as u32)).collect();
        let mut put = |n: &str, r: Result<(), SealError<Seal>>| {
            let cause = r.as_ref().err().and_then(|e| e.source().map(|s| s.to_string()));
            t.text(n, match r {
                Ok(()) => "closed".to_string(),
                Err(e) => format!("{e:?} / {e} / {cause:?}"),
            });
        };
        put("seals", w.verify_seals_closing(&seals, m));
        put("owned", w.verify_seals_closing(seals.clone(), m));
        put("other message", w.verify_seals_closing(&seals, m ^ 64));
        if let Some(s) = seals.first() {
            put("seal", w.verify_seal_closing(s, m));
        }
        let c = w;
        t.debug("copy", &(c.published, c.client));
    });
    #[cfg(feature = "seals_strict")]
    run.section("seals strict", 60, |rng, t| {
        let w = witness(rng, 7);
        t.enc("witness", &w);
        let mut b = enc(&w).unwrap();
        if rng.bool() {
            b.truncate(rng.below(b.len() as u64) as usize);
        }
        match dec::<SealWitness<Seal>>(&b) {
            Ok((w, n)) => t.text("decoded", format!("{n} {:?} {:?}", w.published, w.client)),
            Err(e) => t.text("decoded", format!("{e:?} / {e}")),
        }
        t.text("type", format!("{:?}", <SealWitness<Seal> as strict_encoding::StrictType>::strict_name()));
    });
    #[cfg(feature = "seals_serde")]
    run.section("seals serde", 60, |rng, t| {
        let w = witness(rng, 7);
        let j = serde_json::to_string(&w).unwrap();
        t.text("json", &j);
        let r = serde_json::from_str::<SealWitness<Seal>>(&j).unwrap();
        t.debug("read", &(r.published, r.client));
        t.text("refused", serde_json::from_str::<SealWitness<Seal>>(&j[..j.len() / 2]).err().unwrap());
    });
}

// ---------------------------------------------------------------- validation

#[cfg(feature = "csv")]
mod csv {
    use client_side_validation::{
        ClientData, ClientSideValidate, SealIssue, SealResolver, Status, ValidationFailure, ValidationLog, ValidationReport,
    };

    use super::*;

    macro_rules! entry {
        ($n:ident) => {
            #[derive(Clone, PartialEq, Eq, Hash, Debug, Default, Display, Error, serde_crate::Serialize, serde_crate::Deserialize)]
            #[serde(crate = "serde_crate")]
            #[display("{0}")]
            pub struct $n(u32, u32);
        };
    }
    entry!(Issue);
    entry!(Flaw);
    entry!(Warn);
    entry!(Info);
    #[derive(Clone, PartialEq, Eq, Hash, Debug, Default, serde_crate::Serialize, serde_crate::Deserialize)]
    #[serde(crate = "serde_crate")]
    pub struct Report;
    impl ValidationLog for Issue {}
    impl SealIssue for Issue {
        type Seal = u32;
        fn seal(&self) -> &u32 { &self.1 }
    }
    impl ValidationLog for Flaw {}
    impl ValidationFailure for Flaw {}
    impl ValidationReport for Report {
        type SealIssue = Issue;
        type Failure = Flaw;
        type Warning = Warn;
        type Info = Info;
    }
    fn status(rng: &mut Rng, n: u64) -> Status<Report> {
        let mut s = Status::new();
        for _ in 0..rng.below(n + 1) {
            let x = rng.below(1000) as u32;
            match rng.below(4) {
                0 => drop(s.add_seal_issue(Issue(x, 0))),
                1 => drop(s.add_failure(Flaw(x, 1))),
                2 => drop(s.add_warning(Warn(x, 2))),
                _ => drop(s.add_info(Info(x, 3))),
            }
        }
        s
    }
    pub struct Item(Vec<u32>, Status<Report>);
    pub struct Data(Vec<Item>, Status<Report>);
    impl<'d> ClientData<'d> for Item {
        type ValidationReport = Report;
        type SealIterator = std::slice::Iter<'d, u32>;
        fn single_use_seals(&'d self) -> Self::SealIterator { self.0.iter() }
        fn validate_internal_consistency(&'d self) -> Status<Report> { self.1.clone() }
    }
    impl<'d> ClientData<'d> for Data {
        type ValidationReport = Report;
        type SealIterator = std::slice::Iter<'d, u32>;
        fn single_use_seals(&'d self) -> Self::SealIterator { [].iter() }
        fn validate_internal_consistency(&'d self) -> Status<Report> { self.1.clone() }
    }
    impl<'d> ClientSideValidate<'d> for Data {
        type ValidationItem = Item;
        type ValidationIter = std::slice::Iter<'d, Item>;
        fn validation_iter(&'d self) -> Self::ValidationIter { self.0.iter() }
    }
    pub struct Resolver(Rng, u32);
    impl SealResolver<u32> for Resolver {
        type Error = Issue;
        fn resolve_trust(&mut self, seal: &u32) -> Result<(), Issue> {
            self.1 += 1;
            if self.0.one_in(4) { Err(Issue(self.1, *seal)) } else { Ok(()) }
        }
    }
    fn show(t: &mut Tx, n: &str, s: &Status<Report>) {
        t.text(n, format!("{} {:?} {:?} {:?} {:?} {:?}", s.validity(), s.validity(), s.seal_issues, s.failures, s.warnings, s.info));
        t.text("code", s.validity() as u8);
    }
    pub fn all(run: &Run) {
        run.section("validate", 200, |rng, t| {
            let n = rng.below(12);
            let quiet = if rng.bool() { 0 } else { 3 };
            let items = (0..n).map(|_| Item((0..rng.below(5)).map(|_| rng.u32()).collect(), status(rng, quiet))).collect();
            let own = status(rng, quiet);
            let d = Data(items, own);
            let mut r = Resolver(rng.clone(), 0);
            show(t, "report", &d.client_side_validate(&mut r));
            let (mut a, b) = (status(rng, 6), status(rng, 6));
            a += b;
            show(t, "sum", &a);
            show(t, "collected", &a.failures.clone().into_iter().collect());
            if let Some(f) = a.failures.first() {
                show(t, "one", &Status::from_failure(f.clone()));
            }
        });
        #[cfg(feature = "serde")]
        run.section("validate serde", 60, |rng, t| {
            let s = status(rng, 6);
            let j = serde_json::to_string(&s).unwrap();
            t.text("json", &j);
            show(t, "read", &serde_json::from_str(&j).unwrap());
        });
    }
}

#[cfg(feature = "serde")]
fn serde_forms(run: &Run) {
    let tiny = run.tiny;
    use serde_crate::{de::DeserializeOwned, Serialize};
    fn one<T: Serialize + DeserializeOwned + Debug + PartialEq>(t: &mut Tx, n: &str, v: &T) {
        let j = serde_json::to_string(v).unwrap();
        t.text(n, &j);
        let b = bincode::serialize(v).unwrap();
        t.bytes(n, &b);
        t.text(n, format!("{} {}", serde_json::from_str::<T>(&j).map(|x| x == *v).unwrap_or(false), bincode::deserialize::<T>(&b).map(|x| x == *v).unwrap_or(false)));
        t.text(n, serde_json::from_str::<T>(&j[..j.len() / 2]).err().map(|e| e.to_string()).unwrap_or_default());
        t.text(n, bincode::deserialize::<T>(&b[..b.len() / 2]).err().map(|e| e.to_string()).unwrap_or_default());
    }
    run.section("serde", 80, |rng, t| {
        let (s, _) = if tiny { gen_shallow(rng, 2, 2) } else { gen_shallow(rng, 8, 5) };
        let tree = try_tree(&source(&s)).unwrap();
        let b = MerkleBlock::from(&tree);
        one(t, "block", &b);
        if !tiny {
            one(t, "concealed", &b.conceal());
            one(t, "commitment", &tree.commit_id());
        }
        for (p, proof) in tree.into_proofs().take(3) {
            one(t, "protocol", &p);
            one(t, "proof", &proof);
        }
        let h = rng.h32();
        one(t, "message", &msg(&h));
        one(t, "merkle hash", &MerkleHash::from(h));
        one(t, "strict hash", &StrictHash::from(h));
        one(t, "method", &Method::default());
        one(t, "reserved", &ReservedBytes::<4, 2>::default());
    });
}

#[cfg(feature = "stl")]
fn library(run: &Run) {
    run.section("stl", 1, |_, t| {
        let lib = commit_verify::stl::commit_verify_stl();
        t.text("id", lib.id());
        t.enc("library", &lib);
        t.text("text", &lib);
        t.text("declared", commit_verify::stl::LIB_ID_COMMIT_VERIFY);
    });
}

// ---------------------------------------------------------------- concurrency (C28)

/// Values built once and used by several threads at the same time.
fn shared(run: &Run, threads: usize) {
    let tiny = run.tiny;
    fn on_threads(threads: usize, f: impl Fn(&mut Tx) + Sync) {
        let go = std::sync::Barrier::new(threads);
        let ids: Vec<Vec<u8>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    sc.spawn(|| {
                        let mut t = Tx { section: "shared", idx: 0, out: vec![] };
                        go.wait();
                        f(&mut t);
                        t.out
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("no panic")).collect()
        });
        if ids.iter().any(|i| *i != ids[0]) {
            println!("DIFFERENT results of threads using the same values");
        }
    }
    run.section("shared tree", if tiny { 2 } else { 20 }, |rng, _| {
        let (s, _) = loop {
            let x = if tiny { gen_shallow(rng, 2, 1) } else { gen_shallow(rng, 8, 5) };
            if !x.0.msgs.is_empty() {
                break x;
            }
        };
        let src = source(&s);
        let tree = try_tree(&src).expect("placeable");
        if tiny {
            let k = *s.msgs.keys().next().unwrap();
            return on_threads(threads, |t| {
                t.text("numbers", format!("{:?} {} {} {} {}", tree.depth(), tree.cofactor(), tree.entropy(), tree.protocol_id_pos(pid(&k)), tree.width_limit()));
                t.enc("tree", &tree);
                t.text("root", tree.root());
            });
        }
        let block = MerkleBlock::from(&tree);
        let proofs: Vec<(ProtocolId, MerkleProof)> = tree.clone().into_proofs().collect();
        let bytes = enc(&block).unwrap();
        on_threads(threads, |t| {
            tree_facts(t, &tree, &[], &[9; 32]);
            t.text("root", tree.commit_id());
            block_facts(t, &block, &[9; 32]);
            t.enc("again", &try_tree(&src).unwrap());
            t.unit("verify", tree.verify(&src));
            for (p, proof) in proofs.iter().take(4) {
                proof_facts(t, proof, &raw(p), &s.msgs[&raw(p)]);
                let mut b = block.clone();
                t.debug("hidden", &b.conceal_except([*p]));
                t.debug("merged", &b.merge_reveal(block.clone()));
            }
            t.debug("decoded", &dec::<MerkleBlock>(&bytes).is_ok());
        });
    });
    run.section("shared block", if tiny { 2 } else { 20 }, |rng, _| {
        let m = if tiny { gen_sparse(rng, 1, 7, 1, 0) } else { gen_sparse(rng, 12, 7, 4, 3) };
        let b = to_block(&m).expect("well-formed");
        let stranger = rng.h32();
        on_threads(threads, |t| {
            t.enc("block", &b);
            t.debug("known", &b.known_protocol_ids().collect::<Vec<_>>());
            for (p, proof) in b.clone().into_known_proofs() {
                t.enc("proof", &proof);
                if !tiny {
                    t.res("convolved", &proof.convolve(p, msg(&m.known()[&raw(&p)])));
                }
            }
            t.text("commitment", b.commit_id());
            t.text("position", b.protocol_id_pos(pid(&stranger)));
        });
    });
    run.section("shared engine", if tiny { 2 } else { 40 }, |rng, _| {
        let n = if tiny { 1 } else { rng.below(40) };
        let notes: Vec<Note> = (0..n).map(|_| note(rng)).collect();
        let leaves: SmallVec<Leafy> = Confined::try_from(notes.iter().map(|n| Leafy(*n)).collect::<Vec<_>>()).unwrap();
        let secret = Secret { open: 1, secret: Some(rng.u64()) };
        let h = MerkleHash::from(rng.h32());
        on_threads(threads, |t| {
            t.text("merkle", MerkleHash::merklize(&leaves));
            t.bytes("secret", &secret.commit_id().0);
            t.text("single", MerkleHash::single(3, u256::from(9u64), h));
            if !tiny {
                t.text("layout", Secret::commitment_layout());
            }
        });
    });
    run.section("shared seals", 40, |rng, _| {
        let m = rng.edge64();
        let w = witness(rng, m);
        let sl: Vec<Seal> = (0..3).map(Seal).collect();
        on_threads(threads, |t| {
            t.debug("closed", &w.verify_seals_closing(&sl, m).is_ok());
            t.debug("closed", &w.verify_seal_closing(&sl[0], m).is_ok());
        });
    });
}

fn all(run: &Run) {
    mpc(run);
    decode(run);
    engine(run);
    schemes(run);
    seals(run);
    #[cfg(feature = "csv")]
    csv::all(run);
    #[cfg(feature = "serde")]
    serde_forms(run);
    #[cfg(feature = "stl")]
    library(run);
}

/// `vconfig SEED PERMILLE MODE SECTIONS`, MODE any of tiny, par, leak joined by `+`.
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let mode: Vec<&str> = a.get(3).map(|m| m.split('+').collect()).unwrap_or_default();
    let has = |m: &str| mode.contains(&m);
    let run = Run {
        seed: a.get(1).map(|x| x.parse().expect("seed")).unwrap_or(1),
        permille: a.get(2).map(|x| x.parse().expect("permille")).unwrap_or(1000),
        tiny: has("tiny"),
        only: a.get(4).filter(|s| !s.is_empty()).cloned(),
        quiet: has("par"),
        leak: has("leak"),
    };
    if has("par") {
        let threads = if run.tiny { 2 } else { 4 };
        shared(&run, threads);
        if !run.only.as_deref().unwrap_or_default().starts_with("shared") {
            std::thread::scope(|s| {
                for _ in 0..threads {
                    s.spawn(|| all(&run));
                }
            });
        }
    } else {
        all(&run);
    }
    println!("end");
}
