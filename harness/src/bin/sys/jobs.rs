//! C23: the same jobs replicated over histories, insertion orders, threads and processes; every
//! replica writes a transcript, all transcripts of a job must be the same bytes.
use std::collections::{BTreeMap, BTreeSet};
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};

use amplify::confinement::{Confined, SmallOrdSet, SmallVec, TinyOrdMap};
use commit_verify::mpc::{MerkleBlock, MerkleConcealed, MerkleProof, MerkleTree, MultiSource};
use commit_verify::{CommitEncode, CommitEngine, CommitId, CommitmentId, Conceal, MerkleHash, ReservedBytes, StrictHash, TryCommitVerify, UntaggedProtocol};
use vharness::*;

const LIB: &str = "VerifSys";

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(crate = commit_verify, strategy = strict, id = StrictHash)]
pub struct Note {
    a: u64,
    b: u16,
}
#[derive(Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Doc {
    notes: SmallVec<Note>,
    set: SmallOrdSet<Note>,
    map: TinyOrdMap<u16, Note>,
}
impl CommitEncode for Doc {
    type CommitmentId = DocId;
    fn commit_encode(&self, e: &mut CommitEngine) {
        e.commit_to_linear_list(&self.notes);
        e.commit_to_linear_set(&self.set);
        e.commit_to_linear_map(&self.map);
        if let Some(n) = self.notes.first() {
            e.commit_to_hash(n);
        }
    }
}
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct DocId([u8; 32]);
impl From<commit_verify::Sha256> for DocId {
    fn from(h: commit_verify::Sha256) -> Self {
        use commit_verify::DigestExt;
        DocId(h.finish())
    }
}
impl CommitmentId for DocId {
    const TAG: &'static str = "urn:verif:doc#1";
}

/// One job. Jobs of one group differ in one thing only, so that anything kept from one and used
/// for another shows.
#[derive(Clone, Debug)]
pub struct Job {
    src: Src,
    keep: Vec<H>,
    stranger: H,
}

pub fn pool(seed: u64, groups: usize) -> Vec<Job> {
    let mut rng = Rng::new(format!("pool {seed}").as_bytes());
    let mut jobs = vec![];
    for _ in 0..groups {
        let (s, m) = loop {
            let x = gen_shallow(&mut rng, 14, 6);
            if x.0.msgs.len() > 1 {
                break x;
            }
        };
        let ks: Vec<H> = s.msgs.keys().copied().collect();
        let stranger = rng.h32();
        let base = Job { src: s.clone(), keep: rng.subset(&ks), stranger };
        let mut push = |f: &mut dyn FnMut(&mut Job)| {
            let mut j = base.clone();
            f(&mut j);
            if let Ok((d, _)) = place(&j.src.msgs, j.src.min_depth) {
                if d <= 8 {
                    j.keep.retain(|k| j.src.msgs.contains_key(k));
                    jobs.push(j);
                }
            }
        };
        let k = *rng.pick(&ks);
        let (x, y) = (rng.h32(), rng.subset(&ks));
        push(&mut |_| ());
        push(&mut |j| j.src.entropy ^= 1);
        push(&mut |j| j.src.min_depth = (m.depth + 1).min(7));
        push(&mut |j| { let _ = j.src.msgs.insert(k, x); });
        push(&mut |j| j.keep = y.clone());
        push(&mut |j| j.keep = vec![k]);
        push(&mut |j| { let _ = j.src.msgs.remove(&k); });
        push(&mut |j| { let _ = j.src.msgs.insert(x, x); });
        push(&mut |j| {
            // the same values under exchanged protocols
            let v: Vec<H> = j.src.msgs.values().rev().copied().collect();
            j.src.msgs.values_mut().zip(v).for_each(|(a, b)| *a = b);
        });
        push(&mut |j| j.src.entropy = 0);
    }
    jobs
}

/// Everything observable a job produces. `rng` decides only about insertion order and pauses.
pub fn transcript(j: &Job, rng: &mut Rng, pause: bool) -> R<Vec<(&'static str, Vec<u8>)>> {
    let mut out: Vec<(&'static str, Vec<u8>)> = vec![];
    let wait = |rng: &mut Rng| {
        if pause && rng.one_in(3) {
            match rng.below(3) {
                0 => std::thread::yield_now(),
                1 => std::thread::sleep(std::time::Duration::from_micros(rng.below(60))),
                _ => (0..rng.below(500)).for_each(|_| std::hint::spin_loop()),
            }
        }
    };
    // messages inserted in a random order, some taken out and put back
    let mut ks: Vec<H> = j.src.msgs.keys().copied().collect();
    rng.shuffle(&mut ks);
    let mut src = MultiSource::with_static_entropy(j.src.entropy);
    src.min_depth = amplify::num::u5::with(j.src.min_depth);
    if rng.bool() {
        let mut m: Confined<BTreeMap<_, _>, 0, { u32::MAX as usize }> = Confined::default();
        for k in &ks {
            if rng.one_in(4) {
                m.insert(pid(k), msg(&[0xEE; 32])).map_err(|e| e.to_string())?;
            }
            m.insert(pid(k), msg(&j.src.msgs[k])).map_err(|e| e.to_string())?;
        }
        src.messages = Confined::try_from(m.release()).map_err(|e| e.to_string())?;
    } else {
        let m: BTreeMap<_, _> = ks.iter().map(|k| (pid(k), msg(&j.src.msgs[k]))).collect();
        src.messages = Confined::try_from(m).map_err(|e| e.to_string())?;
    }
    wait(rng);
    let t = try_tree(&src).map_err(|e| format!("refused: {e}"))?;
    // the absolute value, so that replicas can't be wrong in the same way
    let m = MTree::build(&j.src.msgs, j.src.min_depth, j.src.entropy).map_err(|_| "unplaceable")?;
    ensure_eq!(hex(&enc(&t)?), hex(&m.strict()), "tree of [{}]", show_src(&j.src));
    wait(rng);
    out.push(("root", raw(&t.root()).to_vec()));
    let id = raw(&t.commit_id());
    ensure_eq!(hex(&id), hex(&m.commitment()), "commitment of [{}]", show_src(&j.src));
    out.push(("commitment", id.to_vec()));
    out.push(("concealed tree", enc(&t.conceal())?));
    wait(rng);
    let b = MerkleBlock::from(&t);
    out.push(("block", enc(&b)?));
    out.push(("block json", serde_json::to_vec(&b).map_err(|e| e.to_string())?));
    let mut c = b.clone();
    let keep: Vec<_> = j.keep.iter().map(pid).collect();
    let n = c.conceal_except(&keep).map_err(|e| e.to_string())?;
    wait(rng);
    out.push(("hidden", n.to_string().into_bytes()));
    out.push(("concealed block", enc(&c)?));
    out.push(("commitment of the concealed block", raw(&c.commit_id()).to_vec()));
    let unknown = [pid(&j.stranger), pid(&[0xAB; 32])];
    out.push(("unknown", format!("{:?}", c.clone().conceal_except(unknown)).into_bytes()));
    for (p, proof) in b.clone().into_known_proofs() {
        out.push(("proof", [raw(&p).to_vec(), enc(&proof)?].concat()));
        let v = proof.convolve(p, msg(&j.src.msgs[&raw(&p)])).map_err(|e| e.to_string())?;
        ensure!(raw(&v) == id, "proof of {p} gives another commitment");
        wait(rng);
    }
    for (p, proof) in t.clone().into_proofs() {
        out.push(("proof of the tree", [raw(&p).to_vec(), enc(&proof)?].concat()));
    }
    // united again from single reveals
    let mut u = c.clone();
    for k in j.src.msgs.keys() {
        let proof = b.to_merkle_proof(pid(k)).map_err(|e| e.to_string())?;
        let n = u.merge_reveal_path(&proof, pid(k), msg(&j.src.msgs[k])).map_err(|e| e.to_string())?;
        out.push(("merged", [n.to_le_bytes().to_vec(), enc(&u)?].concat()));
        wait(rng);
    }
    out.push(("known", u.known_protocol_ids().flat_map(|p| raw(&p)).collect()));
    out.push(("messages", u.to_known_message_map().release().into_iter().flat_map(|(p, m)| [raw(&p), raw(&m)].concat()).collect()));
    // the engine and plain merklization, collections filled in random orders
    let mut notes: Vec<Note> = ks.iter().map(|k| Note { a: u64::from_le_bytes(k[..8].try_into().unwrap()), b: k[9] as u16 }).collect();
    rng.shuffle(&mut notes);
    let set: BTreeSet<Note> = notes.iter().copied().collect();
    let map: BTreeMap<u16, Note> = notes.iter().map(|n| (n.b, set.iter().find(|x| x.b == n.b).copied().unwrap())).collect();
    let list: Vec<Note> = set.iter().copied().collect();
    let doc = Doc {
        notes: SmallVec::try_from(list.clone()).map_err(|e| e.to_string())?,
        set: SmallOrdSet::try_from(set.clone()).map_err(|e| e.to_string())?,
        map: TinyOrdMap::try_from(map).map_err(|e| e.to_string())?,
    };
    wait(rng);
    out.push(("document", doc.commit_id().0.to_vec()));
    out.push(("layout", commit_verify::CommitLayout::to_string(&<Doc as commit_verify::CommitmentLayout>::commitment_layout()).into_bytes()));
    for n in &list {
        out.push(("note", raw(&n.commit_id()).to_vec()));
    }
    out.push(("reserved", raw(&StrictId(ReservedBytes::<3>::default()).commit_id()).to_vec()));
    out.push(("tree layout", <MerkleConcealed as commit_verify::CommitmentLayout>::commitment_layout().to_string().into_bytes()));
    Ok(out)
}

#[derive(Clone, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(crate = commit_verify, strategy = strict, id = StrictHash)]
pub struct StrictId(ReservedBytes<3>);

fn digest(t: &[(&'static str, Vec<u8>)]) -> String {
    let mut v = vec![];
    for (n, b) in t {
        v.extend(n.as_bytes());
        v.extend((b.len() as u64).to_le_bytes());
        v.extend(b);
    }
    hex(&sha(&v))
}

/// First difference of two transcripts.
fn differ(a: &[(&'static str, Vec<u8>)], b: &[(&'static str, Vec<u8>)]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y {
            let show = |x: Option<&(&'static str, Vec<u8>)>| x.map(|x| format!("{} {}", x.0, hex(&x.1[..x.1.len().min(80)]))).unwrap_or("nothing".into());
            return Some(format!("{} instead of {}", show(y), show(x)));
        }
    }
    None
}

/// Work that must not matter.
fn history(rng: &mut Rng, n: u64) {
    let s = gen_shallow(rng, 5, 4).0;
    for i in 0..n {
        let mut s = s.clone();
        if let Some(v) = s.msgs.values_mut().next() {
            v[0] ^= i as u8;
        }
        let Ok(t) = try_tree(&source_of(&s.msgs, s.min_depth, if i % 3 == 0 { None } else { Some(i) })) else { continue };
        if i % 16 == 0 {
            let mut b = MerkleBlock::from(t);
            let _ = b.conceal_except([pid(&[1; 32])]);
            let _ = b.conceal_except([]);
            let _ = b.commit_id();
        }
    }
}

/// `seed groups threads order history`: prints the digest of every job.
pub fn child(a: &[String]) {
    let n: Vec<u64> = a.iter().map(|x| x.parse().unwrap()).collect();
    let jobs = pool(n[0], n[1] as usize);
    let mut rng = Rng::new(format!("child {:?}", n).as_bytes());
    history(&mut rng, n[4]);
    let mut idx: Vec<usize> = (0..jobs.len()).collect();
    match n[3] {
        0 => {}
        1 => idx.reverse(),
        _ => rng.shuffle(&mut idx),
    }
    let jobs = Arc::new(jobs);
    let idx = Arc::new(idx);
    let th: Vec<_> = (0..n[2])
        .map(|k| {
            let (jobs, idx) = (jobs.clone(), idx.clone());
            let mut rng = Rng::new(&rng.h32());
            let total = n[2];
            std::thread::spawn(move || {
                idx.iter()
                    .skip(k as usize)
                    .step_by(total as usize)
                    .map(|i| (*i, transcript(&jobs[*i], &mut rng, total > 1).map(|t| digest(&t)).unwrap_or_else(|e| format!("failed {e}"))))
                    .collect::<Vec<_>>()
            })
        })
        .collect();
    let mut out: Vec<(usize, String)> = th.into_iter().flat_map(|t| t.join().unwrap()).collect();
    out.sort();
    let s: String = out.into_iter().map(|(i, d)| format!("{i} {}\n", d.replace('\n', " "))).collect();
    print!("{s}");
}

fn run_child(args: [u64; 5], quirk: u64) -> R<Vec<String>> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut cmd = Command::new(exe);
    cmd.arg("--jobs").args(args.map(|x| x.to_string())).stdin(Stdio::null()).stderr(Stdio::null());
    match quirk {
        1 => drop(cmd.env_clear()),
        2 => drop(cmd.env("LANG", "tr_TR.UTF-8").env("TZ", "Asia/Kathmandu").env("HOME", "/nonexistent").env("RUST_LOG", "trace")),
        3 => drop(cmd.current_dir("/")),
        _ => {}
    }
    let o = cmd.output().map_err(|e| e.to_string())?;
    ensure!(o.status.success(), "process running the jobs ended with {:?}", o.status);
    Ok(String::from_utf8_lossy(&o.stdout).lines().map(|l| l.split_once(' ').map(|x| x.1.to_string()).unwrap_or_default()).collect())
}

fn snapshot_tree(t: &MerkleTree) -> R<(Vec<u8>, String)> { Ok((enc(t)?, raw(&t.commit_id()).iter().map(|b| format!("{b:02x}")).collect())) }
fn snapshot_block(b: &MerkleBlock) -> R<(Vec<u8>, String)> { Ok((enc(b)?, serde_json::to_string(b).map_err(|e| e.to_string())?)) }

/// Calls every read-only operation, checking after each that the values are as before.
fn reads(c: &mut Case, t: &MerkleTree, b: &MerkleBlock, p: &MerkleProof, known: &H, m: &H) -> R {
    let (t0, b0, p0) = (snapshot_tree(t)?, snapshot_block(b)?, enc(p)?);
    let (tc, bc, pc) = (t.clone(), b.clone(), p.clone());
    let k = pid(known);
    let stranger = pid(&c.rng.h32());
    for op in 0..26 {
        match op {
            0 => drop(t.root()),
            1 => drop(t.commit_id()),
            2 => drop(enc(&t.conceal())?),
            3 => drop(MerkleBlock::from(t)),
            4 => drop(t.protocol_id_pos(k)),
            5 => drop((t.width_limit(), t.factored_width(), t.depth(), t.cofactor(), t.entropy())),
            6 => drop(t.clone().into_proofs().count()),
            7 => drop(b.commit_id()),
            8 => drop(enc(&b.conceal())?),
            9 => drop(b.to_merkle_proof(k)),
            10 => drop(b.to_merkle_proof(stranger)),
            11 => drop(b.known_protocol_ids().count()),
            12 => drop(b.to_known_message_map()),
            13 => drop(b.clone().into_known_proofs().count()),
            14 => drop((b.width_limit(), b.factored_width(), b.protocol_id_pos(stranger))),
            15 => drop(b.clone().conceal_except([])),
            16 => drop(b.clone().conceal_except([k])),
            17 => drop(b.clone().conceal_other(k)),
            18 => drop(b.clone().merge_reveal(b.clone())),
            19 => drop(b.clone().merge_reveal_path(p, k, msg(m))),
            20 => drop(p.convolve(k, msg(m))),
            21 => drop(p.convolve(stranger, msg(m))),
            22 => drop((p.depth(), p.width_limit(), p.factored_width(), p.to_path(), p.as_path().len())),
            23 => drop(MerkleBlock::with(p, k, msg(m))),
            24 => drop((format!("{t:?}"), format!("{b:?}"), format!("{p:?}"))),
            _ => drop(b.clone().into_merkle_proof(k)),
        }
        ensure!(snapshot_tree(t)? == t0 && *t == tc, "tree changed by read-only operation {op}");
        ensure!(snapshot_block(b)? == b0 && *b == bc, "block changed by read-only operation {op}");
        ensure!(enc(p)? == p0 && *p == pc, "proof changed by read-only operation {op}");
        c.ev("reads", 1);
    }
    Ok(())
}

type Twin = (&'static str, Vec<u8>, Box<dyn Fn() -> R<Vec<u8>> + Send + Sync>);

/// Computations with the values the model gives for them.
fn twins(rng: &mut Rng, kind: u64, n: usize) -> R<Vec<Twin>> {
    use commit_verify::{DigestExt, Ripemd160, Sha256};
    let mut out: Vec<Twin> = vec![];
    match kind {
        0 | 1 => {
            // tags and data
            let k = rng.range(1, 70) as usize;
            let tag: String = match rng.below(4) {
                0 => TAG_MERKLE.into(),
                1 => TAG_MPC.into(),
                _ => (0..k).map(|_| (32 + rng.below(90)) as u8 as char).collect(),
            };
            let k = rng.below(150) as usize;
            let data = rng.bytes(k);
            for i in 0..n {
                let tag: &'static str = intern(if i == 0 || kind == 1 { tag.clone() } else { twin_text(rng, &tag) });
                let data = if i == 0 || kind == 0 { data.clone() } else { twin(rng, &data) };
                let want = tagged(tag.as_bytes(), &data).to_vec();
                let d = data.clone();
                out.push(("tagged hash", want.clone(), Box::new(move || {
                    let mut h = Sha256::from_tag(tag);
                    h.input_raw(&d);
                    let x: H = h.finish();
                    Ok(x.to_vec())
                })));
                let d = data.clone();
                out.push(("engine", want, Box::new(move || {
                    let mut e = CommitEngine::new(tag);
                    for b in &d {
                        e.commit_to_serialized(b);
                    }
                    let x: H = e.finish().finish();
                    Ok(x.to_vec())
                })));
                let t = rmd(tag.as_bytes());
                let want = rmd(&[&t[..], &t[..], &data].concat());
                out.push(("tagged hash of 160 bits", want, Box::new(move || {
                    let mut h = Ripemd160::from_tag(tag);
                    h.input_raw(&data);
                    let x: [u8; 20] = h.finish();
                    Ok(x.to_vec())
                })));
            }
        }
        2 => {
            // trees
            let (s, _) = gen_shallow(rng, 10, 5);
            for i in 0..n {
                let mut t = s.clone();
                if i > 0 {
                    match rng.below(4) {
                        0 => t.entropy = twin64(rng, t.entropy),
                        1 => {
                            let all = rng.one_in(4);
                            for v in t.msgs.values_mut() {
                                if all || rng.one_in(3) {
                                    *v = twin32(rng, v);
                                }
                            }
                        }
                        2 => {
                            let all = rng.one_in(4);
                            t.msgs = t.msgs.iter().map(|(k, v)| if all || rng.one_in(3) { (twin32(rng, k), *v) } else { (*k, *v) }).collect();
                        }
                        _ => {
                            t.msgs.retain(|_, _| !rng.one_in(4));
                            let (k, v) = (rng.h32(), rng.h32());
                            t.msgs.insert(k, v);
                        }
                    }
                }
                let Ok(m) = MTree::build(&t.msgs, t.min_depth, t.entropy) else { continue };
                if m.depth > 8 {
                    continue;
                }
                let want = [m.strict(), m.commitment().to_vec(), m.block().strict()].concat();
                out.push(("tree, commitment and block", want, Box::new(move || {
                    let x = make_tree(&t)?;
                    Ok([enc(&x)?, raw(&x.commit_id()).to_vec(), enc(&MerkleBlock::from(&x))?].concat())
                })));
            }
        }
        3 => {
            // leaves
            use commit_verify::mpc::Leaf;
            let (p, m, e, i0) = (rng.h32(), rng.h32(), rng.u64(), rng.u32());
            for i in 0..n {
                let (p, m) = match (i, rng.below(3)) {
                    (0, _) => (p, m),
                    (_, 0) => (twin32(rng, &p), m),
                    (_, 1) => (p, twin32(rng, &m)),
                    _ => (m, p),
                };
                out.push(("inhabited leaf", leaf_hash(&p, &m).to_vec(), Box::new(move || Ok(raw(&Leaf::inhabited(pid(&p), msg(&m)).commit_id()).to_vec()))));
                let e = if i == 0 || rng.bool() { e } else { twin64(rng, e) };
                let k = if i == 0 || rng.bool() { i0 } else { twin64(rng, i0 as u64) as u32 };
                out.push(("empty leaf", entropy_hash(e, k).to_vec(), Box::new(move || Ok(raw(&Leaf::entropy(e, k).commit_id()).to_vec()))));
            }
        }
        4 => {
            // lists
            let k = if rng.one_in(8) { rng.below(600) } else { rng.below(40) };
            let list: Vec<Note> = (0..k).map(|_| Note { a: rng.edge64(), b: rng.u32() as u16 }).collect();
            for i in 0..n {
                let mut l = list.clone();
                if i > 0 && !l.is_empty() {
                    let at = rng.below(l.len() as u64) as usize;
                    match rng.below(6) {
                        0 => l[at].a = twin64(rng, l[at].a),
                        1 => l[at].b ^= 1,
                        2 => l.swap(0, at),
                        3 => l.reverse(),
                        4 => l.rotate_left(at),
                        _ => l[at..].iter_mut().for_each(|n| n.a ^= 1),
                    }
                }
                let want = merklize(&l.iter().map(|n| merkle_tagged(&enc(n).unwrap())).collect::<Vec<_>>()).to_vec();
                let v = SmallVec::try_from(l.iter().map(|n| Leafy(*n)).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
                out.push(("root of a list", want, Box::new(move || Ok(raw(&MerkleHash::merklize(&v)).to_vec()))));
            }
        }
        5 => {
            // partial blocks
            let (_, m) = gen_shallow(rng, 10, 6);
            let b = gen_view(rng, &m.block());
            for i in 0..n {
                let mut b = b.clone();
                if i > 0 {
                    let at = rng.below(b.nodes.len() as u64) as usize;
                    match &mut b.nodes[at] {
                        MNode::Hash(_, h) => *h = twin32(rng, h),
                        MNode::Leaf(_, m) => *m = twin32(rng, m),
                    }
                }
                let keep: BTreeSet<H> = b.known().into_keys().filter(|_| rng.bool()).collect();
                let want = [b.commitment()?.to_vec(), b.conceal_except(&keep)?.0.strict(), b.conceal_except(&BTreeSet::new())?.0.root()?.to_vec()].concat();
                let x = to_block(&b)?;
                out.push(("partial block", want, Box::new(move || {
                    let mut y = x.clone();
                    y.conceal_except(keep.iter().map(pid).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
                    let mut z = x.clone();
                    z.conceal_except([]).map_err(|e| e.to_string())?;
                    Ok([raw(&x.commit_id()).to_vec(), enc(&y)?, from_block(&z)?.root()?.to_vec()].concat())
                })));
            }
        }
        _ => {
            // proofs
            let depth = rng.below(20) as u8;
            let p = rng.h32();
            let cof = rng.below(40) as u16;
            let proof = MProof { pos: pos(&p, cof, depth), cofactor: cof, path: (0..depth).map(|_| rng.h32()).collect() };
            let m = rng.h32();
            for i in 0..n {
                let (mut q, mut p, mut m) = (proof.clone(), p, m);
                if i > 0 {
                    match rng.below(4) {
                        0 => m = twin32(rng, &m),
                        1 if depth > 0 => {
                            let at = rng.below(depth as u64) as usize;
                            q.path[at] = twin32(rng, &q.path[at]);
                        }
                        2 => {
                            p = twin32(rng, &p);
                            q.pos = pos(&p, cof, depth);
                        }
                        _ => {
                            q.path.reverse();
                        }
                    }
                }
                let want = match q.eval(&p, &m) {
                    Ok(h) => h.to_vec(),
                    Err(_) => continue,
                };
                let x = to_proof(&q)?;
                out.push(("commitment of a proof", want, Box::new(move || {
                    let block = MerkleBlock::with(&x, pid(&p), msg(&m)).map_err(|e| e.to_string())?;
                    let a = raw(&x.convolve(pid(&p), msg(&m)).map_err(|e| e.to_string())?);
                    ensure!(raw(&block.commit_id()) == a, "block made of a proof has another commitment");
                    Ok(a.to_vec())
                })));
            }
        }
    }
    rng.shuffle(&mut out);
    Ok(out)
}

fn rmd(b: &[u8]) -> Vec<u8> {
    use ripemd::Digest;
    ripemd::Ripemd160::digest(b).to_vec()
}

pub fn c23() -> Prop {
    Prop::new(
        "C23",
        "groups of jobs differing in one thing (message, entropy, depth, concealment) run in shuffled orders, after long histories, on 1 to 16 \
         threads with injected pauses, in processes with other environments; transcripts of all results compared with the first and the trees with \
         the model; snapshots around read-only operations and operations on copies; distinct by transcript",
    )
    .family("orders", 20, 1_000, |c| {
        // one thread: reference order, then shuffled orders with other insertion orders
        let jobs = pool(c.rng.u64(), 3);
        let mut first = vec![];
        for j in &jobs {
            first.push(transcript(j, &mut c.rng, false)?);
        }
        for (j, t) in jobs.iter().zip(&first) {
            c.sig_bytes(digest(t).as_bytes());
            c.sample(|| format!("{}: {} results, digest {}", show_src(&j.src), t.len(), digest(t)));
        }
        for round in 0..4 {
            let mut idx: Vec<usize> = (0..jobs.len()).collect();
            c.rng.shuffle(&mut idx);
            for i in idx {
                let t = transcript(&jobs[i], &mut c.rng, false)?;
                if let Some(d) = differ(&first[i], &t) {
                    return Err(format!("job {i} ({}) in round {round} gives {d}", show_src(&jobs[i].src)));
                }
                c.ev("replicas", 1);
                c.ev("results", t.len() as u64);
            }
        }
        Ok(())
    })
    .family("threads", 6, 300, |c| {
        let jobs = Arc::new(pool(c.rng.u64(), 4));
        let mut first = vec![];
        for j in jobs.iter() {
            first.push(transcript(j, &mut c.rng, false)?);
        }
        let first = Arc::new(first);
        let n = *c.rng.pick(&[2usize, 4, 8, 16]);
        let gate = Arc::new(Barrier::new(n));
        let hs: Vec<_> = (0..n)
            .map(|_| {
                let (jobs, first, gate) = (jobs.clone(), first.clone(), gate.clone());
                let mut rng = Rng::new(&c.rng.h32());
                std::thread::spawn(move || -> R<u64> {
                    let mut idx: Vec<usize> = (0..jobs.len()).collect();
                    rng.shuffle(&mut idx);
                    gate.wait();
                    for i in &idx {
                        let t = transcript(&jobs[*i], &mut rng, true)?;
                        if let Some(d) = differ(&first[*i], &t) {
                            return Err(format!("job {i} ({}) beside other threads gives {d}", show_src(&jobs[*i].src)));
                        }
                    }
                    Ok(idx.len() as u64)
                })
            })
            .collect();
        for h in hs {
            let k = h.join().map_err(|_| "thread running the jobs panicked".to_string())??;
            c.ev("threaded_replicas", k);
        }
        c.ev("thread_groups", 1);
        c.sig(&[n as u64, jobs.len() as u64, c.idx]);
        Ok(())
    })
    .family("shared", 30, 1_500, |c| {
        // many threads read the same values at once
        let (s, m) = loop {
            let x = gen_shallow(&mut c.rng, 12, 6);
            if !x.0.msgs.is_empty() {
                break x;
            }
        };
        let t = Arc::new(make_tree(&s)?);
        let b = Arc::new(MerkleBlock::from(&*t));
        let before = (snapshot_tree(&t)?, snapshot_block(&b)?);
        let want = m.commitment();
        let levels = Arc::new(m.levels());
        let n = 6;
        let gate = Arc::new(Barrier::new(n));
        let hs: Vec<_> = (0..n)
            .map(|_| {
                let (t, b, gate, s, m, levels) = (t.clone(), b.clone(), gate.clone(), s.clone(), m.clone(), levels.clone());
                let mut rng = Rng::new(&c.rng.h32());
                std::thread::spawn(move || -> R<u64> {
                    gate.wait();
                    let ks: Vec<H> = s.msgs.keys().copied().collect();
                    for _ in 0..12 {
                        let k = *rng.pick(&ks);
                        match rng.below(5) {
                            0 => ensure!(raw(&t.commit_id()) == want, "commitment of a shared tree"),
                            1 => ensure!(raw(&b.commit_id()) == want, "commitment of a shared block"),
                            2 => {
                                let p = from_proof(&b.to_merkle_proof(pid(&k)).map_err(|e| e.to_string())?)?;
                                ensure!(p == MProof::from_levels(&levels, m.cofactor, pos(&k, m.cofactor, m.depth)), "proof from a shared block");
                            }
                            3 => {
                                let mut x = (*b).clone();
                                x.conceal_except([pid(&k)]).map_err(|e| e.to_string())?;
                                let w = m.block().conceal_except(&BTreeSet::from([k]))?.0;
                                ensure!(from_block(&x)? == w, "copy of a shared block concealed");
                            }
                            _ => {
                                let y = (*t).clone();
                                ensure!(TryCommitVerify::<MultiSource, UntaggedProtocol>::verify(&y, &source(&s)).is_ok(), "shared tree against its source");
                            }
                        }
                    }
                    Ok(12)
                })
            })
            .collect();
        for h in hs {
            let k = h.join().map_err(|_| "thread reading shared values panicked".to_string())??;
            c.ev("shared_reads", k);
        }
        ensure!(before == (snapshot_tree(&t)?, snapshot_block(&b)?), "shared values changed");
        c.sig(&[m.depth as u64, m.map.len() as u64, c.idx]);
        Ok(())
    })
    .family("processes", 2, 40, |c| {
        let seed = c.rng.u64() >> 1;
        let groups = 4;
        let jobs = pool(seed, groups as usize);
        let mut want = vec![];
        for j in &jobs {
            want.push(digest(&transcript(j, &mut c.rng, false)?));
        }
        let burn = if c.thorough { 400_000 } else { 70_000 };
        for (k, (threads, order, hist)) in [(1, 0, 0), (1, 1, 0), (1, 2, burn), (8, 2, 300)].into_iter().enumerate() {
            let got = run_child([seed, groups, threads, order, hist], k as u64)?;
            ensure!(got.len() == want.len(), "process answered {} of {} jobs", got.len(), want.len());
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                ensure!(g == w, "job {i} ({}) in another process ({threads} threads, order {order}, history {hist}) gives {g} instead of {w}", show_src(&jobs[i].src));
                c.ev("process_replicas", 1);
            }
            c.ev("processes", 1);
            c.max("history", hist);
        }
        c.sig_bytes(want.concat().as_bytes());
        Ok(())
    })
    .family("reads", 250, 8_000, |c| {
        let (s, _) = loop {
            let x = gen_shallow(&mut c.rng, 10, 5);
            if !x.0.msgs.is_empty() {
                break x;
            }
        };
        let t = make_tree(&s)?;
        let src = source(&s);
        let src0 = src.clone();
        let _ = try_tree(&src);
        let _ = t.verify(&src);
        ensure!(src == src0, "source changed by creation or verification");
        let ks: Vec<H> = s.msgs.keys().copied().collect();
        let k = *c.rng.pick(&ks);
        let mut b = MerkleBlock::from(&t);
        if c.rng.bool() {
            let mut keep = c.rng.subset(&ks);
            keep.push(k);
            b.conceal_except(keep.iter().map(pid).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
        }
        let p = b.to_merkle_proof(pid(&k)).map_err(|e| e.to_string())?;
        reads(c, &t, &b, &p, &k, &s.msgs[&k])?;
        // operations on a copy
        let before = snapshot_block(&b)?;
        let mut copy = b.clone();
        copy.conceal_except([]).map_err(|e| e.to_string())?;
        ensure!(snapshot_block(&b)? == before, "concealing a copy changed the original");
        let concealed = snapshot_block(&copy)?;
        let mut copy2 = copy.clone();
        copy2.merge_reveal(b.clone()).map_err(|e| e.to_string())?;
        ensure!(snapshot_block(&copy)? == concealed && snapshot_block(&b)? == before, "merging into a copy changed the original");
        let mut copy3 = copy.clone();
        copy3.merge_reveal_path(&p, pid(&k), msg(&s.msgs[&k])).map_err(|e| e.to_string())?;
        ensure!(snapshot_block(&copy)? == concealed, "merging a proof into a copy changed the original");
        drop((copy2, copy3));
        // a failed operation on a copy
        let mut copy4 = b.clone();
        ensure!(copy4.conceal_except([pid(&c.rng.h32())]).is_err(), "unknown protocol kept");
        ensure!(snapshot_block(&b)? == before, "failing on a copy changed the original");
        // engine: finishing a copy leaves the original
        let mut e = CommitEngine::new("urn:verif:copy");
        e.commit_to_serialized(&Note { a: 1, b: 2 });
        let e2 = e.clone();
        e.commit_to_serialized(&Note { a: 3, b: 4 });
        let (x, y) = (e2.clone().finish_layout().0, e.finish_layout().0);
        use commit_verify::DigestExt;
        let x: H = x.finish();
        let y: H = y.finish();
        ensure!(x != y, "steps on the original reached its copy");
        let mut e3 = e2;
        e3.commit_to_serialized(&Note { a: 3, b: 4 });
        let z: H = e3.finish().finish();
        ensure!(z == y, "the copy of an engine goes on differently");
        c.ev("copies", 5);
        c.sig(&[s.msgs.len() as u64, before.0.len() as u64, c.idx]);
        Ok(())
    })
    .family("merklize", 300, 8_000, |c| {
        // long lists on and off, equal roots each time
        let n = c.rng.below(400) as usize;
        let list: Vec<Note> = (0..n).map(|_| Note { a: c.rng.edge64(), b: c.rng.u32() as u16 }).collect();
        let mut leaves: Vec<Leafy> = list.iter().map(|n| Leafy(*n)).collect();
        let root = |v: &Vec<Leafy>| MerkleHash::merklize(&SmallVec::try_from(v.clone()).unwrap());
        let r1 = root(&leaves);
        let want = merklize(&leaves.iter().map(|l| merkle_tagged(&enc(&l.0).unwrap())).collect::<Vec<_>>());
        ensure!(raw(&r1) == want, "root of {n} leaves");
        leaves.reverse();
        let _ = root(&leaves);
        leaves.reverse();
        ensure!(root(&leaves) == r1, "root of {n} leaves differs when computed again");
        c.ev("roots", 2);
        c.sig(&[n as u64]);
        Ok(())
    })
    .family("twins", 400, 20_000, |c| {
        // the same value computed for inputs easily taken for each other, in any order and again
        let kind = c.rng.below(7);
        let n = c.rng.range(3, 12) as usize;
        let mut jobs = twins(&mut c.rng, kind, n)?;
        for round in 0..3 {
            for (i, (what, want, got)) in jobs.iter().enumerate() {
                let got = got()?;
                ensure!(got == *want, "{what}: input {i} of {n} in round {round} gives {} instead of {}", hex(&got), hex(want));
                c.ev("twins", 1);
            }
            c.rng.shuffle(&mut jobs);
        }
        c.sig(&[kind]);
        for (_, want, _) in &jobs {
            c.sig_bytes(want);
        }
        Ok(())
    })
    .family("busy", 18, 200, |c| {
        // threads in tight loops of short computations, of one kind or of all
        let kind = c.idx % 9;
        let mut jobs = vec![];
        for k in 0..7 {
            if kind == k || kind > 6 {
                let n = c.rng.range(2, 5) as usize;
                jobs.extend(twins(&mut c.rng, k, n)?);
                if kind < 7 {
                    jobs.extend(twins(&mut c.rng, k, n)?);
                }
            }
        }
        if kind == 4 || kind > 6 {
            // short and long lists
            for len in [0, 1, 2, 3, 5, 64, 300] {
                let l: Vec<Note> = (0..len).map(|_| Note { a: c.rng.u64(), b: 0 }).collect();
                let want = merklize(&l.iter().map(|n| merkle_tagged(&enc(n).unwrap())).collect::<Vec<_>>()).to_vec();
                let v = SmallVec::try_from(l.iter().map(|n| Leafy(*n)).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
                jobs.push(("root of a list", want, Box::new(move || Ok(raw(&MerkleHash::merklize(&v)).to_vec()))));
            }
        }
        if jobs.is_empty() {
            return Ok(());
        }
        let n = 12;
        let jobs = Arc::new(jobs);
        let gate = Arc::new(Barrier::new(n));
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (jobs, gate) = (jobs.clone(), gate.clone());
                let mut rng = Rng::new(&c.rng.h32());
                std::thread::spawn(move || -> R<u64> {
                    // a few of them again and again; every third thread all of them
                    let mine: Vec<usize> = match i % 3 {
                        0 => (0..jobs.len()).collect(),
                        _ => (0..rng.range(1, 3)).map(|_| rng.below(jobs.len() as u64) as usize).collect(),
                    };
                    gate.wait();
                    let start = std::time::Instant::now();
                    let mut done = 0;
                    while start.elapsed().as_millis() < 150 {
                        for _ in 0..20 {
                            let j = *rng.pick(&mine);
                            let (what, want, got) = &jobs[j];
                            let got = got()?;
                            ensure!(got == *want, "{what} beside busy threads gives {} instead of {}", hex(&got), hex(want));
                            done += 1;
                        }
                    }
                    Ok(done)
                })
            })
            .collect();
        let mut bad = None;
        for h in hs {
            match h.join() {
                Err(_) => bad = Some("busy thread panicked".to_string()),
                Ok(Err(e)) => bad = Some(e),
                Ok(Ok(k)) => c.ev("busy", k),
            }
        }
        c.sig(&[kind, jobs.len() as u64, c.idx]);
        bad.map_or(Ok(()), Err)
    })
    .family("nested", 300, 12_000, |c| {
        // computations run from inside the callbacks of another one
        let kind = c.rng.below(7);
        let n = c.rng.range(1, 3) as usize;
        let mut inner = twins(&mut c.rng, kind, n)?;
        inner.truncate(6);
        for len in [1, c.rng.range(2, 70)] {
            let l: Vec<Note> = (0..len).map(|_| Note { a: c.rng.u64(), b: 0 }).collect();
            let want = merklize(&l.iter().map(|n| merkle_tagged(&enc(n).unwrap())).collect::<Vec<_>>()).to_vec();
            let v = SmallVec::try_from(l.iter().map(|n| Leafy(*n)).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
            inner.push(("root of a list", want, Box::new(move || Ok(raw(&MerkleHash::merklize(&v)).to_vec()))));
        }
        let k = c.rng.below(24);
        let list: Vec<Note> = (0..k).map(|_| Note { a: c.rng.edge64(), b: c.rng.u32() as u16 }).collect();
        let body: Vec<u8> = list.iter().flat_map(|n| enc(n).unwrap()).collect();
        let root = merklize(&list.iter().map(|n| merkle_tagged(&enc(n).unwrap())).collect::<Vec<_>>());
        let hooks: Vec<Hook> = list.iter().map(|n| Hook(*n)).collect();
        nest::arm(inner, &c.rng.h32());
        let r = (|| -> R {
            let own = Leaves(hooks.clone());
            let v = SmallVec::try_from(hooks.clone()).map_err(|e| e.to_string())?;
            ensure!(raw(&MerkleHash::merklize(&own)) == root, "root of {k} user leaves with computations in between");
            ensure!(raw(&MerkleHash::merklize(&v)) == root, "root of {k} leaves with computations in between");
            let mut e = CommitEngine::new("urn:verif:nest");
            e.commit_to_linear_list(&v);
            e.commit_to_merkle(&v);
            for h in &hooks {
                e.commit_to_concealed(h);
                e.commit_to_serialized(h);
                e.commit_to_option(&Some(*h));
            }
            use commit_verify::DigestExt;
            let id: H = e.finish().finish();
            let mut all = (k as u16).to_le_bytes().to_vec();
            all.extend(&body);
            all.extend(root);
            for n in &list {
                let b = enc(n).unwrap();
                all.extend([&b[..], &b, &[1], &b].concat());
            }
            ensure!(id == tagged(b"urn:verif:nest", &all), "identifier with computations in between");
            for h in &hooks {
                ensure!(raw(&h.commit_id()) == merkle_tagged(&enc(&h.0)?), "leaf with computations in between");
            }
            Ok(())
        })();
        let (ran, bad) = nest::disarm();
        r?;
        if let Some(b) = bad {
            return Err(b);
        }
        c.ev("nested", ran);
        c.sig(&[kind, k, ran]);
        Ok(())
    })
    .require("busy", 20_000)
    .require("nested", 3_000)
    .require("twins", 5_000)
    .require("replicas", 1_500)
    .require("threaded_replicas", 300)
    .require("process_replicas", 200)
    .require("shared_reads", 1_000)
    .require("reads", 3_000)
    .require("copies", 500)
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Leafy(Note);
impl CommitEncode for Leafy {
    type CommitmentId = MerkleHash;
    fn commit_encode(&self, e: &mut CommitEngine) { e.commit_to_serialized(&self.0) }
}

/// Computations to run from callbacks.
mod nest {
    use super::*;
    use std::cell::RefCell;
    type State = (Vec<Twin>, Rng, u64, Option<String>);
    thread_local! { static JOBS: RefCell<Option<State>> = const { RefCell::new(None) }; }
    pub fn arm(jobs: Vec<Twin>, seed: &H) { JOBS.with(|j| *j.borrow_mut() = Some((jobs, Rng::new(seed), 0, None))) }
    pub fn disarm() -> (u64, Option<String>) { JOBS.with(|j| j.borrow_mut().take()).map(|s| (s.2, s.3)).unwrap_or_default() }
    pub fn call() {
        // taken out meanwhile: what runs from here does not come back
        let Some(mut s) = JOBS.with(|j| j.borrow_mut().take()) else { return };
        if !s.1.one_in(3) {
            let (what, want, got) = s.1.pick(&s.0);
            match got() {
                Ok(g) if g == *want => {}
                Ok(g) => s.3 = Some(format!("{what} from inside another computation gives {} instead of {}", hex(&g), hex(want))),
                Err(e) => s.3 = Some(format!("{what} from inside another computation: {e}")),
            }
            s.2 += 1;
        }
        JOBS.with(|j| *j.borrow_mut() = Some(s));
    }
}
/// A note with a computation before each of its callbacks.
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Hook(Note);
impl strict_encoding::StrictEncode for Hook {
    fn strict_encode<W: strict_encoding::TypedWrite>(&self, w: W) -> std::io::Result<W> {
        nest::call();
        let w = w.write_newtype::<Self>(&self.0)?;
        nest::call();
        Ok(w)
    }
}
impl CommitEncode for Hook {
    type CommitmentId = MerkleHash;
    fn commit_encode(&self, e: &mut CommitEngine) {
        nest::call();
        e.commit_to_serialized(&self.0);
        nest::call();
    }
}
impl Conceal for Hook {
    type Concealed = Note;
    fn conceal(&self) -> Note {
        nest::call();
        self.0
    }
}
pub struct Leaves(Vec<Hook>);
impl commit_verify::MerkleLeaves for Leaves {
    type Leaf = Hook;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Hook> {
        nest::call();
        Walk(self.0.iter())
    }
}
struct Walk<'a>(std::slice::Iter<'a, Hook>);
impl<'a> Iterator for Walk<'a> {
    type Item = &'a Hook;
    fn next(&mut self) -> Option<&'a Hook> {
        nest::call();
        let x = self.0.next();
        nest::call();
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let x = self.0.size_hint();
        nest::call();
        x
    }
}
impl ExactSizeIterator for Walk<'_> {}
