//! Monitors of the multi-protocol commitment properties: C01-C08, C29.
use std::collections::{BTreeMap, BTreeSet};

use amplify::num::u5;
use commit_verify::mpc::{self, InvalidProof, LeafNotKnown, MergeError, MerkleBlock, MerkleProof, Proof};
use commit_verify::{CommitId, Conceal, CommitmentLayout};
use vharness::*;

// ---------------------------------------------------------------- observations

fn cid<T: CommitId<CommitmentId = mpc::Commitment>>(v: &T) -> H { raw(&v.commit_id()) }

/// Fields of an invalid-proof error, as exposed by its serde form.
fn bad_pos(e: &InvalidProof) -> R<(H, BadPos)> {
    let v = serde_json::to_value(e).map_err(|e| format!("InvalidProof not serializable: {e}"))?;
    let n = |k: &str| v[k].as_u64().ok_or(format!("InvalidProof has no number {k}: {v}"));
    let p = unhex(v["protocolId"].as_str().ok_or("InvalidProof has no protocolId")?);
    let b = BadPos { expected: n("expected")? as u32, actual: n("actual")? as u32, width: n("width")? as u32 };
    let shown = e.to_string();
    for part in [hex(&p), b.expected.to_string(), b.actual.to_string(), b.width.to_string()] {
        ensure!(shown.contains(&part), "InvalidProof text '{shown}' doesn't mention {part}");
    }
    Ok((p.try_into().map_err(|_| "protocolId length")?, b))
}

fn same_block(c: &mut Case, what: &str, got: &MerkleBlock, want: &MBlock) -> R {
    c.ev("blocks_compared", 1);
    let g = enc(got)?;
    if g != want.strict() {
        let g = from_block(got)?;
        return Err(format!("{what}: got {}\n  expected {}", show_block(&g), show_block(want)));
    }
    // the accessors tell the same
    let known = want.known();
    let ids: Vec<H> = got.known_protocol_ids().map(|p| raw(&p)).collect();
    let want_ids: Vec<H> =
        want.nodes.iter().filter_map(|n| if let MNode::Leaf(p, _) = n { Some(*p) } else { None }).collect();
    ensure_eq!(ids, want_ids, "{what}: known_protocol_ids");
    let map: BTreeMap<H, H> = got.to_known_message_map().iter().map(|(p, m)| (raw(p), raw(m))).collect();
    ensure_eq!(map, known, "{what}: known message map");
    ensure_eq!(got.entropy(), want.entropy, "{what}: entropy");
    ensure_eq!(got.depth().to_u8(), want.depth, "{what}: depth");
    ensure_eq!(got.cofactor(), want.cofactor, "{what}: cofactor");
    ensure_eq!(got.method(), mpc::Method::Sha256t, "{what}: method");
    Ok(())
}

fn same_proof(c: &mut Case, what: &str, got: &MerkleProof, want: &MProof) -> R {
    c.ev("proofs_compared", 1);
    let g = from_proof(got)?;
    ensure!(g == *want, "{what}: got {g:?}, expected {want:?}");
    ensure_eq!(got.pos(), want.pos, "{what}: pos accessor");
    ensure_eq!(got.cofactor(), want.cofactor, "{what}: cofactor accessor");
    ensure_eq!(got.method(), mpc::Method::Sha256t, "{what}: method accessor");
    let path: Vec<H> = got.as_path().iter().map(raw).collect();
    ensure_eq!(path, want.path, "{what}: as_path");
    let path: Vec<H> = got.to_path().iter().map(raw).collect();
    ensure_eq!(path, want.path, "{what}: to_path");
    let path: Vec<H> = got.clone().into_path().iter().map(raw).collect();
    ensure_eq!(path, want.path, "{what}: into_path");
    Ok(())
}

fn widths(what: &str, depth: u8, cof: u16, got: (u32, u32)) -> R {
    ensure_eq!(got.0 as u64, 1u64 << depth, "{what}: width limit at depth {depth}");
    ensure_eq!(got.1 as u64, divisor(cof, depth), "{what}: factored width at depth {depth} cofactor {cof}");
    Ok(())
}

fn unknown_leaf(e: &LeafNotKnown, one_of: &[H]) -> R {
    let (a, b) = (e.to_string(), format!("{e:?}"));
    ensure!(
        one_of.iter().any(|p| a.contains(&hex(p))) && one_of.iter().any(|p| b.to_lowercase().contains(&hex(p))),
        "error '{a}' / '{b}' names none of the unknown protocols {:?}",
        one_of.iter().map(|p| hex(p)).collect::<Vec<_>>()
    );
    Ok(())
}

/// A protocol id not in the given set; often one sharing a slot or most bytes with a known one.
fn stranger(rng: &mut Rng, known: &BTreeMap<H, H>, cof: u16, depth: u8) -> H {
    loop {
        let p = match (rng.below(4), known.keys().nth(rng.below(known.len().max(1) as u64) as usize)) {
            (0, Some(k)) => {
                let mut b = *k;
                b[rng.below(32) as usize] ^= 1 << rng.below(8);
                b
            }
            (1, Some(k)) => match pid_at(rng, pos(k, cof, depth) as u64, cof, depth) {
                Some(p) => p,
                None => rng.h32(),
            },
            (2, _) => le(rng.below(100)),
            _ => rng.h32(),
        };
        if !known.contains_key(&p) {
            return p;
        }
    }
}

// ---------------------------------------------------------------- C01

fn check_placement(c: &mut Case, s: &Src) -> R {
    c.note(show_src(s));
    let want = MTree::build(&s.msgs, s.min_depth, s.entropy);
    let got = try_tree(&source(s));
    c.ev("sources", 1);
    match (got, want) {
        (Ok(t), Ok(m)) => {
            c.ev("placed", 1);
            c.max("depth", m.depth as u64);
            c.max("cofactor", m.cofactor as u64);
            c.max("messages", m.msgs.len() as u64);
            c.sig(&[m.depth as u64, m.cofactor as u64, m.msgs.len() as u64, s.min_depth as u64, s.class]);
            c.sample(|| format!("{} -> depth {} cofactor {}", show_src(s), m.depth, m.cofactor));
            ensure_eq!((t.depth().to_u8(), t.cofactor()), (m.depth, m.cofactor), "(depth, cofactor) chosen");
            ensure_eq!(t.entropy(), s.entropy, "entropy");
            widths("tree", m.depth, m.cofactor, (t.width_limit(), t.factored_width()))?;
            for p in s.msgs.keys() {
                ensure_eq!(t.protocol_id_pos(pid(p)), pos(p, m.cofactor, m.depth), "position of {}", hex(p));
            }
            for _ in 0..3 {
                let p = stranger(&mut c.rng, &s.msgs, m.cofactor, m.depth);
                ensure_eq!(t.protocol_id_pos(pid(&p)), pos(&p, m.cofactor, m.depth), "position of {}", hex(&p));
            }
            let e = enc(&t)?;
            ensure!(e == m.strict(), "stored tree state differs: got {} expected {}", hex(&e), hex(&m.strict()));
            if m.depth <= 7 {
                let b = MerkleBlock::from(&t);
                widths("block", m.depth, m.cofactor, (b.width_limit(), b.factored_width()))?;
                ensure_eq!((b.depth().to_u8(), b.cofactor()), (m.depth, m.cofactor), "block (depth, cofactor)");
                for p in s.msgs.keys() {
                    ensure_eq!(b.protocol_id_pos(pid(p)), pos(p, m.cofactor, m.depth), "block position of {}", hex(p));
                }
                for (p, proof) in t.into_proofs() {
                    widths("proof", m.depth, m.cofactor, (proof.width_limit(), proof.factored_width()))?;
                    ensure_eq!(proof.pos(), pos(&raw(&p), m.cofactor, m.depth), "proof position");
                    ensure_eq!((proof.depth().to_u8(), proof.cofactor()), (m.depth, m.cofactor), "proof (depth, cofactor)");
                }
            }
            Ok(())
        }
        (Err(e), Err(w)) => {
            c.ev("refused", 1);
            c.sig(&[77, s.msgs.len() as u64, s.min_depth as u64]);
            let want = match w {
                PlaceErr::Empty => mpc::Error::Empty,
                PlaceErr::CantFit(n) => mpc::Error::CantFitInMaxSlots(n),
            };
            ensure_eq!(e, want, "error");
            if let mpc::Error::CantFitInMaxSlots(n) = e {
                c.ev("cant_fit", 1);
                ensure!(e.to_string().contains(&n.to_string()), "error text '{e}' lacks the count");
            }
            Ok(())
        }
        (Ok(t), Err(w)) => Err(format!("commitment created at depth {} where {w:?} is due", t.depth())),
        (Err(e), Ok(m)) => Err(format!("refused with '{e}', placeable at depth {} cofactor {}", m.depth, m.cofactor)),
    }
}

fn c01() -> Prop {
    Prop::new(
        "C01",
        "sources drawn from ten protocol-id classes (sequential, congruent, lcm-spaced, byte-structured, equal low/high parts, \
         near 2^256, random) and sources built so that every earlier (depth, cofactor) collides; non-trivial when a placement \
         decision was compared, distinct by (depth, cofactor, size, minimal depth, class)",
    )
    .family("forced_500", 24, 200, |c| {
        // the very last cofactor attempt at depth 10, and the first choice after it
        let (d, cof) = [(10, 500), (10, 499), (11, 0), (11, 1)][c.idx as usize % 4];
        let Some(s) = gen_forced(&mut c.rng, 9, d, cof, true) else { return Ok(()) };
        c.ev("forced", 1);
        check_placement(c, &s)
    })
    .family("forced_deep", 6, 60, |c| {
        let md = 26 + (c.idx % 5) as u8;
        let (d, cof) = (md + 1, *c.rng.pick(&[0u16, 1, 2, 499, 500]));
        let Some(s) = gen_forced(&mut c.rng, md, d, cof, true) else { return Ok(()) };
        c.ev("forced", 1);
        check_placement(c, &s)
    })
    .family("cant_fit", 6, 40, |c| {
        let md = if c.idx % 3 == 2 { 30 } else { 31 };
        let Some(s) = gen_forced(&mut c.rng, md, 31, 0, false) else { return Ok(()) };
        check_placement(c, &s)
    })
    .family("forced", 700, 20_000, |c| {
        let md = c.rng.below(9) as u8;
        let d = md + c.rng.below(3) as u8;
        let cof = if d == md { c.rng.below(2) } else { c.rng.below((1u64 << (d - 1)).min(500) + 1) } as u16;
        let Some(s) = gen_forced(&mut c.rng, md, d, cof, true) else { return Ok(()) };
        c.ev("forced", 1);
        check_placement(c, &s)
    })
    .family("random", 8_000, 300_000, |c| {
        let s = gen_src(&mut c.rng, 90, 31);
        check_placement(c, &s)
    })
    .family("shallow", 6_000, 200_000, |c| {
        let mut s = gen_src(&mut c.rng, 20, 4);
        if c.rng.bool() {
            s.min_depth = 0;
        }
        check_placement(c, &s)
    })
    .family("large", 30, 600, |c| {
        let mut s = gen_src(&mut c.rng, 300, 12);
        while s.msgs.len() < 300 {
            let p = c.rng.h32();
            s.msgs.insert(p, c.rng.h32());
        }
        check_placement(c, &s)
    })
    .family("crowds", 3, 12, |c| {
        // more messages than sixteen bits can count
        let n = [65_535, 65_536, 65_537, 70_000][(c.idx % 4) as usize];
        let start = c.rng.below(1000);
        let msgs = (0..n).map(|j| (le(start + j), c.rng.h32())).collect();
        let s = Src { msgs, min_depth: c.rng.below(18) as u8, entropy: c.rng.u64(), class: 205 };
        check_placement(c, &s)
    })
    .require("placed", 1000)
    .require("cant_fit", 2)
    .require("forced", 100)
}

// ---------------------------------------------------------------- C02

fn check_commitment(c: &mut Case, s: &Src, m: &MTree) -> R {
    c.note(show_src(s));
    let t = make_tree(s)?;
    let root = m.root();
    let com = commitment(m.depth, m.cofactor, &root);
    let conc = concealed_bytes(m.depth, m.cofactor, &root);
    c.ev("trees", 1);
    c.ev("slots_hashed", m.width());
    c.max("depth", m.depth as u64);
    c.sig(&[m.depth as u64, m.cofactor as u64, m.msgs.len() as u64, s.class]);
    c.sample(|| format!("{} -> commitment {}", show_src(s), hex(&com)));
    ensure_eq!(hex(&raw(&t.root())), hex(&root), "tree root");
    if m.depth > 16 && !c.thorough {
        // concealing anything of this width takes ten seconds each time
        return same_block(c, "revealed block", &MerkleBlock::from(&t), &m.block());
    }
    ensure_eq!(hex(&cid(&t)), hex(&com), "tree commitment");
    let tc = t.conceal();
    ensure_eq!(hex(&enc(&tc)?), hex(&conc), "concealed tree");
    ensure_eq!(hex(&cid(&tc)), hex(&com), "concealed tree commitment");
    ensure_eq!(hex(&enc(&tc.conceal())?), hex(&conc), "concealing the concealed form");
    let b = MerkleBlock::from(&t);
    same_block(c, "revealed block", &b, &m.block())?;
    ensure_eq!(hex(&cid(&b)), hex(&com), "block commitment");
    let bc = b.conceal();
    ensure_eq!(hex(&enc(&bc)?), hex(&conc), "concealed block");
    ensure_eq!(hex(&cid(&bc)), hex(&com), "concealed block commitment");
    ensure!(bc == tc, "concealed forms of tree and block differ");
    let b2 = MerkleBlock::from(t.clone());
    ensure!(enc(&b2)? == enc(&b)?, "block made by value differs from block made by reference");
    // every leaf's own id
    for (p, x) in s.msgs.iter().take(4) {
        let l = mpc::Leaf::inhabited(pid(p), msg(x));
        ensure_eq!(hex(&raw(&l.commit_id())), hex(&leaf_hash(p, x)), "inhabited leaf hash");
        ensure_eq!(hex(&enc(&l)?), hex(&leaf_bytes(p, x)), "inhabited leaf bytes");
    }
    for _ in 0..2 {
        let (e, i) = (c.rng.edge64(), c.rng.edge64() as u32);
        let l = mpc::Leaf::entropy(e, i);
        ensure_eq!(hex(&raw(&l.commit_id())), hex(&entropy_hash(e, i)), "placeholder leaf hash");
    }
    Ok(())
}

fn c02() -> Prop {
    Prop::new(
        "C02",
        "trees from the ten source classes and forced cofactors, depth 0..11 (to 13, thorough 16), each compared with the model's \
         root, concealed bytes and commitment through tree, block and concealed form; distinct by (depth, cofactor, size, class)",
    )
    .family("big", 3, 40, |c| {
        let d = if c.thorough { 13 + (c.idx % 3) as u8 } else { 12 };
        let n = c.rng.range(0, 40);
        let msgs = (0..n).map(|_| (c.rng.h32(), c.rng.h32())).collect();
        let s = Src { msgs, min_depth: d, entropy: c.rng.u64(), class: 200 };
        let m = MTree::build(&s.msgs, d, s.entropy).map_err(|e| format!("{e:?}"))?;
        check_commitment(c, &s, &m)
    })
    .family("wide", 1, 6, |c| {
        // more slots than sixteen bits can number
        let d = 17 + (c.idx % 2) as u8;
        let mut msgs = BTreeMap::new();
        for at in [0, 1, 65_535, 65_536, 65_537, (1 << d) - 1, c.rng.below(1 << d)] {
            if let Some(p) = pid_at(&mut c.rng, at, 0, d) {
                msgs.insert(p, c.rng.h32());
            }
        }
        let s = Src { msgs, min_depth: d, entropy: c.rng.u64(), class: 202 };
        let m = MTree::build(&s.msgs, d, s.entropy).map_err(|e| format!("{e:?}"))?;
        c.ev("wide_trees", 1);
        check_commitment(c, &s, &m)
    })
    .family("trees", 900, 20_000, |c| {
        let (s, m) = gen_shallow(&mut c.rng, 60, 8);
        check_commitment(c, &s, &m)
    })
    .family("dense", 500, 10_000, |c| {
        // every slot taken: no placeholder at all
        let d = c.rng.below(6) as u8;
        let mut msgs = BTreeMap::new();
        for i in 0..1u64 << d {
            if let Some(p) = pid_at(&mut c.rng, i, 0, d) {
                msgs.insert(p, c.rng.h32());
            }
        }
        let s = Src { msgs, min_depth: d, entropy: c.rng.edge64(), class: 201 };
        let m = MTree::build(&s.msgs, d, s.entropy).map_err(|e| format!("{e:?}"))?;
        if m.depth <= 8 {
            check_commitment(c, &s, &m)?;
        }
        Ok(())
    })
    .family("forced_cofactor", 60, 1500, |c| {
        let md = c.rng.below(7) as u8;
        let d = md + 1 + c.rng.below(2) as u8;
        let cof = c.rng.below((1u64 << (d - 1)).min(500) + 1) as u16;
        let Some(s) = gen_forced(&mut c.rng, md, d, cof, true) else { return Ok(()) };
        let m = MTree::build(&s.msgs, md, s.entropy).map_err(|e| format!("{e:?}"))?;
        check_commitment(c, &s, &m)
    })
    .family("sparse_blocks", 600, 12_000, |c| {
        // partially revealed deep blocks: the commitment is the model's
        let d = c.rng.below(32) as u8;
        let cof = if c.rng.bool() { c.rng.below(501) as u16 } else { c.rng.u32() as u16 };
        let k = if c.rng.one_in(20) { c.rng.range(17, 90) } else { c.rng.below(6) } as usize;
        let b = gen_sparse(&mut c.rng, d, cof, k, 4);
        c.note(show_block(&b));
        let r = to_block(&b)?;
        c.sig(&[d as u64, cof as u64, b.nodes.len() as u64]);
        c.ev("sparse_blocks", 1);
        ensure_eq!(hex(&cid(&r)), hex(&b.commitment()?), "commitment of a partial block");
        ensure_eq!(hex(&enc(&r.conceal())?), hex(&concealed_bytes(d, cof, &b.root()?)), "concealed partial block");
        Ok(())
    })
    .require("trees", 500)
    .require("sparse_blocks", 300)
}

// ---------------------------------------------------------------- C03

fn check_proof_of(c: &mut Case, b: &MBlock, r: &MerkleBlock, com: &H, p: &H, m: &H, want: &MProof) -> R {
    let proof = r.to_merkle_proof(pid(p)).map_err(|e| format!("no proof for revealed {}: {e}", hex(p)))?;
    same_proof(c, "to_merkle_proof", &proof, want)?;
    let by_value = r.clone().into_merkle_proof(pid(p)).map_err(|e| format!("no proof by value: {e}"))?;
    same_proof(c, "into_merkle_proof", &by_value, want)?;
    let got = proof.convolve(pid(p), msg(m)).map_err(|e| format!("honest proof refused: {e}"))?;
    ensure_eq!(hex(&raw(&got)), hex(com), "commitment recomputed by the proof of {} at pos {}", hex(p), want.pos);
    ensure_eq!(hex(com), hex(&b.commitment()?), "model");
    widths("proof", b.depth, b.cofactor, (proof.width_limit(), proof.factored_width()))?;
    ensure_eq!(proof.depth().to_u8(), b.depth, "proof depth");
    Ok(())
}

fn check_all_proofs(c: &mut Case, b: &MBlock, r: &MerkleBlock) -> R {
    let com = b.commitment()?;
    let known = b.known();
    for (p, m) in &known {
        let want = b.proof(p)?;
        check_proof_of(c, b, r, &com, p, m, &want)?;
    }
    let bulk: Vec<(H, MProof)> = r
        .clone()
        .into_known_proofs()
        .map(|(p, x)| Ok((raw(&p), from_proof(&x)?)))
        .collect::<R<Vec<_>>>()?;
    ensure_eq!(bulk.len(), known.len(), "number of proofs extracted in bulk");
    let bulk: BTreeMap<H, MProof> = bulk.into_iter().collect();
    for p in known.keys() {
        ensure_eq!(bulk.get(p), Some(&b.proof(p)?), "bulk proof of {}", hex(p));
    }
    ensure_eq!(bulk.len(), known.len(), "distinct protocols in bulk proofs");
    for _ in 0..2 {
        let p = stranger(&mut c.rng, &known, b.cofactor, b.depth);
        c.ev("unknown_asked", 1);
        match r.to_merkle_proof(pid(&p)) {
            Ok(x) => return Err(format!("proof {x:?} made for unrevealed protocol {}", hex(&p))),
            Err(e) => unknown_leaf(&e, &[p])?,
        }
        match r.clone().into_merkle_proof(pid(&p)) {
            Ok(x) => return Err(format!("proof {x:?} made for unrevealed protocol {}", hex(&p))),
            Err(e) => unknown_leaf(&e, &[p])?,
        }
    }
    Ok(())
}

/// Random history of concealments and merges applied to model and real block in lockstep.
fn history(
    c: &mut Case,
    full: &MBlock,
    steps: u64,
    mut each: impl FnMut(&mut Case, &MBlock, &MerkleBlock) -> R,
) -> R {
    let mut m = gen_view(&mut c.rng, full);
    let mut r = to_block(&m)?;
    each(c, &m, &r)?;
    for _ in 0..steps {
        if c.rng.bool() {
            let known: Vec<H> = m.known().keys().copied().collect();
            let keep = c.rng.subset(&known);
            c.note(format!("conceal_except {} of {}", keep.len(), known.len()));
            let ids: Vec<_> = keep.iter().map(pid).collect();
            m = m.conceal_except(&keep.into_iter().collect())?.0;
            r.conceal_except(&ids).map_err(|e| format!("conceal_except of revealed protocols failed: {e}"))?;
        } else {
            let o = gen_view(&mut c.rng, full);
            c.note(format!("merge with {}", show_block(&o)));
            r.merge_reveal(to_block(&o)?).map_err(|e| format!("merge of related blocks failed: {e}"))?;
            m = m.merge(&o)?;
        }
        c.ev("history_steps", 1);
        each(c, &m, &r)?;
    }
    Ok(())
}

fn gen_deep(c: &mut Case) -> MBlock {
    let d = c.rng.below(32) as u8;
    let cof = match c.rng.below(4) {
        0 | 1 => 0,
        2 => c.rng.below(501) as u16,
        _ => c.rng.u32() as u16,
    };
    if c.rng.one_in(16) {
        // more nodes than a byte can count
        let d = d.max(8);
        let k = c.rng.range(17, 90) as usize;
        let b = gen_sparse(&mut c.rng, d, cof, k, 2);
        if b.nodes.len() > 255 {
            c.ev("large_blocks", 1);
        }
        return b;
    }
    let k = c.rng.below(9) as usize;
    let split = c.rng.below(6);
    gen_sparse(&mut c.rng, d, cof, k, split)
}

fn c03() -> Prop {
    Prop::new(
        "C03",
        "proofs of every revealed message from generated trees, full blocks, and blocks after random conceal/merge histories over \
         dense trees (depth to 9) and sparse deep trees (depth to 31); distinct by (depth, cofactor, revealed, nodes, position)",
    )
    .family("trees", 400, 9_000, |c| {
        let (s, m) = gen_shallow(&mut c.rng, 30, 8);
        c.note(show_src(&s));
        let t = make_tree(&s)?;
        let levels = m.levels();
        let com = commitment(m.depth, m.cofactor, &levels[0][0]);
        let mut got: Vec<(H, MProof)> = vec![];
        for (p, proof) in t.clone().into_proofs() {
            let x = s.msgs.get(&raw(&p)).ok_or(format!("proof for uncommitted protocol {p}"))?;
            let v = proof.convolve(p, msg(x)).map_err(|e| format!("honest proof refused: {e}"))?;
            ensure_eq!(hex(&raw(&v)), hex(&com), "commitment recomputed by a proof");
            ensure_eq!(
                hex(&cid(&MerkleBlock::with(&proof, p, msg(x)).map_err(|e| e.to_string())?)),
                hex(&com),
                "commitment of the block made from a proof"
            );
            got.push((raw(&p), from_proof(&proof)?));
        }
        ensure_eq!(got.len(), s.msgs.len(), "number of proofs");
        let got: BTreeMap<H, MProof> = got.into_iter().collect();
        for p in s.msgs.keys() {
            let at = pos(p, m.cofactor, m.depth);
            c.sig(&[m.depth as u64, m.cofactor as u64, s.msgs.len() as u64, at as u64]);
            ensure_eq!(got.get(p), Some(&MProof::from_levels(&levels, m.cofactor, at)), "proof of {}", hex(p));
            c.ev("tree_proofs", 1);
        }
        c.sample(|| format!("{}: {} proofs", show_src(&s), got.len()));
        if m.depth <= 6 {
            let b = MerkleBlock::from(&t);
            check_all_proofs(c, &m.block(), &b)?;
        }
        Ok(())
    })
    .family("history", 350, 8_000, |c| {
        let (s, m) = gen_shallow(&mut c.rng, 14, 6);
        c.note(show_src(&s));
        let full = m.block();
        let n = c.rng.range(1, 5);
        history(c, &full, n, |c, m, r| {
            c.sig(&[m.depth as u64, m.cofactor as u64, m.known().len() as u64, m.nodes.len() as u64]);
            check_all_proofs(c, m, r)
        })
    })
    .family("deep", 350, 8_000, |c| {
        let full = gen_deep(c);
        c.note(show_block(&full));
        c.sample(|| show_block(&full));
        c.max("depth", full.depth as u64);
        let n = c.rng.range(0, 4);
        history(c, &full, n, |c, m, r| {
            c.sig(&[m.depth as u64, m.cofactor as u64, m.known().len() as u64, m.nodes.len() as u64]);
            check_all_proofs(c, m, r)
        })
    })
    .family("many", 2, 40, |c| {
        // more protocols than eight bits can count
        let n = [257, 300, 511, 512, 600][c.rng.below(5) as usize];
        let start = c.rng.below(1000);
        let msgs = (0..n).map(|j| (le(start + j), c.rng.h32())).collect();
        let s = Src { msgs, min_depth: 0, entropy: c.rng.u64(), class: 203 };
        let m = MTree::build(&s.msgs, 0, s.entropy).map_err(|e| format!("{e:?}"))?;
        c.note(show_src(&s));
        c.sig(&[m.depth as u64, m.cofactor as u64, n]);
        c.ev("many_protocols", n);
        let t = make_tree(&s)?;
        let levels = m.levels();
        let mut got = BTreeMap::new();
        for (p, proof) in t.clone().into_proofs() {
            got.insert(raw(&p), from_proof(&proof)?);
        }
        ensure_eq!(got.len(), s.msgs.len(), "number of proofs");
        for p in s.msgs.keys() {
            let at = pos(p, m.cofactor, m.depth);
            ensure_eq!(got.get(p), Some(&MProof::from_levels(&levels, m.cofactor, at)), "proof of {}", hex(p));
        }
        check_all_proofs(c, &m.block(), &MerkleBlock::from(&t))?;
        let mut b = m.block();
        let mut r = MerkleBlock::from(&t);
        let keep: Vec<H> = s.msgs.keys().copied().filter(|_| !c.rng.one_in(8)).collect();
        b = b.conceal_except(&keep.iter().copied().collect())?.0;
        r.conceal_except(&keep.iter().map(pid).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
        check_all_proofs(c, &b, &r)
    })
    .require("tree_proofs", 500)
    .require("proofs_compared", 2000)
    .require("unknown_asked", 500)
}

// ---------------------------------------------------------------- C04

/// The real verifier against the reference one.
fn judge(c: &mut Case, what: &str, p: &MProof, id: &H, m: &H, forbid: Option<&H>) -> R {
    c.ev("evaluations", 1);
    let real = to_proof(p)?;
    let got = real.convolve(pid(id), msg(m));
    let with = MerkleBlock::with(&real, pid(id), msg(m));
    if p.path.len() > 31 {
        c.ev("overlong", 1);
        ensure!(got.is_err() && with.is_err(), "{what}: proof with {} hashes accepted", p.path.len());
        return Ok(());
    }
    match (got, with, p.eval(id, m)) {
        (Ok(v), Ok(b), Ok(w)) => {
            c.ev("accepted", 1);
            ensure_eq!(hex(&raw(&v)), hex(&w), "{what}: value of proof {p:?} for {} = {}", hex(id), hex(m));
            if let Some(f) = forbid {
                ensure!(raw(&v) != *f, "{what}: FORGERY: altered proof/message yields the original commitment: {p:?} {} {}", hex(id), hex(m));
            }
            same_block(c, "block made from proof", &b, &p.block(id, m))?;
            ensure_eq!(hex(&cid(&b)), hex(&w), "{what}: commitment of block made from proof");
        }
        (Err(a), Err(b), Err(w)) => {
            c.ev("refused", 1);
            for e in [a, b] {
                let (who, e) = bad_pos(&e)?;
                ensure_eq!(hex(&who), hex(id), "{what}: protocol named by the invalid-proof error");
                ensure_eq!(e, w, "{what}: invalid-proof error of {p:?} for {}", hex(id));
            }
        }
        (a, _, w) => return Err(format!("{what}: got {a:?}, expected {w:?} for proof {p:?} protocol {} message {}", hex(id), hex(m))),
    }
    Ok(())
}

fn mutate(c: &mut Case, com: &H, p: &MProof, id: &H, m: &H, others: &[(H, H)]) -> R {
    let depth = p.path.len() as u8;
    let f = Some(com);
    // message
    let mut m2 = *m;
    m2[c.rng.below(32) as usize] ^= 1 << c.rng.below(8);
    judge(c, "message bit", p, id, &m2, f)?;
    for x in [[0u8; 32], [0xFF; 32], c.rng.h32(), *id] {
        if x != *m {
            judge(c, "message replaced", p, id, &x, f)?;
        }
    }
    // protocol
    let mut id2 = *id;
    id2[c.rng.below(32) as usize] ^= 1 << c.rng.below(8);
    judge(c, "protocol bit", p, &id2, m, f)?;
    if let Some(q) = pid_at(&mut c.rng, p.pos as u64, p.cofactor, depth) {
        if q != *id {
            judge(c, "other protocol of the same slot", p, &q, m, f)?;
        }
    }
    for (q, x) in others {
        if q != id {
            judge(c, "other committed protocol, own message", p, q, x, f)?;
            judge(c, "other committed protocol", p, q, m, f)?;
        }
    }
    // position
    let w = 1u64 << depth;
    let mut ps = vec![p.pos.wrapping_add(1), p.pos.wrapping_sub(1), 0, u32::MAX, c.rng.u32(), (p.pos as u64 ^ w) as u32, (p.pos as u64 + w) as u32];
    ps.push(p.pos ^ (1 << c.rng.below(32)));
    for x in ps {
        if x != p.pos {
            judge(c, "position", &MProof { pos: x, ..p.clone() }, id, m, f)?;
            // with a protocol that belongs there
            if let Some(q) = pid_at(&mut c.rng, x as u64, p.cofactor, depth) {
                judge(c, "moved slot", &MProof { pos: x, ..p.clone() }, &q, m, f)?;
            }
        }
    }
    // cofactor
    let mut cs = vec![p.cofactor.wrapping_add(1), p.cofactor.wrapping_sub(1), 0, u16::MAX, c.rng.u32() as u16, c.rng.below(600) as u16];
    // cofactors under which the protocol keeps its position
    for x in 0..600u16 {
        if cs.len() < 12 && x != p.cofactor && pos(id, x, depth) == p.pos {
            cs.push(x);
        }
    }
    for x in cs {
        if x != p.cofactor {
            let q = MProof { cofactor: x, ..p.clone() };
            judge(c, "cofactor", &q, id, m, f)?;
            let q = MProof { cofactor: x, pos: pos(id, x, depth), ..p.clone() };
            judge(c, "cofactor with position", &q, id, m, f)?;
        }
    }
    // path
    let mut paths: Vec<Vec<H>> = vec![];
    if depth > 0 {
        let i = c.rng.below(depth as u64) as usize;
        let mut x = p.path.clone();
        x[i][c.rng.below(32) as usize] ^= 1 << c.rng.below(8);
        paths.push(x);
        let mut x = p.path.clone();
        x.remove(i);
        paths.push(x);
        let mut x = p.path.clone();
        x.pop();
        paths.push(x);
        let mut x = p.path.clone();
        x.reverse();
        paths.push(x);
        let mut x = p.path.clone();
        let j = c.rng.below(depth as u64) as usize;
        x.swap(i, j);
        paths.push(x);
        let mut x = p.path.clone();
        x[i] = VIRTUAL;
        paths.push(x);
        paths.push(p.path[1..].to_vec());
        paths.push(vec![]);
    }
    if depth < 32 {
        for _ in 0..2 {
            let mut x = p.path.clone();
            let h = if c.rng.bool() { c.rng.h32() } else { leaf_hash(id, m) };
            x.insert(c.rng.below(depth as u64 + 1) as usize, h);
            paths.push(x);
        }
    }
    for path in paths {
        if path == p.path {
            continue;
        }
        let d = path.len() as u8;
        let q = MProof { path, ..p.clone() };
        judge(c, "path", &q, id, m, f)?;
        if d <= 31 {
            judge(c, "path with position", &MProof { pos: pos(id, p.cofactor, d), ..q }, id, m, f)?;
        }
    }
    Ok(())
}

fn c04() -> Prop {
    Prop::new(
        "C04",
        "honest proofs (dense trees, sparse trees to depth 31) and some 40 targeted mutations of each (message, protocol, slot-sharing \
         protocols, position, cofactors keeping the position, path edits), plus freely built hostile proofs, all judged by a reference \
         verifier; distinct by (depth, cofactor, position)",
    )
    .family("trees", 160, 4_000, |c| {
        let (s, m) = gen_shallow(&mut c.rng, 20, 8);
        c.note(show_src(&s));
        let t = make_tree(&s)?;
        let levels = m.levels();
        let com = commitment(m.depth, m.cofactor, &levels[0][0]);
        let others: Vec<(H, H)> = s.msgs.iter().take(4).map(|(a, b)| (*a, *b)).collect();
        let proofs: Vec<(H, MProof)> =
            t.into_proofs().take(6).map(|(p, x)| Ok((raw(&p), from_proof(&x)?))).collect::<R<_>>()?;
        for (p, x) in proofs {
            c.sig(&[m.depth as u64, m.cofactor as u64, x.pos as u64]);
            let v = *s.msgs.get(&p).ok_or("proof of an uncommitted protocol")?;
            judge(c, "honest", &x, &p, &v, None)?;
            let got = raw(&to_proof(&x)?.convolve(pid(&p), msg(&v)).map_err(|e| e.to_string())?);
            ensure_eq!(hex(&got), hex(&com), "honest proof value");
            mutate(c, &com, &x, &p, &v, &others)?;
        }
        c.sample(|| format!("{} all proofs mutated", show_src(&s)));
        Ok(())
    })
    .family("deep", 250, 6_000, |c| {
        let b = gen_deep(c);
        c.note(show_block(&b));
        let known: Vec<(H, H)> = b.known().into_iter().collect();
        let com = b.commitment()?;
        for (p, m) in known.iter().take(3) {
            let x = b.proof(p)?;
            c.sig(&[b.depth as u64, b.cofactor as u64, x.pos as u64]);
            judge(c, "honest", &x, p, m, None)?;
            mutate(c, &com, &x, p, m, &known[..known.len().min(3)])?;
        }
        Ok(())
    })
    .family("hostile", 4_000, 100_000, |c| {
        let len = match c.rng.below(4) {
            0 => 31,
            1 => c.rng.below(4),
            _ => c.rng.below(33),
        };
        let cofactor = match c.rng.below(5) {
            0 => 0,
            1 => u16::MAX,
            2 => (1u64 << len.min(15)) as u16,
            3 => c.rng.below(501) as u16,
            _ => c.rng.u32() as u16,
        };
        let path: Vec<H> = (0..len).map(|_| if c.rng.one_in(5) { [0; 32] } else { c.rng.h32() }).collect();
        let id = if c.rng.bool() { c.rng.h32() } else { le(c.rng.edge64()) };
        let d = len.min(31) as u8;
        let at = match c.rng.below(5) {
            0 => c.rng.u32(),
            1 => mod_le(&id, 1u64 << d) as u32,
            2 => divisor(cofactor, d) as u32,
            _ => pos(&id, cofactor, d),
        };
        let p = MProof { pos: at, cofactor, path };
        c.sig(&[len, cofactor as u64, at as u64]);
        c.sample(|| format!("{p:?}"));
        let m = c.rng.h32();
        judge(c, "hostile", &p, &id, &m, None)
    })
    .require("accepted", 2000)
    .require("refused", 2000)
    .require("overlong", 20)
}

// ---------------------------------------------------------------- C05

fn check_conceal(c: &mut Case, m: &MBlock, keep: &[H]) -> R<MBlock> {
    let set: BTreeSet<H> = keep.iter().copied().collect();
    let mut ids: Vec<_> = keep.iter().map(pid).collect();
    if c.rng.one_in(3) && !ids.is_empty() {
        let d = ids[c.rng.below(ids.len() as u64) as usize];
        ids.push(d);
    }
    c.rng.shuffle(&mut ids);
    let (want, count) = m.conceal_except(&set)?;
    let mut r = to_block(m)?;
    let before = cid(&r);
    ensure_eq!(hex(&before), hex(&m.commitment()?), "commitment before concealment");
    let n = r.conceal_except(&ids).map_err(|e| format!("concealing except revealed protocols failed: {e}"))?;
    c.ev("concealments", 1);
    c.sig(&[m.depth as u64, m.nodes.len() as u64, keep.len() as u64, want.nodes.len() as u64]);
    same_block(c, "concealed block", &r, &want)?;
    ensure_eq!(n, count, "number of concealed nodes");
    ensure_eq!(hex(&cid(&r)), hex(&before), "commitment after concealment");
    // once more: nothing changes
    let n = r.conceal_except(&ids).map_err(|e| format!("repeated concealment failed: {e}"))?;
    same_block(c, "repeated concealment", &r, &want)?;
    ensure_eq!(n, 0, "nodes concealed by a repetition");
    if keep.len() == 1 {
        let mut o = to_block(m)?;
        o.conceal_other(pid(&keep[0])).map_err(|e| format!("conceal_other failed: {e}"))?;
        same_block(c, "conceal_other", &o, &want)?;
    }
    Ok(want)
}

fn conceal_case(c: &mut Case, full: &MBlock) -> R {
    c.note(show_block(full));
    let start = if c.rng.bool() { full.clone() } else { gen_view(&mut c.rng, full) };
    let known: Vec<H> = start.known().keys().copied().collect();
    let keep = c.rng.subset(&known);
    c.sample(|| format!("{} keep {} of {}", show_block(&start), keep.len(), known.len()));
    let direct = check_conceal(c, &start, &keep)?;
    // in narrowing steps
    let mut cur = start.clone();
    for _ in 0..c.rng.below(3) {
        let extra: Vec<H> = cur.known().keys().filter(|p| !keep.contains(p)).copied().collect();
        let mut wide = c.rng.subset(&extra);
        wide.extend(&keep);
        cur = check_conceal(c, &cur, &wide)?;
    }
    cur = check_conceal(c, &cur, &keep)?;
    ensure!(cur == direct, "model: narrowing order matters");
    // all of them, each alone, none
    check_conceal(c, &start, &known)?;
    check_conceal(c, &start, &[])?;
    for p in known.iter().take(3) {
        check_conceal(c, &start, &[*p])?;
    }
    // unknown protocols
    for from in [&start, &direct] {
        let known = from.known();
        let hidden: Vec<H> = full.known().keys().filter(|p| !known.contains_key(*p)).copied().collect();
        let mut bad = vec![stranger(&mut c.rng, &full.known(), full.cofactor, full.depth)];
        if !hidden.is_empty() && c.rng.bool() {
            bad = vec![*c.rng.pick(&hidden)];
        }
        if c.rng.one_in(3) {
            bad.push(c.rng.h32());
        }
        let known_ids: Vec<H> = known.keys().copied().collect();
        let mut ask = c.rng.subset(&known_ids);
        ask.extend(&bad);
        c.rng.shuffle(&mut ask);
        let mut r = to_block(from)?;
        let ids: Vec<_> = ask.iter().map(pid).collect();
        match r.conceal_except(&ids) {
            Ok(_) => return Err(format!("unrevealed protocol {:?} accepted", bad.iter().map(|b| hex(b)).collect::<Vec<_>>())),
            Err(e) => unknown_leaf(&e, &bad)?,
        }
        c.ev("unknown_refused", 1);
        let now: BTreeMap<H, H> = r.to_known_message_map().iter().map(|(p, m)| (raw(p), raw(m))).collect();
        ensure_eq!(now, known, "messages revealed after a failed concealment");
        ensure_eq!(hex(&cid(&r)), hex(&from.commitment()?), "commitment after a failed concealment");
        let mut r = to_block(from)?;
        match r.conceal_other(pid(&bad[0])) {
            Ok(_) => return Err(format!("conceal_other accepted unrevealed protocol {}", hex(&bad[0]))),
            Err(e) => unknown_leaf(&e, &bad[..1])?,
        }
        let now: BTreeMap<H, H> = r.to_known_message_map().iter().map(|(p, m)| (raw(p), raw(m))).collect();
        ensure_eq!(now, known, "messages revealed after a failed conceal_other");
    }
    Ok(())
}

fn c05() -> Prop {
    Prop::new(
        "C05",
        "concealments of full, partial and merged blocks (dense trees to depth 8, sparse trees to depth 31) to random kept sets, directly \
         and in narrowing steps, plus requests naming unrevealed protocols; distinct by (depth, nodes before, kept, nodes after)",
    )
    .family("trees", 250, 6_000, |c| {
        let (s, m) = gen_shallow(&mut c.rng, 24, 7);
        c.note(show_src(&s));
        let full = from_block(&MerkleBlock::from(make_tree(&s)?))?;
        ensure!(full == m.block(), "block made from a tree differs from the model");
        conceal_case(c, &full)
    })
    .family("deep", 350, 8_000, |c| {
        let full = gen_deep(c);
        c.max("depth", full.depth as u64);
        conceal_case(c, &full)
    })
    .family("large", 3, 40, |c| {
        let (_, m) = loop {
            let x = gen_shallow(&mut c.rng, 120, 11);
            if x.1.depth >= 9 {
                break x;
            }
        };
        let full = m.block();
        let known: Vec<H> = full.known().keys().copied().collect();
        let keep = c.rng.subset(&known);
        check_conceal(c, &full, &keep)?;
        Ok(())
    })
    .family("wide", 1, 4, |c| {
        // more nodes than sixteen bits can count
        let d = 16 + (c.idx % 2) as u8;
        let msgs: BTreeMap<H, H> = (0..40).map(|_| (c.rng.h32(), c.rng.h32())).collect();
        let m = MTree::build(&msgs, d, c.rng.u64()).map_err(|e| format!("{e:?}"))?;
        let full = m.block();
        let known: Vec<H> = full.known().keys().copied().collect();
        let keep = known[..(c.idx % 3) as usize].to_vec();
        let set = keep.iter().copied().collect();
        let (want, count) = full.conceal_except(&set)?;
        let mut r = to_block(&full)?;
        let n = r.conceal_except(&keep.iter().map(pid).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
        same_block(c, "concealed wide block", &r, &want)?;
        ensure_eq!(n, count, "number of concealed nodes");
        c.max("concealed", n as u64);
        Ok(())
    })
    .family("exhaustive_small", 256 + 16 + 4 + 2, 256 + 16 + 4 + 2, |c| {
        // every kept subset of every fully inhabited tree of depth 0..3
        let (d, mask) = match c.idx {
            i if i < 256 => (3u8, i),
            i if i < 272 => (2, i - 256),
            i if i < 276 => (1, i - 272),
            i => (0, i - 276),
        };
        let mut msgs = BTreeMap::new();
        let mut ids = vec![];
        for i in 0..1u64 << d {
            let p = pid_at(&mut c.rng, i, 0, d).ok_or("generator")?;
            ids.push(p);
            msgs.insert(p, c.rng.h32());
        }
        let m = MTree { depth: d, cofactor: 0, entropy: 7, map: msgs.iter().map(|(p, x)| (pos(p, 0, d), (*p, *x))).collect(), msgs };
        let keep: Vec<H> = ids.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect();
        check_conceal(c, &m.block(), &keep)?;
        Ok(())
    })
    .require("concealments", 2000)
    .require("unknown_refused", 200)
}

// ---------------------------------------------------------------- C06

struct Secrets {
    hashes: Vec<(String, H)>,
    entropy: Option<u64>,
}

fn leaks(c: &mut Case, s: &Secrets, what: &str, bytes: &[u8]) -> R {
    c.ev("channels_scanned", 1);
    let has = |n: &[u8]| bytes.windows(n.len()).any(|w| w == n);
    for (name, h) in &s.hashes {
        let mut rev = *h;
        rev.reverse();
        let dec: String = h[..12].iter().map(|b| format!("{b}, ")).collect();
        let dec2: String = h[..12].iter().map(|b| format!("{b},")).collect();
        for form in [
            &h[..16],
            &rev[..16],
            &h[16..],
            &rev[16..],
            &hex(h).as_bytes()[..32],
            &hex(&h[16..]).as_bytes()[..32],
            hex(&rev).as_bytes(),
            &hex(h).to_uppercase().as_bytes()[..32],
            dec.as_bytes(),
            dec2.as_bytes(),
        ] {
            ensure!(!has(form), "{what} discloses concealed {name} {}", hex(h));
        }
    }
    if let Some(e) = s.entropy {
        for form in [
            e.to_le_bytes().to_vec(),
            e.to_be_bytes().to_vec(),
            e.to_string().into_bytes(),
            format!("{e:x}").into_bytes(),
            format!("{e:X}").into_bytes(),
            hex(&e.to_le_bytes()).into_bytes(),
        ] {
            ensure!(!has(&form), "{what} discloses the entropy {e}");
        }
    }
    Ok(())
}

fn scan_all<T: strict_encoding::StrictEncode + serde::Serialize + std::fmt::Debug>(c: &mut Case, s: &Secrets, what: &str, v: &T) -> R {
    leaks(c, s, &format!("strict encoding of {what}"), &enc(v)?)?;
    leaks(c, s, &format!("JSON of {what}"), serde_json::to_string(v).map_err(|e| e.to_string())?.as_bytes())?;
    leaks(c, s, &format!("binary serde of {what}"), &bincode::serialize(v).map_err(|e| e.to_string())?)?;
    leaks(c, s, &format!("debug text of {what}"), format!("{v:?}").as_bytes())?;
    leaks(c, s, &format!("pretty debug text of {what}"), format!("{v:#?}").as_bytes())
}

fn c06() -> Prop {
    Prop::new(
        "C06",
        "trees with unguessable ids, messages and entropy; every concealed block, proof, block from proof, merge and concealed form is \
         searched in five output channels for concealed values in ten spellings; distinct by (depth, hidden, kept, object kind)",
    )
    .family("leak", 500, 12_000, |c| {
        let n = c.rng.range(1, 14);
        let md = c.rng.below(6) as u8;
        let msgs: BTreeMap<H, H> = (0..n).map(|_| (c.rng.h32(), c.rng.h32())).collect();
        let s = Src { msgs, min_depth: md, entropy: c.rng.u64() | 1 << 63 | 1 << 40, class: 8 };
        c.note(show_src(&s));
        let t = make_tree(&s)?;
        if t.depth().to_u8() > 9 {
            return Ok(());
        }
        let b = MerkleBlock::from(&t);
        let secrets = |keep: &[H]| Secrets {
            hashes: s
                .msgs
                .iter()
                .filter(|(p, _)| !keep.contains(p))
                .flat_map(|(p, m)| [("protocol id".to_string(), *p), ("message".to_string(), *m)])
                .collect(),
            entropy: Some(s.entropy),
        };
        let ids: Vec<H> = s.msgs.keys().copied().collect();
        let keep = c.rng.subset(&ids);
        let kept: Vec<_> = keep.iter().map(pid).collect();
        let mut x = b.clone();
        x.conceal_except(&kept).map_err(|e| e.to_string())?;
        c.ev("objects", 1);
        c.sig(&[t.depth().to_u8() as u64, n, keep.len() as u64, 0]);
        c.sample(|| format!("{} keep {}", show_src(&s), keep.len()));
        scan_all(c, &secrets(&keep), "a concealed block", &x)?;
        for p in &keep {
            ensure!(enc(&x)?.windows(32).any(|w| w == p), "kept protocol missing");
        }
        // the concealed forms
        scan_all(c, &secrets(&[]), "the concealed tree", &t.conceal())?;
        scan_all(c, &secrets(&[]), "the concealed block form", &b.conceal())?;
        scan_all(c, &secrets(&[]), "the commitment", &b.commit_id())?;
        // proofs and blocks made from them
        let p = *c.rng.pick(&ids);
        for (what, proof) in [
            ("a proof from a full block", b.to_merkle_proof(pid(&p)).map_err(|e| e.to_string())?),
            ("a proof by value", b.clone().into_merkle_proof(pid(&p)).map_err(|e| e.to_string())?),
        ] {
            // not even the proven message is inside
            scan_all(c, &secrets(&[]), what, &proof)?;
            let fb = MerkleBlock::with(&proof, pid(&p), msg(&s.msgs[&p])).map_err(|e| e.to_string())?;
            scan_all(c, &secrets(&[p]), "a block made from a proof", &fb)?;
        }
        let mut o = b.clone();
        o.conceal_other(pid(&p)).map_err(|e| e.to_string())?;
        scan_all(c, &secrets(&[p]), "conceal_other result", &o)?;
        // merging two concealed views reveals the union only
        let keep2 = c.rng.subset(&ids);
        let mut y = b.clone();
        y.conceal_except(keep2.iter().map(pid).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
        x.merge_reveal(y).map_err(|e| e.to_string())?;
        let mut both = keep.clone();
        both.extend(&keep2);
        scan_all(c, &secrets(&both), "a merge of concealed blocks", &x)?;
        // merging a full block into a concealed one hands over messages, but not the entropy
        let mut z = b.clone();
        z.conceal_except(&kept).map_err(|e| e.to_string())?;
        z.merge_reveal(b.clone()).map_err(|e| e.to_string())?;
        scan_all(c, &secrets(&ids), "a concealed block with a full one merged into it", &z)?;
        let all: Vec<_> = b.clone().into_known_proofs().collect();
        ensure_eq!(all.len(), ids.len(), "bulk proofs");
        for (_, pr) in all.iter().take(4) {
            scan_all(c, &secrets(&[]), "a bulk proof", pr)?;
        }
        for (_, pr) in t.clone().into_proofs().take(3) {
            scan_all(c, &secrets(&[]), "a tree proof", &pr)?;
        }
        Ok(())
    })
    .family("disclosed_exactly", 500, 12_000, |c| {
        // whatever is disclosed besides kept data are the model's hashes and numbers: byte equality
        let full = gen_deep(c);
        let known: Vec<H> = full.known().keys().copied().collect();
        let keep = c.rng.subset(&known);
        let mut r = to_block(&full)?;
        r.conceal_except(keep.iter().map(pid).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
        let want = full.conceal_except(&keep.iter().copied().collect())?.0;
        same_block(c, "concealed block", &r, &want)?;
        c.ev("objects", 1);
        c.sig(&[full.depth as u64, known.len() as u64, keep.len() as u64, 1]);
        if let Some(p) = keep.first() {
            same_proof(c, "proof", &r.to_merkle_proof(pid(p)).map_err(|e| e.to_string())?, &full.proof(p)?)?;
            let proof = full.proof(p)?;
            let b = MerkleBlock::with(&to_proof(&proof)?, pid(p), msg(&full.known()[p])).map_err(|e| e.to_string())?;
            same_block(c, "block made from proof", &b, &proof.block(p, &full.known()[p]))?;
        }
        Ok(())
    })
    .require("channels_scanned", 5000)
}

// ---------------------------------------------------------------- C07

fn check_merge(c: &mut Case, a: &MBlock, b: &MBlock) -> R<MBlock> {
    let want = a.merge(b)?;
    let mut r = to_block(a)?;
    let n = r.merge_reveal(to_block(b)?).map_err(|e| format!("merging related blocks failed: {e}"))?;
    c.ev("merges", 1);
    c.sig(&[a.depth as u64, a.nodes.len() as u64, b.nodes.len() as u64, want.nodes.len() as u64]);
    same_block(c, "merged block", &r, &want)?;
    if want.nodes.len() <= 65535 {
        ensure_eq!(n as usize, want.nodes.len(), "returned size of the merged cross-section");
    }
    ensure_eq!(hex(&cid(&r)), hex(&a.commitment()?), "commitment after merge");
    Ok(want)
}

fn merge_case(c: &mut Case, full: &MBlock) -> R {
    c.note(show_block(full));
    let known: Vec<(H, H)> = full.known().into_iter().collect();
    let k = c.rng.range(2, 5);
    // views which reveal the same messages and differ in what else they know
    let ids: Vec<H> = known.iter().map(|x| x.0).collect();
    let same: Option<BTreeSet<H>> = c.rng.one_in(3).then(|| c.rng.subset(&ids).into_iter().collect());
    let mut views: Vec<MBlock> = (0..k)
        .map(|_| match c.rng.below(4) {
            _ if same.is_some() => {
                let often = *c.rng.pick(&[2u64, 3, 8]);
                let rng = &mut c.rng;
                full.cut(same.as_ref().unwrap(), || rng.one_in(often)).unwrap().0
            }
            0 if !known.is_empty() => {
                let (p, m) = *c.rng.pick(&known);
                full.proof(&p).unwrap().block(&p, &m)
            }
            1 => full.conceal_except(&[].into()).unwrap().0,
            2 if c.rng.one_in(3) => full.clone(),
            _ => gen_view(&mut c.rng, full),
        })
        .collect();
    c.sample(|| views.iter().map(show_block).collect::<Vec<_>>().join(" + "));
    for v in &views {
        c.note(show_block(v));
    }
    let mut acc = views[0].clone();
    for v in &views[1..] {
        acc = check_merge(c, &acc, v)?;
    }
    // what is revealed is the union
    let mut union = BTreeMap::new();
    for v in &views {
        union.extend(v.known());
    }
    ensure_eq!(acc.known(), union, "model: union of revealed");
    // known information changes nothing
    for v in &views {
        let again = check_merge(c, &acc, v)?;
        ensure!(again == acc, "merging known information changed the block");
    }
    // another order and grouping
    c.rng.shuffle(&mut views);
    let mut other = views[0].clone();
    if views.len() > 2 && c.rng.bool() {
        let mut tail = views[1].clone();
        for v in &views[2..] {
            tail = check_merge(c, &tail, v)?;
        }
        other = check_merge(c, &other, &tail)?;
    } else {
        for v in &views[1..] {
            other = check_merge(c, &other, v)?;
        }
    }
    ensure!(other.nodes == acc.nodes, "merge order or grouping changes the result");
    // by proof
    for (p, m) in known.iter().take(3) {
        let proof = full.proof(p)?;
        let mut r = to_block(&acc)?;
        let n = r
            .merge_reveal_path(&to_proof(&proof)?, pid(p), msg(m))
            .map_err(|e| format!("merging an honest proof failed: {e}"))?;
        let want = acc.merge(&proof.block(p, m))?;
        c.ev("path_merges", 1);
        same_block(c, "block merged with a proof", &r, &want)?;
        ensure_eq!(n as usize, want.nodes.len(), "size after merging a proof");
        // invalid position
        let bad = MProof { pos: proof.pos ^ (1 + c.rng.below(7) as u32), ..proof.clone() };
        refuse_path(c, &acc, &bad, p, m)?;
        // wrong message: unrelated
        let mut m2 = *m;
        m2[c.rng.below(32) as usize] ^= 1;
        refuse_path(c, &acc, &proof, p, &m2)?;
        // other protocol of the same slot: unrelated
        if let Some(q) = pid_at(&mut c.rng, proof.pos as u64, proof.cofactor, full.depth) {
            if q != *p {
                refuse_path(c, &acc, &proof, &q, m)?;
            }
        }
    }
    // unrelated blocks
    let mut others = vec![];
    let mut o = acc.clone();
    o.cofactor ^= 1;
    others.push(o);
    let mut o = acc.clone();
    let i = c.rng.below(o.nodes.len() as u64) as usize;
    o.nodes[i] = match o.nodes[i] {
        MNode::Hash(d, mut h) => {
            h[0] ^= 1;
            MNode::Hash(d, h)
        }
        MNode::Leaf(p, mut m) => {
            m[31] ^= 0x80;
            MNode::Leaf(p, m)
        }
    };
    others.push(o);
    others.push(gen_deep(c));
    let d = c.rng.below(31) as u8;
    others.push(gen_sparse(&mut c.rng, d, full.cofactor, 2, 3));
    // one level more or less, same content where possible
    if full.depth < 31 {
        let mut o = acc.clone();
        o.depth += 1;
        for n in o.nodes.iter_mut() {
            if let MNode::Leaf(p, m) = *n {
                *n = MNode::Hash(acc.depth, leaf_hash(&p, &m));
            }
        }
        others.push(o);
    }
    for o in others {
        let (ca, co) = (acc.commitment()?, o.commitment()?);
        if ca == co {
            continue;
        }
        let mut r = to_block(&acc)?;
        let before = enc(&r)?;
        c.ev("unrelated", 1);
        match r.merge_reveal(to_block(&o)?) {
            Ok(n) => return Err(format!("unrelated block merged (size {n}): {}", show_block(&o))),
            Err(MergeError::UnrelatedBlocks { base_root, merged_root }) => {
                ensure_eq!((hex(&raw(&base_root)), hex(&raw(&merged_root))), (hex(&ca), hex(&co)), "commitments in the error");
                let e = MergeError::UnrelatedBlocks { base_root, merged_root }.to_string();
                ensure!(e.contains(&hex(&ca)) && e.contains(&hex(&co)), "error text lacks commitments: {e}");
            }
            Err(e) => return Err(format!("wrong error for unrelated blocks: {e}")),
        }
        ensure!(enc(&r)? == before, "block changed by a refused merge");
    }
    Ok(())
}

fn refuse_path(c: &mut Case, acc: &MBlock, p: &MProof, id: &H, m: &H) -> R {
    let mut r = to_block(acc)?;
    let before = enc(&r)?;
    let got = r.merge_reveal_path(&to_proof(p)?, pid(id), msg(m));
    match (p.eval(id, m), got) {
        (Err(w), Err(MergeError::InvalidProof(e))) => {
            c.ev("invalid_paths", 1);
            let (who, b) = bad_pos(&e)?;
            ensure_eq!((who, b), (*id, w), "invalid-proof error");
        }
        (Ok(v), Err(MergeError::UnrelatedBlocks { base_root, merged_root })) => {
            c.ev("unrelated", 1);
            ensure_eq!((hex(&raw(&base_root)), hex(&raw(&merged_root))), (hex(&acc.commitment()?), hex(&v)), "commitments in the error");
        }
        (w, g) => return Err(format!("merging a bad proof: got {g:?}, reference verifier says {w:?}")),
    }
    ensure!(enc(&r)? == before, "block changed by a refused proof");
    Ok(())
}

fn c07() -> Prop {
    Prop::new(
        "C07",
        "2-5 views (proof blocks, fully concealed, full, partial with surplus detail) of one tree merged in several orders and groupings, \
         re-merged, and crossed with unrelated or tampered blocks and proofs; distinct by (depth, sizes before and after)",
    )
    .family("trees", 250, 6_000, |c| {
        let (s, m) = gen_shallow(&mut c.rng, 20, 6);
        c.note(show_src(&s));
        merge_case(c, &m.block())
    })
    .family("deep", 300, 8_000, |c| {
        let full = gen_deep(c);
        c.max("depth", full.depth as u64);
        merge_case(c, &full)
    })
    .family("large", 4, 60, |c| {
        // more nodes than eight bits can count
        let d = 9 + c.rng.below(3) as u8;
        let n = c.rng.range(2, 60);
        let msgs: BTreeMap<H, H> = (0..n).map(|_| (c.rng.h32(), c.rng.h32())).collect();
        let m = MTree::build(&msgs, d, c.rng.u64()).map_err(|e| format!("{e:?}"))?;
        c.ev("large", 1);
        merge_case(c, &m.block())
    })
    .family("wide", 1, 4, |c| {
        // nearly as many nodes as the returned number can hold; concealed views are made by the model
        let d = 15;
        let msgs: BTreeMap<H, H> = (0..20).map(|_| (c.rng.h32(), c.rng.h32())).collect();
        let m = MTree::build(&msgs, d, c.rng.u64()).map_err(|e| format!("{e:?}"))?;
        let full = m.block();
        let known: Vec<H> = full.known().keys().copied().collect();
        let keep: BTreeSet<H> = c.rng.subset(&known).into_iter().collect();
        let view = full.conceal_except(&keep)?.0;
        let mut a = to_block(&full)?;
        let n = a.merge_reveal(to_block(&view)?).map_err(|e| e.to_string())?;
        ensure_eq!(n as usize, full.nodes.len(), "size of the merged block");
        same_block(c, "complete block merged with a view", &a, &full)?;
        let mut b = to_block(&view)?;
        let n = b.merge_reveal(to_block(&full)?).map_err(|e| e.to_string())?;
        let want = view.merge(&full)?;
        ensure_eq!(n as usize, want.nodes.len(), "size of the merged block");
        same_block(c, "view merged with the complete block", &b, &want)?;
        c.max("merged", n as u64);
        Ok(())
    })
    .family("proofs_only", 200, 5_000, |c| {
        // the workflow: prover hands out proofs, verifier assembles them in random order
        let (s, m) = gen_shallow(&mut c.rng, 24, 8);
        c.note(show_src(&s));
        let t = make_tree(&s)?;
        let mut proofs: Vec<_> = t.clone().into_proofs().collect();
        if proofs.is_empty() {
            return Ok(());
        }
        c.rng.shuffle(&mut proofs);
        let (p, pr) = proofs.pop().unwrap();
        let mut acc = MerkleBlock::with(&pr, p, msg(&s.msgs[&raw(&p)])).map_err(|e| e.to_string())?;
        let mut model = m.proof_block(&raw(&p))?;
        for (p, pr) in proofs {
            let n = acc.merge_reveal_path(&pr, p, msg(&s.msgs[&raw(&p)])).map_err(|e| format!("honest proof refused: {e}"))?;
            model = model.merge(&m.proof_block(&raw(&p))?)?;
            ensure_eq!(n as usize, model.nodes.len(), "size");
            c.ev("path_merges", 1);
        }
        c.sig(&[m.depth as u64, s.msgs.len() as u64, model.nodes.len() as u64]);
        same_block(c, "block assembled from proofs", &acc, &model)?;
        ensure_eq!(hex(&cid(&acc)), hex(&m.commitment()), "commitment of the assembled block");
        let known: BTreeMap<H, H> = acc.to_known_message_map().iter().map(|(p, m)| (raw(p), raw(m))).collect();
        ensure_eq!(known, s.msgs, "messages assembled from proofs");
        Ok(())
    })
    .require("merges", 2000)
    .require("path_merges", 200)
    .require("unrelated", 500)
    .require("invalid_paths", 50)
}

trait ProofBlock {
    fn proof_block(&self, p: &H) -> R<MBlock>;
}
impl ProofBlock for MTree {
    fn proof_block(&self, p: &H) -> R<MBlock> {
        let at = pos(p, self.cofactor, self.depth);
        Ok(MProof::from_levels(&self.levels(), self.cofactor, at).block(p, &self.msgs[p]))
    }
}

// ---------------------------------------------------------------- C08

fn poke_block(c: &mut Case, b: &MBlock) -> R {
    c.note(show_block(b));
    let r = to_block(b)?;
    c.ev("hostile_blocks", 1);
    c.sig(&[b.depth as u64, b.cofactor as u64, b.nodes.len() as u64]);
    widths("block", b.depth, b.cofactor, (r.width_limit(), r.factored_width()))?;
    ensure_eq!(hex(&cid(&r)), hex(&b.commitment()?), "commitment");
    let known: Vec<H> = b.known().keys().copied().collect();
    for p in known.iter().take(3).copied().chain([c.rng.h32()]) {
        let _ = r.protocol_id_pos(pid(&p));
        if let Ok(proof) = r.to_merkle_proof(pid(&p)) {
            c.ev("proofs_made", 1);
            let _ = proof.convolve(pid(&p), msg(&c.rng.h32()));
            let _ = (proof.width_limit(), proof.factored_width(), proof.depth(), proof.merkle_root());
            let mut x = r.clone();
            let m = b.known().get(&p).copied().unwrap_or_default();
            let _ = x.merge_reveal_path(&proof, pid(&p), msg(&m));
        }
    }
    let keep = c.rng.subset(&known);
    let mut x = r.clone();
    let _ = x.conceal_except(keep.iter().map(pid).collect::<Vec<_>>());
    let _ = x.clone().merge_reveal(r.clone());
    let _ = r.clone().merge_reveal(x.clone());
    let _ = r.matches(&x);
    let _ = r.conceal();
    let _ = r.clone().into_known_proofs().count();
    let _ = r.to_known_message_map();
    let _ = format!("{r:?}");
    Ok(())
}

fn poke_proof(c: &mut Case, p: &MProof, ids: &[H]) -> R {
    c.note(format!("{p:?}"));
    let r = to_proof(p)?;
    c.ev("hostile_proofs", 1);
    c.sig(&[p.path.len() as u64, p.cofactor as u64, p.pos as u64]);
    if p.path.len() <= 31 {
        widths("proof", p.path.len() as u8, p.cofactor, (r.width_limit(), r.factored_width()))?;
        let _ = r.depth();
    }
    let _ = (r.merkle_root(), r.as_path().len(), r.to_path(), r.matches(&r.clone()));
    for id in ids {
        let m = c.rng.h32();
        match MerkleBlock::with(&r, pid(id), msg(&m)) {
            Ok(mut b) => {
                c.ev("accepted", 1);
                let _ = cid(&b);
                let _ = b.conceal();
                let _ = b.to_merkle_proof(pid(id));
                let _ = b.merge_reveal_path(&r, pid(id), msg(&m));
                let _ = b.merge_reveal_path(&r, pid(id), msg(&c.rng.h32()));
                let _ = (b.width_limit(), b.factored_width());
                let _ = b.conceal_except([]);
            }
            Err(e) => {
                c.ev("refused", 1);
                let _ = (e.to_string(), format!("{e:?}"));
            }
        }
        let _ = r.convolve(pid(id), msg(&m));
        let mut b = to_block(&gen_sparse(&mut c.rng, 3, 0, 2, 2))?;
        let _ = b.merge_reveal_path(&r, pid(id), msg(&m));
    }
    Ok(())
}

fn c08() -> Prop {
    let mut p = Prop::new(
        "C08",
        "decoded hostile proofs (0..32 hashes, any position and cofactor) and decoded well-formed third-party blocks (depth 0..31, any \
         cofactor, misplaced leaves, surplus detail) driven through every operation under overflow checks; distinct by shape",
    )
    .family("proofs", 6_000, 150_000, |c| {
        let len = match c.rng.below(5) {
            0 => 32,
            1 => 31,
            2 => c.rng.below(4),
            _ => c.rng.below(33),
        };
        let cofactor = match c.rng.below(6) {
            0 => 0,
            1 => u16::MAX,
            2 => 1u16.checked_shl(len as u32).unwrap_or(0),
            3 => 1u16.checked_shl(len as u32).unwrap_or(0).wrapping_sub(1),
            4 => c.rng.below(600) as u16,
            _ => c.rng.u32() as u16,
        };
        let id = if c.rng.bool() { c.rng.h32() } else { le(c.rng.edge64()) };
        let at = match c.rng.below(4) {
            0 => c.rng.u32(),
            1 => u32::MAX,
            _ => pos(&id, cofactor, len.min(31) as u8),
        };
        let path = (0..len).map(|_| if c.rng.one_in(4) { [c.rng.u8(); 32] } else { c.rng.h32() }).collect();
        let p = MProof { pos: at, cofactor, path };
        c.max("path", len);
        c.sample(|| format!("{p:?}"));
        let other = c.rng.h32();
        poke_proof(c, &p, &[id, other])
    })
    .family("blocks", 1_500, 40_000, |c| {
        let d = c.rng.below(32) as u8;
        let cof = match c.rng.below(4) {
            0 => 0,
            1 => u16::MAX,
            2 => c.rng.u32() as u16,
            _ => c.rng.below(501) as u16,
        };
        let (k, split) = (c.rng.below(7) as usize, c.rng.below(5));
        let mut b = gen_sparse(&mut c.rng, d, cof, k, split);
        if c.rng.bool() {
            // leaves whose protocol belongs elsewhere
            for n in b.nodes.iter_mut() {
                if let MNode::Leaf(p, _) = n {
                    if c.rng.bool() {
                        *p = c.rng.h32();
                    }
                } else if let MNode::Hash(hd, h) = n {
                    if *hd == d && c.rng.one_in(3) {
                        *n = MNode::Leaf(c.rng.h32(), *h);
                    }
                }
            }
        }
        c.max("depth", d as u64);
        c.sample(|| show_block(&b));
        poke_block(c, &b)
    })
    .family("crossed", 500, 12_000, |c| {
        // blocks sharing parts but not the commitment, or sharing the commitment with odd tilings
        let a = gen_deep(c);
        let mut o = gen_view(&mut c.rng, &a);
        let mut r = to_block(&a)?;
        let _ = r.merge_reveal(to_block(&o)?);
        if !o.nodes.is_empty() {
            let i = c.rng.below(o.nodes.len() as u64) as usize;
            if let MNode::Hash(_, h) = &mut o.nodes[i] {
                h[3] ^= 4;
            }
        }
        let mut x = to_block(&o)?;
        let _ = x.merge_reveal(to_block(&a)?);
        let _ = to_block(&a)?.merge_reveal(x.clone());
        c.ev("crossed", 1);
        poke_block(c, &o)
    })
    .require("hostile_proofs", 3000)
    .require("hostile_blocks", 1000)
    .require("accepted", 500);
    p = p.family("known", 1, 1, known_c08);
    p
}

/// Inputs listed in known_findings.json: each must still fail in the listed way, or not at all.
fn known_c08(c: &mut Case) -> R {
    let cases: Vec<(&str, String, &str)> = KNOWN_C08.iter().map(|(a, b, d)| (*a, b.to_string(), *d)).collect();
    for (id, input, what) in cases {
        let b = unhex(&expand(&input));
        let got: Result<(), (String, String)> = if id.contains("proof32") {
            let p: MerkleProof = must_dec(&b)?;
            vmodel::runner::catch(|| match id {
                "C08-proof32-depth" => {
                    let _ = p.depth();
                }
                "C08-proof32-width_limit" => {
                    let _ = p.width_limit();
                }
                _ => {
                    let _ = p.factored_width();
                }
            })
        } else {
            match dec::<MerkleBlock>(&b) {
                Err(_) => Ok(()),
                Ok((x, _)) => vmodel::runner::catch(|| {
                    if id.contains("duplicate") {
                        let _ = x.to_merkle_proof(pid(&[0x11; 32]));
                    } else {
                        let _ = x.commit_id();
                    }
                }),
            }
        };
        c.ev("known_inputs", 1);
        if let Err((loc, m)) = got {
            ensure!(!vmodel::runner::is_ours(&loc), "monitor: {loc} {m}");
            let short: String = m.lines().next().unwrap_or("").chars().take(120).collect();
            c.known(id, format!("{what} panics ({short}) on input {input}"));
        }
    }
    Ok(())
}

/// `xx*n` repeats byte xx n times.
fn expand(s: &str) -> String {
    s.split_whitespace()
        .map(|t| match t.split_once('*') {
            Some((b, n)) => b.repeat(n.parse().unwrap()),
            None => t.to_string(),
        })
        .collect()
}

const KNOWN_C08: &[(&str, &str, &str)] = &[
    ("C08-proof32-depth", "00 00000000 0000 20 aa*1024", "MerkleProof::depth of a proof with 32 path hashes"),
    ("C08-proof32-width_limit", "00 00000000 0000 20 aa*1024", "MerkleProof::width_limit of a proof with 32 path hashes"),
    ("C08-proof32-factored_width", "00 00000000 0000 20 aa*1024", "MerkleProof::factored_width of a proof with 32 path hashes"),
    ("C08-block-incomplete", "00 03 0000 01000000 00 01 aa*32 00", "commit_id of a decoded block whose cross-section covers half of the tree"),
    ("C08-block-surplus", "00 01 0000 02000000 00 00 aa*32 00 00 bb*32 00", "commit_id of a decoded block with two root nodes"),
    ("C08-block-too-deep", "00 01 0000 02000000 00 02 aa*32 00 02 bb*32 00", "commit_id of a decoded block with nodes below the tree depth"),
    ("C08-block-duplicate", "00 01 0000 02000000 01 11*32 aa*32 01 11*32 bb*32 00", "to_merkle_proof of a decoded block revealing one protocol twice"),
];

// ---------------------------------------------------------------- C29

fn c29() -> Prop {
    Prop::new(
        "C29",
        "pools of trees, blocks (views, merges, entropy dropped) and proofs from the same and from deliberately close sources, compared \
         pairwise in both directions; distinct by (kind, relation, depth)",
    )
    .family("trees_blocks", 300, 8_000, |c| {
        let (s, m) = gen_shallow(&mut c.rng, 12, 6);
        c.note(show_src(&s));
        let mut srcs = vec![s.clone()];
        let mut o = s.clone();
        o.entropy ^= 1 << c.rng.below(64);
        srcs.push(o);
        let mut o = s.clone();
        o.min_depth = (m.depth + 1).min(7);
        srcs.push(o);
        if let Some(p) = s.msgs.keys().next().copied() {
            let mut o = s.clone();
            o.msgs.get_mut(&p).unwrap()[c.rng.below(32) as usize] ^= 1;
            srcs.push(o);
            if s.msgs.len() > 1 {
                let mut o = s.clone();
                o.msgs.remove(&p);
                srcs.push(o);
            }
        }
        let mut trees = vec![];
        let mut blocks: Vec<(H, MerkleBlock)> = vec![];
        for x in &srcs {
            let Ok(mt) = MTree::build(&x.msgs, x.min_depth, x.entropy) else { continue };
            if mt.depth > 8 {
                continue;
            }
            let com = mt.commitment();
            trees.push((com, make_tree(x)?));
            let full = mt.block();
            blocks.push((com, to_block(&full)?));
            for _ in 0..2 {
                blocks.push((com, to_block(&gen_view(&mut c.rng, &full))?));
            }
            let a = gen_view(&mut c.rng, &full).merge(&gen_view(&mut c.rng, &full))?;
            blocks.push((com, to_block(&a)?));
        }
        for (ca, a) in &trees {
            for (cb, b) in &trees {
                c.ev("tree_pairs", 1);
                c.sig(&[0, (ca == cb) as u64, m.depth as u64]);
                ensure_eq!(a.matches(b), ca == cb, "trees matching ({} vs {})", hex(ca), hex(cb));
            }
        }
        for (ca, a) in &blocks {
            for (cb, b) in &blocks {
                c.ev("block_pairs", 1);
                c.sig(&[1, (ca == cb) as u64, m.depth as u64]);
                ensure_eq!(a.matches(b), ca == cb, "blocks matching ({} vs {})", hex(ca), hex(cb));
            }
        }
        c.sample(|| format!("{}: {} trees, {} blocks", show_src(&s), trees.len(), blocks.len()));
        Ok(())
    })
    .family("deep_blocks", 300, 8_000, |c| {
        let full = gen_deep(c);
        let com = full.commitment()?;
        let mut pool = vec![(com, to_block(&full)?)];
        for _ in 0..3 {
            pool.push((com, to_block(&gen_view(&mut c.rng, &full))?));
        }
        let mut o = full.clone();
        o.cofactor = o.cofactor.wrapping_add(1);
        pool.push((o.commitment()?, to_block(&o)?));
        let mut o = gen_view(&mut c.rng, &full);
        let i = c.rng.below(o.nodes.len() as u64) as usize;
        if let MNode::Hash(_, h) = &mut o.nodes[i] {
            h[31] ^= 1;
        }
        pool.push((o.commitment()?, to_block(&o)?));
        for (ca, a) in &pool {
            for (cb, b) in &pool {
                c.ev("block_pairs", 1);
                c.sig(&[2, (ca == cb) as u64, full.depth as u64]);
                ensure_eq!(a.matches(b), ca == cb, "blocks matching");
            }
        }
        Ok(())
    })
    .family("proofs", 500, 12_000, |c| {
        let full = gen_deep(c);
        let known: Vec<(H, H)> = full.known().into_iter().collect();
        // (tree identity, proof)
        let mut pool: Vec<(H, MProof)> = vec![];
        let com = full.commitment()?;
        for (p, _) in &known {
            pool.push((com, full.proof(p)?));
        }
        // the same tree content under another cofactor, and trees changed in one half
        for x in [0, 1] {
            let mut o = full.clone();
            if x == 0 {
                o.cofactor = o.cofactor.wrapping_add(1 + c.rng.below(3) as u16);
            } else {
                let i = c.rng.below(o.nodes.len() as u64) as usize;
                match &mut o.nodes[i] {
                    MNode::Hash(_, h) => h[5] ^= 8,
                    MNode::Leaf(_, m) => m[5] ^= 8,
                }
            }
            let oc = o.commitment()?;
            for (p, _) in o.known() {
                if pos(&p, o.cofactor, o.depth) == pos(&p, full.cofactor, full.depth) {
                    pool.push((oc, o.proof(&p)?));
                }
            }
        }
        for (ca, a) in &pool {
            for (cb, b) in &pool {
                let (ra, rb) = (to_proof(a)?, to_proof(b)?);
                let got = ra.matches(&rb);
                c.ev("proof_pairs", 1);
                c.sig(&[3, (ca == cb) as u64, full.depth as u64, a.cofactor as u64]);
                let due = ca == cb;
                if got == due {
                    continue;
                }
                // Listed defect: only cofactor and the topmost sibling hash are looked at.
                let shallow = a.cofactor == b.cofactor && a.path.first() == b.path.first();
                ensure_eq!(got, shallow, "proofs matching, due {due}: {a:?} vs {b:?}");
                if due {
                    c.known("C29-same-tree-other-half", "MerkleProof::matches is false for two proofs of one tree taken from opposite halves");
                } else {
                    c.known("C29-other-tree-same-sibling", "MerkleProof::matches is true for proofs of different commitments with equal cofactor and topmost sibling");
                }
            }
        }
        Ok(())
    })
    .require("tree_pairs", 500)
    .require("block_pairs", 5000)
    .require("proof_pairs", 1000)
}

fn main() {
    let _ = u5::MAX;
    let _ = <mpc::MerkleConcealed as CommitmentLayout>::commitment_layout;
    vmodel::runner::main(vec![c01(), c02(), c03(), c04(), c05(), c06(), c07(), c08(), c29()]);
}
