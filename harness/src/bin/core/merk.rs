#![allow(unused_comparisons)]
use std::collections::BTreeSet;

use amplify::confinement::Confined;
use amplify::num::{u256, u5};
use commit_verify::merkle::{MerkleBuoy, NodeBranching};
use commit_verify::mpc::Leaf;
use commit_verify::{CommitId, MerkleHash, MerkleLeaves, MerkleNode};
use vharness::*;

use crate::types::{Item, Model};

/// User-provided leaves: the trait is public.
struct Custom(Vec<Item>);
impl MerkleLeaves for Custom {
    type Leaf = Item;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Item> { self.0.iter() }
}

const U8: usize = u8::MAX as usize;
const U16: usize = u16::MAX as usize;
const U32: usize = u32::MAX as usize;

fn roots_of(items: &[Item]) -> Vec<(&'static str, H)> {
    let n = items.len();
    let v = items.to_vec();
    let mut out = vec![];
    macro_rules! list {
        ($min:expr, $max:expr, $name:expr) => {
            if n >= $min && n <= $max {
                let c = Confined::<Vec<Item>, $min, $max>::try_from(v.clone()).unwrap();
                out.push(($name, raw(&MerkleHash::merklize(&c))));
            }
        };
    }
    macro_rules! set {
        ($min:expr, $max:expr, $name:expr) => {
            if n >= $min && n <= $max {
                // inserted backwards
                let s: BTreeSet<Item> = v.iter().rev().copied().collect();
                if s.len() == n && s.iter().copied().eq(v.iter().copied()) {
                    let c = Confined::<BTreeSet<Item>, $min, $max>::try_from(s).unwrap();
                    out.push(($name, raw(&MerkleHash::merklize(&c))));
                }
            }
        };
    }
    list!(0, U8, "list8");
    list!(1, U8, "list8 nonempty");
    list!(0, U16, "list16");
    list!(1, U16, "list16 nonempty");
    list!(0, U32, "list32");
    list!(2, U32, "list32 of two");
    set!(0, U8, "set8");
    set!(1, U16, "set16");
    set!(0, U16, "set16");
    set!(0, U32, "set32");
    out.push(("custom", raw(&MerkleHash::merklize(&Custom(v)))));
    out
}

fn check_items(c: &mut Case, items: &[Item]) -> R {
    let leaves: Vec<H> = items.iter().map(Item::leaf).collect();
    let want = merklize(&leaves);
    for (name, got) in roots_of(items) {
        ensure_eq!(hex(&got), hex(&want), "root of {} leaves as {name}", items.len());
        c.ev("roots", 1);
        if name.starts_with("set") {
            c.ev("set_roots", 1);
        }
    }
    c.max("leaves", items.len() as u64);
    Ok(())
}

fn gen_items(c: &mut Case, n: usize, sorted: bool) -> Vec<Item> {
    if sorted {
        let mut s = BTreeSet::new();
        while s.len() < n {
            s.insert(Item::gen(&mut c.rng));
        }
        s.into_iter().collect()
    } else {
        let dup = c.rng.one_in(4);
        (0..n).map(|i| if dup { Item { n: (i / 2) as u32 % 3, x: 0 } } else { Item::gen(&mut c.rng) }).collect()
    }
}

pub fn c09() -> Prop {
    Prop::new(
        "C09",
        "every length 0..=300 in every size class, random lengths up to 6000 and the class boundaries, ascending, unordered and repeated \
         leaves, as lists, sets, user collections and multi-protocol leaves; node constructors with boundary fields; distinct by length \
         and leaf style",
    )
    .family("lengths", 602, 2_408, |c| {
        let n = (c.idx / 2 % 301) as usize;
        let items = gen_items(c, n, c.idx % 2 == 0);
        c.sig(&[n as u64, c.idx % 2]);
        c.sample(|| format!("{n} leaves, first {:?}", items.first()));
        check_items(c, &items)
    })
    .family("random", 60, 2_000, |c| {
        let n = c.rng.below(6_000) as usize;
        let sorted = c.rng.bool();
        let items = gen_items(c, n, sorted);
        c.sig(&[n as u64, 2]);
        check_items(c, &items)
    })
    .family("boundary", 8, 24, |c| {
        let n = [255, 256, 65_535, 65_536, 65_537, 131_072, 32_768, 99_999][c.idx as usize % 8];
        let items = gen_items(c, n, c.idx % 2 == 1);
        c.sig(&[n as u64, 3]);
        check_items(c, &items)
    })
    .family("mpc_leaves", 200, 5_000, |c| {
        let n = gen_count(&mut c.rng, 90) as usize;
        let mut leaves = vec![];
        let mut hashes = vec![];
        for _ in 0..n {
            if c.rng.bool() {
                let (p, m) = (c.rng.h32(), c.rng.h32());
                leaves.push(Leaf::inhabited(pid(&p), msg(&m)));
                hashes.push(leaf_hash(&p, &m));
            } else {
                let (e, i) = (c.rng.edge64(), c.rng.u32());
                leaves.push(Leaf::entropy(e, i));
                hashes.push(entropy_hash(e, i));
            }
        }
        let want = merklize(&hashes);
        let small = Confined::<Vec<Leaf>, 0, U8>::try_from(leaves.clone()).unwrap();
        let big = Confined::<Vec<Leaf>, 0, U32>::try_from(leaves).unwrap();
        ensure_eq!(hex(&raw(&MerkleHash::merklize(&small))), hex(&want), "root of {n} multi-protocol leaves");
        ensure_eq!(hex(&raw(&MerkleHash::merklize(&big))), hex(&want), "root of {n} multi-protocol leaves");
        c.ev("roots", 2);
        c.sig(&[n as u64, 4]);
        Ok(())
    })
    .family("nodes", 2_000, 60_000, |c| {
        let (a, b) = (c.rng.h32(), c.rng.h32());
        let (ha, hb) = (MerkleHash::from(a), MerkleHash::from(b));
        let d = c.rng.below(32) as u8;
        let depth = u5::with(d);
        let d8 = c.rng.u8();
        let w = c.rng.edge64();
        let big = c.rng.h32();
        let wide = u256::from_le_bytes(big);
        let v = VIRTUAL;
        // (constructed node, constructed hash, branching, depth, width, first, second)
        let w256 = width256(w);
        let rows: Vec<(MerkleNode, MerkleHash, u8, u8, H, H, H)> = vec![
            (MerkleNode::void(depth, w), MerkleHash::void(depth, w), 0, d, w256, v, v),
            (MerkleNode::void(d8, wide), MerkleHash::void(d8, wide), 0, d8, big, v, v),
            (MerkleNode::single(depth, w as u32, ha), MerkleHash::single(depth, w as u32, ha), 1, d, width256(w as u32 as u64), a, v),
            (MerkleNode::single(d8, wide, ha), MerkleHash::single(d8, wide, ha), 1, d8, big, a, v),
            (MerkleNode::branches(depth, w as u32, ha, hb), MerkleHash::branches(depth, w as u32, ha, hb), 2, d, width256(w as u32 as u64), a, b),
            (MerkleNode::branches(d8, wide, hb, ha), MerkleHash::branches(d8, wide, hb, ha), 2, d8, big, b, a),
            (MerkleNode::branches(d8, w, ha, ha), MerkleHash::branches(d8, w, ha, ha), 2, d8, w256, a, a),
        ];
        for (node, hash, br, d, w, n1, n2) in rows {
            let want = node_hash(br, d, &w, &n1, &n2);
            ensure_eq!(hex(&raw(&hash)), hex(&want), "hash of node kind {br} at depth {d}");
            ensure_eq!(hex(&raw(&node.commit_id())), hex(&want), "commitment of node kind {br} at depth {d}");
            ensure_eq!(hex(&enc(&node)?), hex(&node_bytes(br, d, &w, &n1, &n2)), "encoding of node kind {br} at depth {d}");
            let kind = [NodeBranching::Void, NodeBranching::Single, NodeBranching::Branch][br as usize];
            ensure!(
                node.branching == kind && node.depth == d && node.width.to_le_bytes() == w && raw(&node.node1) == n1 && raw(&node.node2) == n2,
                "fields of node kind {br}: {node:?}"
            );
            c.ev("nodes", 1);
        }
        c.sig(&[d as u64, w, 5]);
        Ok(())
    })
    .require("roots", 4000)
    .require("set_roots", 800)
    .require("nodes", 5000)
}

/// Stack of pending subtrees. None when a completed whole tree would not be the outermost one
/// (not a cross-section).
fn float(stack: &mut Vec<u8>, d: u8) -> Option<bool> {
    if d == 0 {
        return Some(false);
    }
    let mut cur = d;
    loop {
        if *stack.last().unwrap() != cur {
            stack.push(cur);
            return Some(false);
        }
        if stack.len() == 1 {
            stack[0] -= 1;
            return Some(true);
        }
        stack.pop();
        cur -= 1;
        if cur == 0 {
            return None;
        }
    }
}

fn follow(c: &mut Case, depths: &[u8]) -> R {
    let mut stack = vec![depths[0]];
    let mut a = MerkleBuoy::<u5>::new(u5::with(depths[0]));
    let mut b = MerkleBuoy::<u8>::new(depths[0]);
    ensure_eq!(a.level().to_u8(), depths[0], "level of a new buoy");
    for (i, d) in depths[1..].iter().enumerate() {
        let before = stack.clone();
        let Some(want) = float(&mut stack, *d) else { break };
        let (ga, gb) = (a.push(u5::with(*d)), b.push(*d));
        ensure!(
            ga == want && gb == want,
            "push #{i} of {d} onto pending {before:?} reports {ga}/{gb}, expected {want} (depths {:?})",
            &depths[..(i + 2).min(60)]
        );
        let lv = *stack.last().unwrap();
        ensure!(
            a.level().to_u8() == lv && b.level() == lv,
            "level after push #{i} of {d} onto pending {before:?} is {}/{}, expected {lv}",
            a.level(),
            b.level()
        );
        // the pending structure is compared by rebuilding it from scratch
        if i % 7 == 0 {
            let mut fresh = MerkleBuoy::<u8>::new(stack[0]);
            for s in &stack[1..] {
                fresh.push(*s);
            }
            ensure!(fresh == b, "pending subtrees after push #{i} differ from {stack:?}");
            c.ev("rebuilt", 1);
        }
        c.ev("pushes", 1);
        if want {
            c.ev("surfaced", 1);
        }
        c.max("pending", stack.len() as u64);
        c.max("cascade", before.len() as u64 + 1 - stack.len().min(before.len()) as u64);
    }
    c.sig_bytes(&depths[..depths.len().min(40)]);
    Ok(())
}

pub fn c10() -> Prop {
    Prop::new(
        "C10",
        "depth sequences of real cross-sections (depths 1..31, from any starting node), of complete trees and arbitrary sequences \
         including zeros; distinct by sequence",
    )
    .family("cross_sections", 4_000, 120_000, |c| {
        let d = 1 + c.rng.below(31) as u8;
        let (k, split) = (c.rng.below(6) as usize, c.rng.below(6));
        let b = gen_sparse(&mut c.rng, d, 0, k, split);
        let depths: Vec<u8> = b
            .nodes
            .iter()
            .map(|n| match n {
                MNode::Hash(d, _) => *d,
                MNode::Leaf(..) => b.depth,
            })
            .collect();
        let from = c.rng.below(depths.len() as u64) as usize;
        c.sample(|| format!("{:?}", &depths[..depths.len().min(40)]));
        follow(c, &depths)?;
        follow(c, &depths[from..])
    })
    .family("complete", 300, 6_000, |c| {
        let d = 1 + c.rng.below(10) as u8;
        let n = 1usize << d;
        let from = if c.rng.bool() { 0 } else { c.rng.below(n as u64) as usize };
        follow(c, &vec![d; n - from])
    })
    .family("arbitrary", 4_000, 120_000, |c| {
        let (n, span) = (2 + c.rng.below(60), 1 + c.rng.below(8));
        let depths: Vec<u8> = (0..n).map(|i| if i > 0 && c.rng.one_in(12) { 0 } else { 1 + c.rng.below(span) as u8 }).collect();
        follow(c, &depths)
    })
    .family("staircase", 200, 4_000, |c| {
        // descending to a depth and completing it bottom-up: the longest cascades
        let top = 1 + c.rng.below(4) as u8;
        let low = top + 1 + c.rng.below(26) as u8;
        let mut depths: Vec<u8> = (top..=low).collect();
        depths.push(low);
        for _ in 0..c.rng.below(20) {
            depths.push(1 + c.rng.below(31) as u8);
        }
        follow(c, &depths)
    })
    .require("pushes", 100_000)
    .require("surfaced", 5_000)
    .require("rebuilt", 10_000)
}
