//! Independent reference model of LNPBP-4 / LNPBP-81 and of the strict encodings involved.
//! Written from the specification; shares only the SHA-256 primitive with the code under test.
use std::collections::{BTreeMap, BTreeSet};

use sha2::{Digest, Sha256};

use crate::runner::R;

pub type H = [u8; 32];

pub const TAG_MERKLE: &str = "urn:ubideco:merkle:node#2024-01-31";
pub const TAG_MPC: &str = "urn:ubideco:mpc:commitment#2024-01-31";
pub const TAG_STRICT: &str = "urn:ubideco:strict-types:value-hash#2024-02-10";
pub const VIRTUAL: H = [0xFF; 32];
pub const MAX_ATTEMPTS: u32 = 500;

pub fn sha(data: &[u8]) -> H { Sha256::digest(data).into() }

pub fn tagged(tag: &[u8], data: &[u8]) -> H {
    let t = sha(tag);
    let mut h = Sha256::new();
    h.update(t);
    h.update(t);
    h.update(data);
    h.finalize().into()
}

pub fn merkle_tagged(data: &[u8]) -> H {
    use std::sync::OnceLock;
    static MID: OnceLock<Sha256> = OnceLock::new();
    let mid = MID.get_or_init(|| {
        let t = sha(TAG_MERKLE.as_bytes());
        let mut h = Sha256::new();
        h.update(t);
        h.update(t);
        h
    });
    let mut h = mid.clone();
    h.update(data);
    h.finalize().into()
}

pub fn leaf_bytes(pid: &H, msg: &H) -> Vec<u8> {
    let mut v = vec![0x10];
    v.extend(pid);
    v.extend(msg);
    v
}
pub fn leaf_hash(pid: &H, msg: &H) -> H { merkle_tagged(&leaf_bytes(pid, msg)) }
pub fn entropy_bytes(entropy: u64, pos: u32) -> Vec<u8> {
    let mut v = vec![0x11];
    v.extend(entropy.to_le_bytes());
    v.extend(pos.to_le_bytes());
    v
}
pub fn entropy_hash(entropy: u64, pos: u32) -> H { merkle_tagged(&entropy_bytes(entropy, pos)) }

/// branching 0 void, 1 single, 2 branch; width as 256-bit little endian.
pub fn node_bytes(branching: u8, depth: u8, width: &H, n1: &H, n2: &H) -> Vec<u8> {
    let mut v = vec![branching, depth];
    v.extend(width);
    v.extend(n1);
    v.extend(n2);
    v
}
pub fn width256(w: u64) -> H {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&w.to_le_bytes());
    b
}
pub fn node_hash(branching: u8, depth: u8, width: &H, n1: &H, n2: &H) -> H {
    merkle_tagged(&node_bytes(branching, depth, width, n1, n2))
}

/// Generic merklization: explicit work stack over index ranges.
pub fn merklize(leaves: &[H]) -> H {
    let n = leaves.len() as u64;
    if n == 1 {
        return leaves[0];
    }
    let w = width256(n);
    fn go(leaves: &[H], depth: u8, w: &H) -> H {
        match leaves {
            [] => node_hash(0, depth, w, &VIRTUAL, &VIRTUAL),
            [a] => node_hash(1, depth, w, a, &VIRTUAL),
            [a, b] => node_hash(2, depth, w, a, b),
            more => {
                let left = (more.len() + 1) / 2;
                let l = go(&more[..left], depth + 1, w);
                let r = go(&more[left..], depth + 1, w);
                node_hash(2, depth, w, &l, &r)
            }
        }
    }
    go(leaves, 0, &w)
}

/// pid (LE) mod m, by schoolbook reduction.
pub fn mod_le(pid: &H, m: u64) -> u64 {
    let mut r: u64 = 0;
    for b in pid.iter().rev() {
        r = (r * 256 + *b as u64) % m;
    }
    r
}

pub fn divisor(cofactor: u16, depth: u8) -> u64 {
    let w = 1u64 << depth;
    if (cofactor as u64) < w {
        w - cofactor as u64
    } else {
        1
    }
}
pub fn pos(pid: &H, cofactor: u16, depth: u8) -> u32 { mod_le(pid, divisor(cofactor, depth)) as u32 }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PlaceErr {
    Empty,
    CantFit(usize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MTree {
    pub depth: u8,
    pub cofactor: u16,
    pub entropy: u64,
    pub msgs: BTreeMap<H, H>,
    pub map: BTreeMap<u32, (H, H)>,
}

/// The search order of the statement of C01.
pub fn place(msgs: &BTreeMap<H, H>, min_depth: u8) -> Result<(u8, u16), PlaceErr> {
    if msgs.is_empty() && min_depth == 0 {
        return Err(PlaceErr::Empty);
    }
    let n = msgs.len();
    let mut prev: u64 = 1;
    let mut used: BTreeSet<u64> = BTreeSet::new();
    for depth in min_depth..=31 {
        let w = 1u64 << depth;
        if w >= n as u64 {
            for cof in 0..=(prev.min(MAX_ATTEMPTS as u64)) {
                let d = if cof < w { w - cof } else { 1 };
                used.clear();
                if msgs.keys().all(|p| used.insert(mod_le(p, d))) {
                    return Ok((depth, cof as u16));
                }
            }
        }
        prev = w;
    }
    Err(PlaceErr::CantFit(n))
}

impl MTree {
    pub fn build(msgs: &BTreeMap<H, H>, min_depth: u8, entropy: u64) -> Result<MTree, PlaceErr> {
        let (depth, cofactor) = place(msgs, min_depth)?;
        let map = msgs.iter().map(|(p, m)| (pos(p, cofactor, depth), (*p, *m))).collect();
        Ok(MTree { depth, cofactor, entropy, msgs: msgs.clone(), map })
    }
    pub fn width(&self) -> u64 { 1 << self.depth }
    pub fn leaf(&self, i: u32) -> H {
        match self.map.get(&i) {
            Some((p, m)) => leaf_hash(p, m),
            None => entropy_hash(self.entropy, i),
        }
    }
    /// All node hashes by level: levels[d][i], levels[depth] are leaves.
    pub fn levels(&self) -> Vec<Vec<H>> {
        let w = width256(self.width());
        let mut rows = vec![(0..self.width() as u32).map(|i| self.leaf(i)).collect::<Vec<_>>()];
        for d in (0..self.depth).rev() {
            let below = rows.last().unwrap();
            let row = below.chunks(2).map(|c| node_hash(2, d, &w, &c[0], &c[1])).collect();
            rows.push(row);
        }
        rows.reverse();
        rows
    }
    pub fn root(&self) -> H { self.levels()[0][0] }
    pub fn commitment(&self) -> H { commitment(self.depth, self.cofactor, &self.root()) }
    /// method, depth, entropy, cofactor, messages, map
    pub fn strict(&self) -> Vec<u8> {
        let mut v = vec![0u8, self.depth];
        v.extend(self.entropy.to_le_bytes());
        v.extend(self.cofactor.to_le_bytes());
        v.extend(&(self.msgs.len() as u32).to_le_bytes()[..3]);
        for (p, m) in &self.msgs {
            v.extend(p);
            v.extend(m);
        }
        v.extend(&(self.map.len() as u32).to_le_bytes()[..3]);
        for (i, (p, m)) in &self.map {
            v.extend(i.to_le_bytes());
            v.extend(p);
            v.extend(m);
        }
        v
    }
    pub fn block(&self) -> MBlock {
        MBlock {
            depth: self.depth,
            cofactor: self.cofactor,
            entropy: Some(self.entropy),
            nodes: (0..self.width() as u32)
                .map(|i| match self.map.get(&i) {
                    Some((p, m)) => MNode::Leaf(*p, *m),
                    None => MNode::Hash(self.depth, entropy_hash(self.entropy, i)),
                })
                .collect(),
        }
    }
}

pub fn concealed_bytes(depth: u8, cofactor: u16, root: &H) -> Vec<u8> {
    let mut v = vec![depth];
    v.extend(cofactor.to_le_bytes());
    v.extend(root);
    v
}
pub fn commitment(depth: u8, cofactor: u16, root: &H) -> H {
    tagged(TAG_MPC.as_bytes(), &concealed_bytes(depth, cofactor, root))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum MNode {
    Hash(u8, H),
    Leaf(H, H),
}

/// Cross-section listed left to right.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MBlock {
    pub depth: u8,
    pub cofactor: u16,
    pub nodes: Vec<MNode>,
    pub entropy: Option<u64>,
}

impl MBlock {
    pub fn strict(&self) -> Vec<u8> {
        let mut v = vec![0u8, self.depth];
        v.extend(self.cofactor.to_le_bytes());
        v.extend((self.nodes.len() as u32).to_le_bytes());
        for n in &self.nodes {
            match n {
                MNode::Hash(d, h) => {
                    v.push(0);
                    v.push(*d);
                    v.extend(h);
                }
                MNode::Leaf(p, m) => {
                    v.push(1);
                    v.extend(p);
                    v.extend(m);
                }
            }
        }
        match self.entropy {
            None => v.push(0),
            Some(e) => {
                v.push(1);
                v.extend(e.to_le_bytes());
            }
        }
        v
    }
    pub fn parse(b: &[u8]) -> R<MBlock> {
        let mut r = Rd(b);
        if r.u8()? != 0 {
            return Err("block encoding: unknown method".into());
        }
        let depth = r.u8()?;
        let cofactor = u16::from_le_bytes(r.take()?);
        let n = u32::from_le_bytes(r.take()?);
        let mut nodes = vec![];
        for _ in 0..n {
            nodes.push(match r.u8()? {
                0 => MNode::Hash(r.u8()?, r.take()?),
                1 => MNode::Leaf(r.take()?, r.take()?),
                t => return Err(format!("block encoding: node tag {t}")),
            });
        }
        let entropy = match r.u8()? {
            0 => None,
            1 => Some(u64::from_le_bytes(r.take()?)),
            t => return Err(format!("block encoding: option tag {t}")),
        };
        r.end()?;
        Ok(MBlock { depth, cofactor, nodes, entropy })
    }
    /// (depth, index at that depth) of each node; Err when not tiling the tree.
    pub fn slots(&self) -> R<Vec<(u8, u64)>> {
        let mut off: u64 = 0;
        let mut v = vec![];
        for n in &self.nodes {
            let d = match n {
                MNode::Hash(d, _) => *d,
                MNode::Leaf(..) => self.depth,
            };
            if d > self.depth {
                return Err(format!("node depth {d} below tree depth {}", self.depth));
            }
            let size = 1u64 << (self.depth - d);
            if off % size != 0 {
                return Err(format!("node of depth {d} misaligned at offset {off}"));
            }
            v.push((d, off / size));
            off += size;
        }
        if off != 1 << self.depth {
            return Err(format!("cross-section covers {off} of {} slots", 1u64 << self.depth));
        }
        Ok(v)
    }
    /// Same tiling, as a map from slot to node.
    pub fn by_slot(&self) -> R<BTreeMap<(u8, u64), MNode>> {
        Ok(self.slots()?.into_iter().zip(self.nodes.iter().copied()).collect())
    }
    pub fn known(&self) -> BTreeMap<H, H> {
        self.nodes
            .iter()
            .filter_map(|n| match n {
                MNode::Leaf(p, m) => Some((*p, *m)),
                _ => None,
            })
            .collect()
    }
    pub fn root(&self) -> R<H> {
        let w = width256(1 << self.depth);
        // reduce by a stack machine
        let mut st: Vec<(u8, H)> = vec![];
        self.slots()?;
        for n in &self.nodes {
            let mut cur = match n {
                MNode::Hash(d, h) => (*d, *h),
                MNode::Leaf(p, m) => (self.depth, leaf_hash(p, m)),
            };
            while let Some((d, h)) = st.last().copied() {
                if d != cur.0 || d == 0 {
                    break;
                }
                st.pop();
                cur = (d - 1, node_hash(2, d - 1, &w, &h, &cur.1));
            }
            st.push(cur);
        }
        match st[..] {
            [(0, h)] => Ok(h),
            _ => Err("cross-section does not reduce to one root".into()),
        }
    }
    pub fn commitment(&self) -> R<H> { Ok(commitment(self.depth, self.cofactor, &self.root()?)) }

    /// Expected result of concealing all but `keep` (all of which must be revealed), with the
    /// number of hidden leaves plus removed nodes.
    pub fn conceal_except(&self, keep: &BTreeSet<H>) -> R<(MBlock, usize)> { self.cut(keep, || false) }

    /// As `conceal_except`, but some of the joins may be left out.
    pub fn cut(&self, keep: &BTreeSet<H>, mut stop: impl FnMut() -> bool) -> R<(MBlock, usize)> {
        let w = width256(1 << self.depth);
        let mut hidden = 0;
        // A node of the result is maximal among subtrees free of kept leaves: combine siblings
        // whenever both are hashes.
        let mut st: Vec<(MNode, u64)> = vec![]; // node, index at own depth
        for (n, (d, i)) in self.nodes.iter().zip(self.slots()?) {
            let mut cur = match n {
                MNode::Leaf(p, _) if keep.contains(p) => {
                    st.push((*n, i));
                    continue;
                }
                MNode::Leaf(p, m) => {
                    hidden += 1;
                    (d, leaf_hash(p, m), i)
                }
                MNode::Hash(_, h) => (d, *h, i),
            };
            while cur.0 > 0 && cur.2 % 2 == 1 {
                match st.last() {
                    Some((MNode::Hash(ld, lh), li)) if *ld == cur.0 && *li == cur.2 - 1 && !stop() => {
                        let h = node_hash(2, cur.0 - 1, &w, lh, &cur.1);
                        st.pop();
                        cur = (cur.0 - 1, h, cur.2 / 2);
                    }
                    _ => break,
                }
            }
            st.push((MNode::Hash(cur.0, cur.1), cur.2));
        }
        let nodes: Vec<MNode> = st.into_iter().map(|x| x.0).collect();
        let removed = self.nodes.len() - nodes.len();
        Ok((MBlock { depth: self.depth, cofactor: self.cofactor, nodes, entropy: None }, hidden + removed))
    }

    /// Coarsest cross-section in which every node known to either is available. Both must tile the
    /// same tree and agree.
    pub fn merge(&self, other: &MBlock) -> R<MBlock> {
        let (a, b) = (self.by_slot()?, other.by_slot()?);
        let mut out: BTreeMap<u64, (u8, MNode)> = BTreeMap::new(); // by first leaf offset
        let size = |d: u8| 1u64 << (self.depth - d);
        let covered = |m: &BTreeMap<(u8, u64), MNode>, d: u8, i: u64| {
            // is there a strictly deeper node of m inside (d, i)?
            (d + 1..=self.depth).any(|dd| {
                let lo = i << (dd - d);
                let hi = (i + 1) << (dd - d);
                m.range((dd, lo)..(dd, hi)).next().is_some()
            })
        };
        for (mine, theirs) in [(&a, &b), (&b, &a)] {
            for (&(d, i), n) in mine.iter() {
                if covered(theirs, d, i) {
                    continue;
                }
                let at = i * size(d);
                match out.get(&at) {
                    Some((_, MNode::Leaf(..))) => {}
                    Some((_, MNode::Hash(..))) | None => {
                        if out.get(&at).is_none() || matches!(n, MNode::Leaf(..)) {
                            out.insert(at, (d, *n));
                        }
                    }
                }
            }
        }
        Ok(MBlock {
            depth: self.depth,
            cofactor: self.cofactor,
            nodes: out.into_values().map(|x| x.1).collect(),
            entropy: self.entropy,
        })
    }
    pub fn proof(&self, pid: &H) -> R<MProof> {
        let (b, _) = self.conceal_except(&[*pid].into())?;
        let p = pos(pid, self.cofactor, self.depth);
        let mut path = vec![[0u8; 32]; self.depth as usize];
        for n in &b.nodes {
            if let MNode::Hash(d, h) = n {
                path[*d as usize - 1] = *h;
            }
        }
        Ok(MProof { pos: p, cofactor: self.cofactor, path })
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MProof {
    pub pos: u32,
    pub cofactor: u16,
    pub path: Vec<H>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct BadPos {
    pub expected: u32,
    pub actual: u32,
    pub width: u32,
}

impl MProof {
    pub fn strict(&self) -> Vec<u8> {
        let mut v = vec![0u8];
        v.extend(self.pos.to_le_bytes());
        v.extend(self.cofactor.to_le_bytes());
        v.push(self.path.len() as u8);
        for h in &self.path {
            v.extend(h);
        }
        v
    }
    pub fn parse(b: &[u8]) -> R<MProof> {
        let mut r = Rd(b);
        if r.u8()? != 0 {
            return Err("proof encoding: unknown method".into());
        }
        let pos = u32::from_le_bytes(r.take()?);
        let cofactor = u16::from_le_bytes(r.take()?);
        let n = r.u8()?;
        let path = (0..n).map(|_| r.take()).collect::<R<Vec<_>>>()?;
        r.end()?;
        Ok(MProof { pos, cofactor, path })
    }
    pub fn from_levels(levels: &[Vec<H>], cofactor: u16, at: u32) -> MProof {
        let depth = levels.len() - 1;
        let path = (1..=depth)
            .map(|d| levels[d][((at as usize) >> (depth - d)) ^ 1])
            .collect();
        MProof { pos: at, cofactor, path }
    }
    /// Reference verifier, for paths of up to 31 hashes.
    pub fn eval(&self, pid: &H, msg: &H) -> Result<H, BadPos> {
        let depth = self.path.len() as u8;
        let expected = pos(pid, self.cofactor, depth);
        if expected != self.pos {
            return Err(BadPos { expected, actual: self.pos, width: (1u64 << depth) as u32 });
        }
        let w = width256(1 << depth);
        let mut h = leaf_hash(pid, msg);
        for d in (1..=depth).rev() {
            let sib = &self.path[d as usize - 1];
            let right = (self.pos >> (depth - d)) & 1 == 1;
            h = if right { node_hash(2, d - 1, &w, sib, &h) } else { node_hash(2, d - 1, &w, &h, sib) };
        }
        Ok(commitment(depth, self.cofactor, &h))
    }
    pub fn block(&self, pid: &H, msg: &H) -> MBlock {
        let depth = self.path.len() as u8;
        let mut left = vec![];
        let mut right = vec![];
        for d in 1..=depth {
            let n = MNode::Hash(d, self.path[d as usize - 1]);
            if (self.pos >> (depth - d)) & 1 == 1 {
                left.push(n)
            } else {
                right.push(n)
            }
        }
        right.reverse();
        let mut nodes = left;
        nodes.push(MNode::Leaf(*pid, *msg));
        nodes.extend(right);
        MBlock { depth, cofactor: self.cofactor, nodes, entropy: None }
    }
}

/// Byte reader with Result.
pub struct Rd<'a>(pub &'a [u8]);
impl Rd<'_> {
    pub fn u8(&mut self) -> R<u8> { Ok(self.take::<1>()?[0]) }
    pub fn take<const N: usize>(&mut self) -> R<[u8; N]> {
        if self.0.len() < N {
            return Err("encoding shorter than its declared content".into());
        }
        let (a, b) = self.0.split_at(N);
        self.0 = b;
        Ok(a.try_into().unwrap())
    }
    pub fn end(&self) -> R {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err(format!("{} unexpected bytes after the value", self.0.len()))
        }
    }
}
