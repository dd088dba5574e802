//! Hostile generators of sources, blocks and proofs, all at model level.
use std::collections::{BTreeMap, BTreeSet};

use crate::model::*;
use crate::rng::Rng;

/// Minimal 256-bit helpers (little-endian u64 limbs).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct U(pub [u64; 4]);
impl U {
    pub fn small(v: u64) -> U { U([v, 0, 0, 0]) }
    pub fn mul(self, k: u64) -> Option<U> {
        let mut c = 0u128;
        let mut r = [0u64; 4];
        for i in 0..4 {
            c += self.0[i] as u128 * k as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        if c == 0 {
            Some(U(r))
        } else {
            None
        }
    }
    pub fn add(self, o: U) -> Option<U> {
        let mut c = 0u128;
        let mut r = [0u64; 4];
        for i in 0..4 {
            c += self.0[i] as u128 + o.0[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        if c == 0 {
            Some(U(r))
        } else {
            None
        }
    }
    pub fn rem(self, m: u64) -> u64 { mod_le(&self.le(), m) }
    pub fn le(self) -> H {
        let mut b = [0u8; 32];
        for i in 0..4 {
            b[i * 8..i * 8 + 8].copy_from_slice(&self.0[i].to_le_bytes());
        }
        b
    }
}
fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }

pub fn le(v: u64) -> H { U::small(v).le() }

#[derive(Clone, Debug)]
pub struct Src {
    pub msgs: BTreeMap<H, H>,
    pub min_depth: u8,
    pub entropy: u64,
    pub class: u64,
}

pub fn gen_msg(rng: &mut Rng, pid: &H, style: u64) -> H {
    match style {
        0 => [0; 32],
        1 => [0xFF; 32],
        2 => *pid,
        3 => [rng.u8(); 32],
        _ => rng.h32(),
    }
}

pub fn gen_count(rng: &mut Rng, max: u64) -> u64 {
    let n = match rng.below(10) {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=4 => {
            let k = 1u64 << rng.below(9);
            (k + rng.below(3)).saturating_sub(1)
        }
        5..=7 => rng.below(12),
        8 => rng.below(40),
        _ => rng.below(max + 1),
    };
    n.min(max)
}

/// A source; `max_n` bounds the number of messages.
pub fn gen_src(rng: &mut Rng, max_n: u64, max_min_depth: u64) -> Src {
    let class = rng.below(10);
    let n = gen_count(rng, max_n);
    let mut pids: BTreeSet<H> = BTreeSet::new();
    let base = rng.edge64() >> 1;
    let k = rng.range(1, 12);
    let high = rng.h32();
    let l = {
        let m = rng.range(3, 60);
        let mut l = U::small(1);
        for d in 2..=m {
            let f = d / gcd(l.rem(d), d);
            l = l.mul(f).unwrap_or(l);
        }
        l
    };
    let start = rng.below(300);
    let lim = match class {
        4 => n.min(4),
        2 => n.min(60),
        _ => n,
    };
    let mut guard = 0u64;
    while (pids.len() as u64) < lim && guard < 4 * lim + 50 {
        let j = guard;
        guard += 1;
        let p = match class {
            0 => le(start + j),
            1 => le(rng.below(2000)),
            2 => U::small(base).add(U::small(1 << k).mul(j).unwrap()).unwrap().le(),
            3 => {
                let mut b = [0xFFu8; 32];
                b[0] = 0xFF - (j % 251) as u8;
                b[1] = 0xFF - (j / 251) as u8;
                b
            }
            4 => match l.mul(j).and_then(|x| x.add(U::small(start))) {
                Some(u) => u.le(),
                None => rng.h32(),
            },
            5 => {
                let mut b = [0u8; 32];
                b[rng.below(32) as usize] = rng.u8();
                b
            }
            6 => {
                // equal low part, different high part
                let cut = [8usize, 16, 24, 31][rng.below(4) as usize];
                let mut b = high;
                for x in b[cut..].iter_mut() {
                    *x = rng.u8();
                }
                b
            }
            7 => {
                // equal high part, different low part
                let cut = [8usize, 16, 24, 31][rng.below(4) as usize];
                let mut b = high;
                for x in b[..cut].iter_mut() {
                    *x = rng.u8();
                }
                b
            }
            _ => rng.h32(),
        };
        pids.insert(p);
    }
    let style = rng.below(9);
    let msgs = pids.iter().map(|p| (*p, gen_msg(rng, p, style))).collect();
    let min_depth = match rng.below(6) {
        0 | 1 => 0,
        2 => 3.min(max_min_depth),
        _ => rng.below(max_min_depth + 1),
    } as u8;
    Src { msgs, min_depth, entropy: rng.edge64(), class }
}

/// A source whose placement is shallow enough to be hashed. Never empty at depth 0.
pub fn gen_shallow(rng: &mut Rng, max_n: u64, max_depth: u8) -> (Src, MTree) {
    loop {
        let s = gen_src(rng, max_n, max_depth as u64);
        if let Ok((d, _)) = place(&s.msgs, s.min_depth) {
            if d <= max_depth {
                let t = MTree::build(&s.msgs, s.min_depth, s.entropy).unwrap();
                return (s, t);
            }
        }
    }
}

/// A source for which every divisor tried before (depth, cofactor) collides and that one doesn't.
/// With `fit == false` every divisor up to depth 31 collides.
pub fn gen_forced(rng: &mut Rng, min_depth: u8, depth: u8, cof: u16, fit: bool) -> Option<Src> {
    let mut tried: Vec<u64> = vec![];
    let mut prev = 1u64;
    let target = divisor(cof, depth);
    'o: for d in min_depth..=31 {
        let w = 1u64 << d;
        for c in 0..=prev.min(500) {
            if fit && d == depth && c == cof as u64 {
                break 'o;
            }
            tried.push(if c < w { w - c } else { 1 });
        }
        prev = w;
    }
    tried.sort();
    tried.dedup();
    if fit && tried.iter().any(|d| d % target == 0) {
        return None;
    }
    // pack divisors into differences
    let mut diffs: Vec<U> = vec![];
    rng.shuffle(&mut tried);
    for d in &tried {
        if diffs.iter().any(|p| p.rem(*d) == 0) {
            continue;
        }
        let mut done = false;
        for p in diffs.iter_mut() {
            let f = d / gcd(p.rem(*d), *d);
            if let Some(q) = p.mul(f) {
                if q.0[3] >> 60 == 0 && (!fit || q.rem(target) != 0) {
                    *p = q;
                    done = true;
                    break;
                }
            }
        }
        if !done {
            diffs.push(U::small(*d));
        }
    }
    for _ in 0..200 {
        let mut pids = BTreeSet::new();
        let mut slots = BTreeSet::new();
        let mut ok = true;
        for p in &diffs {
            let mut placed = false;
            for _ in 0..400 {
                let x = U([rng.u64(), rng.u64(), rng.u64(), rng.u64() >> 8]);
                let y = x.add(*p)?;
                let (a, b) = (x.rem(target), y.rem(target));
                if !fit || (a != b && !slots.contains(&a) && !slots.contains(&b)) {
                    slots.insert(a);
                    slots.insert(b);
                    pids.insert(x.le());
                    pids.insert(y.le());
                    placed = true;
                    break;
                }
            }
            ok &= placed;
            if !ok {
                break;
            }
        }
        if ok {
            if pids.is_empty() {
                pids.insert(rng.h32());
            }
            let msgs = pids.iter().map(|p| (*p, rng.h32())).collect();
            return Some(Src { msgs, min_depth, entropy: rng.edge64(), class: 100 });
        }
    }
    None
}

/// Different protocol ids placed at slot `at` of a tree (depth, cofactor).
pub fn pid_at(rng: &mut Rng, at: u64, cof: u16, depth: u8) -> Option<H> {
    let m = divisor(cof, depth);
    if at >= m {
        return None;
    }
    let mut p = rng.h32();
    if rng.one_in(3) {
        for x in p[8..].iter_mut() {
            *x = 0;
        }
    }
    p[31] &= 0x7F;
    if rng.one_in(6) {
        return Some(le(at));
    }
    // p - (p mod m) + at
    let r = mod_le(&p, m);
    let mut borrow = r;
    let mut out = [0u8; 32];
    for i in 0..32 {
        let sub = (borrow & 0xFF) as i32;
        borrow >>= 8;
        let mut v = p[i] as i32 - sub;
        if v < 0 {
            v += 256;
            borrow += 1;
        }
        out[i] = v as u8;
    }
    if borrow != 0 {
        return Some(le(at));
    }
    let mut carry = at;
    for x in out.iter_mut() {
        let v = *x as u64 + (carry & 0xFF);
        *x = v as u8;
        carry = (carry >> 8) + (v >> 8);
    }
    debug_assert_eq!(mod_le(&out, m), at);
    Some(out)
}

/// A consistent cross-section of a deep tree: `k` leaves at positions matching their protocols,
/// everything else arbitrary hashes, some of them split further than necessary.
pub fn gen_sparse(rng: &mut Rng, depth: u8, cofactor: u16, k: usize, split: u64) -> MBlock {
    let m = divisor(cofactor, depth);
    let mut at: BTreeMap<u64, (H, H)> = BTreeMap::new();
    let mut pids = BTreeSet::new();
    let cluster = rng.below(m);
    for _ in 0..k * 4 {
        if at.len() >= k || at.len() as u64 >= m {
            break;
        }
        let p = match rng.below(4) {
            0 => (cluster ^ rng.below(8)) % m,
            1 => rng.below(4) % m,
            2 => m - 1 - rng.below(m.min(4)),
            _ => rng.below(m),
        };
        if at.contains_key(&p) {
            continue;
        }
        if let Some(pid) = pid_at(rng, p, cofactor, depth) {
            if pids.insert(pid) {
                let msg = rng.h32();
                at.insert(p, (pid, msg));
            }
        }
    }
    let mut nodes = vec![];
    let mut budget = if k > 16 { 900i64 } else { 200 };
    fn go(
        rng: &mut Rng,
        at: &BTreeMap<u64, (H, H)>,
        nodes: &mut Vec<MNode>,
        depth: u8,
        d: u8,
        i: u64,
        split: u64,
        budget: &mut i64,
    ) {
        let lo = i << (depth - d);
        let hi = (i + 1) << (depth - d);
        if d == depth {
            nodes.push(match at.get(&lo) {
                Some((p, m)) => MNode::Leaf(*p, *m),
                None => MNode::Hash(d, rng.h32()),
            });
            return;
        }
        let has = at.range(lo..hi).next().is_some();
        if !has && (*budget <= 0 || split == 0 || !rng.one_in(split)) {
            nodes.push(MNode::Hash(d, rng.h32()));
            return;
        }
        if !has {
            *budget -= 1;
        }
        go(rng, at, nodes, depth, d + 1, i * 2, split, budget);
        go(rng, at, nodes, depth, d + 1, i * 2 + 1, split, budget);
    }
    go(rng, &at, &mut nodes, depth, 0, 0, split, &mut budget);
    MBlock { depth, cofactor, nodes, entropy: if rng.bool() { Some(rng.edge64()) } else { None } }
}

/// A partial view of `b`: conceals a random subset of known leaves, and sometimes leaves extra
/// detail (only some of the possible joins done).
pub fn gen_view(rng: &mut Rng, b: &MBlock) -> MBlock {
    let known: Vec<H> = b.known().keys().copied().collect();
    let keep: BTreeSet<H> = rng.subset(&known).into_iter().collect();
    let mut v = b.conceal_except(&keep).unwrap().0;
    if rng.one_in(4) {
        // keep some more detail: merge with another narrow view, then hide its leaves without joining
        let keep2: BTreeSet<H> = rng.subset(&known).into_iter().collect();
        let o = b.conceal_except(&keep2).unwrap().0;
        v = v.merge(&o).unwrap();
        for n in v.nodes.iter_mut() {
            if let MNode::Leaf(p, m) = *n {
                if !keep.contains(&p) {
                    *n = MNode::Hash(v.depth, leaf_hash(&p, &m));
                }
            }
        }
    }
    v.entropy = match rng.below(3) {
        0 => b.entropy,
        _ => None,
    };
    v
}

/// One copy of a string for good, so that repeating a case keeps no more memory.
pub fn intern(s: String) -> &'static str {
    static KEPT: std::sync::Mutex<BTreeSet<&'static str>> = std::sync::Mutex::new(BTreeSet::new());
    let mut kept = KEPT.lock().unwrap();
    if let Some(x) = kept.get(s.as_str()) {
        return x;
    }
    let x: &'static str = Box::leak(s.into_boxed_str());
    kept.insert(x);
    x
}

/// Bytes of the same length which are easily taken for `b`: one bit, one end, one half changed,
/// parts exchanged.
pub fn twin(rng: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = v.len();
    if n == 0 {
        return v;
    }
    let flip = |v: &mut [u8], rng: &mut Rng| v.iter_mut().for_each(|x| *x ^= 1 + rng.below(15) as u8);
    match rng.below(11) {
        0 => v[0] ^= 1 << rng.below(8),
        1 => v[n - 1] ^= 1 << rng.below(8),
        2 => {
            let i = rng.below(n as u64) as usize;
            v[i] ^= 1 << rng.below(8);
        }
        3 => flip(&mut v[..n / 2], rng),
        4 => flip(&mut v[n / 2..], rng),
        5 => {
            // all but the end
            let k = n - n.min(*rng.pick(&[1usize, 4, 8, 16, 20, 32]));
            flip(&mut v[..k], rng);
        }
        6 => {
            // all but the beginning
            let k = n.min(*rng.pick(&[1usize, 4, 8, 16, 20, 32]));
            flip(&mut v[k..], rng);
        }
        7 => {
            // all but both ends
            let k = *rng.pick(&[1usize, 4, 8]);
            if n > 2 * k {
                flip(&mut v[k..n - k], rng);
            }
        }
        8 => v.reverse(),
        9 => v.rotate_left(1 + rng.below(n as u64) as usize % n.max(1)),
        _ => {
            let (i, j) = (rng.below(n as u64) as usize, rng.below(n as u64) as usize);
            v.swap(i, j);
        }
    }
    v
}
pub fn twin32(rng: &mut Rng, b: &H) -> H { twin(rng, b).try_into().unwrap() }
pub fn twin64(rng: &mut Rng, v: u64) -> u64 { u64::from_le_bytes(twin(rng, &v.to_le_bytes()).try_into().unwrap()) }
/// ASCII twin of an ASCII text.
pub fn twin_text(rng: &mut Rng, s: &str) -> String { twin(rng, s.as_bytes()).iter().map(|b| (b & 0x7F) as char).collect() }
