//! Data types of the monitors with hand-written encoders next to the derived ones.
use std::collections::{BTreeMap, BTreeSet};

use commit_verify::{CommitEncode, CommitEngine, Conceal, MerkleHash, StrictHash};
use vharness::*;

pub const LIB: &str = "Verif";

/// Expected strict encoding, written independently of the derive macros.
pub trait Model {
    const FQN: (&'static str, &'static str);
    fn model(&self) -> Vec<u8>;
    fn gen(rng: &mut Rng) -> Self;
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Rec {
    pub a: u8,
    pub b: u16,
    pub c: Option<u32>,
}
impl Model for Rec {
    const FQN: (&'static str, &'static str) = ("Verif", "Rec");
    fn model(&self) -> Vec<u8> {
        let mut v = vec![self.a];
        v.extend(self.b.to_le_bytes());
        match self.c {
            None => v.push(0),
            Some(x) => {
                v.push(1);
                v.extend(x.to_le_bytes());
            }
        }
        v
    }
    fn gen(rng: &mut Rng) -> Self { Rec { a: rng.u8(), b: rng.u32() as u16, c: rng.bool().then(|| rng.edge64() as u32) } }
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = repr, into_u8, try_from_u8)]
#[repr(u8)]
pub enum Kind {
    #[strict_type(dumb)]
    One = 1,
    Two = 2,
    Last = 255,
}
impl Model for Kind {
    const FQN: (&'static str, &'static str) = ("Verif", "Kind");
    fn model(&self) -> Vec<u8> { vec![*self as u8] }
    fn gen(rng: &mut Rng) -> Self { *rng.pick(&[Kind::One, Kind::Two, Kind::Last]) }
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Word(pub u64);
impl Model for Word {
    const FQN: (&'static str, &'static str) = ("Verif", "Word");
    fn model(&self) -> Vec<u8> { self.0.to_le_bytes().to_vec() }
    fn gen(rng: &mut Rng) -> Self { Word(rng.edge64()) }
}

/// Leaf of merklized collections.
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Item {
    pub n: u32,
    pub x: u8,
}
impl Model for Item {
    const FQN: (&'static str, &'static str) = ("Verif", "Item");
    fn model(&self) -> Vec<u8> {
        let mut v = self.n.to_le_bytes().to_vec();
        v.push(self.x);
        v
    }
    fn gen(rng: &mut Rng) -> Self { Item { n: rng.u32(), x: rng.u8() } }
}
impl CommitEncode for Item {
    type CommitmentId = MerkleHash;
    fn commit_encode(&self, e: &mut CommitEngine) { e.commit_to_serialized(self) }
}
impl Item {
    pub fn leaf(&self) -> H { tagged(TAG_MERKLE.as_bytes(), &self.model()) }
}

/// A value committed through a nested StrictHash identifier.
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Doc {
    pub k: Kind,
    pub w: Word,
}
impl Model for Doc {
    const FQN: (&'static str, &'static str) = ("Verif", "Doc");
    fn model(&self) -> Vec<u8> { [self.k.model(), self.w.model()].concat() }
    fn gen(rng: &mut Rng) -> Self { Doc { k: Kind::gen(rng), w: Word::gen(rng) } }
}
impl CommitEncode for Doc {
    type CommitmentId = StrictHash;
    // two steps in the order opposite to the declaration
    fn commit_encode(&self, e: &mut CommitEngine) {
        e.commit_to_serialized(&self.w);
        e.commit_to_serialized(&self.k);
    }
}
impl Doc {
    pub fn id(&self) -> H { tagged(TAG_STRICT.as_bytes(), &[self.w.model(), self.k.model()].concat()) }
}

/// A value committed in a concealed form.
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Cloak {
    pub secret: u64,
    pub shown: u16,
}
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Veil {
    pub mix: u32,
    pub shown: u16,
}
impl Conceal for Cloak {
    type Concealed = Veil;
    fn conceal(&self) -> Veil { Veil { mix: (self.secret ^ (self.secret >> 32)) as u32, shown: self.shown } }
}
impl Model for Cloak {
    const FQN: (&'static str, &'static str) = ("Verif", "Cloak");
    fn model(&self) -> Vec<u8> {
        let mut v = self.secret.to_le_bytes().to_vec();
        v.extend(self.shown.to_le_bytes());
        v
    }
    fn gen(rng: &mut Rng) -> Self { Cloak { secret: rng.u64(), shown: rng.u32() as u16 } }
}
impl Cloak {
    pub fn hidden(&self) -> Vec<u8> {
        let mut v = ((self.secret ^ (self.secret >> 32)) as u32).to_le_bytes().to_vec();
        v.extend(self.shown.to_le_bytes());
        v
    }
}

pub fn len_prefix(len: usize, max: usize) -> Vec<u8> {
    let b = (len as u64).to_le_bytes();
    let n = if max <= 0xFF {
        1
    } else if max <= 0xFFFF {
        2
    } else if max <= 0xFF_FFFF {
        3
    } else if max <= 0xFFFF_FFFF {
        4
    } else {
        8
    };
    b[..n].to_vec()
}
pub fn list_bytes<T: Model>(v: &[T], max: usize) -> Vec<u8> {
    let mut r = len_prefix(v.len(), max);
    for x in v {
        r.extend(x.model());
    }
    r
}
pub fn set_bytes<T: Model + Ord + Copy>(v: &BTreeSet<T>, max: usize) -> Vec<u8> {
    // ascending order, found by selection rather than by the set's own iterator
    let mut all: Vec<T> = v.iter().copied().collect();
    all.sort();
    list_bytes(&all, max)
}
pub fn map_bytes<K: Model + Ord + Copy, V: Model>(m: &BTreeMap<K, V>, max: usize) -> Vec<u8> {
    let mut r = len_prefix(m.len(), max);
    let mut keys: Vec<K> = m.keys().copied().collect();
    keys.sort();
    for k in keys {
        r.extend(k.model());
        r.extend(m[&k].model());
    }
    r
}

// library types, so that keys and values come from libraries of different names
impl Model for commit_verify::mpc::ProtocolId {
    const FQN: (&'static str, &'static str) = ("CommitVerify", "ProtocolId");
    fn model(&self) -> Vec<u8> { raw(self).to_vec() }
    fn gen(rng: &mut Rng) -> Self { pid(&rng.h32()) }
}
impl Model for commit_verify::mpc::Message {
    const FQN: (&'static str, &'static str) = ("CommitVerify", "Message");
    fn model(&self) -> Vec<u8> { raw(self).to_vec() }
    fn gen(rng: &mut Rng) -> Self { msg(&rng.h32()) }
}
