//! What the generated programs share: field types with hand-written encodings, identifiers, the
//! observed commitment against the declared strategy.
#[allow(unused_imports)]
#[macro_use]
extern crate amplify;
#[allow(unused_imports)]
#[macro_use]
extern crate strict_encoding;

use std::collections::{BTreeMap, BTreeSet};
use std::sync::LazyLock;

use amplify::confinement::Confined;
pub use amplify::Wrapper;
use amplify::Bytes32;
pub use commit_verify::{CommitId, CommitStep, CommitmentId, Conceal, DigestExt, MerkleHash, MerkleLeaves, Sha256, StrictHash};
pub use strict_encoding::{
    StrictDecode, StrictDumb, StrictEncode, StrictProduct, StrictStruct, StrictSum, StrictTuple, StrictType, StrictUnion, TypeName, TypedWrite,
};
pub use vmodel::*;

pub const LIB: &str = "Verif";
pub type L8<T> = Confined<Vec<T>, 0, 255>;
pub type L16<T> = Confined<Vec<T>, 0, 65535>;
pub type S8<T> = Confined<BTreeSet<T>, 0, 255>;
pub type M8<K, V> = Confined<BTreeMap<K, V>, 0, 255>;

/// A field: how to make a value and how it must be encoded.
pub trait F {
    fn make(r: &mut Rng) -> Self;
    fn model(&self) -> Vec<u8>;
}
macro_rules! ints { ($($t:ty)*) => { $( impl F for $t {
    fn make(r: &mut Rng) -> Self { r.edge64() as $t }
    fn model(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
} )* } }
ints!(u8 u16 u32 u64 u128 i8 i16 i32 i64);
impl F for bool {
    fn make(r: &mut Rng) -> Self { r.bool() }
    fn model(&self) -> Vec<u8> { vec![*self as u8] }
}
impl<T: F, const N: usize> F for [T; N] {
    fn make(r: &mut Rng) -> Self { std::array::from_fn(|_| T::make(r)) }
    fn model(&self) -> Vec<u8> { self.iter().flat_map(F::model).collect() }
}
impl F for Bytes32 {
    fn make(r: &mut Rng) -> Self { r.h32().into() }
    fn model(&self) -> Vec<u8> { self.to_byte_array().to_vec() }
}
impl<T: F> F for Option<T> {
    fn make(r: &mut Rng) -> Self { r.bool().then(|| T::make(r)) }
    fn model(&self) -> Vec<u8> {
        match self {
            None => vec![0],
            Some(x) => [vec![1], x.model()].concat(),
        }
    }
}
impl<T: F> F for L8<T> {
    fn make(r: &mut Rng) -> Self { Confined::try_from((0..r.below(9)).map(|_| T::make(r)).collect::<Vec<_>>()).unwrap() }
    fn model(&self) -> Vec<u8> { [vec![self.len() as u8], self.iter().flat_map(F::model).collect()].concat() }
}
impl<T: F> F for L16<T> {
    fn make(r: &mut Rng) -> Self {
        let n = if r.one_in(12) { 300 } else { r.below(5) };
        Confined::try_from((0..n).map(|_| T::make(r)).collect::<Vec<_>>()).unwrap()
    }
    fn model(&self) -> Vec<u8> { [(self.len() as u16).to_le_bytes().to_vec(), self.iter().flat_map(F::model).collect()].concat() }
}
impl<T: F + Ord> F for S8<T> {
    fn make(r: &mut Rng) -> Self { Confined::try_from((0..r.below(6)).map(|_| T::make(r)).collect::<BTreeSet<_>>()).unwrap() }
    fn model(&self) -> Vec<u8> {
        let mut v: Vec<&T> = self.iter().collect();
        v.sort();
        [vec![v.len() as u8], v.into_iter().flat_map(F::model).collect()].concat()
    }
}
impl<K: F + Ord + std::hash::Hash, V: F> F for M8<K, V> {
    fn make(r: &mut Rng) -> Self { Confined::try_from((0..r.below(6)).map(|_| (K::make(r), V::make(r))).collect::<BTreeMap<_, _>>()).unwrap() }
    fn model(&self) -> Vec<u8> {
        let mut v: Vec<(&K, &V)> = self.iter().collect();
        v.sort_by_key(|x| x.0);
        [vec![v.len() as u8], v.into_iter().flat_map(|(a, b)| [a.model(), b.model()].concat()).collect()].concat()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Rec {
    pub a: u8,
    pub b: Option<u32>,
}
impl F for Rec {
    fn make(r: &mut Rng) -> Self { Rec { a: F::make(r), b: F::make(r) } }
    fn model(&self) -> Vec<u8> { [self.a.model(), self.b.model()].concat() }
}

macro_rules! ids { ($($id:ident $tag:literal)*) => { $(
    #[derive(Wrapper, Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, From)]
    #[wrapper(Deref, BorrowSlice, Hex, Index, RangeOps)]
    #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = LIB)]
    pub struct $id(#[from] #[from([u8; 32])] Bytes32);
    impl CommitmentId for $id { const TAG: &'static str = $tag; }
    impl From<Sha256> for $id { fn from(h: Sha256) -> Self { h.finish().into() } }
    impl Raw for $id { fn raw(&self) -> H { self.as_inner().to_byte_array() } }
)* } }
pub trait Raw: CommitmentId {
    fn raw(&self) -> H;
}
ids!(IdA "urn:verif:derive:a#2024-01-01" IdB "" IdC "urn:verif:derive:another tag, long enough to cross a SHA-256 block boundary #1");
impl Raw for MerkleHash {
    fn raw(&self) -> H { self.as_inner().to_byte_array() }
}
impl Raw for StrictHash {
    fn raw(&self) -> H { self.as_inner().to_byte_array() }
}
pub mod ids {
    pub use super::{IdA as First, IdB, IdC};
    pub mod deep {
        pub type Alias = super::super::IdA;
    }
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Item {
    pub n: u32,
    pub x: u8,
}
impl commit_verify::CommitEncode for Item {
    type CommitmentId = MerkleHash;
    fn commit_encode(&self, e: &mut commit_verify::CommitEngine) { e.commit_to_serialized(self) }
}
static POOL: LazyLock<Vec<Item>> = LazyLock::new(|| (0..40u32).map(|i| Item { n: i.wrapping_mul(0x9e3779b1), x: (i * 7) as u8 }).collect());

#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Veil {
    pub mix: u64,
    pub len: u16,
}
impl Conceal for Veil {
    type Concealed = Veil;
    fn conceal(&self) -> Veil { self.clone() }
}
impl Veil {
    pub fn of(b: &[u8]) -> Veil { Veil { mix: fnv(b), len: b.len() as u16 } }
    fn bytes(&self) -> Vec<u8> { [self.mix.to_le_bytes().to_vec(), self.len.to_le_bytes().to_vec()].concat() }
}

pub fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) ^ b.len() as u64
}
/// Leaves of a value known by its model bytes.
pub fn leaves_of(b: &[u8]) -> &'static [Item] { &POOL[..(fnv(b) >> 7) as usize % 41] }
pub static CHOICE: [u16; 4] = [0, 1, 0xfffe, 0x1234];
pub fn choice_of(b: &[u8]) -> &'static u16 { &CHOICE[(fnv(b) >> 11) as usize % 4] }
/// Encodes raw bytes without any prefix.
pub fn put<W: TypedWrite>(mut w: W, b: &[u8]) -> std::io::Result<W> {
    for x in b {
        w = x.strict_encode(w)?;
    }
    Ok(w)
}

/// Expected committed bytes of a value under every strategy.
pub trait Omni {
    fn whole(&self) -> Vec<u8>;
    fn inner_bytes(&self) -> Vec<u8>;
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Strat {
    Strict,
    Conceal,
    Transparent,
    Merklize,
}

pub fn verify<T: CommitId + Omni>(c: &mut Case, v: &T, strat: Strat, step_name: &str) -> R
where T::CommitmentId: Raw {
    let whole = v.whole();
    let body = match strat {
        Strat::Strict => whole.clone(),
        Strat::Transparent => v.inner_bytes(),
        Strat::Conceal => Veil::of(&whole).bytes(),
        Strat::Merklize => {
            let l: Vec<H> = leaves_of(&whole).iter().map(|i| tagged(TAG_MERKLE.as_bytes(), &[i.n.to_le_bytes().to_vec(), vec![i.x]].concat())).collect();
            merklize(&l).to_vec()
        }
    };
    let tag = <T::CommitmentId as CommitmentId>::TAG;
    let want = hex(&tagged(tag.as_bytes(), &body));
    let id = v.commit_id();
    ensure_eq!(hex(&id.raw()), want, "identifier of a value encoded as {} under {strat:?}", hex(&whole));
    ensure_eq!(hex(&v.commit_id().raw()), want, "identifier computed again");
    let layout = v.commit().into_layout().to_vec();
    ensure_eq!(layout.len(), 1usize, "number of commit steps");
    let (kind, name) = match &layout[0] {
        CommitStep::Serialized(f) => ("serialized", f.name.to_string()),
        CommitStep::Concealed(f) => ("concealed", f.name.to_string()),
        CommitStep::Merklized(f) => ("merklized", f.name.to_string()),
        CommitStep::Hashed(f) => ("hashed", f.name.to_string()),
        CommitStep::Collection(_, _, f) => ("collection", f.name.to_string()),
    };
    let want = match strat {
        Strat::Strict | Strat::Transparent => "serialized",
        Strat::Conceal => "concealed",
        Strat::Merklize => "merklized",
    };
    ensure_eq!(kind, want, "kind of the step");
    if !step_name.is_empty() {
        ensure_eq!(name, step_name.to_string(), "type named by the step");
    }
    c.ev("values committed", 1);
    c.ev(
        match strat {
            Strat::Strict => "strict",
            Strat::Conceal => "conceal",
            Strat::Transparent => "transparent",
            Strat::Merklize => "merklize",
        },
        1,
    );
    c.sig(&[fnv(step_name.as_bytes()), fnv(&whole), strat as u64, fnv(tag.as_bytes())]);
    Ok(())
}
