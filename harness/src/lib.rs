//! Bridge between the code under test and the reference model. All state is observed through the
//! public API and the strict encoding.
use std::collections::BTreeMap;

use amplify::confinement::Confined;
use amplify::num::u5;
use amplify::{Bytes32, Wrapper};
use commit_verify::mpc::{self, MerkleBlock, MerkleProof, MerkleTree, Message, MultiSource, ProtocolId};
use commit_verify::{TryCommitVerify, UntaggedProtocol};
use strict_encoding::{StrictDecode, StrictEncode, StrictReader, StrictWriter};
pub use vmodel::*;

pub const MAX: usize = usize::MAX;

pub fn enc<T: StrictEncode>(v: &T) -> R<Vec<u8>> {
    let w = StrictWriter::in_memory::<MAX>();
    let w = v.strict_encode(w).map_err(|e| format!("strict encoding failed: {e}"))?;
    Ok(w.unbox().unconfine())
}

/// Decoded value and number of bytes consumed.
pub fn dec<T: StrictDecode>(b: &[u8]) -> Result<(T, usize), strict_encoding::DecodeError> {
    let mut r = StrictReader::in_memory::<MAX>(b);
    let v = T::strict_decode(&mut r)?;
    let used = r.into_cursor().position() as usize;
    Ok((v, used))
}

/// Decoding of bytes known to be valid.
pub fn must_dec<T: StrictDecode>(b: &[u8]) -> R<T> {
    let (v, used) = dec::<T>(b).map_err(|e| format!("valid encoding {} rejected: {e}", hex(b)))?;
    ensure!(used == b.len(), "valid encoding not fully consumed: {used} of {}", b.len());
    Ok(v)
}

pub fn pid(h: &H) -> ProtocolId { ProtocolId::from(*h) }
pub fn msg(h: &H) -> Message { Message::from(*h) }
pub fn raw<W: Wrapper<Inner = Bytes32>>(w: &W) -> H { w.as_inner().to_byte_array() }

pub fn source(s: &Src) -> MultiSource {
    source_of(&s.msgs, s.min_depth, Some(s.entropy))
}
pub fn source_of(m: &BTreeMap<H, H>, min_depth: u8, entropy: Option<u64>) -> MultiSource {
    MultiSource {
        method: mpc::Method::Sha256t,
        min_depth: u5::with(min_depth),
        messages: Confined::try_from(m.iter().map(|(p, m)| (pid(p), msg(m))).collect::<BTreeMap<_, _>>()).unwrap(),
        static_entropy: entropy,
    }
}
pub fn try_tree(s: &MultiSource) -> Result<MerkleTree, mpc::Error> {
    <MerkleTree as TryCommitVerify<MultiSource, UntaggedProtocol>>::try_commit(s)
}
pub fn make_tree(s: &Src) -> R<MerkleTree> {
    try_tree(&source(s)).map_err(|e| format!("commitment creation refused a placeable source: {e}"))
}

pub fn to_block(b: &MBlock) -> R<MerkleBlock> { must_dec(&b.strict()) }
pub fn from_block(b: &MerkleBlock) -> R<MBlock> { MBlock::parse(&enc(b)?) }
pub fn to_proof(p: &MProof) -> R<MerkleProof> { must_dec(&p.strict()) }
pub fn from_proof(p: &MerkleProof) -> R<MProof> { MProof::parse(&enc(p)?) }

pub fn show_block(b: &MBlock) -> String {
    let n: Vec<String> = b
        .nodes
        .iter()
        .take(40)
        .map(|n| match n {
            MNode::Hash(d, h) => format!("h{d}:{}", hex(&h[..3])),
            MNode::Leaf(p, m) => format!("leaf {}={}", hex(&p[..4]), hex(&m[..3])),
        })
        .collect();
    format!("depth {} cofactor {} entropy {:?} nodes[{}] {}", b.depth, b.cofactor, b.entropy, b.nodes.len(), n.join(" "))
}
pub fn show_src(s: &Src) -> String {
    let n: Vec<String> = s.msgs.iter().take(12).map(|(p, m)| format!("{}={}", hex(p), hex(&m[..4]))).collect();
    format!("class {} min_depth {} entropy {:#x} {} messages: {}", s.class, s.min_depth, s.entropy, s.msgs.len(), n.join(", "))
}

/// Iterators need not know their length: the same elements with another honest size hint.
#[derive(Clone)]
pub struct Hinted<I>(pub I, pub usize);
pub const HINTS: usize = 8;
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.0.size_hint();
        match self.1 % HINTS {
            0 => (lo, hi),
            1 => (0, None),
            2 => (0, hi),
            3 => (lo, None),
            4 => (lo, hi.map(|x| x * 2 + 1)),
            5 => (lo.min(1), hi.map(|x| x + 3)),
            6 => (0, Some(usize::MAX)),
            _ => (lo / 2, hi.map(|x| x + lo)),
        }
    }
}
