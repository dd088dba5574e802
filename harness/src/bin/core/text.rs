use std::fmt::{Debug, Display, LowerHex, UpperHex};
use std::str::FromStr;

use amplify::hex::{FromHex, ToHex};
use amplify::{Bytes32, Wrapper};
use client_side_validation as csv;
use commit_verify::mpc::{Commitment, InvalidProof, MerkleBlock, MerkleConcealed, MerkleProof, Message, Method, ProtocolId};
use commit_verify::{Conceal, ConvolveVerifyError, MerkleHash, ReservedBytes, StrictHash};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use single_use_seals::SealWitness;
use vharness::*;

use crate::codec::{Client, Public, Seal};

fn node_json(n: &MNode) -> Value {
    match n {
        MNode::Hash(d, h) => json!({"ConcealedNode": {"depth": d, "hash": hex(h)}}),
        MNode::Leaf(p, m) => json!({"CommitmentLeaf": {"protocol_id": hex(p), "message": hex(m)}}),
    }
}
fn block_json(b: &MBlock) -> Value {
    json!({"method": "sha256t", "depth": b.depth, "cofactor": b.cofactor,
        "cross_section": b.nodes.iter().map(node_json).collect::<Vec<_>>(), "entropy": b.entropy})
}
fn proof_json(p: &MProof) -> Value {
    json!({"method": "sha256t", "pos": p.pos, "cofactor": p.cofactor, "path": p.path.iter().map(|h| hex(h)).collect::<Vec<_>>()})
}
fn concealed_json(d: u8, cof: u16, root: &H) -> Value { json!({"depth": d, "cofactor": cof, "merkleRoot": hex(root)}) }

/// Both serde directions in both kinds of format, against the published JSON.
fn faithful<T: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Case, name: &'static str, v: &T, want: &Value) -> R {
    let text = serde_json::to_string(v).map_err(|e| format!("{name} does not serialize: {e}"))?;
    let got: Value = serde_json::from_str(&text).map_err(|e| format!("{name} gives broken JSON {text}: {e}"))?;
    ensure_eq!(got, *want, "JSON form of {name}");
    let back: T = serde_json::from_str(&text).map_err(|e| format!("{name} does not read back from {text}: {e}"))?;
    ensure!(back == *v, "{name} read back from {text} is {back:?} instead of {v:?}");
    let back: T = serde_json::from_value(want.clone()).map_err(|e| format!("{name} does not read from its published JSON {want}: {e}"))?;
    ensure!(back == *v, "{name} read from published JSON {want} is {back:?} instead of {v:?}");
    let pretty = serde_json::to_vec_pretty(v).map_err(|e| e.to_string())?;
    let back: T = serde_json::from_slice(&pretty).map_err(|e| format!("{name} does not read back from bytes: {e}"))?;
    ensure!(back == *v, "{name} from pretty JSON");
    let bin = bincode::serialize(v).map_err(|e| format!("{name} does not serialize to binary: {e}"))?;
    let back: T = bincode::deserialize(&bin).map_err(|e| format!("{name} does not read back from {}: {e}", hex(&bin)))?;
    ensure!(back == *v, "{name} read back from binary {} is {back:?} instead of {v:?}", hex(&bin));
    // in sequence with something after it: exactly its own bytes are consumed
    let two = bincode::serialize(&(v, 0x5Au8, v)).map_err(|e| e.to_string())?;
    let (x, m, y): (T, u8, T) = bincode::deserialize(&two).map_err(|e| format!("{name} does not read back in a sequence: {e}"))?;
    ensure!(x == *v && m == 0x5A && y == *v, "{name} in a binary sequence");
    c.ev("serde_round_trips", 1);
    c.sig_bytes(text.as_bytes());
    Ok(())
}

fn hash_text<T>(c: &mut Case, name: &'static str) -> R
where
    T: Wrapper<Inner = Bytes32> + From<[u8; 32]> + Display + Debug + LowerHex + UpperHex + FromStr + FromHex + ToHex + PartialEq + Serialize
        + DeserializeOwned,
    <T as FromStr>::Err: Debug,
{
    let h = match c.rng.below(4) {
        0 => [0; 32],
        1 => [0xFF; 32],
        2 => {
            // ascending, shows the order of digits
            let mut b = [0; 32];
            b.iter_mut().enumerate().for_each(|(i, x)| *x = i as u8);
            b
        }
        _ => c.rng.h32(),
    };
    let v = T::from(h);
    let want = hex(&h);
    ensure_eq!(v.to_string(), want, "text of a {name}");
    ensure_eq!(format!("{v:x}"), want, "lower hex of a {name}");
    ensure_eq!(format!("{v:X}"), want.to_uppercase(), "upper hex of a {name}");
    ensure_eq!(v.to_hex(), want, "to_hex of a {name}");
    let parsed: T = want.parse().map_err(|e| format!("{name} {want} does not parse: {e:?}"))?;
    ensure!(parsed == v, "{name} parsed from {want} differs");
    let parsed = T::from_hex(&want).map_err(|e| format!("{name} {want} does not parse: {e}"))?;
    ensure!(parsed == v, "{name} from hex {want} differs");
    faithful(c, name, &v, &json!(want))?;
    // malformed texts
    let mut bad = vec![String::new(), want[..62].to_string(), want[..63].to_string(), format!("{want}00"), format!("{want}0"), format!("0x{want}")];
    for _ in 0..6 {
        let mut s: Vec<char> = want.chars().collect();
        let i = c.rng.below(64) as usize;
        s[i] = *c.rng.pick(&['g', 'G', ' ', '-', 'é', 'x', '/', ':', '@', '`', '\u{0}']);
        bad.push(s.iter().collect());
    }
    bad.push(format!(" {want}"));
    bad.push(format!("{want}\n"));
    bad.push(format!(" {}", &want[1..]));
    for b in bad {
        ensure!(b.parse::<T>().is_err(), "{name} parsed from malformed text {b:?}");
        ensure!(T::from_hex(&b).is_err(), "{name} from malformed hex {b:?}");
        ensure!(serde_json::from_value::<T>(json!(b)).is_err(), "{name} from malformed JSON text {b:?}");
        c.ev("malformed_texts", 1);
    }
    c.ev("texts", 1);
    Ok(())
}

fn slices<T: Wrapper<Inner = Bytes32>, E>(c: &mut Case, name: &str, f: impl Fn(&[u8]) -> Result<T, E>) -> R {
    for n in [0usize, 1, 31, 32, 33, 64] {
        let b = c.rng.bytes(n);
        match f(&b) {
            Ok(v) => ensure!(n == 32 && raw(&v)[..] == b[..], "{name} from a slice of {n} bytes"),
            Err(_) => ensure!(n != 32, "{name} refused from a slice of 32 bytes"),
        }
    }
    c.ev("slices", 6);
    Ok(())
}

// ---------------------------------------------------------------- report types

macro_rules! entry {
    ($n:ident) => {
        #[derive(Clone, PartialEq, Eq, Hash, Debug, Display, Error, Serialize, Deserialize)]
        #[display("{0}")]
        pub struct $n(pub u32);
    };
}
entry!(Issue);
entry!(Fail);
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, Serialize, Deserialize)]
pub struct Report;
impl csv::ValidationLog for Issue {}
impl csv::SealIssue for Issue {
    type Seal = u32;
    fn seal(&self) -> &u32 { &self.0 }
}
impl csv::ValidationLog for Fail {}
impl csv::ValidationFailure for Fail {}
impl csv::ValidationReport for Report {
    type SealIssue = Issue;
    type Failure = Fail;
    type Warning = String;
    type Info = u8;
}

pub fn c16() -> Prop {
    Prop::new(
        "C16",
        "serde-enabled values of every kind written to and read from JSON and binary serde, against hand-written published JSON; hash-like \
         types printed and parsed, with malformed texts; distinct by JSON text",
    )
    .family("hashes", 2_500, 60_000, |c| match c.idx % 5 {
        0 => {
            slices(c, "ProtocolId", |b| ProtocolId::copy_from_slice(b))?;
            hash_text::<ProtocolId>(c, "ProtocolId")
        }
        1 => {
            slices(c, "Message", |b| Message::copy_from_slice(b))?;
            hash_text::<Message>(c, "Message")
        }
        2 => {
            slices(c, "Commitment", |b| Commitment::copy_from_slice(b))?;
            hash_text::<Commitment>(c, "Commitment")
        }
        3 => hash_text::<MerkleHash>(c, "MerkleHash"),
        _ => hash_text::<StrictHash>(c, "StrictHash"),
    })
    .family("blocks", 1_200, 30_000, |c| {
        let b = if c.rng.bool() {
            let d = c.rng.below(32) as u8;
            let (cof, k, s) = (c.rng.edge64() as u16, c.rng.below(5) as usize, c.rng.below(4));
            let mut b = gen_sparse(&mut c.rng, d, cof, k, s);
            b.entropy = c.rng.bool().then(|| c.rng.edge64());
            b
        } else {
            let (_, m) = gen_shallow(&mut c.rng, 8, 5);
            let full = m.block();
            if c.rng.bool() { full } else { gen_view(&mut c.rng, &full) }
        };
        c.note(show_block(&b));
        let v = to_block(&b)?;
        let want = block_json(&b);
        c.sample(|| want.to_string());
        faithful::<MerkleBlock>(c, "MerkleBlock", &v, &want)?;
        // what was read encodes identically
        let back: MerkleBlock = serde_json::from_value(want).map_err(|e| e.to_string())?;
        ensure_eq!(hex(&enc(&back)?), hex(&b.strict()), "strict encoding of a block read from JSON");
        Ok(())
    })
    .family("proofs", 1_200, 30_000, |c| {
        let n = *c.rng.pick(&[0, 1, 2, 3, 8, 31, 32]);
        let p = MProof { pos: c.rng.edge64() as u32, cofactor: c.rng.edge64() as u16, path: (0..n).map(|_| c.rng.h32()).collect() };
        let v = to_proof(&p)?;
        faithful::<MerkleProof>(c, "MerkleProof", &v, &proof_json(&p))?;
        let back: MerkleProof = serde_json::from_value(proof_json(&p)).map_err(|e| e.to_string())?;
        ensure_eq!(hex(&enc(&back)?), hex(&p.strict()), "strict encoding of a proof read from JSON");
        let (d, cof, root) = (c.rng.below(32) as u8, c.rng.edge64() as u16, c.rng.h32());
        let v: MerkleConcealed = must_dec(&concealed_bytes(d, cof, &root))?;
        faithful::<MerkleConcealed>(c, "MerkleConcealed", &v, &concealed_json(d, cof, &root))
    })
    .family("small", 600, 10_000, |c| {
        faithful(c, "Method", &Method::Sha256t, &json!("sha256t"))?;
        ensure_eq!(Method::Sha256t.to_string(), "sha256t".to_string(), "text of the method");
        for (v, s) in [
            (ConvolveVerifyError::CommitmentMismatch, "commitmentMismatch"),
            (ConvolveVerifyError::ImpossibleMessage, "impossibleMessage"),
            (ConvolveVerifyError::InvalidProof, "invalidProof"),
        ] {
            faithful(c, "ConvolveVerifyError", &v, &json!(s))?;
        }
        faithful(c, "ReservedBytes", &ReservedBytes::<3>::default(), &Value::Null)?;
        faithful(c, "ReservedBytes", &ReservedBytes::<32, 7>::default(), &Value::Null)?;
        ensure!(bincode::serialize(&ReservedBytes::<9>::default()).unwrap().is_empty(), "reserved bytes take room in binary serde");
        // an invalid-proof error made by the library
        let (p, m) = (c.rng.h32(), c.rng.h32());
        let d = c.rng.below(9) as u8;
        let cof = c.rng.below(300) as u16;
        let at = pos(&p, cof, d).wrapping_add(1 + c.rng.below(1000) as u32);
        let proof = to_proof(&MProof { pos: at, cofactor: cof, path: (0..d).map(|_| c.rng.h32()).collect() })?;
        let e: InvalidProof = match MerkleBlock::with(&proof, pid(&p), msg(&m)) {
            Err(e) => e,
            Ok(_) => return Err("proof with a wrong position accepted".into()),
        };
        let want = json!({"protocolId": hex(&p), "expected": pos(&p, cof, d), "actual": at, "width": 1u32 << d});
        faithful(c, "InvalidProof", &e, &want)?;
        // witness and status
        let (i, x, k) = (c.rng.u32(), c.rng.bool().then(|| c.rng.u32() as u16), c.rng.edge64());
        let w = SealWitness::<Seal>::new(Public { id: i, x }, Client(k));
        let text = serde_json::to_string(&w).map_err(|e| e.to_string())?;
        let got: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        ensure_eq!(got, json!({"published": {"id": i, "x": x}, "client": k}), "JSON form of a witness");
        let back: SealWitness<Seal> = serde_json::from_str(&text).map_err(|e| format!("witness does not read back: {e}"))?;
        ensure!(back.published == w.published && back.client == w.client, "witness read back from {text}");
        let bin = bincode::serialize(&w).map_err(|e| e.to_string())?;
        let back: SealWitness<Seal> = bincode::deserialize(&bin).map_err(|e| format!("witness does not read back: {e}"))?;
        ensure!(back.published == w.published && back.client == w.client, "witness read back from binary");
        let mut nums = |n: u64| -> Vec<u32> { (0..c.rng.below(n)).map(|_| c.rng.u32()).collect() };
        let (a, b, d, e) = (nums(4), nums(4), nums(4), nums(4));
        let st = csv::Status::<Report> {
            seal_issues: a.iter().map(|x| Issue(*x)).collect(),
            failures: b.iter().map(|x| Fail(*x)).collect(),
            warnings: d.iter().map(|x| format!("w{x}")).collect(),
            info: e.iter().map(|x| *x as u8).collect(),
        };
        let want = json!({"seal_issues": a, "failures": b, "warnings": d.iter().map(|x| format!("w{x}")).collect::<Vec<_>>(),
            "info": e.iter().map(|x| *x as u8).collect::<Vec<_>>()});
        faithful(c, "Status", &st, &want)
    })
    .family("trees", 300, 6_000, |c| {
        // concealed forms and proofs produced by the library, not decoded from the model
        let (s, m) = gen_shallow(&mut c.rng, 6, 5);
        let t = make_tree(&s)?;
        faithful(c, "MerkleConcealed", &t.conceal(), &concealed_json(m.depth, m.cofactor, &m.root()))?;
        let b = MerkleBlock::from(&t);
        faithful(c, "MerkleBlock", &b, &block_json(&m.block()))?;
        let levels = m.levels();
        for p in s.msgs.keys().take(2) {
            let proof = b.to_merkle_proof(pid(p)).map_err(|e| e.to_string())?;
            faithful(c, "MerkleProof", &proof, &proof_json(&MProof::from_levels(&levels, m.cofactor, pos(p, m.cofactor, m.depth))))?;
        }
        c.ev("strict", enc(&b)?.len().min(1) as u64);
        Ok(())
    })
    .require("serde_round_trips", 10_000)
    .require("texts", 2_000)
    .require("malformed_texts", 20_000)
}

