use std::sync::OnceLock;

use amplify::num::u5;
use commit_verify::mpc::{Commitment, Leaf, MerkleBlock, MerkleConcealed, MerkleProof, MerkleTree, Message, Method, ProtocolId};
use commit_verify::{Conceal, MerkleHash, MerkleNode, NodeBranching, ReservedBytes, StrictHash};
use single_use_seals::{ClientSideWitness, PublishedWitness, SealWitness, SingleUseSeal};
use strict_encoding::{StrictDecode, StrictEncode};
use strict_types::{SymbolicSys, SystemBuilder, TypeLib};
use vharness::*;

use crate::types::*;

// ---------------------------------------------------------------- a seal with encodable witness parts

#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug, Display)]
#[display("{0}")]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Seal(pub u16);
#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(serde::Serialize, serde::Deserialize)]
pub struct Public {
    pub id: u32,
    pub x: Option<u16>,
}
#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(serde::Serialize, serde::Deserialize)]
pub struct Client(pub u64);

impl SingleUseSeal for Seal {
    type Message = u32;
    type PubWitness = Public;
    type CliWitness = Client;
    fn is_included(&self, _: u32, _: &SealWitness<Self>) -> bool { true }
}
#[derive(Clone, Debug, Display, Error)]
#[display("never")]
pub struct Never;
impl ClientSideWitness for Client {
    type Seal = Seal;
    type Proof = u32;
    type Error = Never;
    fn convolve_commit(&self, msg: u32) -> Result<u32, Never> { Ok(msg) }
    fn merge(&mut self, _: Self) -> Result<(), impl std::error::Error> { Ok::<_, Never>(()) }
}
impl PublishedWitness<Seal> for Public {
    type PubId = u32;
    type Error = Never;
    fn pub_id(&self) -> u32 { self.id }
    fn verify_commitment(&self, _: u32) -> Result<(), Never> { Ok(()) }
}

// ---------------------------------------------------------------- types under observation

pub struct Ty {
    pub name: &'static str,
    /// Name in the published library, if it is there.
    pub sty: Option<&'static str>,
    /// Valid encodings, from the model.
    pub gen: fn(&mut Rng) -> Vec<u8>,
    /// Number of bytes of the first value in the input, or why there is none; from the model.
    pub parse: fn(&mut Rd) -> R,
    /// Decoding by the code under test: bytes used, re-encoding, re-decoding equal.
    pub real: fn(&[u8]) -> Result<(usize, R<Vec<u8>>, bool), String>,
}

fn real<T: StrictDecode + StrictEncode + PartialEq>(b: &[u8]) -> Result<(usize, R<Vec<u8>>, bool), String> {
    let (v, used) = dec::<T>(b).map_err(|e| e.to_string())?;
    let again = enc(&v);
    let same = match &again {
        Ok(a) => dec::<T>(a).map(|(w, u)| w == v && u == a.len()).unwrap_or(false),
        Err(_) => false,
    };
    Ok((used, again, same))
}

#[derive(PartialEq)]
struct W(u32, Option<u16>, u64);
fn real_witness(b: &[u8]) -> Result<(usize, R<Vec<u8>>, bool), String> {
    let (v, used) = dec::<SealWitness<Seal>>(b).map_err(|e| e.to_string())?;
    let again = enc(&v);
    let f = |v: &SealWitness<Seal>| W(v.published.id, v.published.x, v.client.0);
    let same = match &again {
        Ok(a) => dec::<SealWitness<Seal>>(a).map(|(w, u)| f(&w) == f(&v) && u == a.len()).unwrap_or(false),
        Err(_) => false,
    };
    Ok((used, again, same))
}

fn p_hash(r: &mut Rd) -> R { r.take::<32>().map(drop) }
fn below(r: &mut Rd, n: u8) -> R {
    let v = r.u8()?;
    ensure!(v < n, "value {v}");
    Ok(())
}
fn p_branching(r: &mut Rd) -> R { below(r, 3) }
fn p_method(r: &mut Rd) -> R { below(r, 1) }
fn p_u5(r: &mut Rd) -> R { below(r, 32) }
fn p_leaf(r: &mut Rd) -> R {
    match r.u8()? {
        0x10 => r.take::<64>().map(drop),
        0x11 => r.take::<12>().map(drop),
        t => Err(format!("tag {t}")),
    }
}
fn p_node(r: &mut Rd) -> R {
    p_branching(r)?;
    r.take::<97>().map(drop)
}
fn p_concealed(r: &mut Rd) -> R {
    p_u5(r)?;
    r.take::<34>().map(drop)
}
fn p_block(r: &mut Rd) -> R {
    p_method(r)?;
    p_u5(r)?;
    r.take::<2>()?;
    let n = u32::from_le_bytes(r.take::<4>()?);
    ensure!(n > 0, "empty");
    for _ in 0..n {
        match r.u8()? {
            0 => {
                p_u5(r)?;
                r.take::<32>()?;
            }
            1 => {
                r.take::<64>()?;
            }
            t => return Err(format!("node tag {t}")),
        }
    }
    match r.u8()? {
        0 => Ok(()),
        1 => r.take::<8>().map(drop),
        t => Err(format!("option tag {t}")),
    }
}
fn p_proof(r: &mut Rd) -> R {
    p_method(r)?;
    r.take::<6>()?;
    let n = r.u8()?;
    ensure!(n <= 32, "path of {n}");
    for _ in 0..n {
        r.take::<32>()?;
    }
    Ok(())
}
fn p_tree(r: &mut Rd) -> R {
    p_method(r)?;
    p_u5(r)?;
    r.take::<10>()?;
    let mut last: Option<H> = None;
    let n = r.take::<3>()?;
    for _ in 0..u32::from_le_bytes([n[0], n[1], n[2], 0]) {
        let k = r.take::<32>()?;
        r.take::<32>()?;
        ensure!(last.map(|l| l < k).unwrap_or(true), "order");
        last = Some(k);
    }
    let mut last: Option<u32> = None;
    let n = r.take::<3>()?;
    for _ in 0..u32::from_le_bytes([n[0], n[1], n[2], 0]) {
        let k = u32::from_le_bytes(r.take::<4>()?);
        r.take::<64>()?;
        ensure!(last.map(|l| l < k).unwrap_or(true), "order");
        last = Some(k);
    }
    Ok(())
}
fn p_witness(r: &mut Rd) -> R {
    r.take::<4>()?;
    match r.u8()? {
        0 => {}
        1 => drop(r.take::<2>()?),
        t => return Err(format!("option tag {t}")),
    }
    r.take::<8>().map(drop)
}

fn g_hash(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => vec![0; 32],
        1 => vec![0xFF; 32],
        _ => r.h32().to_vec(),
    }
}
fn g_leaf(r: &mut Rng) -> Vec<u8> {
    if r.bool() {
        leaf_bytes(&r.h32(), &r.h32())
    } else {
        entropy_bytes(r.edge64(), r.u32())
    }
}
fn g_node(r: &mut Rng) -> Vec<u8> { node_bytes(r.below(3) as u8, r.u8(), &r.h32(), &r.h32(), &r.h32()) }
fn g_concealed(r: &mut Rng) -> Vec<u8> { concealed_bytes(r.below(32) as u8, r.u32() as u16, &r.h32()) }
fn g_block(r: &mut Rng) -> Vec<u8> {
    let d = r.below(32) as u8;
    let (cof, k, s) = (r.u32() as u16, r.below(5) as usize, r.below(4));
    let mut b = gen_sparse(r, d, cof, k, s);
    if r.one_in(4) {
        // any sequence of nodes is an encodable block
        r.shuffle(&mut b.nodes);
    }
    if r.bool() {
        b.entropy = Some(r.edge64());
    }
    b.strict()
}
fn g_proof(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0, 1, 2, 5, 31, 32]);
    MProof { pos: r.edge64() as u32, cofactor: r.edge64() as u16, path: (0..n).map(|_| r.h32()).collect() }.strict()
}
fn g_tree(r: &mut Rng) -> Vec<u8> {
    let (_, m) = gen_shallow(r, 12, 8);
    m.strict()
}
fn g_witness(r: &mut Rng) -> Vec<u8> {
    let mut v = (r.edge64() as u32).to_le_bytes().to_vec();
    if r.bool() {
        v.push(1);
        v.extend((r.u32() as u16).to_le_bytes());
    } else {
        v.push(0);
    }
    v.extend(r.edge64().to_le_bytes());
    v
}

macro_rules! reserved {
    ($($n:literal $v:literal $name:literal),*) => {
        vec![$(Ty {
            name: concat!("ReservedBytes<", $n, ",", $v, ">"),
            sty: if $name.is_empty() { None } else { Some($name) },
            gen: |_| vec![$v; $n],
            parse: |r| {
                let b = r.take::<$n>()?;
                ensure!(b == [$v; $n], "reserved value");
                Ok(())
            },
            real: real::<ReservedBytes<$n, $v>>,
        }),*]
    };
}

pub fn types() -> &'static [Ty] {
    static T: OnceLock<Vec<Ty>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![
            Ty { name: "MerkleHash", sty: Some("MerkleHash"), gen: g_hash, parse: p_hash, real: real::<MerkleHash> },
            Ty { name: "StrictHash", sty: Some("StrictHash"), gen: g_hash, parse: p_hash, real: real::<StrictHash> },
            Ty { name: "Commitment", sty: Some("Commitment"), gen: g_hash, parse: p_hash, real: real::<Commitment> },
            Ty { name: "ProtocolId", sty: Some("ProtocolId"), gen: g_hash, parse: p_hash, real: real::<ProtocolId> },
            Ty { name: "Message", sty: Some("Message"), gen: g_hash, parse: p_hash, real: real::<Message> },
            Ty { name: "NodeBranching", sty: Some("NodeBranching"), gen: |r| vec![r.below(3) as u8], parse: p_branching, real: real::<NodeBranching> },
            Ty { name: "Method", sty: Some("Method"), gen: |_| vec![0], parse: p_method, real: real::<Method> },
            Ty { name: "Leaf", sty: Some("Leaf"), gen: g_leaf, parse: p_leaf, real: real::<Leaf> },
            // strict_types cannot load U256 values yet, hence no reading by the library
            Ty { name: "MerkleNode", sty: None, gen: g_node, parse: p_node, real: real::<MerkleNode> },
            Ty { name: "MerkleConcealed", sty: Some("MerkleConcealed"), gen: g_concealed, parse: p_concealed, real: real::<MerkleConcealed> },
            Ty { name: "MerkleBlock", sty: Some("MerkleBlock"), gen: g_block, parse: p_block, real: real::<MerkleBlock> },
            Ty { name: "MerkleProof", sty: Some("MerkleProof"), gen: g_proof, parse: p_proof, real: real::<MerkleProof> },
            Ty { name: "MerkleTree", sty: Some("MerkleTree"), gen: g_tree, parse: p_tree, real: real::<MerkleTree> },
            Ty { name: "SealWitness", sty: None, gen: g_witness, parse: p_witness, real: real_witness },
        ];
        v.extend(reserved!(1 0 "ReservedBytes1", 2 0 "ReservedBytes2", 3 0 "ReservedBytes3", 8 0 "ReservedBytes8", 17 0 "ReservedBytes17",
            32 0 "ReservedBytes32", 1 255 "", 4 7 "", 32 1 "", 6 170 "", 33 0 "", 40 1 "", 64 15 "", 100 85 "", 255 2 ""));
        v
    })
}

/// The published type library, read from the repository's stl directory.
fn published() -> Result<&'static SymbolicSys, String> {
    static S: OnceLock<Result<SymbolicSys, String>> = OnceLock::new();
    S.get_or_init(|| {
        let b = std::fs::read("/repo/stl/CommitVerify@0.1.0.stl").map_err(|e| e.to_string())?;
        // file of the strict-types tool: 4 magic bytes, version... then the library; found by suffix
        let lib = (0..=64.min(b.len()))
            .find_map(|i| dec::<TypeLib>(&b[i..]).ok().filter(|(_, u)| i + u == b.len()).map(|x| x.0))
            .ok_or("published library does not decode")?;
        SystemBuilder::new()
            .import(strict_types::stl::std_stl())
            .map_err(|e| e.to_string())?
            .import(lib)
            .map_err(|e| e.to_string())?
            .finalize()
            .map_err(|e| format!("{e:?}"))
    })
    .as_ref()
    .map_err(|e| e.clone())
}

fn fqn(s: &str) -> strict_types::typesys::TypeFqn {
    strict_types::typesys::TypeFqn::with(libname!("CommitVerify"), strict_encoding::TypeName::try_from(s.to_string()).unwrap())
}

fn model_used(t: &Ty, b: &[u8]) -> R<usize> {
    let mut r = Rd(b);
    (t.parse)(&mut r)?;
    Ok(b.len() - r.0.len())
}

fn valid(c: &mut Case, t: &Ty, b: &[u8], rest: &[u8]) -> R {
    let all = [b, rest].concat();
    let (used, again, same) = (t.real)(&all).map_err(|e| format!("valid {} {} rejected: {e}", t.name, hex(b)))?;
    ensure_eq!(used, b.len(), "bytes consumed by {} {}", t.name, hex(b));
    ensure_eq!(hex(&again?), hex(b), "re-encoding of {}", t.name);
    ensure!(same, "{} {} does not decode to an equal value again", t.name, hex(b));
    if let Some(s) = t.sty {
        let sys = published()?;
        sys.strict_deserialize_type(fqn(s), b)
            .map_err(|e| format!("published library rejects {} {}: {e}", t.name, hex(b)))?;
        c.ev("read_by_published_library", 1);
    }
    c.ev("round_trips", 1);
    c.max("bytes", b.len() as u64);
    c.sig_bytes(b);
    Ok(())
}

pub fn c14() -> Prop {
    Prop::new(
        "C14",
        "values of every public consensus type, both decoded from model encodings and constructed through the API, against hand-written \
         encoders and the published type library; distinct by encoding",
    )
    .family("model_values", 3_000, 80_000, |c| {
        let ts = types();
        let t = &ts[c.idx as usize % ts.len()];
        let b = (t.gen)(&mut c.rng);
        ensure_eq!(model_used(t, &b), Ok(b.len()), "model of {}", t.name);
        let n = *c.rng.pick(&[0, 0, 1, 40]);
        let rest = c.rng.bytes(n);
        c.note(format!("{} {}", t.name, hex(&b)));
        c.sample(|| format!("{} {}", t.name, hex(&b)));
        valid(c, t, &b, &rest)
    })
    .family("constructed", 1_500, 40_000, |c| {
        let (s, m) = gen_shallow(&mut c.rng, 20, 8);
        c.note(show_src(&s));
        let tree = make_tree(&s)?;
        let ts = types();
        let mut objs: Vec<(&str, Vec<u8>, Vec<u8>)> = vec![];
        objs.push(("MerkleTree", enc(&tree)?, m.strict()));
        let block = MerkleBlock::from(&tree);
        objs.push(("MerkleBlock", enc(&block)?, m.block().strict()));
        objs.push(("MerkleConcealed", enc(&tree.conceal())?, concealed_bytes(m.depth, m.cofactor, &m.root())));
        objs.push(("MerkleConcealed", enc(&block.conceal())?, concealed_bytes(m.depth, m.cofactor, &m.root())));
        let levels = m.levels();
        for (p, mm) in s.msgs.iter().take(3) {
            let proof = block.to_merkle_proof(pid(p)).map_err(|e| e.to_string())?;
            let want = MProof::from_levels(&levels, m.cofactor, pos(p, m.cofactor, m.depth));
            objs.push(("MerkleProof", enc(&proof)?, want.strict()));
            objs.push(("ProtocolId", enc(&pid(p))?, p.to_vec()));
            objs.push(("Message", enc(&msg(mm))?, mm.to_vec()));
            objs.push(("Leaf", enc(&Leaf::inhabited(pid(p), msg(mm)))?, leaf_bytes(p, mm)));
        }
        let (e, i) = (c.rng.edge64(), c.rng.u32());
        objs.push(("Leaf", enc(&Leaf::entropy(e, i))?, entropy_bytes(e, i)));
        let h = c.rng.h32();
        objs.push(("MerkleHash", enc(&MerkleHash::from(h))?, h.to_vec()));
        objs.push(("StrictHash", enc(&StrictHash::from(h))?, h.to_vec()));
        objs.push(("Commitment", enc(&Commitment::from(h))?, h.to_vec()));
        let d = c.rng.below(32) as u8;
        objs.push((
            "MerkleNode",
            enc(&MerkleNode::single(u5::with(d), e, MerkleHash::from(h)))?,
            node_bytes(1, d, &width256(e), &h, &VIRTUAL),
        ));
        for (k, n) in [(0u8, NodeBranching::Void), (1, NodeBranching::Single), (2, NodeBranching::Branch)] {
            objs.push(("NodeBranching", enc(&n)?, vec![k]));
            ensure_eq!(u8::from(n), k, "branching as number");
            ensure!(NodeBranching::try_from(k).ok() == Some(n), "branching from number {k}");
        }
        ensure!(NodeBranching::try_from(3 + c.rng.below(253) as u8).is_err(), "branching from an unknown number");
        objs.push(("Method", enc(&Method::Sha256t)?, vec![0]));
        objs.push(("ReservedBytes<4,7>", enc(&ReservedBytes::<4, 7>::default())?, vec![7; 4]));
        objs.push(("ReservedBytes<32,0>", enc(&ReservedBytes::<32>::from([0; 32]))?, vec![0; 32]));
        let x = c.rng.bool().then(|| c.rng.u32() as u16);
        let w = SealWitness::<Seal>::new(Public { id: i, x }, Client(e));
        let mut want = i.to_le_bytes().to_vec();
        want.push(x.is_some() as u8);
        if let Some(x) = x {
            want.extend(x.to_le_bytes());
        }
        want.extend(e.to_le_bytes());
        objs.push(("SealWitness", enc(&w)?, want));
        for (name, got, want) in objs {
            ensure_eq!(hex(&got), hex(&want), "encoding of a constructed {name}");
            let t = ts.iter().find(|t| t.name == name).unwrap();
            valid(c, t, &got, &[])?;
            c.ev("constructed", 1);
        }
        Ok(())
    })
    .family("large", 3, 20, |c| {
        // collections longer than eight and sixteen bits can count
        let n = [300u64, 66_000, 257][c.idx as usize % 3];
        let msgs = (0..n).map(|j| (le(j), c.rng.h32())).collect();
        let s = Src { msgs, min_depth: 0, entropy: c.rng.u64(), class: 204 };
        let m = MTree::build(&s.msgs, 0, s.entropy).map_err(|e| format!("{e:?}"))?;
        let tree = make_tree(&s)?;
        let ts = types();
        let block = MerkleBlock::from(&tree);
        for (name, got, want) in
            [("MerkleTree", enc(&tree)?, m.strict()), ("MerkleBlock", enc(&block)?, m.block().strict())]
        {
            ensure!(got == want, "encoding of a {name} of {n} messages");
            let t = ts.iter().find(|t| t.name == name).unwrap();
            if n < 1000 {
                valid(c, t, &got, &[1])?;
                continue;
            }
            let (used, again, same) = (t.real)(&got).map_err(|e| format!("{name} of {n} messages rejected: {e}"))?;
            ensure!(used == got.len() && again? == got && same, "{name} of {n} messages changed by decoding");
        }
        c.sig(&[n]);
        c.ev("large", 1);
        Ok(())
    })
    .family("published_fields", 200, 4_000, |c| {
        // the published library gives the bytes the field names and values they have in the code
        let sys = published()?;
        let ty = fqn;
        let (cof, at) = (c.rng.u32() as u16, c.rng.u32());
        let n = c.rng.below(4);
        let p = MProof { pos: at, cofactor: cof, path: (0..n).map(|_| c.rng.h32()).collect() };
        let v = sys.strict_deserialize_type(ty("MerkleProof"), &p.strict()).map_err(|e| e.to_string())?.as_val().to_string();
        for part in [format!("pos {at}"), format!("cofactor {cof}"), "path [".to_string(), "method sha256t".to_string()] {
            ensure!(v.contains(&part), "published reading of a proof lacks {part:?}: {v}");
        }
        let (d, h) = (c.rng.below(32) as u8, c.rng.h32());
        let v = sys.strict_deserialize_type(ty("MerkleConcealed"), &concealed_bytes(d, cof, &h)).map_err(|e| e.to_string())?.as_val().to_string();
        for part in [format!("cofactor {cof}"), format!("depth _{d}"), "merkleRoot ".to_string()] {
            ensure!(v.contains(&part), "published reading of a concealed tree lacks {part:?}: {v}");
        }
        c.sample(|| v.clone());
        c.ev("fields_read", 2);
        Ok(())
    })
    .require("round_trips", 3000)
    .require("constructed", 10_000)
    .require("read_by_published_library", 3000)
}

// ---------------------------------------------------------------- C15

/// Element counts above this are not decoded in-process (see C15-block-length).
const LEN_CAP: u32 = 1 << 22;

fn block_len_ok(t: &Ty, b: &[u8]) -> bool {
    if t.name != "MerkleBlock" || b.len() < 8 {
        return true;
    }
    u32::from_le_bytes(b[4..8].try_into().unwrap()) <= LEN_CAP
}

fn hostile(c: &mut Case, t: &Ty, b: &[u8]) -> R {
    if !block_len_ok(t, b) {
        c.ev("huge_length_skipped", 1);
        return Ok(());
    }
    let want = model_used(t, b);
    let got = (t.real)(b);
    c.note(format!("{} {} -> {:?} (model {:?})", t.name, hex(b), got.as_ref().map(|g| g.0), want));
    match (&got, &want) {
        (Ok((used, again, same)), Ok(n)) => {
            ensure_eq!(used, n, "bytes consumed decoding {} from {}", t.name, hex(b));
            ensure_eq!(hex(again.as_ref().map_err(|e| e.clone())?), hex(&b[..*used]), "re-encoding of {} decoded from {}", t.name, hex(b));
            ensure!(*same, "{} from {} does not decode to an equal value again", t.name, hex(b));
            c.ev("accepted", 1);
        }
        (Err(_), Err(_)) => c.ev("rejected", 1),
        (Ok(_), Err(e)) => return Err(format!("malformed {} ({e}) accepted: {}", t.name, hex(b))),
        (Err(e), Ok(_)) => return Err(format!("valid {} rejected ({e}): {}", t.name, hex(b))),
    }
    c.sig_bytes(b);
    Ok(())
}

pub fn c15() -> Prop {
    Prop::new(
        "C15",
        "for every type: random bytes, every truncation, single-byte rewrites at every offset, bit flips, splices of valid encodings, \
         swapped and repeated map entries, boundary tags and lengths; verdict and consumption compared with independent parsers; \
         distinct by input",
    )
    .family("random", 12_000, 400_000, |c| {
        let ts = types();
        let t = &ts[c.idx as usize % ts.len()];
        let n = c.rng.below(200) as usize;
        let mut b = c.rng.bytes(n);
        if c.rng.bool() {
            for x in b.iter_mut().take(16) {
                if c.rng.bool() {
                    *x = c.rng.below(3) as u8;
                }
            }
        }
        c.sample(|| format!("{} {}", t.name, hex(&b)));
        hostile(c, t, &b)
    })
    .family("truncated", 500, 10_000, |c| {
        let ts = types();
        let t = &ts[c.idx as usize % ts.len()];
        let b = (t.gen)(&mut c.rng);
        let step = 1 + b.len() / 400;
        let mut i = 0;
        while i < b.len() {
            let got = (t.real)(&b[..i]);
            ensure!(got.is_err(), "{} truncated to {i} of {} bytes accepted", t.name, b.len());
            c.ev("truncations", 1);
            i += step;
        }
        Ok(())
    })
    .family("rewritten", 700, 20_000, |c| {
        let ts = types();
        let t = &ts[c.idx as usize % ts.len()];
        let b = (t.gen)(&mut c.rng);
        // leading bytes exhaustively, later ones sampled
        for i in 0..b.len().min(24) {
            for _ in 0..3 {
                let mut x = b.clone();
                x[i] = match c.rng.below(4) {
                    0 => b[i].wrapping_add(1),
                    1 => b[i].wrapping_sub(1),
                    2 => *c.rng.pick(&[0, 1, 2, 3, 31, 32, 33, 127, 128, 255]),
                    _ => c.rng.u8(),
                };
                hostile(c, t, &x)?;
            }
        }
        for _ in 0..30 {
            let mut x = b.clone();
            for _ in 0..1 + c.rng.below(3) {
                let i = c.rng.below(x.len() as u64) as usize;
                x[i] ^= 1 << c.rng.below(8);
            }
            if c.rng.one_in(4) {
                let i = c.rng.below(x.len() as u64 + 1) as usize;
                x.insert(i, c.rng.u8());
            }
            if c.rng.one_in(4) {
                let i = c.rng.below(x.len() as u64) as usize;
                x.remove(i);
            }
            hostile(c, t, &x)?;
        }
        Ok(())
    })
    .family("tags", 24, 24, |c| {
        // every value of the first byte
        let ts = types();
        let t = &ts[c.idx as usize % ts.len()];
        let b = (t.gen)(&mut c.rng);
        for v in 0..=255u8 {
            let mut x = b.clone();
            x[0] = v;
            x.extend(c.rng.bytes(80));
            hostile(c, t, &x)?;
            c.ev("first_bytes", 1);
        }
        Ok(())
    })
    .family("maps", 1_500, 40_000, |c| {
        // trees with reordered, repeated or miscounted entries in either map
        let t = types().iter().find(|t| t.name == "MerkleTree").unwrap();
        let n = 2 + c.rng.below(5) as usize;
        let mut a: Vec<(H, H)> = (0..n).map(|_| (c.rng.h32(), c.rng.h32())).collect();
        a.sort();
        let mut b: Vec<(u32, H, H)> = (0..n).map(|_| (c.rng.below(50) as u32, c.rng.h32(), c.rng.h32())).collect();
        b.sort();
        b.dedup_by_key(|x| x.0);
        let (mut na, mut nb) = (a.len() as u32, b.len() as u32);
        let what = c.rng.below(8);
        match what {
            0 => a.swap(0, 1),
            1 => a[1].0 = a[0].0,
            2 if b.len() > 1 => b.swap(0, 1),
            3 if b.len() > 1 => b[1].0 = b[0].0,
            4 => na += 1,
            5 => nb += 1,
            6 => na = na.wrapping_sub(1),
            _ => {}
        }
        let mut v = vec![0, 9];
        v.extend(c.rng.u64().to_le_bytes());
        v.extend([3, 0]);
        v.extend(&na.to_le_bytes()[..3]);
        a.iter().for_each(|(k, x)| v.extend([&k[..], x].concat()));
        v.extend(&nb.to_le_bytes()[..3]);
        b.iter().for_each(|(k, p, x)| v.extend([&k.to_le_bytes()[..], p, x].concat()));
        c.ev(if what < 4 { "disordered_maps" } else { "maps" }, 1);
        hostile(c, t, &v)
    })
    .family("blocks_proofs", 1_500, 40_000, |c| {
        let ts = types();
        let mut b;
        let t;
        if c.rng.bool() {
            t = ts.iter().find(|t| t.name == "MerkleBlock").unwrap();
            b = g_block(&mut c.rng);
            let len = u32::from_le_bytes(b[4..8].try_into().unwrap());
            match c.rng.below(7) {
                0 => b[4..8].fill(0),
                1 => b[4..8].copy_from_slice(&(len + 1).to_le_bytes()),
                2 => b[4..8].copy_from_slice(&(len - 1).to_le_bytes()),
                3 => b[8] = 2 + c.rng.below(254) as u8,
                4 => b[1] = 32 + c.rng.below(224) as u8,
                5 => b[0] = 1 + c.rng.below(255) as u8,
                _ => b[6] = c.rng.below(64) as u8,
            }
        } else {
            t = ts.iter().find(|t| t.name == "MerkleProof").unwrap();
            b = g_proof(&mut c.rng);
            match c.rng.below(4) {
                0 => {
                    // 33 hashes and more
                    let n = 33 + c.rng.below(223) as u8;
                    b.truncate(7);
                    b.push(n);
                    b.extend(c.rng.bytes(n as usize * 32));
                    c.ev("overlong_paths", 1);
                }
                1 => b[7] = b[7].wrapping_add(1),
                2 => b[7] = b[7].saturating_sub(1),
                _ => b[0] = 1 + c.rng.below(255) as u8,
            }
        }
        hostile(c, t, &b)
    })
    .family("reserved", 1, 1, |c| {
        // every other value of each reserved byte, and construction from it
        for t in types().iter().filter(|t| t.name.starts_with("Reserved")) {
            let b = (t.gen)(&mut c.rng);
            for i in 0..b.len() {
                for v in 0..=255u8 {
                    let mut x = b.clone();
                    x[i] = v;
                    hostile(c, t, &x)?;
                    c.ev("reserved_values", 1);
                }
            }
        }
        let bad = vmodel::runner::catch(|| ReservedBytes::<3, 1>::from([1, 1, 2]));
        ensure!(bad.is_err(), "reserved bytes constructed from another value");
        ensure!(ReservedBytes::<3, 1>::from([1, 1, 1]) == ReservedBytes::<3, 1>::default(), "reserved bytes from their value");
        Ok(())
    })
    .family("known", 1, 1, |c| {
        // decoded in a process of its own: the listed defect aborts it
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let out = std::process::Command::new(exe).arg("--decode-huge-block").output().map_err(|e| e.to_string())?;
        c.ev("huge_length_tried", 1);
        ensure!(out.status.code() != Some(3), "8 bytes announcing 2^32-1 nodes decode as a block");
        if !out.status.success() {
            c.known(
                "C15-block-length",
                format!("decoding MerkleBlock from 00 00 0000 ffffffff (8 bytes) ends the process: {}", String::from_utf8_lossy(&out.stderr).lines().next().unwrap_or_default()),
            );
        }
        Ok(())
    })
    .require("accepted", 10_000)
    .require("rejected", 10_000)
    .require("truncations", 10_000)
    .require("disordered_maps", 300)
    .require("overlong_paths", 100)
    .require("reserved_values", 10_000)
}

pub fn decode_huge_block() {
    let b = unhex("00000000ffffffff");
    match dec::<MerkleBlock>(&b) {
        Err(_) => std::process::exit(0),
        Ok(_) => std::process::exit(3),
    }
}

