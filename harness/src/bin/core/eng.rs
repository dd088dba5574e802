use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::num::u5;
use amplify::Bytes32;
use commit_verify::mpc::{Commitment, Leaf, MerkleBlock, MerkleConcealed, MerkleTree, Message, ProtocolId};
use commit_verify::{
    CommitColType, CommitEncode, CommitEngine, CommitId, CommitLayout, CommitStep, CommitmentId, CommitmentLayout, Conceal, DigestExt,
    MerkleHash, MerkleNode, ReservedBytes, Sha256, StrictHash,
};
use strict_encoding::{Sizing, StrictDumb, TypeName};
use strict_types::typesys::TypeFqn;
use vharness::*;

use crate::types::*;

type Fqn = (&'static str, &'static str);

fn fqn(f: Fqn) -> TypeFqn { TypeFqn::with(libname!(f.0), TypeName::try_from(f.1.to_string()).unwrap()) }

/// One commit call, what it must hash and how it must be described.
pub struct Op {
    pub apply: Box<dyn Fn(&mut CommitEngine)>,
    pub bytes: Vec<u8>,
    pub step: CommitStep,
    pub text: String,
    pub kind: u64,
}

fn sizing_text(min: usize, max: usize) -> String {
    let m = match max {
        0xFF => "MAX8".into(),
        0xFFFF => "MAX16".into(),
        0xFF_FFFF => "MAX24".into(),
        0xFFFF_FFFF => "MAX32".into(),
        usize::MAX => "MAX64".into(),
        n => n.to_string(),
    };
    format!("{min}..{m}")
}

fn ser<T: Model + strict_encoding::StrictEncode + 'static>(v: T) -> Op {
    Op {
        bytes: v.model(),
        step: CommitStep::Serialized(fqn(T::FQN)),
        text: format!("  serialized {}\n", T::FQN.1),
        apply: Box::new(move |e| e.commit_to_serialized(&v)),
        kind: 0,
    }
}
fn opt<T: Model + strict_encoding::StrictEncode + StrictDumb + 'static>(v: Option<T>) -> Op {
    let mut bytes = vec![v.is_some() as u8];
    if let Some(x) = &v {
        bytes.extend(x.model());
    }
    Op {
        bytes,
        step: CommitStep::Serialized(fqn(T::FQN)),
        text: format!("  serialized {}\n", T::FQN.1),
        apply: Box::new(move |e| e.commit_to_option(&v)),
        kind: 1,
    }
}
fn hashed(v: Doc) -> Op {
    Op {
        bytes: v.id().to_vec(),
        step: CommitStep::Hashed(fqn(Doc::FQN)),
        text: "  hashed Doc\n".into(),
        apply: Box::new(move |e| e.commit_to_hash(&v)),
        kind: 2,
    }
}
fn concealed(v: Cloak) -> Op {
    Op {
        bytes: v.hidden(),
        step: CommitStep::Concealed(fqn(Cloak::FQN)),
        text: "  concealed Cloak, concealed Cloak\n".into(),
        apply: Box::new(move |e| e.commit_to_concealed(&v)),
        kind: 3,
    }
}
fn reserved(n: u64) -> Op {
    macro_rules! r {
        ($($len:literal $val:literal $name:literal),*) => {
            match n {
                $(x if x == $len * 1000 + $val => Op {
                    bytes: vec![$val; $len],
                    step: CommitStep::Serialized(fqn(("CommitVerify", $name))),
                    text: concat!("  serialized ", $name, "\n").into(),
                    apply: Box::new(|e| e.commit_to_serialized(&ReservedBytes::<$len, $val>::default())),
                    kind: 4,
                },)*
                _ => unreachable!(),
            }
        };
    }
    r!(1 0 "ReservedBytes1", 4 7 "ReservedBytes47", 32 255 "ReservedBytes32MAX")
}
fn merkle(c: &mut Rng, set: bool) -> Op {
    let n = match c.below(12) {
        0 => 0,
        1 => 1,
        2 => 255,
        _ => c.below(40),
    } as usize;
    let kind = 5 + set as u64;
    let text = "  merklized Item\n".to_string();
    let step = CommitStep::Merklized(fqn(Item::FQN));
    let mut items: Vec<Item> = (0..n).map(|_| Item::gen(c)).collect();
    if set {
        items.sort();
        items.dedup();
        let root = merklize(&items.iter().map(Item::leaf).collect::<Vec<_>>());
        let s: BTreeSet<Item> = items.into_iter().rev().collect();
        let v = Confined::<BTreeSet<Item>, 0, 255>::try_from(s).unwrap();
        Op { bytes: root.to_vec(), step, text, kind, apply: Box::new(move |e| e.commit_to_merkle(&v)) }
    } else {
        let root = merklize(&items.iter().map(Item::leaf).collect::<Vec<_>>());
        if c.bool() {
            let v = Confined::<Vec<Item>, 0, 255>::try_from(items).unwrap();
            Op { bytes: root.to_vec(), step, text, kind, apply: Box::new(move |e| e.commit_to_merkle(&v)) }
        } else {
            let v = Confined::<Vec<Item>, 0, 0xFFFFFFFF>::try_from(items).unwrap();
            Op { bytes: root.to_vec(), step, text, kind, apply: Box::new(move |e| e.commit_to_merkle(&v)) }
        }
    }
}
fn mpc_merkle(c: &mut Rng) -> Op {
    let n = c.below(20);
    let mut v = vec![];
    let mut h = vec![];
    for i in 0..n {
        if c.bool() {
            let (p, m) = (c.h32(), c.h32());
            v.push(Leaf::inhabited(pid(&p), msg(&m)));
            h.push(leaf_hash(&p, &m));
        } else {
            let e = c.u64();
            v.push(Leaf::entropy(e, i as u32));
            h.push(entropy_hash(e, i as u32));
        }
    }
    let v = Confined::<Vec<Leaf>, 0, 0xFFFF>::try_from(v).unwrap();
    Op {
        bytes: merklize(&h).to_vec(),
        step: CommitStep::Merklized(fqn(("CommitVerify", "Leaf"))),
        text: "  merklized Leaf\n".into(),
        kind: 7,
        apply: Box::new(move |e| e.commit_to_merkle(&v)),
    }
}
fn mpc_concealed(c: &mut Rng) -> Op {
    let (s, m) = gen_shallow(c, 6, 4);
    let t = try_tree(&source(&s)).expect("tree");
    Op {
        bytes: concealed_bytes(m.depth, m.cofactor, &m.root()),
        step: CommitStep::Concealed(fqn(("CommitVerify", "MerkleTree"))),
        text: "  concealed MerkleTree, concealed MerkleTree\n".into(),
        kind: 8,
        apply: Box::new(move |e| e.commit_to_concealed(&t)),
    }
}

fn list<T, const MIN: usize, const MAX: usize>(c: &mut Rng, n: usize) -> Op
where T: Model + strict_encoding::StrictEncode + StrictDumb + 'static {
    let v: Vec<T> = (0..n.clamp(MIN, MAX)).map(|_| T::gen(c)).collect();
    let bytes = list_bytes(&v, MAX);
    let v = Confined::<Vec<T>, MIN, MAX>::try_from(v).unwrap();
    Op {
        bytes,
        step: CommitStep::Collection(CommitColType::List, Sizing::new(MIN as u64, MAX as u64), fqn(T::FQN)),
        text: format!("  list {}, len {}\n    element {}\n", T::FQN.1, sizing_text(MIN, MAX), T::FQN.1),
        apply: Box::new(move |e| e.commit_to_linear_list(&v)),
        kind: 10,
    }
}
fn set<T, const MIN: usize, const MAX: usize>(c: &mut Rng, n: usize) -> Op
where T: Model + strict_encoding::StrictEncode + StrictDumb + Ord + Copy + 'static {
    let mut s = BTreeSet::new();
    for _ in 0..400 {
        if s.len() < n.clamp(MIN, MAX) {
            s.insert(T::gen(c));
        }
    }
    let bytes = set_bytes(&s, MAX);
    let v = Confined::<BTreeSet<T>, MIN, MAX>::try_from(s).unwrap();
    Op {
        bytes,
        step: CommitStep::Collection(CommitColType::Set, Sizing::new(MIN as u64, MAX as u64), fqn(T::FQN)),
        text: format!("  set {}, len {}\n    element {}\n", T::FQN.1, sizing_text(MIN, MAX), T::FQN.1),
        apply: Box::new(move |e| e.commit_to_linear_set(&v)),
        kind: 11,
    }
}
fn map<K, V, const MIN: usize, const MAX: usize>(c: &mut Rng, n: usize) -> Op
where
    K: Model + strict_encoding::StrictEncode + StrictDumb + Ord + Copy + std::hash::Hash + 'static,
    V: Model + strict_encoding::StrictEncode + StrictDumb + 'static,
{
    let mut s = BTreeMap::new();
    for _ in 0..400 {
        if s.len() < n.clamp(MIN, MAX) {
            s.insert(K::gen(c), V::gen(c));
        }
    }
    let bytes = map_bytes(&s, MAX);
    let v = Confined::<BTreeMap<K, V>, MIN, MAX>::try_from(s).unwrap();
    Op {
        bytes,
        step: CommitStep::Collection(
            CommitColType::Map { key: fqn(K::FQN) },
            Sizing::new(MIN as u64, MAX as u64),
            fqn(V::FQN),
        ),
        text: format!(
            "  map {}, len {}\n    mapKey {}\n    mapValue {}\n",
            V::FQN.1,
            sizing_text(MIN, MAX),
            K::FQN.1,
            V::FQN.1
        ),
        apply: Box::new(move |e| e.commit_to_linear_map(&v)),
        kind: 12,
    }
}

pub fn gen_op(r: &mut Rng) -> Op {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 255,
        3 => 300,
        _ => r.below(12),
    } as usize;
    match r.below(52) {
        0 => ser(Rec::gen(r)),
        1 => ser(Kind::gen(r)),
        2 => ser(Word::gen(r)),
        3 => ser(Cloak::gen(r)),
        4 => ser(Doc::gen(r)),
        5 => ser(Item::gen(r)),
        6 => opt::<Rec>(if r.bool() { Some(Rec::gen(r)) } else { None }),
        7 => opt::<Word>(if r.bool() { Some(Word::gen(r)) } else { None }),
        8 => opt::<Kind>(if r.bool() { Some(Kind::gen(r)) } else { None }),
        9 | 10 => hashed(Doc::gen(r)),
        11 | 12 => concealed(Cloak::gen(r)),
        13 => {
            let k = *r.pick(&[1000, 4007, 32255]);
            reserved(k)
        }
        14 | 15 => merkle(r, false),
        16 | 17 => merkle(r, true),
        18 => mpc_merkle(r),
        19 => mpc_concealed(r),
        20 => list::<Rec, 0, 0xFF>(r, n),
        21 => list::<Word, 1, 0xFFFF>(r, n),
        22 => list::<Kind, 0, 0xFFFFFF>(r, n),
        23 => list::<Cloak, 2, 0xFFFFFFFF>(r, n),
        24 => list::<Rec, 3, 20>(r, n),
        25 => set::<Word, 0, 0xFF>(r, n),
        26 => set::<Item, 1, 0xFFFF>(r, n),
        27 => set::<Kind, 0, 0xFFFFFFFF>(r, n.min(2)),
        28 => set::<Rec, 0, 1000>(r, n),
        29 => map::<Word, Rec, 0, 0xFF>(r, n),
        30 => map::<Item, Cloak, 1, 0xFFFF>(r, n),
        31 => map::<Kind, Word, 0, 0xFFFFFF>(r, n.min(2)),
        32 => map::<Rec, Kind, 0, 300>(r, n),
        33 => list::<Item, 0, { usize::MAX }>(r, n),
        // of one length only
        34 => list::<Word, 2, 2>(r, n),
        35 => list::<Rec, 0, 0>(r, n),
        36 => list::<Kind, 256, 256>(r, n),
        37 => list::<Item, 255, 255>(r, n),
        38 => set::<Item, 1, 1>(r, n),
        39 => set::<Word, 3, 3>(r, n),
        40 => map::<Word, Rec, 3, 3>(r, n),
        41 => map::<Item, Item, 1, 1>(r, n),
        // the key's type is the value's
        42 => map::<Word, Word, 0, 0xFFFF>(r, n),
        // types of two libraries
        43 => map::<ProtocolId, Message, 0, 0xFFFFFF>(r, n),
        44 => map::<Word, ProtocolId, 0, 0xFF>(r, n),
        45 => map::<Rec, Message, 1, 0xFFFF>(r, n),
        46 => map::<ProtocolId, Rec, 0, 0xFFFF>(r, n),
        47 => map::<Message, Kind, 0, 0xFFFFFFFF>(r, n),
        48 => list::<Message, 0, 0xFFFF>(r, n),
        49 => set::<ProtocolId, 0, 0xFF>(r, n),
        50 => opt::<Message>(if r.bool() { Some(Message::gen(r)) } else { None }),
        _ => map::<Rec, Rec, 1, 256>(r, n),
    }
}

pub fn gen_ops(r: &mut Rng, max: u64) -> Vec<Op> {
    let n = match r.below(10) {
        0 => 0,
        1 => max,
        _ => r.below(8),
    };
    (0..n).map(|_| gen_op(r)).collect()
}

fn total(ops: &[Op]) -> Vec<u8> { ops.iter().flat_map(|o| o.bytes.clone()).collect() }

thread_local! { static SCRIPT: RefCell<Vec<Op>> = const { RefCell::new(vec![]) }; }

macro_rules! id_type {
    ($id:ident, $host:ident, $tag:literal) => {
        #[derive(Wrapper, Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, From)]
        #[wrapper(Deref, BorrowSlice, Hex, Index, RangeOps)]
        #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = LIB)]
        pub struct $id(
            #[from]
            #[from([u8; 32])]
            Bytes32,
        );
        impl CommitmentId for $id {
            const TAG: &'static str = $tag;
        }
        impl From<Sha256> for $id {
            fn from(h: Sha256) -> Self { h.finish().into() }
        }
        /// Commits whatever the current script says.
        struct $host;
        impl CommitEncode for $host {
            type CommitmentId = $id;
            fn commit_encode(&self, e: &mut CommitEngine) {
                SCRIPT.with(|s| {
                    for o in s.borrow().iter() {
                        (o.apply)(e)
                    }
                })
            }
        }
        impl StrictDumb for $host {
            fn strict_dumb() -> Self { $host }
        }
    };
}
id_type!(IdA, HostA, "urn:verif:a#1");
id_type!(IdB, HostB, "");
id_type!(IdC, HostC, "urn:verif:a much longer tag, crossing the SHA-256 block size of sixty-four bytes #2024-01-31");

fn hosts(c: u64) -> (H, CommitLayout, Vec<CommitStep>, &'static str, &'static str) {
    fn go<T: CommitEncode + CommitmentLayout + StrictDumb>() -> (H, CommitLayout, Vec<CommitStep>)
    where T::CommitmentId: Into<H> {
        let v = T::strict_dumb();
        (v.commit_id().into(), T::commitment_layout(), v.commit().into_layout().to_vec())
    }
    macro_rules! h {
        ($h:ident, $i:ident) => {{
            let (a, b, d) = go::<$h>();
            (a, b, d, $i::TAG, stringify!($i))
        }};
    }
    match c % 3 {
        0 => h!(HostA, IdA),
        1 => h!(HostB, IdB),
        _ => h!(HostC, IdC),
    }
}
impl From<IdA> for H {
    fn from(i: IdA) -> H { raw(&i) }
}
impl From<IdB> for H {
    fn from(i: IdB) -> H { raw(&i) }
}
impl From<IdC> for H {
    fn from(i: IdC) -> H { raw(&i) }
}

fn leak(c: &mut Case) -> &'static str {
    const FIXED: &[&str] = &["", "a", "urn:ubideco:merkle:node#2024-01-31", "urn:lnp-bp:ünïcödé", "urn:ubideco:mpc:commitment#2024-01-31"];
    if c.rng.bool() {
        return *c.rng.pick(FIXED);
    }
    if c.rng.one_in(3) {
        // easily taken for another
        let f = FIXED[c.rng.below(2) as usize * 2 + 2];
        return intern(twin_text(&mut c.rng, f));
    }
    let n = c.rng.below(130) as usize;
    intern((0..n).map(|_| (32 + c.rng.below(90)) as u8 as char).collect())
}

pub fn c11() -> Prop {
    Prop::new(
        "C11",
        "random scripts of commit calls of every kind (serialized, option, hashed, merklized, concealed, list, set, map; all length \
         classes, nested identifiers, empty scripts, 255 steps) under random tags, run through the engine and through commit_id of user \
         types; distinct by (kinds in order, bytes)",
    )
    .family("engine", 4_000, 120_000, |c| {
        let max = if c.rng.one_in(40) { 255 } else { 12 };
        let ops = gen_ops(&mut c.rng, max);
        let tag = leak(c);
        let body = total(&ops);
        let kinds: Vec<u64> = ops.iter().map(|o| o.kind).collect();
        c.note(format!("tag {tag:?} steps {:?}", ops.iter().map(|o| (&o.step, hex(&o.bytes))).collect::<Vec<_>>()));
        c.sample(|| format!("tag {tag:?}, steps {kinds:?}, {} bytes", body.len()));
        let mut e = CommitEngine::new(tag);
        for o in &ops {
            (o.apply)(&mut e);
        }
        let want = hex(&tagged(tag.as_bytes(), &body));
        let steps: Vec<CommitStep> = ops.iter().map(|o| o.step.clone()).collect();
        let (h, layout) = e.clone().finish_layout();
        ensure_eq!(hex(&DigestExt::finish(h)), want, "identifier of {} steps under tag {tag:?}", ops.len());
        ensure_eq!(layout.to_vec(), steps, "layout of {} steps", ops.len());
        ensure_eq!(e.clone().into_layout().to_vec(), steps, "into_layout");
        ensure_eq!(e.clone().as_layout().to_vec(), steps, "as_layout");
        let mut done = e.clone();
        done.set_finished();
        ensure_eq!(hex(&DigestExt::finish(done.finish())), want, "identifier after set_finished");
        ensure_eq!(hex(&DigestExt::finish(e.finish())), want, "finish");
        c.ev("scripts", 1);
        c.ev("steps", ops.len() as u64);
        for k in &kinds {
            c.ev(
                match k {
                    0 | 4 => "serialized",
                    1 => "option",
                    2 => "hashed",
                    3 | 8 => "concealed",
                    5..=7 => "merklized",
                    10 => "list",
                    11 => "set",
                    _ => "map",
                },
                1,
            );
        }
        c.sig(&kinds);
        c.sig_bytes(&body);
        Ok(())
    })
    .family("ids", 3_000, 80_000, |c| {
        let ops = gen_ops(&mut c.rng, 20);
        let body = total(&ops);
        SCRIPT.with(|s| *s.borrow_mut() = ops);
        let mut seen = BTreeSet::new();
        for k in 0..3 {
            let (id, _, _, tag, _) = hosts(k);
            ensure_eq!(hex(&id), hex(&tagged(tag.as_bytes(), &body)), "commit_id under tag {tag:?}");
            // same data, other tag: other identifier
            ensure!(seen.insert(id), "identifier does not depend on the tag");
            c.ev("ids", 1);
        }
        c.sig_bytes(&body);
        Ok(())
    })
    .family("sensitivity", 1_500, 40_000, |c| {
        // the engine must tell apart scripts differing in one bit, in order, in one step
        let mut ops = gen_ops(&mut c.rng, 6);
        ops.push(gen_op(&mut c.rng));
        let run = |ops: &[Op]| {
            let mut e = CommitEngine::new("urn:verif:s");
            for o in ops {
                (o.apply)(&mut e);
            }
            DigestExt::finish(e.finish())
        };
        let base = (run(&ops), total(&ops));
        ensure_eq!(run(&ops), base.0, "identifier of the same script again");
        let mut variants: Vec<(H, Vec<u8>)> = vec![];
        c.rng.shuffle(&mut ops);
        variants.push((run(&ops), total(&ops)));
        let last = ops.pop();
        variants.push((run(&ops), total(&ops)));
        ops.extend(last);
        ops.push(gen_op(&mut c.rng));
        variants.push((run(&ops), total(&ops)));
        let i = c.rng.below(ops.len() as u64) as usize;
        ops[i] = gen_op(&mut c.rng);
        variants.push((run(&ops), total(&ops)));
        for (id, bytes) in variants {
            ensure_eq!(id == base.0, bytes == base.1, "identifiers equal exactly for equal committed bytes");
            c.ev("variants", 1);
        }
        Ok(())
    })
    .family("library_types", 1_500, 40_000, |c| {
        let (s, m) = gen_shallow(&mut c.rng, 8, 6);
        let tree = make_tree(&s)?;
        let block = MerkleBlock::from(&tree);
        let body = concealed_bytes(m.depth, m.cofactor, &m.root());
        let want = hex(&tagged(TAG_MPC.as_bytes(), &body));
        ensure_eq!(hex(&raw(&tree.commit_id())), want, "id of a tree");
        ensure_eq!(hex(&raw(&block.commit_id())), want, "id of a block");
        ensure_eq!(hex(&raw(&tree.conceal().commit_id())), want, "id of a concealed tree");
        let v = c.rng.h32();
        let leaf = Leaf::inhabited(pid(&v), msg(&m.root()));
        ensure_eq!(hex(&raw(&leaf.commit_id())), hex(&leaf_hash(&v, &m.root())), "id of a leaf");
        ensure_eq!(
            hex(&raw(&ReservedBytes::<5, 9>::default().commit_id())),
            hex(&tagged(TAG_STRICT.as_bytes(), &[9; 5])),
            "id of reserved bytes"
        );
        ensure_eq!(
            hex(&raw(&ReservedBytes::<32>::default().commit_id())),
            hex(&tagged(TAG_STRICT.as_bytes(), &[0; 32])),
            "id of reserved bytes"
        );
        ensure_eq!(hex(&raw(&Item::gen(&mut Rng::new(&v)).commit_id())), hex(&Item::gen(&mut Rng::new(&v)).leaf()), "id of a leaf item");
        c.ev("ids", 7);
        Ok(())
    })
    .family("large", 2, 8, |c| {
        // more than 64 KiB and more than 16 MiB through one step
        let n = [40_000, 2_400_000][c.idx as usize % 2];
        let ops = vec![ser(Word(7)), list::<Word, 0, 0xFFFFFFFF>(&mut c.rng, n), ser(Kind::Last)];
        let body = total(&ops);
        let mut e = CommitEngine::new("urn:verif:large");
        for o in &ops {
            (o.apply)(&mut e);
        }
        ensure_eq!(hex(&DigestExt::finish(e.finish())), hex(&tagged(b"urn:verif:large", &body)), "identifier of {} bytes", body.len());
        c.max("bytes", body.len() as u64);
        Ok(())
    })
    .require("scripts", 3000)
    .require("serialized", 1000)
    .require("option", 500)
    .require("hashed", 500)
    .require("concealed", 500)
    .require("merklized", 500)
    .require("list", 500)
    .require("set", 500)
    .require("map", 500)
    .require("variants", 4000)
}

fn vesper(id: &str, tag: &str, steps: &[String]) -> String { format!("commitment {id}, hasher SHA256, tagged {tag}\n{}", steps.concat()) }

fn lib_layout<T: CommitEncode + CommitmentLayout>(c: &mut Case, v: &T, id: Fqn, tag: &str, step: CommitStep, text: &str) -> R {
    let l = T::commitment_layout();
    ensure_eq!(*l.idty(), fqn(id), "identifier type in the layout of {}", id.1);
    ensure_eq!(l.tag(), tag, "tag in the layout of {}", id.1);
    ensure_eq!(l.fields().to_vec(), vec![step], "steps in the layout of {}", id.1);
    ensure_eq!(l.to_string(), vesper(id.1, tag, &[text.to_string()]), "text of the layout of {}", id.1);
    let seen = v.commit().into_layout();
    ensure_eq!(seen.to_vec(), l.fields().to_vec(), "steps performed for a value against the published layout of {}", id.1);
    c.ev("library_layouts", 1);
    Ok(())
}

pub fn c12() -> Prop {
    Prop::new(
        "C12",
        "layouts and Vesper text of user types with random scripts of every step kind, against the steps performed; layouts of every \
         library type against random values of it; distinct by step list",
    )
    .family("user_types", 4_000, 120_000, |c| {
        let ops = gen_ops(&mut c.rng, 30);
        let steps: Vec<CommitStep> = ops.iter().map(|o| o.step.clone()).collect();
        let texts: Vec<String> = ops.iter().map(|o| o.text.clone()).collect();
        c.ev("steps", ops.len() as u64);
        c.sig_bytes(texts.concat().as_bytes());
        SCRIPT.with(|s| *s.borrow_mut() = ops);
        let (_, layout, performed, tag, name) = hosts(c.idx);
        ensure_eq!(*layout.idty(), fqn(("Verif", name)), "identifier type");
        ensure_eq!(layout.tag(), tag, "tag");
        ensure_eq!(layout.fields().to_vec(), steps, "layout steps");
        ensure_eq!(performed, steps, "performed steps");
        let want = vesper(name, tag, &texts);
        ensure_eq!(layout.to_string(), want, "Vesper text");
        ensure_eq!(layout.to_vesper().display().to_string(), want, "displayed Vesper expression");
        c.sample(|| want.clone());
        c.ev("layouts", 1);
        Ok(())
    })
    .family("library_types", 800, 20_000, |c| {
        use CommitStep::*;
        const CV: &str = "CommitVerify";
        let (s, m) = gen_shallow(&mut c.rng, 10, 6);
        let tree = make_tree(&s)?;
        let block = to_block(&gen_view(&mut c.rng, &m.block()))?;
        let (h, g) = (MerkleHash::from(c.rng.h32()), MerkleHash::from(c.rng.h32()));
        let d = c.rng.below(32) as u8;
        let w = c.rng.edge64();
        let node = match c.rng.below(3) {
            0 => MerkleNode::void(d, w),
            1 => MerkleNode::single(d, w, h),
            _ => MerkleNode::branches(u5::with(d), w, h, g),
        };
        let leaf = if c.rng.bool() { Leaf::entropy(w, d as u32) } else { Leaf::inhabited(pid(&raw(&h)), msg(&raw(&g))) };
        let conc: MerkleConcealed = tree.conceal();
        let mh = ((CV, "MerkleHash"), TAG_MERKLE);
        let cm = ((CV, "Commitment"), TAG_MPC);
        lib_layout(c, &node, mh.0, mh.1, Serialized(fqn((CV, "MerkleNode"))), "  serialized MerkleNode\n")?;
        lib_layout(c, &leaf, mh.0, mh.1, Serialized(fqn((CV, "Leaf"))), "  serialized Leaf\n")?;
        lib_layout(c, &conc, cm.0, cm.1, Serialized(fqn((CV, "MerkleConcealed"))), "  serialized MerkleConcealed\n")?;
        let hidden = "  concealed MerkleConcealed, concealed MerkleConcealed\n";
        lib_layout::<MerkleTree>(c, &tree, cm.0, cm.1, Concealed(fqn((CV, "MerkleConcealed"))), hidden)?;
        lib_layout::<MerkleBlock>(c, &block, cm.0, cm.1, Concealed(fqn((CV, "MerkleConcealed"))), hidden)?;
        ensure_eq!(<Commitment as CommitmentId>::TAG, TAG_MPC, "tag of the commitment");
        ensure_eq!(<StrictHash as CommitmentId>::TAG, TAG_STRICT, "tag of the strict hash");
        ensure_eq!(<MerkleHash as CommitmentId>::TAG, TAG_MERKLE, "tag of the merkle hash");
        Ok(())
    })
    .require("layouts", 3000)
    .require("library_layouts", 3000)
}
