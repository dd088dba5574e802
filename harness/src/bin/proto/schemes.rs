//! C17, C18, C19: schemes with every outcome, whose results are recomputed here from the statement.
use commit_verify::mpc::MerkleTree;
use commit_verify::{
    CommitVerify, CommitmentProtocol, ConvolveCommit, ConvolveCommitProof, ConvolveVerifyError, EmbedCommitProof, EmbedCommitVerify,
    EmbedVerifyError, TryCommitVerify, VerifyEq, VerifyError,
};
use vharness::*;

pub enum ProtA {}
impl CommitmentProtocol for ProtA {}
pub enum ProtB {}
impl CommitmentProtocol for ProtB {}

fn h(tag: u8, m: u64) -> u64 {
    let mut v = vec![tag];
    v.extend(m.to_le_bytes());
    u64::from_le_bytes(sha(&v)[..8].try_into().unwrap())
}

// ---------------------------------------------------------------- C17

/// Equal when the values are; the note is not compared.
#[derive(Clone, Debug)]
pub struct Loose {
    val: u64,
    note: u64,
}
impl PartialEq for Loose {
    fn eq(&self, o: &Self) -> bool { self.val == o.val }
}
impl Eq for Loose {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Full([u8; 32]);

impl CommitVerify<u64, ProtA> for Loose {
    fn commit(m: &u64) -> Self { Loose { val: m % 5, note: *m } }
}
impl CommitVerify<u64, ProtB> for Loose {
    fn commit(m: &u64) -> Self { Loose { val: m.wrapping_add(2) % 5, note: !*m } }
}
impl CommitVerify<Vec<u8>, ProtA> for Full {
    fn commit(m: &Vec<u8>) -> Self { Full(sha(m)) }
}
#[derive(Clone, PartialEq, Eq, Debug, Display, Error)]
#[display("failed {0}")]
pub struct Fail(pub u64);

fn try_fails(m: u64) -> bool { h(9, m) % 3 == 0 }
impl TryCommitVerify<u64, ProtA> for Loose {
    type Error = Fail;
    fn try_commit(m: &u64) -> Result<Self, Fail> { if try_fails(*m) { Err(Fail(*m)) } else { Ok(Loose { val: m % 7, note: *m }) } }
}
impl TryCommitVerify<Vec<u8>, ProtB> for Full {
    type Error = Fail;
    fn try_commit(m: &Vec<u8>) -> Result<Self, Fail> { if m.len() % 4 == 3 { Err(Fail(m.len() as u64)) } else { Ok(Full(sha(m))) } }
}

fn small(rng: &mut Rng) -> u64 { if rng.bool() { rng.below(20) } else { rng.edge64() } }

fn tree_of(src: &Src) -> Result<MTree, PlaceErr> { MTree::build(&src.msgs, src.min_depth, src.entropy) }

fn verify_tree(t: &MerkleTree, s: &Src) -> Result<(), VerifyError> { t.verify(&source(s)) }

pub fn c17() -> Prop {
    Prop::new(
        "C17",
        "commitments against messages of schemes with loose and exact equality, failing and not, and multi-protocol trees against equal, \
         neighbouring and unplaceable sources; distinct by scheme, verdict and message relation",
    )
    .family("schemes", 6_000, 300_000, |c| {
        let (m, n) = (small(&mut c.rng), small(&mut c.rng));
        let x = <Loose as CommitVerify<u64, ProtA>>::commit(&m);
        let before = x.note;
        let got = CommitVerify::<u64, ProtA>::verify(&x, &n);
        let want = if m % 5 == n % 5 { Ok(()) } else { Err(VerifyError::InvalidCommitment) };
        ensure_eq!(got, want, "commitment to {m} against {n}, equal modulo 5");
        let got_b = CommitVerify::<u64, ProtB>::verify(&x, &n);
        let want_b = if m % 5 == n.wrapping_add(2) % 5 { Ok(()) } else { Err(VerifyError::InvalidCommitment) };
        ensure_eq!(got_b, want_b, "commitment to {m} against {n} under another protocol");
        ensure!(x.note == before, "verified commitment was altered");
        c.sig(&[1, want.is_ok() as u64, m.min(40), n.min(40)]);
        // failing scheme; the commitment may be to a message which can't be committed to
        let x = Loose { val: m % 7, note: 77 };
        let got = TryCommitVerify::<u64, ProtA>::verify(&x, &n);
        let want = if try_fails(n) {
            c.ev("invalid_message", 1);
            Err(VerifyError::InvalidMessage)
        } else if m % 7 == n % 7 {
            c.ev("accepted", 1);
            Ok(())
        } else {
            c.ev("invalid_commitment", 1);
            Err(VerifyError::InvalidCommitment)
        };
        ensure_eq!(got, want, "fallible commitment to {m} against {n}, equal modulo 7");
        c.sig(&[2, try_fails(n) as u64, want.is_ok() as u64, m.min(40), n.min(40)]);
        // bytes
        let len = *c.rng.pick(&[0usize, 1, 2, 3, 5, 8, 31, 64, 100]);
        let a = c.rng.bytes(len);
        let mut b = a.clone();
        match c.rng.below(5) {
            0 => {}
            1 => b.push(0),
            2 => drop(b.pop()),
            3 if len > 0 => b[c.rng.below(len as u64) as usize] ^= 1 << c.rng.below(8),
            _ => b.reverse(),
        }
        let x = Full(sha(&a));
        let want = if a == b { Ok(()) } else { Err(VerifyError::InvalidCommitment) };
        ensure_eq!(CommitVerify::<Vec<u8>, ProtA>::verify(&x, &b), want, "commitment to {} against {}", hex(&a), hex(&b));
        let want = if b.len() % 4 == 3 { Err(VerifyError::InvalidMessage) } else { want };
        ensure_eq!(TryCommitVerify::<Vec<u8>, ProtB>::verify(&x, &b), want, "fallible commitment to {} against {}", hex(&a), hex(&b));
        Ok(())
    })
    .family("trees", 800, 30_000, |c| {
        let max = if c.rng.one_in(10) { 200 } else { 24 };
        let (s, m) = loop {
            let s = gen_src(&mut c.rng, max, 12);
            if let Ok(m) = tree_of(&s) {
                break (s, m);
            }
        };
        let t = make_tree(&s)?;
        c.sample(|| show_src(&s));
        for kind in 0..12u64 {
            let mut o = s.clone();
            match kind {
                0 => {}
                1 => o.entropy ^= 1 << c.rng.below(64),
                2 => o.min_depth = c.rng.below(m.depth as u64 + 1) as u8,
                3 => o.min_depth = (m.depth + 1).min(31),
                4 => {
                    if let Some((_, v)) = o.msgs.iter_mut().nth(c.rng.below(s.msgs.len().max(1) as u64) as usize) {
                        v[c.rng.below(32) as usize] ^= 1 << c.rng.below(8);
                    }
                }
                5 => {
                    if let Some(k) = s.msgs.keys().nth(c.rng.below(s.msgs.len().max(1) as u64) as usize) {
                        o.msgs.remove(k);
                    }
                }
                6 => {
                    o.msgs.insert(c.rng.h32(), c.rng.h32());
                }
                7 => {
                    // another protocol in the same slot
                    if let Some((k, v)) = s.msgs.iter().next() {
                        if let Some(p) = pid_at(&mut c.rng, pos(k, m.cofactor, m.depth) as u64, m.cofactor, m.depth) {
                            o.msgs.remove(k);
                            o.msgs.insert(p, *v);
                        }
                    }
                }
                8 => {
                    // two messages exchanged
                    let ks: Vec<H> = s.msgs.keys().copied().collect();
                    if ks.len() > 1 {
                        let (a, b) = (*c.rng.pick(&ks), *c.rng.pick(&ks));
                        o.msgs.insert(a, s.msgs[&b]);
                        o.msgs.insert(b, s.msgs[&a]);
                    }
                }
                9 => o.min_depth = 0,
                10 => {
                    o.msgs.clear();
                    o.min_depth = if c.rng.bool() { 0 } else { m.depth };
                }
                // collides at every depth
                _ => {
                    if !c.rng.one_in(30) {
                        continue;
                    }
                    match gen_forced(&mut c.rng, 29, 31, 0, false) {
                        Some(f) => o = f,
                        None => continue,
                    }
                }
            }
            let want = match tree_of(&o) {
                Err(_) => Err(VerifyError::InvalidMessage),
                Ok(m2) if m2 == m => Ok(()),
                Ok(_) => Err(VerifyError::InvalidCommitment),
            };
            let got = verify_tree(&t, &o);
            ensure_eq!(got, want, "tree of [{}] against source [{}]", show_src(&s), show_src(&o));
            match want {
                Ok(()) => c.ev("tree_accepted", 1),
                Err(VerifyError::InvalidMessage) => c.ev("tree_invalid_message", 1),
                Err(_) => c.ev("tree_refused", 1),
            }
            c.sig(&[3, kind, want.is_ok() as u64, m.depth as u64, m.cofactor as u64, m.msgs.len() as u64]);
        }
        // random entropy never verifies
        let o = source_of(&s.msgs, s.min_depth, None);
        ensure!(t.verify(&o) == Err(VerifyError::InvalidCommitment), "a source without static entropy verified");
        ensure!(hex(&enc(&t)?) == hex(&m.strict()), "verified tree was altered");
        Ok(())
    })
    .require("accepted", 200)
    .require("invalid_message", 200)
    .require("invalid_commitment", 200)
    .require("tree_accepted", 1_000)
    .require("tree_refused", 1_000)
    .require("tree_invalid_message", 50)
}

// ---------------------------------------------------------------- C18

/// Container compared by `val` alone.
#[derive(Clone, Debug)]
pub struct Cont {
    val: u64,
    noise: u64,
}
impl VerifyEq for Cont {
    fn verify_eq(&self, o: &Self) -> bool { self.val == o.val }
}
/// How restoration goes, and whether the proof depends on the message.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Mode {
    /// The proof keeps the original and nothing of the message.
    Keeps,
    /// The proof keeps the tweak, which is subtracted from the container.
    Tweak,
    /// The proof keeps both.
    Both,
}
/// Proof compared without `noise`.
#[derive(Clone, Debug)]
pub struct Prf {
    mode: Mode,
    orig: u64,
    tweak: u64,
    noise: u64,
    fail: Option<EmbedVerifyError<Fail>>,
}
impl VerifyEq for Prf {
    fn verify_eq(&self, o: &Self) -> bool { self.mode == o.mode && self.orig == o.orig && self.tweak == o.tweak }
}

fn embed_fails(val: u64, msg: u64) -> Option<Fail> {
    let x = h(1, msg ^ val.rotate_left(17));
    (x % 6 == 0).then_some(Fail(x))
}
fn tweak_of(msg: u64) -> u64 { h(2, msg % 1000) }

macro_rules! embed {
    ($c:ident, $p:ident, $mode:expr) => {
        #[derive(Clone, Debug)]
        pub struct $c(Cont);
        impl VerifyEq for $c {
            fn verify_eq(&self, o: &Self) -> bool { self.0.verify_eq(&o.0) }
        }
        #[derive(Clone, Debug)]
        pub struct $p(Prf);
        impl VerifyEq for $p {
            fn verify_eq(&self, o: &Self) -> bool { self.0.verify_eq(&o.0) }
        }
        impl EmbedCommitProof<u64, $c, ProtA> for $p {
            fn restore_original_container(&self, c: &$c) -> Result<$c, EmbedVerifyError<Fail>> {
                if let Some(f) = &self.0.fail {
                    return Err(f.clone());
                }
                Ok($c(Cont { val: restored(&c.0, &self.0), noise: 1 }))
            }
        }
        impl EmbedCommitVerify<u64, ProtA> for $c {
            type Proof = $p;
            type CommitError = Fail;
            fn embed_commit(&mut self, msg: &u64) -> Result<$p, Fail> {
                if let Some(f) = embed_fails(self.0.val, *msg) {
                    return Err(f);
                }
                let (val, orig, tweak) = embedded(self.0.val, *msg, $mode);
                self.0.val = val;
                self.0.noise = self.0.noise.wrapping_add(1);
                Ok($p(Prf { mode: $mode, orig, tweak, noise: 2, fail: None }))
            }
        }
    };
}
fn restored(c: &Cont, p: &Prf) -> u64 {
    match p.mode {
        Mode::Keeps | Mode::Both => p.orig,
        Mode::Tweak => c.val.wrapping_sub(p.tweak),
    }
}
fn embedded(val: u64, msg: u64, mode: Mode) -> (u64, u64, u64) {
    let t = tweak_of(msg);
    (
        val.wrapping_add(t),
        if mode == Mode::Tweak { 0 } else { val },
        if mode == Mode::Keeps { 0 } else { t },
    )
}
embed!(ContK, PrfK, Mode::Keeps);
embed!(ContT, PrfT, Mode::Tweak);
embed!(ContB, PrfB, Mode::Both);

/// Container and proof whose equivalence is their `Eq`.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Bytes(Vec<u8>);
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Head(usize);
impl EmbedCommitProof<Vec<u8>, Bytes, ProtB> for Head {
    fn restore_original_container(&self, c: &Bytes) -> Result<Bytes, EmbedVerifyError<Fail>> {
        if self.0 > c.0.len() {
            return Err(EmbedVerifyError::InvalidProof);
        }
        Ok(Bytes(c.0[..self.0].to_vec()))
    }
}
impl EmbedCommitVerify<Vec<u8>, ProtB> for Bytes {
    type Proof = Head;
    type CommitError = Fail;
    fn embed_commit(&mut self, m: &Vec<u8>) -> Result<Head, Fail> {
        if m.len() > 20 {
            return Err(Fail(m.len() as u64));
        }
        let n = self.0.len();
        self.0.extend(m);
        Ok(Head(n))
    }
}

/// The verdict by the statement.
fn embed_verdict(c: &Cont, p: &Prf, msg: u64, mode: Mode) -> Result<(), EmbedVerifyError<Fail>> {
    if let Some(f) = &p.fail {
        return Err(f.clone());
    }
    let orig = restored(c, p);
    if let Some(f) = embed_fails(orig, msg) {
        return Err(EmbedVerifyError::InvalidMessage(f));
    }
    let (val, o, t) = embedded(orig, msg, mode);
    if (mode, o, t) != (p.mode, p.orig, p.tweak) {
        return Err(EmbedVerifyError::ProofMismatch);
    }
    if val != c.val {
        return Err(EmbedVerifyError::CommitmentMismatch);
    }
    Ok(())
}

fn name<E: std::error::Error>(r: &Result<(), EmbedVerifyError<E>>) -> &'static str {
    match r {
        Ok(()) => "accepted",
        Err(EmbedVerifyError::CommitmentMismatch) => "commitment_mismatch",
        Err(EmbedVerifyError::InvalidMessage(_)) => "invalid_message",
        Err(EmbedVerifyError::InvalidProof) => "invalid_proof",
        Err(EmbedVerifyError::ProofMismatch) => "proof_mismatch",
    }
}

macro_rules! run_embed {
    ($c:expr, $cont:ident, $prf:ident, $mode:expr) => {{
        let c: &mut Case = $c;
        let orig = c.rng.edge64();
        let mut msg = small(&mut c.rng);
        while embed_fails(orig, msg).is_some() {
            msg = msg.wrapping_add(1);
        }
        let mut cont = $cont(Cont { val: orig, noise: c.rng.u64() });
        let mut p = cont.embed_commit(&msg).unwrap();
        // honest, then altered in one or several ways
        let mut m2 = msg;
        for _ in 0..c.rng.below(4) {
            match c.rng.below(11) {
                0 => cont.0.val = c.rng.edge64(),
                1 => cont.0.noise = c.rng.u64(),
                2 => p.0.orig ^= 1 << c.rng.below(64),
                3 => p.0.tweak ^= 1 << c.rng.below(64),
                4 => p.0.noise = c.rng.u64(),
                5 => m2 = small(&mut c.rng),
                6 => m2 = msg.wrapping_add(1000),
                7 => p.0.mode = *c.rng.pick(&[Mode::Keeps, Mode::Tweak, Mode::Both]),
                8 => {
                    // original and container moved together
                    let d = c.rng.u64();
                    cont.0.val = cont.0.val.wrapping_add(d);
                    p.0.orig = p.0.orig.wrapping_add(d);
                }
                9 => {
                    p.0.fail = Some(match c.rng.below(4) {
                        0 => EmbedVerifyError::CommitmentMismatch,
                        1 => EmbedVerifyError::InvalidMessage(Fail(c.rng.u64())),
                        2 => EmbedVerifyError::InvalidProof,
                        _ => EmbedVerifyError::ProofMismatch,
                    })
                }
                _ => {
                    let d = c.rng.u64();
                    cont.0.val = cont.0.val.wrapping_add(d);
                    p.0.tweak = p.0.tweak.wrapping_add(d);
                }
            }
        }
        let (before_c, before_p) = (format!("{cont:?}"), format!("{p:?}"));
        let want = embed_verdict(&cont.0, &p.0, m2, $mode);
        let got = cont.verify(&m2, &p);
        ensure_eq!(got, want, "{before_c} with {before_p} for message {m2}");
        ensure!(before_c == format!("{cont:?}") && before_p == format!("{p:?}"), "container or proof altered by verification");
        c.ev(name(&want), 1);
        if p.0.fail.is_some() {
            c.ev("passed_through", 1);
        }
        c.sig(&[$mode as u64, name(&want).len() as u64, p.0.fail.is_some() as u64, (m2 == msg) as u64, m2.min(30), cont.0.val >> 60]);
        c.sample(|| format!("{before_c} {before_p} message {m2}: {want:?}"));
        // again: verification is repeatable
        ensure_eq!(cont.verify(&m2, &p), want, "repeated verification");
    }};
}

pub fn c18() -> Prop {
    Prop::new(
        "C18",
        "embed-commit schemes with own equivalence (proof keeping the original, the tweak, or both; container and proof with parts not \
         compared) and with Eq, honest and altered in up to three ways, every restoration failure; distinct by scheme, verdict and alteration",
    )
    .family("equivalence", 20_000, 1_000_000, |c| {
        match c.idx % 3 {
            0 => run_embed!(c, ContK, PrfK, Mode::Keeps),
            1 => run_embed!(c, ContT, PrfT, Mode::Tweak),
            _ => run_embed!(c, ContB, PrfB, Mode::Both),
        }
        Ok(())
    })
    .family("bytes", 4_000, 200_000, |c| {
        let n = c.rng.below(8) as usize;
        let (n2, m2) = (c.rng.below(8) as usize, c.rng.below(24) as usize);
        let (b, msg) = (c.rng.bytes(n), c.rng.bytes(m2.min(20)));
        let mut cont = Bytes(b);
        let mut p = cont.embed_commit(&msg).map_err(|e| e.to_string())?;
        let mut m = msg.clone();
        match c.rng.below(6) {
            0 => {}
            1 => p.0 = n2,
            2 => m = c.rng.bytes(m2),
            3 if !cont.0.is_empty() => {
                let at = c.rng.below(cont.0.len() as u64) as usize;
                cont.0[at] ^= 1;
            }
            4 => p.0 = cont.0.len() + 1 + n2,
            _ => m.push(0),
        }
        let want = if p.0 > cont.0.len() {
            Err(EmbedVerifyError::InvalidProof)
        } else if m.len() > 20 {
            Err(EmbedVerifyError::InvalidMessage(Fail(m.len() as u64)))
        } else if cont.0[p.0..] != m[..] {
            Err(EmbedVerifyError::CommitmentMismatch)
        } else {
            Ok(())
        };
        let got = cont.verify(&m, &p);
        ensure_eq!(got, want, "{cont:?} {p:?} message {}", hex(&m));
        c.ev(name(&want), 1);
        c.sig(&[9, name(&want).len() as u64, cont.0.len() as u64, p.0 as u64, m.len() as u64]);
        Ok(())
    })
    .family("equality", 2_000, 20_000, |c| {
        // the equivalence of Eq types is their equality
        let (a, b) = (c.rng.below(3), c.rng.below(3));
        ensure_eq!(a.verify_eq(&b), a == b, "equivalence of {a} and {b}");
        let (x, y) = (Loose { val: a, note: c.rng.u64() }, Loose { val: b, note: c.rng.u64() });
        ensure_eq!(x.verify_eq(&y), a == b, "equivalence of {x:?} and {y:?}");
        let (x, y) = (vec![a, b], vec![b, a]);
        ensure_eq!(x.verify_eq(&y), a == b, "equivalence of lists");
        c.sig(&[a, b]);
        Ok(())
    })
    .require("accepted", 2_000)
    .require("commitment_mismatch", 1_000)
    .require("proof_mismatch", 1_000)
    .require("invalid_message", 500)
    .require("invalid_proof", 200)
    .require("passed_through", 500)
}

// ---------------------------------------------------------------- C19

/// Source; the commitment is compared without its noise, the proof without its own.
#[derive(Clone, Debug)]
pub struct Source {
    key: u64,
}
#[derive(Clone, Debug)]
pub struct Cmt {
    val: u64,
    noise: u64,
}
impl VerifyEq for Cmt {
    fn verify_eq(&self, o: &Self) -> bool { self.val == o.val }
}
#[derive(Clone, Debug)]
pub struct Suppl {
    data: u64,
}
/// `from_cmt`: the source is restored from the commitment, otherwise from the proof.
#[derive(Clone, Debug)]
pub struct CPrf {
    suppl: Suppl,
    key: u64,
    from_cmt: bool,
    noise: u64,
}
impl VerifyEq for CPrf {
    fn verify_eq(&self, o: &Self) -> bool { self.suppl.data == o.suppl.data && self.key == o.key && self.from_cmt == o.from_cmt }
}
/// Outcome of convolving: value, data, key and kind of the proof made.
fn convolved(key: u64, data: u64, msg: u64) -> Option<(u64, u64, u64, bool)> {
    let x = h(3, key ^ data.rotate_left(13) ^ (msg % 1000).rotate_left(40));
    if x % 6 == 0 {
        return None;
    }
    // some supplements are normalised: the proof made has another one
    let d = if data % 8 == 7 { data ^ 1 } else { data };
    Some(if data & 1 == 0 {
        // reversible: the commitment allows restoring the key
        (key.wrapping_add(h(4, data ^ (msg % 1000))), d, 0, true)
    } else {
        (x, d, key, false)
    })
}
fn restored_key(p: &CPrf, c: &Cmt) -> u64 {
    if p.from_cmt {
        // without the message: the high half is taken from the commitment
        c.val & !0xFFFF
    } else {
        p.key
    }
}
impl ConvolveCommitProof<u64, Source, ProtA> for CPrf {
    type Suppl = Suppl;
    fn restore_original(&self, c: &Cmt) -> Source { Source { key: restored_key(self, c) } }
    fn extract_supplement(&self) -> &Suppl { &self.suppl }
}
impl ConvolveCommit<u64, CPrf, ProtA> for Source {
    type Commitment = Cmt;
    type CommitError = Fail;
    fn convolve_commit(&self, s: &Suppl, m: &u64) -> Result<(Cmt, CPrf), Fail> {
        match convolved(self.key, s.data, *m) {
            None => Err(Fail(*m)),
            Some((val, data, key, from_cmt)) => {
                Ok((Cmt { val, noise: 1 }, CPrf { suppl: Suppl { data }, key, from_cmt, noise: 2 }))
            }
        }
    }
}
fn convolve_verdict(p: &CPrf, c: &Cmt, m: u64) -> Result<(), ConvolveVerifyError> {
    match convolved(restored_key(p, c), p.suppl.data, m) {
        None => Err(ConvolveVerifyError::ImpossibleMessage),
        Some((_, d, k, f)) if (d, k, f) != (p.suppl.data, p.key, p.from_cmt) => Err(ConvolveVerifyError::InvalidProof),
        Some((v, ..)) if v != c.val => Err(ConvolveVerifyError::CommitmentMismatch),
        Some(_) => Ok(()),
    }
}

/// Public-key style: 32-byte supplement is the proof, Eq throughout.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Key(u64);
impl ConvolveCommit<Vec<u8>, [u8; 32], ProtB> for Key {
    type Commitment = (u64, [u8; 32]);
    type CommitError = Fail;
    fn convolve_commit(&self, s: &[u8; 32], m: &Vec<u8>) -> Result<((u64, [u8; 32]), [u8; 32]), Fail> {
        if m.len() > 20 {
            return Err(Fail(0));
        }
        let mut v = s.to_vec();
        v.extend(self.0.to_le_bytes());
        v.extend(m);
        Ok(((self.0, sha(&v)), *s))
    }
}
impl ConvolveCommitProof<Vec<u8>, Key, ProtB> for [u8; 32] {
    type Suppl = [u8; 32];
    fn restore_original(&self, c: &(u64, [u8; 32])) -> Key { Key(c.0) }
    fn extract_supplement(&self) -> &[u8; 32] { self }
}

fn cname(r: &Result<(), ConvolveVerifyError>) -> &'static str {
    match r {
        Ok(()) => "accepted",
        Err(ConvolveVerifyError::CommitmentMismatch) => "commitment_mismatch",
        Err(ConvolveVerifyError::ImpossibleMessage) => "impossible_message",
        Err(ConvolveVerifyError::InvalidProof) => "invalid_proof",
    }
}

pub fn c19() -> Prop {
    Prop::new(
        "C19",
        "convolve-commit schemes with own equivalence (source from the proof or from the commitment, normalised supplements, parts not \
         compared) and with Eq, honest and altered in up to three ways; distinct by verdict and alteration",
    )
    .family("equivalence", 20_000, 1_000_000, |c| {
        let key = if c.rng.bool() { c.rng.edge64() & !0xFFFF } else { c.rng.edge64() };
        let data = small(&mut c.rng);
        let mut msg = small(&mut c.rng);
        while convolved(key, data, msg).is_none() {
            msg = msg.wrapping_add(1);
        }
        let (mut cmt, mut p) = Source { key }.convolve_commit(&Suppl { data }, &msg).unwrap();
        let mut m2 = msg;
        for _ in 0..c.rng.below(4) {
            match c.rng.below(9) {
                0 => cmt.val = c.rng.edge64(),
                1 => cmt.val ^= 1 << c.rng.below(64),
                2 => cmt.noise = c.rng.u64(),
                3 => p.suppl.data = small(&mut c.rng),
                4 => p.key ^= 1 << c.rng.below(64),
                5 => p.noise = c.rng.u64(),
                6 => p.from_cmt = !p.from_cmt,
                7 => m2 = small(&mut c.rng),
                _ => m2 = msg.wrapping_add(1000),
            }
        }
        let before = format!("{p:?} {cmt:?}");
        let want = convolve_verdict(&p, &cmt, m2);
        let got = ConvolveCommitProof::<u64, Source, ProtA>::verify(&p, &m2, &cmt);
        ensure_eq!(got, want, "{before} message {m2}");
        ensure!(before == format!("{p:?} {cmt:?}"), "proof or commitment altered by verification");
        c.ev(cname(&want), 1);
        c.sample(|| format!("{before} message {m2}: {want:?}"));
        c.sig(&[cname(&want).len() as u64, p.from_cmt as u64, (m2 == msg) as u64, p.suppl.data.min(40), m2.min(40)]);
        ensure_eq!(ConvolveCommitProof::<u64, Source, ProtA>::verify(&p, &m2, &cmt), want, "repeated verification");
        Ok(())
    })
    .family("bytes", 4_000, 200_000, |c| {
        let s = c.rng.h32();
        let n = c.rng.below(21) as usize;
        let msg = c.rng.bytes(n);
        let (mut cmt, mut p) = Key(c.rng.edge64()).convolve_commit(&s, &msg).unwrap();
        let mut m = msg.clone();
        let k = c.rng.below(6);
        match k {
            0 => {}
            1 => cmt.0 ^= 1 << c.rng.below(64),
            2 => cmt.1[c.rng.below(32) as usize] ^= 1 << c.rng.below(8),
            3 => p[c.rng.below(32) as usize] ^= 1 << c.rng.below(8),
            4 => m.push(c.rng.u8()),
            _ => m = c.rng.bytes(25),
        }
        let want = if m.len() > 20 {
            Err(ConvolveVerifyError::ImpossibleMessage)
        } else if k != 0 {
            Err(ConvolveVerifyError::CommitmentMismatch)
        } else {
            Ok(())
        };
        let got = ConvolveCommitProof::<Vec<u8>, Key, ProtB>::verify(&p, &m, &cmt);
        ensure_eq!(got, want, "alteration {k} of a commitment to {}", hex(&msg));
        c.ev(cname(&want), 1);
        c.sig(&[9, k, n as u64]);
        Ok(())
    })
    .require("accepted", 2_000)
    .require("commitment_mismatch", 2_000)
    .require("invalid_proof", 2_000)
    .require("impossible_message", 1_000)
}
