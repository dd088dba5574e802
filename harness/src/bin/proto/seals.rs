//! C20: seal media with every outcome, recording what they are asked.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::error::Error as _;
use std::rc::Rc;

use single_use_seals::{ClientSideWitness, NoWitness, PublishedWitness, SealError, SealWitness, SingleUseSeal};
use vharness::*;

const LIB: &str = "VerifSeals";

#[derive(Clone, PartialEq, Eq, Debug)]
enum Ev {
    /// seal, message, publication, client key
    Included(u32, u64, u32, u64),
    Convolve(u64, u64),
    Published(u32, u64),
}
thread_local! { static LOG: RefCell<Vec<Ev>> = const { RefCell::new(vec![]) }; }
fn log(e: Ev) { LOG.with(|l| l.borrow_mut().push(e)) }
fn take_log() -> Vec<Ev> { LOG.with(|l| l.take()) }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Display)]
#[display("seal#{0}")]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Seal(u32);
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Public {
    id: u32,
    /// Seal n is included for message m if bit (n + m) mod 64 is set.
    mask: u64,
    commitment: u64,
}
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Client {
    key: u64,
    fails: u8,
}
#[derive(Clone, PartialEq, Eq, Debug, Display, Error)]
#[display("client failure {0}")]
pub struct CErr(u8);
#[derive(Clone, PartialEq, Eq, Debug, Display, Error)]
#[display("publication {0} lacks {1}")]
pub struct PErr(u32, u64);
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Display)]
#[display("pub:{0}")]
pub struct PubId(u32);

fn included(seal: u32, msg: u64, mask: u64) -> bool { mask >> ((seal as u64 + msg % 64) % 64) & 1 == 1 }
fn convolve(key: u64, msg: u64) -> u64 { (key ^ msg).wrapping_mul(0x9E3779B97F4A7C15) }

impl SingleUseSeal for Seal {
    type Message = u64;
    type PubWitness = Public;
    type CliWitness = Client;
    fn is_included(&self, msg: u64, w: &SealWitness<Self>) -> bool {
        log(Ev::Included(self.0, msg, w.published.id, w.client.key));
        included(self.0, msg, w.published.mask)
    }
}
impl ClientSideWitness for Client {
    type Seal = Seal;
    type Proof = u64;
    type Error = CErr;
    fn convolve_commit(&self, msg: u64) -> Result<u64, CErr> {
        log(Ev::Convolve(self.key, msg));
        if self.fails != 0 {
            return Err(CErr(self.fails));
        }
        Ok(convolve(self.key, msg))
    }
    fn merge(&mut self, _: Self) -> Result<(), impl std::error::Error> { Ok::<_, CErr>(()) }
}
impl PublishedWitness<Seal> for Public {
    type PubId = PubId;
    type Error = PErr;
    fn pub_id(&self) -> PubId { PubId(self.id) }
    fn verify_commitment(&self, proof: u64) -> Result<(), PErr> {
        log(Ev::Published(self.id, proof));
        if proof == self.commitment { Ok(()) } else { Err(PErr(self.id, proof)) }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Verdict {
    Closed,
    NotIncluded(u32, u32),
    Client(u8),
    Published(u32, u64),
}
fn verdict_of(r: &Result<(), SealError<Seal>>) -> Verdict {
    match r {
        Ok(()) => Verdict::Closed,
        Err(SealError::NotIncluded(s, p)) => Verdict::NotIncluded(s.0, p.0),
        Err(SealError::Client(e)) => Verdict::Client(e.0),
        Err(SealError::Published(e)) => Verdict::Published(e.0, e.1),
    }
}
fn expected(seals: &[Seal], w: &SealWitness<Seal>, msg: u64) -> Verdict {
    if let Some(s) = seals.iter().find(|s| !included(s.0, msg, w.published.mask)) {
        return Verdict::NotIncluded(s.0, w.published.id);
    }
    if w.client.fails != 0 {
        return Verdict::Client(w.client.fails);
    }
    let p = convolve(w.client.key, msg);
    if p != w.published.commitment {
        return Verdict::Published(w.published.id, p);
    }
    Verdict::Closed
}

/// Checks the recorded questions: every seal asked about, in order, about this message and witness,
/// before the client, before the publication.
fn check_log(evs: &[Ev], seals: &[Seal], w: &SealWitness<Seal>, msg: u64, v: &Verdict) -> R {
    let mut asked = vec![];
    let mut stage = 0;
    for e in evs {
        match e {
            Ev::Included(s, m, p, k) => {
                ensure!(stage == 0, "seal {s} checked after the client or publication: {evs:?}");
                ensure!(*m == msg && *p == w.published.id && *k == w.client.key, "seal {s} asked about another message or witness: {e:?}");
                if asked.last() != Some(s) {
                    asked.push(*s);
                }
            }
            Ev::Convolve(k, m) => {
                ensure!(stage <= 1, "client asked after the publication: {evs:?}");
                ensure!(*k == w.client.key && *m == msg, "client asked about another message: {e:?}");
                stage = 1;
            }
            Ev::Published(p, proof) => {
                ensure!(stage >= 1, "publication checked before the client: {evs:?}");
                ensure!(*p == w.published.id && *proof == convolve(w.client.key, msg), "publication asked about another proof: {e:?}");
                stage = 2;
            }
        }
    }
    let mut want: Vec<u32> = seals.iter().map(|s| s.0).collect();
    want.dedup();
    if matches!(v, Verdict::NotIncluded(..)) {
        ensure!(stage == 0, "client or publication asked though a seal isn't included: {evs:?}");
        ensure!(want.starts_with(&asked) || asked.starts_with(&want), "seals {want:?} asked about as {asked:?}");
    } else {
        ensure_eq!(asked, want, "seals asked about");
        ensure!(stage == if matches!(v, Verdict::Client(_)) { 1 } else { 2 }, "checks skipped: {evs:?}");
    }
    Ok(())
}

fn check_text(r: &Result<(), SealError<Seal>>) -> R {
    let Err(e) = r else { return Ok(()) };
    let src = e.source().map(|s| s.to_string());
    let (text, cause) = match e {
        SealError::NotIncluded(s, p) => (format!("seal seal#{} is not included in the witness pub:{}", s.0, p.0), None),
        SealError::Client(e) => (format!("client failure {}", e.0), Some(format!("client failure {}", e.0))),
        SealError::Published(e) => {
            let t = format!("publication {} lacks {}", e.0, e.1);
            (t.clone(), Some(t))
        }
    };
    ensure_eq!(e.to_string(), text, "text of the error");
    ensure_eq!(src, cause, "cause of the error");
    ensure_eq!(e.clone().to_string(), text, "text of the cloned error");
    Ok(())
}

// ---------------------------------------------------------------- a ledger with one commitment per seal

/// Published: seal -> commitment to one message; no client data.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Display)]
#[display("{0}")]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct LSeal(u32);
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Tx {
    id: u32,
    spent: amplify::confinement::TinyVec<LSeal>,
    hash: [u8; 32],
}
/// Stands for [`NoWitness`], which has no strict encoding of its own.
#[derive(Clone, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Nothing(u8);
impl PartialEq for Nothing {
    fn eq(&self, _: &Self) -> bool { NoWitness::<LSeal>::default() == NoWitness::<LSeal>::default() }
}
impl Eq for Nothing {}
impl ClientSideWitness for Nothing {
    type Seal = LSeal;
    type Proof = <NoWitness<LSeal> as ClientSideWitness>::Proof;
    type Error = <NoWitness<LSeal> as ClientSideWitness>::Error;
    fn convolve_commit(&self, msg: [u8; 32]) -> Result<Self::Proof, Self::Error> { NoWitness::<LSeal>::default().convolve_commit(msg) }
    fn merge(&mut self, _: Self) -> Result<(), impl std::error::Error> {
        let mut n = NoWitness::<LSeal>::default();
        n.merge(NoWitness::default()).map_err(|e| CErr(e.to_string().len() as u8))
    }
}
impl SingleUseSeal for LSeal {
    type Message = [u8; 32];
    type PubWitness = Tx;
    type CliWitness = Nothing;
    fn is_included(&self, _: [u8; 32], w: &SealWitness<Self>) -> bool { w.published.spent.contains(self) }
}
impl PublishedWitness<LSeal> for Tx {
    type PubId = u32;
    type Error = CErr;
    fn pub_id(&self) -> u32 { self.id }
    fn verify_commitment(&self, msg: [u8; 32]) -> Result<(), CErr> { if sha(&msg) == self.hash { Ok(()) } else { Err(CErr(1)) } }
}

pub fn c20() -> Prop {
    Prop::new(
        "C20",
        "witnesses over media with every combination of included seals, client failure and publication mismatch, for 0 to 700 seals given as \
         values, references, boxes and iterators; ledgers with one commitment per seal; distinct by verdict, number and place of seals",
    )
    .family("verdicts", 20_000, 600_000, |c| {
        let n = match c.rng.below(400) {
            0 | 1 => c.rng.range(200, 700),
            2..=41 => c.rng.below(41),
            _ => c.rng.below(6),
        };
        let dup = c.rng.one_in(4);
        let seals: Vec<Seal> = (0..n).map(|_| Seal(if dup { c.rng.below(3) as u32 } else { c.rng.u32() >> c.rng.below(27) })).collect();
        let msg = c.rng.edge64();
        let key = c.rng.edge64();
        let mut mask = match c.rng.below(3) {
            0 => c.rng.u64(),
            _ => u64::MAX,
        };
        if n > 0 && c.rng.one_in(3) {
            // exactly one is missing, at any place
            let s = &seals[c.rng.below(n) as usize];
            mask &= !(1 << ((s.0 as u64 + msg % 64) % 64));
        }
        let fails = if c.rng.one_in(3) { 1 + c.rng.below(255) as u8 } else { 0 };
        let commitment = if c.rng.bool() { convolve(key, msg) } else { convolve(key, msg ^ (1 << c.rng.below(64))) };
        let w = SealWitness::<Seal>::new(Public { id: c.rng.u32(), mask, commitment }, Client { key, fails });
        let want = expected(&seals, &w, msg);
        c.sample(|| format!("{} seals {:?}.. message {msg} client {:?} mask {mask:#x}: {want:?}", n, seals.first(), w.client));
        take_log();
        let boxed: Vec<Box<Seal>> = seals.iter().cloned().map(Box::new).collect();
        let hint = c.rng.below(HINTS as u64) as usize;
        for form in 0..6 {
            let r = match form {
                0 => w.verify_seals_closing(&seals, msg),
                1 => w.verify_seals_closing(seals.clone(), msg),
                2 => w.verify_seals_closing(boxed.clone(), msg),
                3 => w.verify_seals_closing(seals.iter().filter(|_| true), msg),
                4 => w.verify_seals_closing(Hinted(seals.iter(), hint), msg),
                _ => w.verify_seals_closing(seals.iter().map(|s| Rc::new(s.clone())), msg),
            };
            let evs = take_log();
            ensure_eq!(verdict_of(&r), want, "closing of {seals:?} over {msg} by {:?} {:?}, form {form}", w.published, w.client);
            check_log(&evs, &seals, &w, msg, &want)?;
            check_text(&r)?;
            c.ev("verifications", 1);
            c.ev("questions", evs.len() as u64);
        }
        if let Some(s) = seals.first() {
            let want1 = expected(&seals[..1], &w, msg);
            for form in 0..3 {
                let r = match form {
                    0 => w.verify_seal_closing(s, msg),
                    1 => w.verify_seal_closing(s.clone(), msg),
                    _ => w.verify_seal_closing(Box::new(s.clone()), msg),
                };
                let evs = take_log();
                ensure_eq!(verdict_of(&r), want1, "closing of {s:?} over {msg} by {:?} {:?}", w.published, w.client);
                check_log(&evs, &seals[..1], &w, msg, &want1)?;
                check_text(&r)?;
                c.ev("single", 1);
            }
        }
        let (k, at) = match &want {
            Verdict::Closed => ("closed", 0),
            Verdict::NotIncluded(s, _) => ("not_included", seals.iter().position(|x| x.0 == *s).unwrap()),
            Verdict::Client(_) => ("client_error", 0),
            Verdict::Published(..) => ("publication_error", 0),
        };
        c.ev(k, 1);
        c.sig(&[k.len() as u64, n, at as u64, dup as u64, fails.min(3) as u64]);
        // several things wrong at once: the order decides
        let wrong = seals.iter().filter(|s| !included(s.0, msg, mask)).count() as u64 + (fails > 0) as u64 + (commitment != convolve(key, msg)) as u64;
        if wrong > 1 {
            c.ev("several_wrong", 1);
        }
        Ok(())
    })
    .family("ledger", 1_500, 40_000, |c| {
        // one publication per seal, then anyone tries any message with any publication
        let n = c.rng.range(1, 12) as u32;
        let mut txs: Vec<Tx> = vec![];
        let mut spent_in: BTreeMap<u32, usize> = BTreeMap::new();
        let mut msgs: Vec<H> = vec![];
        let mut next = 0;
        while next < n {
            let k = c.rng.range(1, 3).min((n - next) as u64) as u32;
            let m = c.rng.h32();
            msgs.push(m);
            let spent = (next..next + k).map(LSeal).collect::<Vec<_>>();
            (next..next + k).for_each(|s| { spent_in.insert(s, txs.len()); });
            txs.push(Tx { id: txs.len() as u32, spent: amplify::confinement::TinyVec::from_checked(spent), hash: sha(&m) });
            next += k;
        }
        let mut closed: BTreeMap<u32, H> = BTreeMap::new();
        for _ in 0..60 {
            let s = c.rng.below(n as u64 + 2) as u32;
            let t = c.rng.below(txs.len() as u64) as usize;
            let mut m = if c.rng.bool() { msgs[t] } else { *c.rng.pick(&msgs) };
            if c.rng.one_in(4) {
                m[c.rng.below(32) as usize] ^= 1 << c.rng.below(8);
            }
            let w = SealWitness::<LSeal>::new(txs[t].clone(), Nothing(c.rng.u8()));
            let r = w.verify_seal_closing(LSeal(s), m);
            let want = spent_in.get(&s) == Some(&t) && m == msgs[t];
            ensure!(r.is_ok() == want, "seal {s} over {} by publication {t}: {:?}", hex(&m), r.err().map(|e| e.to_string()));
            if want {
                if let Some(prev) = closed.insert(s, m) {
                    ensure!(prev == m, "seal {s} closed over two messages");
                    c.ev("closed_again", 1);
                }
                c.ev("ledger_closed", 1);
            } else {
                let ok = match &r {
                    Err(SealError::NotIncluded(x, id)) => spent_in.get(&s) != Some(&t) && x.0 == s && *id == txs[t].id,
                    Err(SealError::Published(_)) => spent_in.get(&s) == Some(&t),
                    _ => false,
                };
                ensure!(ok, "seal {s} by publication {t} refused with {}", r.unwrap_err());
                c.ev("ledger_refused", 1);
            }
        }
        // the witness without client data
        let m = c.rng.h32();
        let (mut a, b) = (NoWitness::<LSeal>::default(), NoWitness::<LSeal>::default());
        ensure!(a.convolve_commit(m) == Ok(m), "the empty witness changes the message");
        ensure!(a == b, "empty witnesses differ");
        ensure!(a.merge(b).is_ok(), "empty witnesses don't merge");
        ensure!(a.convolve_commit(m) == Ok(m), "the merged empty witness changes the message");
        c.sig(&[n as u64, txs.len() as u64, closed.len() as u64]);
        Ok(())
    })
    .require("closed", 1_000)
    .require("not_included", 1_000)
    .require("client_error", 1_000)
    .require("publication_error", 1_000)
    .require("several_wrong", 1_000)
    .require("ledger_closed", 1_000)
    .require("closed_again", 300)
}
