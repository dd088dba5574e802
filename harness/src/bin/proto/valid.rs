//! C21, C22: data sets and resolvers reporting numbered entries, statuses against four lists.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use client_side_validation::{
    ClientData, ClientSideValidate, SealIssue, SealResolver, Status, ValidationFailure, ValidationLog, ValidationReport, Validity,
};
use vharness::*;

macro_rules! entry {
    ($n:ident) => {
        #[derive(Clone, PartialEq, Eq, Hash, Debug, Default, Display, Error, serde::Serialize, serde::Deserialize)]
        #[display("{0}")]
        pub struct $n(u32, u32);
    };
}
entry!(Issue);
entry!(Fail);
entry!(Warn);
entry!(Info);
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Report;
impl ValidationLog for Issue {}
impl SealIssue for Issue {
    type Seal = u32;
    fn seal(&self) -> &u32 { &self.1 }
}
impl ValidationLog for Fail {}
impl ValidationFailure for Fail {}
impl ValidationReport for Report {
    type SealIssue = Issue;
    type Failure = Fail;
    type Warning = Warn;
    type Info = Info;
}

/// The model of a status.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
struct Lists {
    issues: Vec<Issue>,
    fails: Vec<Fail>,
    warns: Vec<Warn>,
    infos: Vec<Info>,
}
impl Lists {
    fn add(&mut self, o: &Lists) {
        self.issues.extend_from_slice(&o.issues);
        self.fails.extend_from_slice(&o.fails);
        self.warns.extend_from_slice(&o.warns);
        self.infos.extend_from_slice(&o.infos);
    }
    fn status(&self) -> Status<Report> {
        Status { seal_issues: self.issues.clone(), failures: self.fails.clone(), warnings: self.warns.clone(), info: self.infos.clone() }
    }
    fn of(s: &Status<Report>) -> Lists {
        Lists { issues: s.seal_issues.clone(), fails: s.failures.clone(), warns: s.warnings.clone(), infos: s.info.clone() }
    }
    fn verdict(&self) -> (Validity, &'static str) {
        if !self.fails.is_empty() {
            (Validity::Invalid, "invalid")
        } else if !self.issues.is_empty() {
            (Validity::SealIssues, "unresolved seal issues")
        } else {
            (Validity::Valid, "valid")
        }
    }
    fn len(&self) -> usize { self.issues.len() + self.fails.len() + self.warns.len() + self.infos.len() }
    /// Random lists; `next` numbers the entries, equal ones included at times.
    fn gen(rng: &mut Rng, next: &mut u32, max: u64) -> Lists {
        let mut l = Lists::default();
        // all different, or hardly any
        let style = rng.below(6);
        for _ in 0..rng.below(max + 1) {
            let n = match style {
                0 => 0,
                1 => rng.below(2) as u32,
                _ if rng.one_in(8) => *next / 2,
                _ => *next,
            };
            *next += 1;
            match rng.below(4) {
                0 => l.issues.push(Issue(n, 0)),
                1 => l.fails.push(Fail(n, 1)),
                2 => l.warns.push(Warn(n, 2)),
                _ => l.infos.push(Info(n, 3)),
            }
        }
        l
    }
}

fn check_status(s: &Status<Report>, want: &Lists, what: &str) -> R {
    let got = Lists::of(s);
    if got != *want {
        return Err(format!("{what}: status is {got:?}, expected {want:?}"));
    }
    let (v, text) = want.verdict();
    ensure!(s.validity() == v, "{what}: verdict {:?} of {want:?}", s.validity());
    ensure_eq!(s.validity().to_string(), text, "{what}: text of the verdict");
    Ok(())
}

// ---------------------------------------------------------------- C21

#[derive(Clone, PartialEq, Eq, Debug)]
enum Ev {
    Root,
    Item(usize),
    Seal(u32, Option<u32>),
}
thread_local! { static LOG: RefCell<Vec<Ev>> = const { RefCell::new(vec![]) }; }
fn log(e: Ev) { LOG.with(|l| l.borrow_mut().push(e)) }

pub struct Item {
    no: usize,
    /// Stores the seals, perhaps fewer than there are references to them.
    store: Vec<u32>,
    /// Seals of the item by place in the store.
    seals: Vec<usize>,
    own: Lists,
}
pub struct Data {
    items: Vec<Item>,
    own: Lists,
    own_seals: Vec<u32>,
    hint: usize,
}
pub struct Refs<'d>(&'d [u32], std::slice::Iter<'d, usize>);
impl<'d> Iterator for Refs<'d> {
    type Item = &'d u32;
    fn next(&mut self) -> Option<&'d u32> { self.1.next().map(|i| &self.0[*i]) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.1.size_hint() }
}
impl Item {
    fn all(&self) -> impl Iterator<Item = u32> + '_ { self.seals.iter().map(|i| self.store[*i]) }
}
impl<'d> ClientData<'d> for Item {
    type ValidationReport = Report;
    type SealIterator = Hinted<Refs<'d>>;
    fn single_use_seals(&'d self) -> Self::SealIterator { Hinted(Refs(&self.store, self.seals.iter()), self.no) }
    fn validate_internal_consistency(&'d self) -> Status<Report> {
        log(Ev::Item(self.no));
        self.own.status()
    }
}
impl<'d> ClientData<'d> for Data {
    type ValidationReport = Report;
    type SealIterator = Hinted<std::slice::Iter<'d, u32>>;
    fn single_use_seals(&'d self) -> Self::SealIterator { Hinted(self.own_seals.iter(), self.hint / 2) }
    fn validate_internal_consistency(&'d self) -> Status<Report> {
        log(Ev::Root);
        self.own.status()
    }
}
impl<'d> ClientSideValidate<'d> for Data {
    type ValidationItem = Item;
    type ValidationIter = Hinted<std::slice::Iter<'d, Item>>;
    fn validation_iter(&'d self) -> Self::ValidationIter { Hinted(self.items.iter(), self.hint) }
}

/// Its answers depend on everything asked before.
pub struct Resolver {
    rng: Rng,
    fail_of_8: u64,
    asked: u32,
    /// 0: every answer different, 1: the same answer for the same seal, 2: runs of equal answers
    /// numbers
    style: u64,
}
impl SealResolver<u32> for Resolver {
    type Error = Issue;
    fn resolve_trust(&mut self, seal: &u32) -> Result<(), Issue> {
        self.asked += 1;
        let fails = self.rng.below(8) < self.fail_of_8;
        let no = match self.style {
            0 => self.asked,
            1 => 0,
            _ => self.asked / 3,
        };
        log(Ev::Seal(*seal, fails.then_some(no)));
        if fails { Err(Issue(1_000_000 + no, *seal)) } else { Ok(()) }
    }
}

pub fn c21() -> Prop {
    Prop::new(
        "C21",
        "data sets of 0 to 300 items with repeated and no seals, items and roots reporting any mix of entries, resolvers answering by history; \
         the recorded calls are replayed into the expected report; distinct by shape and reports",
    )
    .family("sets", 8_000, 200_000, |c| {
        let n = match c.rng.below(8) {
            0 => 0,
            1 => 1,
            2 => c.rng.below(300),
            _ => c.rng.below(12),
        } as usize;
        validated_set(c, n)
    })
    .family("crowds", 2, 12, |c| validated_set(c, 66_000 + c.idx as usize))
    .require("items", 20_000)
    .require("seals", 20_000)
    .require("entries", 20_000)
    .require("valid", 300)
    .require("invalid", 300)
    .require("unresolved seal issues", 300)
}

fn validated_set(c: &mut Case, n: usize) -> R {
        let mut next = 1;
        let quiet = c.rng.below(4);
        let mut items = vec![];
        for no in 0..n {
            let k = match c.rng.below(400) {
                0..=99 => 0,
                100 => c.rng.below(700),
                _ => c.rng.below(5),
            };
            let same = c.rng.one_in(4);
            let store: Vec<u32> = (0..k).map(|_| if same { 2 } else if c.rng.bool() { c.rng.below(4) as u32 } else { c.rng.u32() }).collect();
            // in order, any of them in any order, or one again and again
            let seals = match c.rng.below(3) {
                0 if k > 0 => (0..c.rng.below(k) + 1).map(|_| c.rng.below(k) as usize).collect(),
                1 if k > 0 => vec![c.rng.below(k) as usize; c.rng.range(1, 4) as usize],
                _ => (0..k as usize).collect(),
            };
            let max = if quiet == 0 { 0 } else { 4 };
            items.push(Item { no, store, seals, own: Lists::gen(&mut c.rng, &mut next, max) });
        }
        let own = if quiet == 1 { Lists::default() } else { Lists::gen(&mut c.rng, &mut next, 4) };
        let data: &'static Data =
            Box::leak(Box::new(Data { items, own, own_seals: (0..c.rng.below(3)).map(|_| 7_000_000 + c.rng.below(9) as u32).collect(), hint: c.rng.below(HINTS as u64) as usize }));
        let fail_of_8 = *c.rng.pick(&[0, 0, 1, 4, 8]);
        let style = c.rng.below(3);
        let resolver: &'static mut Resolver =
            Box::leak(Box::new(Resolver { rng: Rng::new(&c.rng.h32()), fail_of_8, asked: 0, style }));
        let rp: *mut Resolver = resolver;
        LOG.with(|l| l.borrow_mut().clear());
        let status = data.client_side_validate(resolver);
        let evs = LOG.with(|l| l.take());
        // what was visited
        let roots = evs.iter().filter(|e| **e == Ev::Root).count();
        ensure!(roots == 1 && evs.first() == Some(&Ev::Root), "root's consistency checked {roots} times, first call {:?}", evs.first());
        let mut visited = vec![];
        let mut asked: Vec<u32> = vec![];
        for e in &evs {
            match e {
                Ev::Item(i) => visited.push(*i),
                Ev::Seal(s, _) => asked.push(*s),
                Ev::Root => {}
            }
        }
        ensure_eq!(visited, (0..n).collect::<Vec<_>>(), "items whose consistency was checked");
        let all: Vec<u32> = data.items.iter().flat_map(|i| i.all()).collect();
        ensure_eq!(asked, all, "seals handed to the resolver");
        // items in turn: between the consistency checks of its neighbours only an item's own seals
        let (mut at, mut done) = (0usize, 0usize);
        let mut left = data.items.first().map(|i| i.seals.len()).unwrap_or(0);
        let mut checked = false;
        for e in evs.iter().skip(1) {
            while at < n && left == 0 && checked {
                at += 1;
                checked = false;
                left = data.items.get(at).map(|i| i.seals.len()).unwrap_or(0);
            }
            match e {
                Ev::Item(i) => {
                    ensure!(*i == at && !checked, "item {i} checked while item {at} was not complete");
                    checked = true;
                    done += 1;
                }
                Ev::Seal(s, _) => {
                    ensure!(left > 0, "seal {s} of a later item resolved while item {at} was not complete");
                    left -= 1;
                }
                Ev::Root => {}
            }
        }
        ensure!(done == n, "{done} of {n} items checked");
        // the report
        let mut want = Lists::default();
        for e in &evs {
            match e {
                Ev::Root => want.add(&data.own),
                Ev::Item(i) => want.add(&data.items[*i].own),
                Ev::Seal(s, Some(no)) => want.issues.push(Issue(1_000_000 + no, *s)),
                Ev::Seal(..) => {}
            }
        }
        check_status(&status, &want, "client-side validation")?;
        ensure!(
            (status.validity() == Validity::Valid) == (want.fails.is_empty() && want.issues.is_empty()),
            "verdict {} with {} failures and {} issues",
            status.validity(),
            want.fails.len(),
            want.issues.len()
        );
        c.ev("items", n as u64);
        c.ev("seals", all.len() as u64);
        c.ev("entries", want.len() as u64);
        c.ev(want.verdict().1, 1);
        c.max("items", n as u64);
        c.sample(|| format!("{n} items, {} seals, {} entries: {}", all.len(), want.len(), want.verdict().1));
        c.sig(&[n as u64, all.len() as u64, want.fails.len() as u64, want.issues.len() as u64, want.warns.len() as u64]);
        // give the memory back
        drop(status);
        unsafe {
            drop(Box::from_raw(rp));
            drop(Box::from_raw(data as *const Data as *mut Data));
        }
        Ok(())
}

// ---------------------------------------------------------------- C22

fn hash_of(s: &Status<Report>) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn c22() -> Prop {
    Prop::new(
        "C22",
        "random programs adding, collecting and combining statuses against four plain lists, and the laws of combining on triples; distinct \
         by operations and sizes",
    )
    .family("programs", 8_000, 300_000, |c| {
        let mut next = 1;
        let mut regs: Vec<(Status<Report>, Lists)> = vec![(Status::new(), Lists::default()), (Status::default(), Lists::default())];
        let mut ops = vec![];
        let mut last = 0;
        for _ in 0..c.rng.range(1, 30) {
            let i = c.rng.below(regs.len() as u64) as usize;
            let no = next;
            next += 1;
            let no = match c.rng.below(12) {
                0 | 1 => no / 2,
                2 | 3 => 0,
                4 => last,
                _ => no,
            };
            last = no;
            let op = c.rng.below(10);
            ops.push(op);
            let (s, l) = &mut regs[i];
            match op {
                0 => {
                    l.issues.push(Issue(no, 0));
                    let r = s.add_seal_issue(Issue(no, 0));
                    ensure!(Lists::of(r) == *l, "status returned by add_seal_issue");
                }
                1 => {
                    l.fails.push(Fail(no, 1));
                    let r = s.add_failure(Fail(no, 1));
                    ensure!(Lists::of(r) == *l, "status returned by add_failure");
                }
                2 => {
                    l.warns.push(Warn(no, 2));
                    let r = s.add_warning(Warn(no, 2));
                    ensure!(Lists::of(r) == *l, "status returned by add_warning");
                }
                3 => {
                    l.infos.push(Info(no, 3));
                    let r = s.add_info(Info(no, 3));
                    ensure!(Lists::of(r) == *l, "status returned by add_info");
                }
                4 => regs.push((Status::from_failure(Fail(no, 4)), Lists { fails: vec![Fail(no, 4)], ..default!() })),
                5 => {
                    let many = *c.rng.pick(&[1, 1, 2, 1_000]);
                    let v: Vec<Fail> = (0..if c.rng.one_in(40) { 300 } else { c.rng.below(5) }).map(|k| Fail(no, (k / many) as u32)).collect();
                    let hint = c.rng.below(HINTS as u64 + 3) as usize;
                    let s: Status<Report> = match hint.checked_sub(HINTS) {
                        None => Hinted(v.iter().cloned(), hint).collect(),
                        Some(0) => v.iter().flat_map(|f| [f.clone()]).collect(),
                        Some(1) => v[..v.len() / 2].iter().chain(&v[v.len() / 2..]).filter(|_| true).cloned().collect(),
                        _ => {
                            let mut left = v.clone().into_iter();
                            std::iter::from_fn(move || left.next()).collect()
                        }
                    };
                    regs.push((s, Lists { fails: v.clone(), ..default!() }));
                }
                6 | 7 => {
                    let j = c.rng.below(regs.len() as u64) as usize;
                    let (s2, l2) = regs[j].clone();
                    regs[i].0 += s2;
                    regs[i].1.add(&l2);
                    if regs[i].1.len() > 2_000 {
                        regs[i] = (Status::new(), Lists::default());
                    }
                }
                8 => {
                    let copy = regs[i].clone();
                    regs.push(copy);
                }
                _ => {
                    let l = Lists::gen(&mut c.rng, &mut next, 6);
                    regs.push((l.status(), l));
                }
            }
            c.ev("operations", 1);
            // everything else is untouched
            for (k, (s, l)) in regs.iter().enumerate() {
                check_status(s, l, &format!("register {k} after operations {ops:?}"))?;
            }
            if regs.len() > 6 {
                regs.remove(c.rng.below(6) as usize);
            }
        }
        for (_, l) in &regs {
            c.ev(l.verdict().1, 1);
        }
        c.sig(&ops);
        c.sample(|| format!("{ops:?} -> {:?}", regs.last().map(|r| r.1.clone())));
        Ok(())
    })
    .family("laws", 4_000, 150_000, |c| {
        let mut next = 1;
        let max = *c.rng.pick(&[2, 6, 40, 400]);
        let l: Vec<Lists> = (0..3).map(|_| Lists::gen(&mut c.rng, &mut next, max)).collect();
        let s: Vec<Status<Report>> = l.iter().map(|l| l.status()).collect();
        // (a + b) + c = a + (b + c)
        let mut left = s[0].clone();
        left += s[1].clone();
        left += s[2].clone();
        let mut bc = s[1].clone();
        bc += s[2].clone();
        let mut right = s[0].clone();
        right += bc;
        let mut want = l[0].clone();
        want.add(&l[1]);
        want.add(&l[2]);
        check_status(&left, &want, "combined to the left")?;
        check_status(&right, &want, "combined to the right")?;
        ensure!(left == right && hash_of(&left) == hash_of(&right), "equal statuses compare or hash differently");
        // neutral element
        let mut x = s[0].clone();
        x += Status::new();
        check_status(&x, &l[0], "combined with the empty status")?;
        let mut x = Status::new();
        x += s[0].clone();
        check_status(&x, &l[0], "combined into the empty status")?;
        let mut x = Status::default();
        x += s[0].clone();
        x += Status::default();
        check_status(&x, &l[0], "combined with the default status")?;
        // difference is seen
        if l[1].len() > 0 {
            let mut x = s[0].clone();
            x += s[1].clone();
            ensure!(x != s[0], "status with added entries equals the one without");
        }
        ensure_eq!(s[0].validity(), l[0].verdict().0, "verdict");
        c.ev("laws", 1);
        c.ev("entries", want.len() as u64);
        c.sig(&[l[0].len() as u64, l[1].len() as u64, l[2].len() as u64, want.issues.len() as u64]);
        Ok(())
    })
    .family("large", 24, 96, |c| {
        // more entries than eight and sixteen bits can count
        let n = [255, 256, 257, 65_535, 65_536, 70_000][c.idx as usize / 4 % 6];
        let only = c.idx % 4;
        let l = Lists {
            fails: (0..if only == 0 { n } else { 3 }).map(|k| Fail(k, 1)).collect(),
            issues: (0..if only == 1 { n } else { 3 }).map(|k| Issue(k, 0)).collect(),
            warns: (0..if only == 2 { n } else { 3 }).map(|k| Warn(k, 2)).collect(),
            infos: (0..if only == 3 { n } else { 3 }).map(|k| Info(k, 3)).collect(),
        };
        let s = l.status();
        check_status(&s, &l, "large status")?;
        for empty in [Status::new(), Status::from_failure(Fail(0, 9))] {
            let mut want = Lists { fails: empty.failures.clone(), ..default!() };
            let mut x = empty;
            x += s.clone();
            want.add(&l);
            check_status(&x, &want, "large status combined into a small one")?;
            x += s.clone();
            want.add(&l);
            check_status(&x, &want, "large statuses combined")?;
        }
        if only == 0 {
            for hint in 0..HINTS {
                let x: Status<Report> = Hinted(l.fails.iter().cloned(), hint).collect();
                check_status(&x, &Lists { fails: l.fails.clone(), ..default!() }, "large collected status")?;
            }
        }
        c.sig(&[n as u64, only]);
        c.ev("large", 1);
        Ok(())
    })
    .require("operations", 50_000)
    .require("laws", 3_000)
    .require("valid", 1_000)
    .require("invalid", 1_000)
    .require("unresolved seal issues", 1_000)
}
