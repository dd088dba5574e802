//! C24: entropy recorded from threads, processes, forked processes and processes with a frozen clock.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Barrier};

use commit_verify::mpc::{MerkleBlock, MerkleTree, MultiSource};
use commit_verify::CommitId;
use vharness::*;

use crate::freeze;

fn tree(s: &MultiSource) -> R<MerkleTree> { try_tree(s).map_err(|e| format!("creation failed: {e}")) }

fn plain() -> MultiSource { source_of(&BTreeMap::from([([7; 32], [9; 32])]), 2, None) }

fn draw(s: &MultiSource, n: usize) -> R<Vec<u64>> { (0..n).map(|_| Ok(tree(s)?.entropy())).collect() }

/// `plain N`, `frozen N`, `fork N`: prints entropy values, one per line.
pub fn child(a: &[String]) {
    let n: usize = a[1].parse().unwrap();
    let show = |v: Vec<u64>| {
        let s: String = v.iter().map(|x| format!("{x}\n")).collect();
        use std::io::Write;
        std::io::stdout().write_all(s.as_bytes()).unwrap();
        std::io::stdout().flush().unwrap();
    };
    if a[0] == "frozen" {
        freeze::FROZEN.store(true, SeqCst);
    }
    if a[0] == "fork" {
        // something was drawn before, so that any buffer is filled
        show(draw(&plain(), 3).unwrap());
        let p = unsafe { libc::fork() };
        if p < 0 {
            std::process::exit(9);
        }
        let v = draw(&plain(), n).unwrap();
        if p > 0 {
            let mut st = 0;
            unsafe { libc::waitpid(p, &mut st, 0) };
        }
        show(v);
        unsafe { libc::_exit(0) }
    }
    let mut v = draw(&plain(), n / 2).unwrap();
    // and from a second thread
    let m = n - n / 2;
    v.extend(std::thread::spawn(move || draw(&plain(), m).unwrap()).join().unwrap());
    show(v);
}

fn spawn(mode: &str, n: usize, fixed_addresses: bool) -> R<Vec<u64>> {
    use std::os::unix::process::CommandExt;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut cmd = Command::new(exe);
    cmd.args(["--entropy", mode, &n.to_string()]).stdin(Stdio::null()).stderr(Stdio::null());
    if fixed_addresses {
        // equal environment and, where the sandbox allows it, equal addresses
        cmd.env_clear();
        unsafe {
            cmd.pre_exec(|| {
                libc::personality(0x0040000);
                Ok(())
            });
        }
    }
    let out = cmd.output().map_err(|e| e.to_string())?;
    ensure!(out.status.success(), "process drawing entropy ended with {:?}", out.status);
    String::from_utf8_lossy(&out.stdout).lines().map(|l| l.parse().map_err(|_| format!("not a number: {l}"))).collect()
}

/// Values repeated within `v`.
fn repeats(v: &[u64]) -> Vec<u64> {
    let mut seen = HashSet::new();
    v.iter().copied().filter(|x| !seen.insert(*x)).collect()
}

/// Per-bit frequency, correlation of bits within and between consecutive values, and coverage of
/// small fields. Thresholds of 9 standard deviations.
fn statistics(v: &[u64]) -> R<u64> {
    let n = v.len() as f64;
    let dev = |count: u64, n: f64| (count as f64 - n / 2.0).abs() / (n.sqrt() / 2.0);
    let mut tests = 0;
    let mut single = [0u64; 64];
    let mut serial = [0u64; 64];
    for (i, x) in v.iter().enumerate() {
        for b in 0..64 {
            single[b] += x >> b & 1;
            if i > 0 {
                serial[b] += (x ^ v[i - 1]) >> b & 1;
            }
        }
    }
    for b in 0..64 {
        ensure!(dev(single[b], n) < 9.0, "bit {b} of the entropy is set in {} of {} trees", single[b], v.len());
        ensure!(dev(serial[b], n - 1.0) < 9.0, "bit {b} of the entropy changes in {} of {} consecutive trees", serial[b], v.len());
        tests += 2;
    }
    for d in 1..64u32 {
        let mut pair = [0u64; 64];
        for x in v {
            let y = x ^ x.rotate_right(d);
            for b in 0..64 {
                pair[b] += y >> b & 1;
            }
        }
        for b in 0..64 {
            ensure!(dev(pair[b], n) < 9.0, "bits {b} and {} of the entropy agree in {} of {} trees", (b + d as usize) % 64, v.len() as u64 - pair[b], v.len());
            tests += 1;
        }
    }
    for sh in [0, 8, 16, 24, 32, 40, 48, 56] {
        let mut bins = [0u64; 256];
        v.iter().for_each(|x| bins[(x >> sh & 255) as usize] += 1);
        let e = n / 256.0;
        for (i, k) in bins.iter().enumerate() {
            ensure!((*k as f64 - e).abs() < 9.0 * e.sqrt() + 9.0, "byte {i:#x} at bit {sh} occurs {k} times in {} trees", v.len());
            tests += 1;
        }
    }
    // steps between consecutive values repeat only by chance
    let steps: Vec<u64> = v.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect();
    ensure!(repeats(&steps).len() <= 1, "consecutive values differ by repeating steps, e.g. {:#x}", repeats(&steps)[0]);
    Ok(tests + 1)
}

fn gen_open(rng: &mut Rng) -> (Src, MTree) {
    loop {
        let (s, m) = gen_shallow(rng, 12, 6);
        if (m.map.len() as u64) < m.width() {
            return (s, m);
        }
    }
}

pub fn c24() -> Prop {
    Prop::new(
        "C24",
        "entropy of trees created without a static one, recorded from one thread, threads released together, processes, processes with equal \
         clock, id, environment and addresses, and forked processes; and sources with every kind of static entropy; distinct by values and sources",
    )
    .family("stream", 4, 16, |c| {
        let n = if c.thorough { 2_000_000 } else { 300_000 };
        let v = draw(&plain(), n)?;
        let r = repeats(&v);
        ensure!(r.len() <= 1, "{} of {n} trees repeat an entropy, e.g. {:#x}", r.len(), r[0]);
        let r = repeats(&v[..20_000]);
        ensure!(r.is_empty(), "entropy {:#x} repeats within 20000 trees", r[0]);
        let tests = statistics(&v[..n.min(200_000)])?;
        c.ev("entropies", n as u64);
        c.ev("statistics", tests);
        c.sample(|| format!("{:x?}", &v[..4]));
        for x in v.iter().take(1000) {
            c.sig(&[*x]);
        }
        Ok(())
    })
    .family("threads", 6, 60, |c| {
        // new threads, released together, each drawing few values
        let t = 64;
        let gate = Arc::new(Barrier::new(t));
        let s = plain();
        let hs: Vec<_> = (0..t)
            .map(|_| {
                let (g, s) = (gate.clone(), s.clone());
                std::thread::spawn(move || {
                    g.wait();
                    draw(&s, 40)
                })
            })
            .collect();
        let mut all = vec![];
        for h in hs {
            all.extend(h.join().map_err(|_| "thread drawing entropy ended".to_string())??);
        }
        let r = repeats(&all);
        ensure!(r.is_empty(), "entropy {:#x} in several threads", r[0]);
        c.ev("entropies", all.len() as u64);
        c.ev("threads", t as u64);
        c.sig(&[all[0]]);
        Ok(())
    })
    .family("processes", 4, 40, |c| {
        let mut all = vec![];
        for mode in ["plain", "plain", "frozen", "frozen", "frozen"] {
            let v = spawn(mode, 200, mode == "frozen")?;
            ensure!(v.len() == 200, "process gave {} values", v.len());
            all.extend(v);
            c.ev("processes", 1);
        }
        let r = repeats(&all);
        ensure!(r.is_empty(), "entropy {:#x} in several processes", r[0]);
        c.ev("entropies", all.len() as u64);
        c.sig(&[all[0]]);
        Ok(())
    })
    .family("fork", 3, 30, |c| {
        let v = spawn("fork", 100, false)?;
        ensure!(v.len() >= 203, "forked processes gave {} values", v.len());
        let r = repeats(&v);
        ensure!(r.is_empty(), "entropy {:#x} both before and after or on both sides of a fork", r[0]);
        c.ev("forks", 1);
        c.ev("entropies", v.len() as u64);
        c.sig(&[v[0]]);
        Ok(())
    })
    .family("shapes", 600, 20_000, |c| {
        // equal sources give different trees, whatever the shape, from one or from copied sources
        let (s, m) = gen_open(&mut c.rng);
        let src = source_of(&s.msgs, s.min_depth, None);
        let mut seen = BTreeSet::new();
        let mut ids = BTreeSet::new();
        let mut leaves = BTreeSet::new();
        for k in 0..8 {
            let t = if k % 2 == 0 { tree(&src)? } else { tree(&src.clone())? };
            let e = t.entropy();
            ensure!(seen.insert(e), "entropy {e:#x} repeats for equal sources of {} messages", s.msgs.len());
            ensure!(ids.insert(raw(&t.commit_id())), "commitment repeats for equal sources with empty slots");
            // everything but the entropy is the same, and the entropy is where the commitment comes from
            let want = MTree { entropy: e, ..m.clone() };
            ensure_eq!(hex(&enc(&t)?), hex(&want.strict()), "tree with random entropy {e:#x}");
            ensure_eq!(hex(&raw(&t.commit_id())), hex(&want.commitment()), "commitment with random entropy {e:#x}");
            let b = from_block(&MerkleBlock::from(&t))?;
            ensure_eq!(b.entropy, Some(e), "entropy of the block");
            let empty = (0..m.width() as u32).find(|i| !m.map.contains_key(i)).unwrap();
            ensure!(leaves.insert(entropy_hash(e, empty)), "placeholder repeats");
        }
        // and none of it is in the messages
        for (p, v) in &s.msgs {
            for w in [p, v] {
                for x in w.chunks(8) {
                    let x = u64::from_le_bytes(x.try_into().unwrap());
                    ensure!(!seen.contains(&x) && !seen.contains(&x.swap_bytes()), "entropy {x:#x} is part of a message or protocol");
                }
            }
        }
        c.ev("entropies", 8);
        c.ev("reseeded_commitments", 8);
        c.sig(&[m.depth as u64, m.cofactor as u64, m.map.len() as u64, s.class]);
        Ok(())
    })
    .family("dependence", 1, 4, |c| {
        // over many sources with different messages: no bit follows the source
        let mut v = vec![];
        let n = 20_000;
        let mut bits = HashMap::<&str, [u64; 64]>::new();
        for i in 0..n {
            let (p, m) = (c.rng.h32(), c.rng.h32());
            let e = tree(&source_of(&BTreeMap::from([(p, m)]), 1 + (i % 5) as u8, None))?.entropy();
            v.push(e);
            let w = |h: &H, k: usize| u64::from_le_bytes(h[k * 8..k * 8 + 8].try_into().unwrap());
            for (name, x) in [("protocol", w(&p, 0)), ("message", w(&m, 0)), ("protocol end", w(&p, 3)), ("message end", w(&m, 3)), ("both", w(&p, 0) ^ w(&m, 0))] {
                let k = bits.entry(name).or_insert([0; 64]);
                (0..64).for_each(|b| k[b] += (e ^ x) >> b & 1);
            }
        }
        for (name, k) in bits {
            for (b, x) in k.iter().enumerate() {
                let dev = (*x as f64 - n as f64 / 2.0).abs() / ((n as f64).sqrt() / 2.0);
                ensure!(dev < 9.0, "bit {b} of the entropy follows the {name}: differs in {x} of {n}");
                c.ev("statistics", 1);
            }
        }
        let r = repeats(&v);
        ensure!(r.is_empty(), "entropy {:#x} repeats over sources", r[0]);
        c.ev("entropies", n as u64);
        c.sig(&[v[0]]);
        Ok(())
    })
    .family("static", 3_000, 80_000, |c| {
        let (mut s, _) = gen_shallow(&mut c.rng, 12, 6);
        s.entropy = match c.idx % 6 {
            0 => 0,
            1 => u64::MAX,
            2 => 1,
            _ => c.rng.edge64(),
        };
        let m = MTree::build(&s.msgs, s.min_depth, s.entropy).map_err(|_| "unplaceable".to_string())?;
        let mut first = None;
        for k in 0..3 {
            let t = make_tree(&s)?;
            ensure_eq!(t.entropy(), s.entropy, "entropy of a tree with the static one");
            ensure_eq!(hex(&enc(&t)?), hex(&m.strict()), "tree with static entropy");
            let id = raw(&t.commit_id());
            ensure_eq!(hex(&id), hex(&m.commitment()), "commitment with static entropy");
            ensure!(*first.get_or_insert(id) == id, "commitment with static entropy differs in repetition {k}");
        }
        // the constructor from static entropy alone
        let mut src = MultiSource::with_static_entropy(s.entropy);
        ensure!(src.static_entropy == Some(s.entropy), "source with static entropy {:#x} has {:?}", s.entropy, src.static_entropy);
        src.messages = source(&s).messages;
        src.min_depth = source(&s).min_depth;
        ensure_eq!(hex(&enc(&tree(&src)?)?), hex(&m.strict()), "tree of a source made with static entropy");
        c.ev("static", 3);
        c.sig(&[s.entropy, m.depth as u64, m.map.len() as u64]);
        Ok(())
    })
    .require("entropies", 1_000_000)
    .require("threads", 300)
    .require("processes", 15)
    .require("forks", 3)
    .require("static", 8_000)
    .require("statistics", 20_000)
    .assume("unpredictability itself is not decided by observation: a generator that is distinct across processes, forks and frozen clocks and unbiased passes")
}
