"""C25: one workload under every build configuration and on other platforms; transcripts compared."""
import collections, itertools, json, os, random, re, resource, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import driver

CRATE = os.path.join(driver.ROOT, "config")
TARGET = os.path.join(driver.HARNESS, "target-config")
MIRI = os.path.join(driver.HARNESS, "target-miri")
FEATURES = ("rand", "serde", "stl", "derive", "seals_strict", "seals_serde", "csv")
ALL = tuple(sorted(set(FEATURES)))
DIRS = {"dev": "debug"}
# sections, grouped by what an interpreter needs for one item of each
TINY = ["sources,forced,text", "mini tree", "mini numbers", "mini block", "mini sparse", "mini proof,entropy,decode,schemes,seals,seals strict,seals serde,validate,validate serde,digest,layouts",
        "engine", "merklize", "serde"]
PLATFORMS = {"i686-unknown-linux-gnu": "32-bit little-endian", "s390x-unknown-linux-gnu": "64-bit big-endian"}
MORE_PLATFORMS = {"mips-unknown-linux-gnu": "32-bit big-endian", "aarch64-unknown-linux-gnu": "64-bit little-endian"}
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check -Zmiri-ignore-leaks"
CPU = 240


def canon(fs):
    fs = set(fs)
    if "csv" in fs:
        fs.add("seals_strict")
    return tuple(sorted(fs))


def combos():
    return sorted({canon(f for f, b in zip(FEATURES, bits) if b) for bits in itertools.product((0, 1), repeat=len(FEATURES))})


def covering(profiles, t=2):
    """Configurations covering every t-wise choice of features and profile (greedy, always the same)."""
    params = FEATURES + ("profile",)
    val = lambda c, p: c[1] if p == "profile" else p in c[0]
    every = [(f, p) for f in combos() for p in profiles]
    need = set()
    for c in every:
        for ps in itertools.combinations(params, t):
            need.add(tuple((p, val(c, p)) for p in ps))
    out = [(ALL, profiles[0]), ((), profiles[-1])]
    covers = lambda c: {tuple((p, val(c, p)) for p in ps) for ps in itertools.combinations(params, t)}
    for c in out:
        need -= covers(c)
    while need:
        best = max(every, key=lambda c: (len(covers(c) & need), -len(c[0]), c))
        out.append(best)
        need -= covers(best)
    return out


def matrix(tier):
    if tier == "quick":
        return covering(("dev", "release"))
    # the more profiles of the optimiser get the pairs, the usual two every triple
    return covering(("dev", "release"), 3) + covering(("checked", "size", "plain", "bare"))


def name(c):
    return f"{c[1]}[{'+'.join(c[0])}]"


class Build:
    def __init__(self, c, exe, err):
        self.c, self.exe, self.err = c, exe, err


def build_group(group):
    """Builds configurations sharing a target directory, one after another."""
    out = []
    for c, d in group:
        args = ["cargo", "build", "--offline", "--locked", "-q", "--profile", c[1], "--no-default-features", "--features", ",".join(c[0]), "--bin", "vconfig"]
        r = subprocess.run(args, cwd=CRATE, env=driver.env(CARGO_TARGET_DIR=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            out.append(Build(c, None, r.stdout))
            continue
        exe = os.path.join(TARGET, "bin", re.sub(r"\W+", "-", name(c)))
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + f".{os.getpid()}"
        shutil.copy2(os.path.join(d, DIRS.get(c[1], c[1]), "vconfig"), tmp)
        os.replace(tmp, exe)
        out.append(Build(c, exe, None))
    return out


def build_all(cs, ways):
    groups = collections.defaultdict(list)
    seen = collections.Counter()
    for c in cs:
        k = seen[c[1]] % ways
        seen[c[1]] += 1
        d = os.path.join(TARGET, f"{c[1]}-{k}")
        groups[d].append((c, d))
    with ThreadPoolExecutor(8) as ex:
        return [b for g in ex.map(build_group, groups.values()) for b in g]


def limits():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def parse(text):
    """{(section, item): [lines]}"""
    t = collections.defaultdict(list)
    for l in text.splitlines():
        f = l.split("\t", 2)
        if len(f) == 3 and f[1].isdigit():
            t[(f[0], int(f[1]))].append(f[2])
    return t


def run_one(exe, seed, permille, mode=""):
    args = [exe, str(seed), str(permille)] + ([mode] if mode else [])
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=driver.env(), preexec_fn=limits)
    return r.returncode, parse(r.stdout), r.stdout.endswith("end\n")


def sysroot(target):
    d = os.path.join(MIRI, "sysroot-" + target)
    mark = os.path.join(d, "ready")
    ver = subprocess.run(["rustc", "-V"], env=driver.env("nightly"), stdout=subprocess.PIPE, text=True).stdout
    if not (os.path.exists(mark) and open(mark).read() == ver):
        r = subprocess.run(["cargo", "miri", "setup", "--target", target], cwd=CRATE, env=driver.env("nightly", MIRI_SYSROOT=d),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(f"no interpreter for {target}:\n" + r.stdout[-1500:])
            return None
        with open(mark, "w") as f:
            f.write(ver)
    return d


def miri(target, root, features, seed, permille, only, timeout):
    """One interpreted run: (exit code, transcript, complete, error text)."""
    args = ["cargo", "miri", "run", "-q", "--offline", "--locked", "--target", target, "--no-default-features", "--features", ",".join(features), "--",
            str(seed), str(permille), "tiny"] + ([only] if only else [])
    e = driver.env("nightly", MIRI_SYSROOT=root, MIRIFLAGS=MIRIFLAGS, CARGO_TARGET_DIR=os.path.join(MIRI, target))
    try:
        r = subprocess.run(args, cwd=CRATE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return None, parse((x.stdout or b"").decode(errors="replace")), False, "out of time"
    return r.returncode, parse(r.stdout), r.stdout.endswith("end\n"), r.stderr


def first_difference(ref, got):
    """First item both transcripts have in which they differ."""
    for k in sorted(set(ref) & set(got)):
        a, b = ref[k], got[k]
        if a != b:
            for x, y in itertools.zip_longest(a, b):
                if x != y:
                    return k, x, y
    return None


PLATFORM_FEATURES = canon({"csv", "seals_serde", "serde", "derive"})


def prepare():
    ok = all(b.exe for b in build_all(matrix("quick"), 2))
    def one(t):
        d = sysroot(t)
        if d:
            miri(t, d, PLATFORM_FEATURES, 1, 1, "none", 900)
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, PLATFORMS))
    return ok


def run(tier, seed, extra):
    t0 = time.time()
    cs = matrix(tier)
    builds = build_all(cs, 2 if tier == "quick" else 4)
    good = [b for b in builds if b.exe]
    bad = [b for b in builds if not b.exe]
    if not good:
        print("BUILD FAILED in every configuration, no verdict\n" + bad[0].err[-3000:])
        return 2
    fails = []
    fail = lambda what, data: fails.append((what, data))
    for b in bad:
        if not re.search(r"^error(\[E\d+\])?:", b.err, re.M) or "could not compile" not in b.err or "No space left" in b.err:
            print("BUILD FAILED, no verdict\n" + b.err[-3000:])
            return 2
        fail(f"configuration {name(b.c)} does not build, {name(good[0].c)} does:\n{b.err[:2500]}", dict(config=name(b.c)))

    # natively
    permille = {"quick": 1000, "thorough": 2000}[tier]
    slow = lambda c: permille // 4 if c[1] == "plain" else permille
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda b: run_one(b.exe, seed, slow(b.c)), good))
    whole = [(b.c, t) for b, (rc, t, end) in zip(good, res) if end and rc == 0]
    if not whole:
        print(f"the workload ends early in every configuration (exit codes {sorted({r[0] for r in res})}), no verdict")
        return 2
    ref_c, ref = whole[0]
    # every item of every section, as the first complete configuration having it printed it
    merged, owner = dict(ref), {k: ref_c for k in ref}
    compared = collections.Counter()
    for c, t in whole[1:]:
        for k, v in t.items():
            if k not in merged:
                merged[k], owner[k] = v, c
    for b, (rc, t, end) in zip(good, res):
        if not (end and rc == 0):
            fail(f"configuration {name(b.c)}: the workload ends with {'signal' if rc < 0 else 'code'} {abs(rc)} after {sum(map(len, t.values()))} results; {name(ref_c)} completes it",
                 dict(config=name(b.c), rc=rc, seed=seed))
            continue
        strip = lambda t: {k: v for k, v in t.items() if k[0] != "entropy"}
        d = first_difference(strip(merged), strip(t))
        if d:
            k, x, y = d
            fail(f"{k[0]} {k[1]} differs: {name(owner[k])} gives\n  {x}\n{name(b.c)} gives\n  {y}", dict(configs=[name(owner[k]), name(b.c)], section=k[0], item=k[1], seed=seed))
        for k, v in t.items():
            compared[k[0]] += len(v)
            if k[0] == "entropy":
                want = ("absent, with randomness", "fresh") if "rand" in b.c[0] else ("absent, without randomness", "refused")
                got = [tuple(l.split("\t")[:2]) for l in v if l.startswith("absent")]
                if got != [want]:
                    fail(f"{name(b.c)}: tree without static entropy: {got}, expected {want}", dict(config=name(b.c), seed=seed))
                given = [l for l in v if l.startswith("given")]
                if given != [l for l in merged[k] if l.startswith("given")]:
                    fail(f"{name(b.c)}: static entropy not kept: {given}", dict(config=name(b.c), seed=seed))

    # other platforms, interpreted
    plat = dict(PLATFORMS)
    n_tiny = 1
    if tier == "thorough":
        plat.update(MORE_PLATFORMS)
        n_tiny = 12
    roots = {t: sysroot(t) for t in plat}
    roots = {t: d for t, d in roots.items() if d}
    pr, seen_plat = {}, {}
    native = next((b for b in good if set(PLATFORM_FEATURES) <= set(b.c[0]) and b.c[1] == "dev"), None)
    if native and not fails:
        rc, want, end = run_one(native.exe, seed, n_tiny, "tiny")
        if end:
            with ThreadPoolExecutor(4) as ex:  # compile
                pre = dict(zip(roots, ex.map(lambda t: miri(t, roots[t], PLATFORM_FEATURES, seed, 1, "none", 400), roots)))
            for t, (rc, _, end, err) in pre.items():
                if not end:
                    if "could not compile" in err:
                        fail(f"does not build for {t}:\n{err[:2000]}", dict(platform=t))
                    else:
                        print(f"interpreter for {t} does not work, platform left out: {err[-500:]}")
            jobs = [(t, s) for s in TINY for t in roots if pre[t][2]]
            with ThreadPoolExecutor(8) as ex:
                got = list(ex.map(lambda j: miri(j[0], roots[j[0]], PLATFORM_FEATURES, seed, n_tiny, j[1], 240 if tier == "quick" else 300), jobs))
            for (t, s), (rc, tr, end, err) in zip(jobs, got):
                if rc is not None and not end:
                    fail(f"{t}: the workload ({s}) ends with code {rc}, natively it completes: {err[-1500:]}", dict(platform=t, section=s, seed=seed))
                    continue
                # the entropy given is among the compared, entropy drawn is not
                d = first_difference({k: v for k, v in want.items() if k[0] != "entropy"}, {k: v for k, v in tr.items() if k[0] != "entropy" and (end or k != list(tr)[-1])})
                if d:
                    k, x, y = d
                    fail(f"{k[0]} {k[1]} (small) differs: natively\n  {x}\non {t}\n  {y}", dict(platform=t, section=k[0], item=k[1], seed=seed))
                seen_plat[t] = seen_plat.get(t, 0) + sum(map(len, tr.values()))

    wall = time.time() - t0
    keys = sorted(merged)
    rnd = random.Random(seed)
    samples = [dict(section=k[0], item=k[1], lines=[l[:200] for l in merged[k][:3]]) for k in rnd.sample(keys, min(5, len(keys)))]
    driver.evidence("C25", tier, seed, wall, sum(compared.values()), len({tuple(merged[k]) for k in keys}),
                    "one deterministic workload built under a covering matrix of features and profiles and interpreted for other platforms; every result line compared; distinct by content of items",
                    samples, len(fails), configurations=[name(b.c) for b in good][:120], result_lines_by_section=dict(compared),
                    result_lines_on_other_platforms={f"{t} ({plat[t]})": n for t, n in seen_plat.items()})
    for i, (what, data) in enumerate(fails[:5]):
        driver.violation("C25", f"{seed}-{i}", what, data)
    print(f"C25 {tier} seed={seed}: {len(good)} configurations, {len(keys)} items, {sum(compared.values())} result lines, platforms {seen_plat}, {wall:.1f} s")
    return 1 if fails else 0
