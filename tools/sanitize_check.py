"""C28: the workload of config/ under the compiler sanitizers, the interpreter and a leak oracle. Only their reports count."""
import os, random, re, resource, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import config_check, driver

CRATE = config_check.CRATE
TARGET = os.path.join(driver.HARNESS, "target-san")
HOST = "x86_64-unknown-linux-gnu"
FEATURES = "csv,serde,stl,derive,rand,seals_serde"
MIRI_FEATURES = "csv,serde,derive,rand,seals_serde"
SANS = {
    "address": ([], dict(ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=0:detect_stack_use_after_return=1:strict_string_checks=1")),
    "thread": (["-Zbuild-std"], dict(TSAN_OPTIONS="halt_on_error=0:report_signal_unsafe=0")),
    "memory": (["-Zbuild-std"], dict(MSAN_OPTIONS="halt_on_error=1")),
}
REPORT = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|WARNING: MemorySanitizer: [^\n]*|ERROR: LeakSanitizer: [^\n]*"
                    r"|unsafe precondition\(s\) violated[^\n]*|error: Undefined Behavior: [^\n]*|error: memory leaked: [^\n]*|error: deadlock[^\n]*|misaligned pointer dereference[^\n]*"
                    r"|null pointer dereference occurred[^\n]*|attempted to leave type [^\n]*)")
SIG = {4: "SIGILL", 7: "SIGBUS", 11: "SIGSEGV"}
MIRI_SECTIONS = ["shared tree", "shared block", "shared engine", "shared seals", "mini block", "mini sparse", "mini tree", "engine", "merklize", "serde", "layouts", "entropy",
                 "sources", "forced", "mini proof", "mini numbers", "text", "decode", "digest", "schemes,seals,seals strict,seals serde,validate,validate serde"]


def build(kind):
    """Path of the workload built with one sanitizer, or the compiler's words."""
    d = os.path.join(TARGET, kind)
    if kind == "count":
        args, e = ["--features", FEATURES + ",count"], driver.env(CARGO_TARGET_DIR=d)
        exe = os.path.join(d, "debug", "vconfig")
    else:
        extra, _ = SANS[kind]
        args, e = extra + ["--target", HOST, "--features", FEATURES], driver.env("nightly", CARGO_TARGET_DIR=d, RUSTFLAGS=f"-Zsanitizer={kind}")
        exe = os.path.join(d, HOST, "debug", "vconfig")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "--bin", "vconfig", "--no-default-features"] + args, cwd=CRATE, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return (exe, None) if r.returncode == 0 else (None, r.stdout)


MONITORS = {"mpc": "C01 C02 C03 C04 C05 C06 C07 C08 C29", "core": "C09 C10 C11 C12 C14 C15 C16 C26 C27", "proto": "C17 C18 C19 C20 C21 C22"}


def build_monitors(kind):
    """Directory of the other properties' monitors built with one sanitizer, or the compiler's words. Their workloads are the widest there are."""
    d = os.path.join(TARGET, "monitors-" + kind)
    bins = [x for b in MONITORS for x in ("--bin", b)]
    if kind == "count":
        args, e, out = ["--features", "count"], driver.env(CARGO_TARGET_DIR=d), os.path.join(d, "debug")
    else:
        extra, _ = SANS[kind]
        args, e = extra + ["--target", HOST], driver.env("nightly", CARGO_TARGET_DIR=d, RUSTFLAGS=f"-Zsanitizer={kind}")
        out = os.path.join(d, HOST, "debug")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"] + bins + args, cwd=driver.HARNESS, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return (out, None) if r.returncode == 0 else (None, r.stdout)


def monitor(d, pid, env, seed, scale, weigh, timeout):
    exe = os.path.join(d, next(b for b, ids in MONITORS.items() if pid in ids.split()))
    args = [exe, pid, "--tier", "quick", "--seed", str(seed), "--scale", str(scale), "--threads", "2", "--keep-going", "--known", driver.KNOWN, "--case-cpu", "850"] + weigh
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=driver.env(RUST_MIN_STACK=str(64 << 20), **env),
                           cwd=driver.ROOT, preexec_fn=limits, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode(errors="replace"), (x.stderr or b"").decode(errors="replace")
    return r.returncode, r.stdout, r.stderr


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (900, 905))


def native(exe, env, seed, permille, mode, only, timeout):
    try:
        r = subprocess.run([exe, str(seed), str(permille), mode, only], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           env=driver.env(**env), preexec_fn=limits, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode(errors="replace"), (x.stderr or b"").decode(errors="replace")
    return r.returncode, r.stdout, r.stderr


def miri(root, seed, permille, mode, only, flags, timeout):
    e = driver.env("nightly", MIRI_SYSROOT=root, MIRIFLAGS="-Zmiri-disable-isolation " + flags, CARGO_TARGET_DIR=os.path.join(TARGET, "miri"))
    args = ["cargo", "miri", "run", "-q", "--offline", "--locked", "--bin", "vconfig", "--no-default-features", "--features", MIRI_FEATURES, "--", str(seed), str(permille), mode, only]
    # a group of its own: the interpreter is a child of cargo
    p = subprocess.Popen(args, cwd=CRATE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return None, out, err


def prepare():
    with ThreadPoolExecutor(2) as ex:
        got = list(ex.map(build, ["memory", "address", "thread", "count"])) + list(ex.map(build_monitors, ["memory", "address", "count"]))
    root = config_check.sysroot(HOST)
    if root:
        miri(root, 1, 1, "tiny", "none", "", 900)
    return all(exe for exe, _ in got)


def run(tier, seed, extra):
    t0 = time.time()
    quick = tier == "quick"
    with ThreadPoolExecutor(4) as ex:
        kinds = ["count", "address", "memory"]
        wide = ex.map(build_monitors, kinds)
        built = dict(zip(["count", *SANS], ex.map(build, ["count", *SANS])))
        wide = dict(zip(kinds, wide))
    if not any(exe for exe, _ in built.values()):
        print("BUILD FAILED, no verdict\n" + built["count"][1][-3000:])
        return 2
    missing = [k for k, (exe, _) in built.items() if not exe]
    for k in missing:
        print(f"no build for {k}, left out: {built[k][1][-600:]}")
    for k, (d, words) in wide.items():
        if not d:
            print(f"no build of the monitors for {k}, left out: {words[-600:]}")
    root = config_check.sysroot(HOST)
    jobs = []
    def job(name, f, *a):
        jobs.append((name, f, a))
    if root:
        rc, out, err = miri(root, seed, 1, "tiny", "none", "", 600)
        if rc != 0:
            print("the interpreter does not work, left out: " + err[-600:])
            root = None
    per = (lambda q, t: q if quick else t)
    if built["thread"][0]:
        for s in range(per(2, 6)):
            job("thread", native, built["thread"][0], SANS["thread"][1], seed * 100 + s, per(25, 150), "par", "", per(300, 600))
        job("thread", native, built["thread"][0], SANS["thread"][1], seed, per(400, 3000), "par", "shared tree,shared block,shared engine,shared seals", per(300, 600))
    if root:
        # plain rules of aliasing first; the thorough run adds the other model, more schedules and stricter alignment
        flagsets = [""] if quick else ["-Zmiri-symbolic-alignment-check", "-Zmiri-tree-borrows", "-Zmiri-preemption-rate=0.1"]
        for n, flags in enumerate(flagsets):
            for sec in MIRI_SECTIONS:
                par = sec.startswith("shared")
                for k in range(per(1, 3) if par else 1):
                    mode = "tiny+par" if par else "tiny"
                    job("miri", miri, root, seed + n, 1, mode, sec, f"{flags} -Zmiri-seed={seed * 10 + k}", per(400, 600))
    if built["address"][0]:
        for s in range(per(2, 8)):
            job("address", native, built["address"][0], SANS["address"][1], seed * 100 + s, per(100, 1000), "", "", per(300, 600))
        job("address", native, built["address"][0], SANS["address"][1], seed, per(40, 400), "par", "", per(300, 600))
    if built["memory"][0]:
        for s in range(per(2, 8)):
            job("memory", native, built["memory"][0], SANS["memory"][1], seed * 100 + 50 + s, per(100, 1000), "", "", per(300, 600))
    if built["count"][0]:
        for s in range(per(2, 8)):
            job("count", native, built["count"][0], {}, seed * 100 + s, per(150, 1000), "leak", "", per(300, 600))
    for k, (d, _) in wide.items():
        for pid in " ".join(MONITORS.values()).split() if d else ():
            job("monitors under " + k, monitor, d, pid, SANS[k][1] if k in SANS else {}, seed, per(0.08, 1.0) * (3 if k == "count" else 1),
                ["--weigh"] if k == "count" else [], per(300, 600))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: j[1](*j[2]), jobs))

    fails, runs, lines, seen, samples, unfinished, cases = [], {}, {}, set(), [], [], {}
    for (name, f, a), (rc, out, err) in zip(jobs, res):
        what = dict(tool=name, args=[x for x in a if isinstance(x, (str, int))])
        rep = REPORT.search(err)
        leak = [l for l in out.splitlines() if l.startswith("LEAK ")]
        if rep:
            i = rep.start()
            fails.append((f"{name}: {rep.group(1)}\n" + err[max(0, i - 200):i + 2500], what))
        elif leak:
            fails.append((f"repeating an operation keeps more and more memory: {leak[0]} ({len(leak)} items)", what))
        elif rc is not None and (rc < 0 and -rc in SIG or rc - 128 in SIG):
            fails.append((f"{name}: the workload ends with {SIG.get(-rc) or SIG.get(rc - 128)}: {err[-1500:]}", what))
        elif rc is None:
            unfinished.append((name, a[-2] if name == "miri" else a[1] if name.startswith("monitors") else a[4]))
        elif name.startswith("monitors"):
            # their own verdicts are for the other checks
            m = re.search(r"(\d+)/\d+ cases", out)
            w = re.search(r'"weighed": (\d+)', out)
            if not m:
                print(f"{name} {what['args'][1:]}: ends with {rc}, no verdict from this run: {err[-600:]}")
                unfinished.append((name, rc))
            cases[name] = cases.get(name, 0) + int((w or m).group(1) if m else 0)
            runs[name] = runs.get(name, 0) + 1
            continue
        elif rc != 0 or not out.endswith("end\n"):
            print(f"{name} {what['args'][1:]}: the workload ends with {rc}, no verdict from this run: {err[-600:]}")
            unfinished.append((name, rc))
        done = [l for l in out.splitlines() if "\t" in l]
        runs[name] = runs.get(name, 0) + 1
        lines[name] = lines.get(name, 0) + len(done)
        seen.update(tuple(l.split("\t")[:2]) + (l.split("\t")[-1],) for l in done)
        if done:
            samples.append(dict(tool=name, line=random.Random(seed).choice(done)[:200]))
    for u in unfinished:
        print("not finished:", u)
    wall = time.time() - t0
    held = sum(1 for (n, _, _), (_, out, _) in zip(jobs, res) if n == "count" for l in out.splitlines() if "\theld\t" in l)
    driver.evidence("C28", tier, seed, wall, sum(lines.values()), len(seen),
                    "the workload under each tool; an evaluation is a result line computed under a tool (concurrent runs print none), distinct by item and content",
                    samples[:6], len(fails), runs_by_tool=runs, result_lines_by_tool=lines, items_weighed_for_leaks=held, monitor_cases=cases, tools_left_out=missing + ([] if root else ["miri"]),
                    unfinished=[list(u) for u in unfinished])
    for i, (what, data) in enumerate(fails[:5]):
        driver.violation("C28", f"{seed}-{i}", what, data)
    print(f"C28 {tier} seed={seed}: {runs} runs, {lines} result lines, {cases} cases, {held} items weighed, {wall:.1f} s")
    if fails:
        return 1
    if len(unfinished) * 2 > len(jobs) or not runs:
        print("most of the runs did not finish, no verdict")
        return 2
    return 0
