"""Builds and runs the monitors of one property; see ../check."""
import json, os, re, resource, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
KNOWN = os.path.join(ROOT, "known_findings.json")
REPLAYS = os.path.join(ROOT, "replays")
WORK = os.path.join(ROOT, "work")
HARNESS = os.path.join(ROOT, "harness")

BINS = {}
for _bin, _ids in {
    "mpc": "C01 C02 C03 C04 C05 C06 C07 C08 C29",
    "core": "C09 C10 C11 C12 C14 C15 C16 C26 C27",
    "proto": "C17 C18 C19 C20 C21 C22",
    "sys": "C23 C24",
}.items():
    for _i in _ids.split():
        BINS[_i] = _bin
SPECIAL = {"C13": "derive_check", "C25": "config_check", "C26": "artifact_check", "C28": "sanitize_check"}


def env(toolchain="stable", **kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=toolchain, CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e.update(kw)
    return e


def build(args, cwd=HARNESS, e=None, log="build"):
    """cargo build; returns True on success, prints the tail of the log otherwise."""
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        print(f"BUILD FAILED ({' '.join(args)}), no verdict")
        print(r.stdout[-4000:])
    return r.returncode == 0


def violation(pid, name, what, data=None):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{pid}-{name}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, what=what, data=data, cmd=f"./check {pid} quick"), f, indent=1)
    print(what)
    print(f"VIOLATION property={pid} replay={path}")
    sys.stdout.flush()
    return 1


def evidence(pid, tier, seed, wall, evaluations, distinct, rule, samples, violations, assumptions=(), **more):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = dict(evaluations=evaluations, distinct_nontrivial=distinct, rule=rule, samples=samples, exhaustive=False)
    cov.update(more)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
                       assumptions=list(assumptions), wall_s=round(wall, 2), violations=violations), f, indent=1)
        f.write("\n")


def limits():
    # a call that asks for memory without end is ended by its own failed allocation
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_bin(pid, tier, seed, extra):
    name = BINS[pid]
    if not build(["build", "--offline", "--locked", "--bin", name]):
        return 2
    return run_exe(pid, os.path.join(HARNESS, "target/debug", name), tier, seed, extra)


def run_exe(pid, exe, tier, seed, extra):
    os.makedirs(WORK, exist_ok=True)
    current = os.path.join(WORK, f"current-{pid}-{os.getpid()}")
    base = [exe, pid, "--tier", tier, "--seed", str(seed), "--replays", REPLAYS, "--known", KNOWN]
    if "--family" in extra:
        return subprocess.run(base + extra, env=env()).returncode
    ev = os.path.join(ROOT, "evidence", pid + ".json")
    if os.path.exists(ev):
        os.unlink(ev)
    args = base + ["--evidence", ev, "--current", current] + extra
    p = subprocess.run(args, cwd=ROOT, env=env(RUST_MIN_STACK=str(64 << 20)), preexec_fn=limits)
    rc = p.returncode
    try:
        if rc >= 0:
            return rc if rc in (0, 1) else 2
        sig = -rc
        print(f"monitor process ended by signal {sig}")
        if sig not in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
            return 2
        # Which of the running cases aborts the process? Each is run again alone.
        for line in open(current).read().splitlines():
            f = line.split()
            if len(f) != 2 or f[0] == "-":
                continue
            q = subprocess.run(base + ["--family", f[0], "--idx", f[1]], cwd=ROOT, env=env(RUST_MIN_STACK=str(64 << 20)),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=limits)
            if q.returncode < 0 and -q.returncode == sig:
                return violation(pid, f"{f[0]}-{seed}-{f[1]}", f"case {f[0]}/{f[1]} aborts the process (signal {sig}): {q.stdout[-300:]}",
                                 dict(family=f[0], idx=int(f[1]), seed=seed, signal=sig))
        print("no single case reproduces the abort, no verdict")
        return 2
    finally:
        if os.path.exists(current):
            os.unlink(current)


def main(argv):
    if len(argv) < 2 or argv[1] not in ("quick", "thorough"):
        print(__doc__ or "usage")
        return 2
    pid, tier, extra = argv[0], argv[1], argv[2:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--seed" in extra:
        i = extra.index("--seed")
        seed = int(extra[i + 1])
        extra = extra[:i] + extra[i + 2:]
    if pid in SPECIAL:
        mod = __import__(SPECIAL[pid])
        return mod.run(tier, seed, extra)
    if pid not in BINS:
        print(f"unknown property {pid}")
        return 2
    return run_bin(pid, tier, seed, extra)
