"""C13: generated programs through the CommitEncode derive, observed against the declared strategy."""
import json, os, shutil, subprocess
import driver, derive_gen

CRATE = os.path.join(driver.ROOT, "derive")
TARGET = os.path.join(driver.HARNESS, "target-derive")
QUICK, THOROUGH = (120, 76), (1200, 90)


def cargo(gen, target=TARGET):
    args = ["cargo", "build", "--offline", "--locked", "--bin", "vderive", "--message-format=json"]
    r = subprocess.run(args, cwd=CRATE, env=driver.env(CARGO_TARGET_DIR=target, VERIF_GEN=gen), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, errors="replace")
    libs, exe, errs = {}, None, []
    for l in r.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact":
            n = m["target"]["name"]
            for f in m["filenames"]:
                if f.endswith((".rlib", ".so")):
                    libs[n] = f
            if m.get("executable"):
                exe = m["executable"]
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            errs.append((m["target"]["name"], m["message"]["rendered"]))
    return r.returncode == 0, libs, exe, errs, r.stderr


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def gen_file(seed, n, control=False, only=None):
    path = os.path.join(driver.WORK, "derive", "control.rs" if control else "gen.rs")
    write(path, derive_gen.source(seed, n, control, only))
    return path


def prepare():
    ok, _, _, errs, err = cargo(gen_file(1, QUICK[0]))
    if not ok:
        print(err[-3000:], *[e[1] for e in errs[:3]])
    return ok


def run(tier, seed, extra):
    nt, np = THOROUGH if tier == "thorough" else QUICK
    ok, libs, exe, errs, err = cargo(gen_file(seed, nt))
    if not ok:
        if "vderive" not in {e[0] for e in errs} or any(e[0] != "vderive" for e in errs):
            print("BUILD FAILED, no verdict\n" + err[-3000:])
            return 2
        # The same definitions with the implementation written by hand: do they compile?
        cok, _, _, cerrs, cerr = cargo(gen_file(seed, nt, control=True), TARGET + "-control")
        if not cok:
            print("control program doesn't compile, no verdict\n" + "\n".join(e[1] for e in cerrs[:2]) + cerr[-2000:])
            return 2
        what = "a valid use of the derive is refused or expands to code that does not compile:\n" + errs[0][1][:3000]
        driver.evidence("C13", tier, seed, 0, nt, 1, "generated definitions", [errs[0][1][:400]], 1)
        return driver.violation("C13", f"compile-{seed}", what, dict(seed=seed, types=nt, errors=[e[1] for e in errs[:5]]))
    progs = os.path.join(driver.WORK, f"derive-programs-{os.getpid()}")
    os.makedirs(progs, exist_ok=True)
    try:
        for name, text in derive_gen.programs(seed, np):
            write(os.path.join(progs, name + ".rs"), text)
        deps = os.path.join(TARGET, "debug", "deps")
        args = ["--edition=2021", "--crate-type=lib", "--emit=metadata", "--cap-lints=allow", "-L", f"dependency={deps}"]
        for n in ("vderive", "commit_verify", "amplify", "strict_encoding"):
            args += ["--extern", f"{n}={libs[n]}"]
        os.environ.update(VERIF_PROGRAMS=progs, VERIF_RUSTC_ARGS="\n".join(args))
        return driver.run_exe("C13", exe, tier, seed, extra)
    finally:
        shutil.rmtree(progs, ignore_errors=True)
