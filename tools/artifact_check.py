"""C26: generated specifications against the published ones."""
import os
import driver

TARGET = os.path.join(driver.HARNESS, "target-stl")


def stl():
    ok = driver.build(["build", "--offline", "--locked", "-q", "--features", "stl", "--package", "commit_verify", "--bin", "commit-stl"],
                      cwd=driver.REPO, e=driver.env(CARGO_TARGET_DIR=TARGET))
    return os.path.join(TARGET, "debug", "commit-stl") if ok else None


def prepare():
    return stl() is not None


def run(tier, seed, extra):
    exe = stl()
    if not exe:
        return 2
    os.environ["VERIF_COMMIT_STL"] = exe
    os.environ["VERIF_WORK"] = driver.WORK
    return driver.run_bin("C26", tier, seed, extra)
