"""Prebuilds the monitors (everything offline)."""
import importlib, os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver


def prepare(*mods):
    ok = True
    for m in mods:
        ok = importlib.import_module(m).prepare() and ok
    return ok


def monitors():
    return driver.build(["build", "--offline", "--locked", "--bins"]) and prepare("derive_check", "artifact_check")


with ThreadPoolExecutor(2) as ex:
    # the last two share the interpreter's system root
    a, b = ex.submit(monitors), ex.submit(prepare, "config_check", "sanitize_check")
    sys.exit(0 if a.result() and b.result() else 1)
