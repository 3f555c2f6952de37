"""Extension modules compiled over scripted stand-ins: RDRAND over the instruction, entropy over read()."""

import ctypes
import errno
import fcntl
import hashlib
import importlib.util
import os
from pathlib import Path
import subprocess
import sys

HERE = Path(__file__).resolve().parent
ROOT = Path(os.environ["VERIF_ROOT"])
PLAIN = ROOT / ".build" / "plain"


def build(ext, name):
    """(extension module, stand-in library) or None where the module cannot be built that way."""
    dest = ROOT / ".build" / name
    dest.mkdir(exist_ok=True)
    with open(ROOT / ".build" / f"{name}.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = hashlib.sha256((PLAIN / ".stamp").read_bytes())
        for f in (f"{name}.h", f"{name}.c"):
            key.update((HERE / f).read_bytes())
        stamp = dest / ".stamp"
        lib = dest / f"lib{name}.so"
        if not (stamp.exists() and stamp.read_text() == key.hexdigest()):
            stamp.unlink(missing_ok=True)
            for so in dest.rglob("*.so"):
                so.unlink()
            with open(ROOT / ".build" / f"{name}.log", "w") as log:
                a = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", str(lib), str(HERE / f"{name}.c")],
                                   stdout=log, stderr=subprocess.STDOUT)
                b = subprocess.run([sys.executable, str(HERE.parent / "build.py"), "--only", ext, str(dest)],
                                   cwd=PLAIN, stdout=log, stderr=subprocess.STDOUT,
                                   env=dict(os.environ, CFLAGS=f"-g0 -include {HERE / f'{name}.h'}"))
            if a.returncode or b.returncode:
                print(f"the stand-in for {name} cannot be built, see .build/{name}.log", file=sys.stderr)
                return None
            stamp.write_text(key.hexdigest())
        found = sorted(dest.rglob(f"{ext}*.so"))
        return (found[0], lib) if found else None


def module(ext, name):
    """(module, stand-in library) or None."""
    built = build(ext, name)
    if built is None:
        return None
    lib = ctypes.CDLL(str(built[1]), mode=ctypes.RTLD_GLOBAL)
    spec = importlib.util.spec_from_file_location(f"scripted.{ext}", built[0])
    m = importlib.util.module_from_spec(spec)
    sys.modules[f"scripted.{ext}"] = m
    spec.loader.exec_module(m)
    return m, lib


def load():
    """(RDRAND class, script(bytes), attempts()) or None."""
    got = module("rdrand", "step")
    if got is None:
        return None
    m, step = got
    step.vp_script.argtypes = (ctypes.c_char_p, ctypes.c_long)
    step.vp_attempts.restype = ctypes.c_long
    try:
        bg = m.RDRAND(retries=0)
        step.vp_script(b"", 0)
        bg.random_raw(1)
    except RuntimeError:
        return None
    if step.vp_attempts() != 1:
        return None     # the instruction is reached some other way
    return m.RDRAND, lambda s: step.vp_script(s, len(s)), step.vp_attempts


def word(j):
    """The j-th word (from 1) the stand-in gives."""
    m = (1 << 64) - 1
    z = j * 0x9e3779b97f4a7c15 & m
    z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9 & m
    z = (z ^ z >> 27) * 0x94d049bb133111eb & m
    return z ^ z >> 31


def reading():
    """(random_entropy, script(list of read results), bytes given(), reads()) or None. A result is the
    number of bytes to give at most, 0 for the end of the file, or a negated error number."""
    got = module("entropy", "source")
    if got is None:
        return None
    m, lib = got
    lib.vp_reads.restype = lib.vp_given.restype = lib.vp_plan.restype = ctypes.c_long
    lib.vp_bytes.argtypes = (ctypes.c_char_p, ctypes.c_long)

    def plan(results):
        lib.vp_plan((ctypes.c_long * len(results))(*results), len(results))

    def given():
        n = lib.vp_given()
        out = ctypes.create_string_buffer(n + 1)
        lib.vp_bytes(out, n)
        return out.raw[:n]

    plan([3, -errno.EINTR])
    try:
        m.random_entropy(2)
    except Exception:
        pass
    if lib.vp_reads() < 2:
        return None     # the source is read some other way
    return m.random_entropy, plan, given, lib.vp_reads
