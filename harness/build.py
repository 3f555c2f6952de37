"""Builds a private copy of /repo's working tree under .build/<flavour>.

The copy is refreshed (content hash over every source file) on every call, so a
check always runs the current tree, whatever is compiled in /repo itself."""

import copy
import fcntl
import functools
import hashlib
import json
import os
from pathlib import Path
import runpy
import shutil
import subprocess
import sys

ROOT = Path(os.environ["VERIF_ROOT"])
REPO = Path(os.environ["VERIF_REPO"])
FLAGS = {
    "plain": "-g0",
    # memory errors only: the algorithms shift and wrap on purpose
    "asan": "-g1 -O1 -fno-omit-frame-pointer -fsanitize=address,bounds,object-size,null,return,"
    "unreachable,vla-bound -fno-sanitize-recover=all",
    # what other platforms compile: no vector instructions, no 128-bit integers, no assembly
    "portable": "-g0 -O2 -DPCG_FORCE_EMULATED_128BIT_MATH=1 -U__SIZEOF_INT128__ -DR123_USE_GNU_UINT128=0 "
    "-DR123_USE_ASM_GNU=0 -U__SSE2__ -U__SSSE3__ -U__AES__",
    # another compiler, everything inlined, Random123's assembly, SSE2 without SSSE3
    "clang": "-g0 -O3 -UNDEBUG -DR123_USE_GNU_UINT128=0 -U__SSSE3__",
    "debug": "-g0 -O0 -UNDEBUG",
}
EXTRA = {"portable": {"RANDOMGEN_NO_SSE2": "1"}, "clang": {"CC": "clang", "CXX": "clang++"}}
SKIP_DIRS = {".git", "build", "__pycache__", ".hypothesis", "doc", "ci"}
SKIP_SUFFIX = {".so", ".html", ".o", ".pyc"}


def sources():
    out = {}
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS)
        for f in sorted(files):
            p = Path(base) / f
            if p.suffix in SKIP_SUFFIX or not p.is_file():
                continue
            if p.suffix == ".c" and p.with_suffix(".pyx").exists():
                continue  # generated by Cython
            if p.stem == "bounded_integers" and p.suffix in (".pyx", ".pxd", ".c"):
                continue
            if p.suffix == ".csv" and "tests" in p.parts:
                continue
            out[str(p.relative_to(REPO))] = p.read_bytes()
    return out


def main(flavour):
    dest = ROOT / ".build" / flavour
    dest.parent.mkdir(parents=True, exist_ok=True)
    lock = open(ROOT / ".build" / f"{flavour}.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    src = sources()
    h = hashlib.sha256(repr((FLAGS[flavour], EXTRA.get(flavour), sys.version)).encode())
    for k, v in sorted(src.items()):
        h.update(k.encode() + b"\0" + hashlib.sha256(v).digest())
    stamp = dest / ".stamp"
    if stamp.exists() and stamp.read_text() == h.hexdigest():
        return
    stamp.unlink(missing_ok=True)
    # what the last build here used, per file
    known = {}
    manifest = dest / ".sources.json"
    if manifest.exists():
        known = json.loads(manifest.read_text())
    fresh = not known
    if fresh and dest.exists():
        shutil.rmtree(dest)
    dest.mkdir(exist_ok=True)
    new = {k: hashlib.sha256(v).hexdigest() for k, v in src.items()}
    changed = {k for k in {*known, *new} if known.get(k) != new.get(k)}
    for k in changed:
        p = dest / k
        if k in src:
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(src[k])
        else:
            p.unlink(missing_ok=True)
    manifest.write_text("{}")
    # Cython output is kept only where every Cython input it was made from is unchanged
    if not fresh:
        shared = any(k.endswith((".pxd", ".pxi", ".in", "setup.py")) for k in changed)
        for pyx in (dest / "randomgen").rglob("*.pyx"):
            rel = str(pyx.relative_to(dest))
            if shared or rel in changed:
                pyx.with_suffix(".c").unlink(missing_ok=True)
    for so in (dest / "randomgen").rglob("*.so"):
        so.unlink()
    os.environ["CFLAGS"] = FLAGS[flavour]
    for k, v in EXTRA.get(flavour, {}).items():
        ccache = k in ("CC", "CXX") and os.environ[k].startswith("ccache")
        os.environ[k] = f"ccache {v}" if ccache else v
    log = ROOT / ".build" / f"{flavour}.log"
    with open(log, "w") as f:
        r = subprocess.run(
            [sys.executable, os.path.abspath(__file__), "--compile"],
            cwd=dest, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(log.read_text()[-3000:])
        sys.exit(2)
    manifest.write_text(json.dumps(new))
    stamp.write_text(h.hexdigest())


def compile_tree(only=None, dest=None):
    import Cython.Build
    from setuptools.command.build_ext import build_ext

    jobs = os.cpu_count() or 4
    Cython.Build.cythonize = functools.partial(Cython.Build.cythonize, nthreads=jobs)
    build_extension = build_ext.build_extension

    def isolated(self, ext):
        if only and not ext.name.endswith("." + only):
            return
        clone = copy.copy(self)
        clone.build_temp = os.path.join(self.build_temp, ext.name)
        build_extension(clone, ext)

    build_ext.build_extension = isolated
    where = [f"--build-lib={dest}", f"--build-temp={dest}/tmp"] if only else ["--inplace"]
    sys.argv = ["setup.py", "build_ext", *where, "--force", f"--parallel={jobs}"]
    sys.path.insert(0, os.getcwd())
    runpy.run_path("setup.py", run_name="__main__")


if __name__ == "__main__":
    if sys.argv[1] == "--compile":
        compile_tree()
    elif sys.argv[1] == "--only":
        compile_tree(*sys.argv[2:4])
    else:
        main(sys.argv[1])
