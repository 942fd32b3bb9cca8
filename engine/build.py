"""Compile /repo's current tree to LLVM IR (and to a native replay executable)."""
import atexit
import os
import re
import shutil
import subprocess
import tempfile

from . import api, ir

REPO = os.environ.get("LIBM_REPO", "/repo")
TC = os.environ.get("VERIF_TOOLCHAIN", "nightly-2025-04-20")
_tmp = None


class BuildError(Exception):
    pass


def workdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vlibm.")
        atexit.register(shutil.rmtree, _tmp, ignore_errors=True)
    return _tmp


CFG = {
    # the crate's own features / build.rs cfgs
    "arch": ["arch_enabled", 'feature="arch"'],
    "soft": [],
    "intrinsics": ["arch_enabled", 'feature="arch"', "intrinsics_enabled", 'feature="unstable-intrinsics"'],
}
COMMON = ["f16_enabled", "f128_enabled", 'feature="unstable-float"', 'feature="unstable-public-internals"']


def rustc(args, cwd=None):
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TC)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    p = subprocess.run(["rustc", "--edition", "2021", "--cap-lints", "allow", *args], env=env, cwd=cwd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-4000:])
    return p


def cfgs(config):
    out = []
    for c in CFG[config] + COMMON:
        out += ["--cfg", c]
    return out


_memo = {}


def build_ir(config="arch", checked=True, names=None, extra=None, opt="3", src_extra="", key=None):
    """-> ir.Module containing the libm crate and the harness wrappers (w_<name>)"""
    k = ("ir", config, checked, tuple(sorted(names)) if names else None, opt, key)
    if k in _memo:
        return _memo[k]
    d = tempfile.mkdtemp(dir=workdir())
    dbg = ["-C", "debug-assertions=" + ("y" if checked else "n"), "-C", "overflow-checks=" + ("y" if checked else "n")]
    com = ["-C", f"opt-level={opt}", *dbg, "-C", "codegen-units=1", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "panic=abort"]
    rustc(
        ["--crate-type", "lib", "--crate-name", "libm", f"{REPO}/libm/src/lib.rs", *com, *cfgs(config),
         f"--emit=metadata={d}/liblibm.rmeta,llvm-ir={d}/libm.ll", "--out-dir", d]
    )
    with open(f"{d}/h.rs", "w") as f:
        f.write(api.harness(names, extra) + src_extra)
    rustc(["--crate-type", "lib", "--crate-name", "harness", f"{d}/h.rs", *com, "-Zub-checks=no", "--extern", f"libm={d}/liblibm.rmeta", f"--emit=llvm-ir={d}/h.ll", "--out-dir", d])
    m = ir.Module().load(f"{d}/libm.ll")
    # private globals have per-module names: load the harness with a prefix for clashes
    with open(f"{d}/h.ll") as f:
        txt = f.read()
    with open(f"{d}/h.ll", "w") as f:
        f.write(re.sub(r"@(vtable\.|anon\.|switch\.table)", r"@h.\1", txt))
    h = ir.Module().load(f"{d}/h.ll")
    merge(m, h)
    m.config, m.checked = config, checked
    _memo[k] = m
    return m


def merge(m, h):
    ext = [g for g, v in h.globals.items() if isinstance(v, str) and v.startswith("external ") and g in m.globals]
    for g in ext:
        del h.globals[g]
    clash = [g for g in h.globals if g in m.globals and h.globals[g] != m.globals[g]]
    if clash:
        raise ir.Unsupported("clashing globals " + clash[0])
    m.globals.update(h.globals)
    for n, f in h.funcs.items():
        m.funcs.setdefault(n, f)
    m.alias.update(h.alias)


class Native:
    """replay executable: the real code, built by rustc from the current tree"""

    def __init__(self, config="arch", checked=True, names=None, extra=None, src_extra=""):
        d = tempfile.mkdtemp(dir=workdir())
        dbg = ["-C", "debug-assertions=" + ("y" if checked else "n"), "-C", "overflow-checks=" + ("y" if checked else "n")]
        com = ["-C", "opt-level=1", *dbg, "-C", "codegen-units=8"]
        rustc(["--crate-type", "rlib", "--crate-name", "libm", f"{REPO}/libm/src/lib.rs", *com, *cfgs(config), "--out-dir", d])
        with open(f"{d}/h.rs", "w") as f:
            f.write(api.harness(names, extra) + src_extra)
        rustc(["--crate-type", "bin", "--crate-name", "replay", f"{d}/h.rs", "--cfg", "native", *com, "--extern", f"libm={d}/liblibm.rlib", "--out-dir", d])
        self.exe = f"{d}/replay"

    def run(self, calls, timeout=60):
        """calls: list of (name, args tuple) -> list of (status, values)"""
        inp = "".join(f"{n} {' '.join(format(a, 'x') for a in args)}\n" for n, args in calls)
        try:
            p = subprocess.run([self.exe], input=inp, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            if len(calls) == 1:
                return [("hang", ())]
            return [self.run([c], timeout)[0] for c in calls]
        out = []
        for line in p.stdout.splitlines():
            t = line.split()
            out.append(("ok", (int(t[1], 16), int(t[2], 16))) if t[0] == "ok" else ("panic", line[6:]))
        if len(out) < len(calls):
            if len(calls) == 1:
                return [("crash", p.returncode)]
            k = len(out)
            return out + self.run(calls[k : k + 1], timeout) + (self.run(calls[k + 1 :], timeout) if k + 1 < len(calls) else [])
        return out


_nat = {}


def native(config="arch", checked=True, names=None, extra=None, src_extra="", key=None):
    k = (config, checked, tuple(sorted(names)) if names else None, key)
    if k not in _nat:
        _nat[k] = Native(config, checked, names, extra, src_extra)
    return _nat[k]
