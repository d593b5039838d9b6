"""Builds what a check needs from the current source tree: the MIR dump driver, the dumps, the native runner."""
import os
import shutil
import subprocess
import tempfile
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
STABLE = "1.90.0"
LAYOUTS = "i16,i32,i64,i128"


class BuildError(Exception):
    harness = False


class HarnessError(BuildError):
    """the roots, which only call the crate's public operations, do not compile"""
    harness = True


def rust_env(tc):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["RUSTUP_TOOLCHAIN"] = tc
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def sh(cmd, cwd, env, what, timeout=800, err=BuildError):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise err(f"{what} failed:\n{p.stdout[-6000:]}")
    return p.stdout


class Build:
    def __init__(self):
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="fxverif.", dir=base)
        self.sys = {}
        self.lock = threading.Lock()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def sysroot(self, tc):
        return sh(["rustc", "--print", "sysroot"], HERE, rust_env(tc), "rustc").strip()

    def src(self, crate):
        """cargo wants to write next to the manifest; work on a copy of the harness"""
        d = os.path.join(self.dir, "src_" + crate)
        self.lock.acquire()
        try:
            return self.copysrc(crate, d)
        finally:
            self.lock.release()

    def copysrc(self, crate, d):
        if not os.path.isdir(d):
            shutil.copytree(os.path.join(HERE, crate), d, ignore=shutil.ignore_patterns("target"))
            alt = os.environ.get("VERIF_DEV_REPO")  # development only: run against a scratch copy
            if alt and os.path.exists(os.path.join(d, "Cargo.toml")):
                p = os.path.join(d, "Cargo.toml")
                t = open(p).read()
                open(p, "w").write(t.replace('"/repo"', f'"{alt}"'))
        return d

    def driver(self):
        env = rust_env(NIGHTLY)
        env["CARGO_TARGET_DIR"] = os.path.join(self.dir, "drv")
        sh(["cargo", "build", "--offline", "--quiet"], self.src("driver"), env, "driver build")
        return os.path.join(self.dir, "drv/debug/mirdump")

    def dump(self, driver, crate, lib, group, features, tag=""):
        out = os.path.join(self.dir, f"dump_{crate}_{group}{tag}.json")
        root = self.sysroot(NIGHTLY)
        env = rust_env(NIGHTLY)
        env.update(LD_LIBRARY_PATH=os.path.join(root, "lib"), MIRDUMP_CRATE=lib, MIRDUMP_ROOTS=f"::{group}::", MIRDUMP_OUT=out,
                   MIRDUMP_STOP=os.path.join(HERE, "driver/stop.txt"), MIRDUMP_RUSTC=os.path.join(root, "bin/rustc"),
                   RUSTC_WRAPPER=driver, RUSTFLAGS="-Zalways-encode-mir -Awarnings",
                   CARGO_TARGET_DIR=os.path.join(self.dir, f"mir_{crate}_{group}"))
        sh(["cargo", "check", "--offline", "--quiet", "--lib", "--no-default-features", "--features", features], self.src(crate), env, "MIR extraction", err=HarnessError)
        if not os.path.exists(out):
            raise BuildError("no MIR dump was produced")
        return out

    def crate_builds(self):
        """does the crate itself compile?"""
        env = rust_env(STABLE)
        env["RUSTFLAGS"] = "-Awarnings"
        env["CARGO_TARGET_DIR"] = os.path.join(self.dir, "crate")
        try:
            d = os.path.join(self.dir, "crate_src")
            shutil.copytree(os.environ.get("VERIF_DEV_REPO") or "/repo", d, ignore=shutil.ignore_patterns("target", ".git"))
            sh(["cargo", "check", "--offline", "--quiet", "--lib", "--no-default-features", "--features", "std," + LAYOUTS], d, env, "crate build")
        except (BuildError, subprocess.TimeoutExpired):
            return False
        return True

    def runner(self, crate, features, name="runner", release=False):
        env = rust_env(STABLE)
        env["RUSTFLAGS"] = "-Awarnings"
        tgt = os.path.join(self.dir, f"run_{crate}_{name}")
        env["CARGO_TARGET_DIR"] = tgt
        sh(["cargo", "build", "--offline", "--quiet", "--bin", "runner", "--no-default-features", "--features", features], self.src(crate), env, "native runner build", err=HarnessError)
        return os.path.join(tgt, "debug/runner")


def parallel(fs):
    """run thunks in threads; returns results, re-raises the first error"""
    res = [None] * len(fs)
    err = []

    def go(i, f):
        try:
            res[i] = f()
        except BaseException as e:
            err.append(e)
    ts = [threading.Thread(target=go, args=(i, f)) for i, f in enumerate(fs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]
    return res
