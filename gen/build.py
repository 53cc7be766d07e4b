"""Builds generated programs against the crate as it is in /repo now, and runs them."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
JOBS = max(2, os.cpu_count() or 8)


class Broken(Exception):
    """The machinery could not give an answer."""


class Rustc:
    def __init__(self, env, target):
        self.env = env
        self.tmp = tempfile.mkdtemp(prefix="gen.", dir=os.path.join(os.path.dirname(HERE), "evidence"))
        r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--message-format=json", "--manifest-path", os.path.join(HERE, "rt/Cargo.toml")],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise Broken("the support crate does not build against /repo:\n" + r.stderr[-4000:])
        self.rlib = None
        for l in r.stdout.splitlines():
            d = json.loads(l)
            if d.get("reason") == "compiler-artifact" and d["target"]["name"] == "rt":
                self.rlib = [f for f in d["filenames"] if f.endswith(".rlib")][0]
        if not self.rlib:
            raise Broken("no rlib of the support crate")
        self.deps = os.path.join(target, "debug", "deps")
        self.n = 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, ext):
        self.n += 1
        return os.path.join(self.tmp, f"s{self.n}{ext}")

    def compile(self, text, emit_only_metadata, out=None, edition="2021"):
        """-> (ok, [(line in text, message)], raw). Lines are 1-based; None when unknown."""
        f = self.path(".rs")
        with open(f, "w") as h:
            h.write(text)
        o = out or f + ".out"
        cmd = ["rustc", f"--edition={edition}", "--crate-name", "s", "--error-format=json", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "codegen-units=1", "-A", "warnings",
               "--extern", f"rt={self.rlib}", "-L", f"dependency={self.deps}", f, "-o", o]
        cmd += ["--crate-type", "lib", "--emit=metadata"] if emit_only_metadata else ["--crate-type", "bin", "-C", "link-arg=-fuse-ld=lld"] if False else (["--crate-type", "bin"])
        r = subprocess.run(cmd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        errs = []
        if r.returncode != 0:
            for l in r.stderr.splitlines():
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") != "error":
                    continue
                line = None
                for sp in d.get("spans", []):
                    x = sp
                    while x:
                        if x["file_name"] == f:
                            line = x["line_start"]
                        x = x["expansion"]["span"] if x.get("expansion") else None
                    if line and sp["is_primary"]:
                        break
                if d.get("spans"):
                    errs.append((line, d["message"]))
            if not errs and r.returncode not in (1,):
                errs.append((None, f"rustc exited {r.returncode}: " + r.stderr[-500:]))
        os.remove(f)
        if emit_only_metadata and os.path.exists(o):
            os.remove(o)
        return r.returncode == 0, errs, r.stderr


def pool(f, xs):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(f, xs))


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]
