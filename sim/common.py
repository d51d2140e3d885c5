"""Shared plumbing: building the code under test, findings, evidence, violations."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
NODE_TOOLS = "/opt/veriftools/node/node_modules/.bin"


class HarnessError(Exception):
    pass


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tree_hash(root, skip=("target", ".git", "node_modules")):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build_typical():
    """Build the tool from the current tree of the repository; returns the path of a private copy."""
    with Lock("typical"):
        h = tree_hash(REPO)
        out = os.path.join(BUILD, "bin", "typical-" + h)
        if os.path.exists(out):
            return out
        target = os.path.join(BUILD, "target")
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            # File times of a copied tree prove nothing: always rebuild the crate itself.
            for n in os.listdir(fp):
                if n.startswith("typical-"):
                    shutil.rmtree(os.path.join(fp, n))
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
        for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "LD_PRELOAD"):
            env.pop(k, None)
        p = sh(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml")], env=env)
        if p.returncode != 0:
            raise HarnessError("cannot build typical:\n" + p.stdout[-4000:])
        os.makedirs(os.path.dirname(out), exist_ok=True)
        for n in os.listdir(os.path.dirname(out)):
            os.unlink(os.path.join(os.path.dirname(out), n))
        shutil.copy2(os.path.join(target, "debug", "typical"), out + ".tmp")
        os.rename(out + ".tmp", out)
        return out


def build_cached(name, inputs, cmd):
    """Build one of our own artefacts; cmd maps an output path to a command."""
    with Lock(name):
        h = hashlib.sha256(repr(cmd("")).encode())
        for p in inputs:
            h.update(open(p, "rb").read())
        out = os.path.join(BUILD, "own", h.hexdigest()[:16], name)
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = os.path.join(os.path.dirname(out), "tmp-" + name)
            p = sh(cmd(tmp))
            if p.returncode != 0:
                raise HarnessError("cannot build %s:\n%s" % (name, p.stdout[-4000:]))
            os.rename(tmp, out)
        return out


def build_rt():
    src = os.path.join(VERIF, "rt", "src")
    files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".rs"))
    return build_cached("librt.rlib", files, lambda o: [
        "rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "rt", "-C", "opt-level=2",
        "-C", "debuginfo=0", "-C", "overflow-checks=on", "-o", o, os.path.join(src, "lib.rs")])


def build_shim():
    src = os.path.join(VERIF, "shim", "shim.c")
    return build_cached("shim.so", [src], lambda o: ["gcc", "-O1", "-g", "-fPIC", "-shared", "-w", "-o", o, src, "-ldl"])


def build_launch():
    src = os.path.join(VERIF, "shim", "launch.c")
    return build_cached("launch", [src], lambda o: ["gcc", "-O1", "-w", "-o", o, src])


def scratch():
    d = os.path.join(BUILD, "scratch", "%07d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def drop_scratch():
    d = os.path.join(BUILD, "scratch", "%07d" % os.getpid())
    if os.path.isdir(d):
        sh(["chmod", "-R", "u+rwX", d])
        shutil.rmtree(d, ignore_errors=True)


# ---- known findings --------------------------------------------------------------------------------------

def findings():
    """Lines `finding: property=<id> id=<KF> replay=<path> what=<text>` of known-findings.txt."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        head, what = line[len("finding:"):].split(" what=", 1)
        d = dict(kv.split("=", 1) for kv in head.split())
        d["what"] = what
        out.append(d)
    return out


# ---- results ---------------------------------------------------------------------------------------------

class Result:
    """Collects what one check covered and what it found."""

    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.violations, self.known, self.coverage, self.assumptions = [], {}, {}, []
        self.level = "exploration"

    def violation(self, cls, msg, replay):
        """replay: JSON-able content of the replay file."""
        if any(v["class"] == cls for v in self.violations):
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        replay = dict(replay, property=self.prop, expected_class=cls, message=msg)
        text = json.dumps(replay, indent=1, sort_keys=True)
        p = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha256(text.encode()).hexdigest()[:12]))
        with open(p, "w") as f:
            f.write(text)
        self.violations.append({"class": cls, "msg": msg, "path": p})

    def finish(self):
        wall = time.time() - self.t0
        cov = self.coverage
        runs = cov.get("simulated_runs", 0)
        cov["runs_per_hour"] = int(runs * 3600 / max(wall, 0.001))
        ev = dict(property=self.prop, tier=self.tier, seed=seed(), level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, self.known[k]))
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v["path"]))
            print("  [%s] %s" % (v["class"], v["msg"][:1500]))
        print("%s: %d runs, %d evaluations, %d violation(s), %.1fs" % (
            self.prop, runs, cov.get("evaluations", 0), len(self.violations), wall))
        return 1 if self.violations else 0
