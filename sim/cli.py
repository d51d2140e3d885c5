"""CLI engine: seeded histories of the real tool in a simulated machine, judged against the model in project.py."""
import copy, errno, hashlib, json, multiprocessing, os, re, shutil, subprocess, sys, time, traceback
import osim, project
from common import *
from prng import Rng, mix
from project import BMARK, MARK, unroot

HARD_OPS = {"OPEN", "READ", "WRITE", "MKDIR", "REALPATH", "READLINK", "STAT", "OPENDIR", "RENAME", "SYNC", "TRUNC"}
SHELLS = ["bash", "fish", "zsh", "powershell", "elvish"]


def enc(s):
    return s.encode("utf8", "surrogateescape")


def real(b, root):
    """Contents as they are on disk."""
    return b.replace(BMARK, root.encode())


def big(kind, k):
    """Declarations at a scale at which recursion, quadratic output and lost memoisation show."""
    if kind == "chain":  # Each type contains the next.
        return "".join("struct Zq%d {\n    a: Zq%d = 0\n}\n\n" % (i, i + 1) for i in range(k)) + "struct Zq%d {\n}\n" % k
    if kind == "lattice":  # Each type contains the next one twice: 2^k paths.
        return "".join("struct Zq%d {\n    a: Zq%d = 0\n    b: [Zq%d] = 1\n}\n\n" % (i, i + 1, i + 1) for i in range(k)) + "struct Zq%d {\n}\n" % k
    if kind == "word":
        return "# a " + "x" * k + " b\nstruct Zq {\n}\n"
    if kind == "words":
        return "# " + "to be, or not to be: " * (k // 20) + "\nstruct Zq {\n}\n"
    if kind == "gaps":
        return "struct Zq {\n" + "".join("    a%d: U64 = %d\n" % (i, 2 * i + 1) for i in range(k)) + "}\n"
    if kind == "far":
        return "choice Zq {\n    a = 0\n\n    deleted " + " ".join(str(10 ** 9 + i) for i in range(k)) + "\n}\n"
    if kind == "fields":
        return "choice Zq {\n" + "".join("    a%d: U64 = %d\n" % (i, i) for i in range(k)) + "}\n"
    if kind == "name":
        return "struct Z" + "q" * k + " {\n}\n"
    if kind == "blank":
        return "\n" * k + "struct Zq {\n" + "\n" * k + "}\n" + " " * k
    if kind == "path":
        return "import '" + "./" * k + "zq.t'\n"
    raise ValueError(kind)


# ---- the machine -------------------------------------------------------------------------------------------

class Machine:
    def __init__(self, base, tools):
        self.base, self.tools = base, tools
        self.root = os.path.join(base, "root")
        self.clean_root = os.path.join(base, "clean")
        self.cache = {}
        self.direct_runs = 0

    def path(self, p):
        return self.root + p

    def wipe(self, root):
        if os.path.lexists(root):
            shutil.rmtree(root, ignore_errors=True)
            if os.path.lexists(root):
                sh(["chmod", "-R", "u+rwX", root])
                shutil.rmtree(root)
        os.makedirs(root)

    def put(self, tree, root=None):
        """Create a tree given in script form: {path: {"f": text} | {"l": target} | {"d": 1}} with optional "m" (mode), "t" (mtime)."""
        root = root or self.root
        self.wipe(root)
        for d in ("/home", "/tmp"):
            os.mkdir(root + d)
        for p in sorted(tree):
            self.put1(p, tree[p], root)

    def put1(self, p, n, root=None):
        root = root or self.root
        if "big" in n:
            n = {"f": big(*n["big"])}
        q = root + p
        if "line" in n:
            n = {"f": n["line"][0] * n["line"][1]}
        if "d" in n:
            os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if os.path.islink(q):
                os.unlink(q)
            elif os.path.isdir(q):
                shutil.rmtree(q)
            if "l" in n:
                os.symlink(n["l"].replace(MARK, root), q)
            else:
                with open(q, "wb") as f:
                    f.write(real(enc(n["f"]), root))
        if "m" in n:
            os.chmod(q, n["m"])
        if "t" in n:
            os.utime(q, (n["t"], n["t"]), follow_symlinks=False)

    def put_snap(self, snap, root):
        self.wipe(root)
        for p in sorted(snap):
            n = snap[p]
            if n[0] == "d":
                os.makedirs(root + p, exist_ok=True)
            elif n[0] == "l":
                os.symlink(n[1].replace(MARK, root), root + p)
            elif n[0] == "f":
                with open(root + p, "wb") as f:
                    f.write(real(n[1], root))

    def direct(self, args, cwd, root):
        """Run the tool outside the simulation (model runs)."""
        self.direct_runs += 1
        try:
            p = subprocess.run([self.tools["typical"]] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                               env={"PATH": "/usr/bin:/bin", "HOME": root, "LC_ALL": "C.UTF-8"}, timeout=120)
        except subprocess.TimeoutExpired:
            return None, b"", b""
        return p.returncode, p.stdout, p.stderr

    def clean_generate(self, clo, t):
        """What the closure compiles to in an empty directory with canonical imports: (ok, rust, ts, stderr)."""
        files = {rel: project.canonical_text(clo, rel, t[can][1]) for rel, can in clo.files.items()}
        key = hashlib.sha256(repr((clo.entry, sorted(files.items()))).encode("utf8", "surrogateescape")).digest()
        if key in self.cache:
            return self.cache[key]
        self.wipe(self.clean_root)
        for rel, b in files.items():
            q = self.clean_root + "/s/" + rel
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(b)
        rc, so, se = self.direct(["generate", clo.entry, "--rust", "../o.rs", "--typescript", "../o.ts"], self.clean_root + "/s", self.clean_root)
        if rc == 0:
            with open(self.clean_root + "/o.rs", "rb") as f, open(self.clean_root + "/o.ts", "rb") as g:
                r = (True, f.read(), g.read(), b"")
        else:
            r = (False, None, None, se)
        if len(self.cache) > 400:
            self.cache.clear()
        self.cache[key] = r
        return r

    def clone_format(self, t, entry, cwd):
        """The tree after an undisturbed format run on a copy: (exit code, tree)."""
        key = ("fmt", hashlib.sha256(repr((entry, cwd, sorted(t.items()))).encode("utf8", "surrogateescape")).digest())
        if key in self.cache:
            return self.cache[key]
        self.put_snap(t, self.clean_root)
        rc, so, se = self.direct(["format", entry.replace(MARK, self.clean_root)], self.clean_root + cwd, self.clean_root)
        s = project.snap(self.clean_root)
        r = (rc, s)
        if len(self.cache) > 400:
            self.cache.clear()
        self.cache[key] = r
        return r


# ---- one case ----------------------------------------------------------------------------------------------

class Rec:
    """What happened in one simulated run of the tool."""
    __slots__ = ("step", "args", "code", "ops", "out", "err", "fired", "hung", "killed", "pre", "post", "clo", "entry", "cwd", "exp", "tears")


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, cls + ": " + msg)
        self.cls, self.msg = cls, msg


class Case:
    """Interprets one script."""

    def __init__(self, m, prop, script, known=()):
        self.m, self.prop, self.s, self.known = m, prop, script, known
        self.now = 1700000000
        self.bad = {}        # canonical path -> (digest, kind): content known to be invalid
        self.stats, self.sig = {}, hashlib.sha256()
        self.trace = []
        self.hits = {}
        self.n = 0
        self.stop = False
        self.mem = {}
        self.loose = False   # contents were exchanged, so references between files may be broken

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def short(self, p):
        """A path above the simulated root (an attempt to create it) does not depend on where that is."""
        return "^%d" % p.count("/") if p[:1] == "/" and (self.m.root + "/").startswith(p.rstrip("/") + "/") else p

    def fail(self, cls, msg):
        raise Violation(cls, msg)

    # -- state ------------------------------------------------------------------------------------------
    def snap(self):
        return project.snap(self.m.root)

    def badset(self, t, fmt=False):
        out = set()
        for p, (dg, kind) in self.bad.items():
            n = t.get(p)
            if n and n[0] == "f" and hashlib.sha256(n[1]).digest() == dg and (kind == "syntax" or not fmt):
                out.add(p)
        return out

    def run(self):
        self.m.put(self.s["tree"])
        for p, n in self.s["tree"].items():
            if n.get("bad") and "f" in n:
                self.bad[p] = (hashlib.sha256(enc(n["f"])).digest(), n["bad"])
        for i, st in enumerate(self.s["steps"]):
            if self.stop:
                break
            self.now += st.get("dt", 10)
            if st["k"] in ("write", "rm", "link", "hard", "mv", "swap", "tear"):
                self.mem.clear()
            getattr(self, "do_" + st["k"])(st)
        return self

    # -- environment steps --------------------------------------------------------------------------------
    def touch(self, p, st):
        t = st.get("t", self.now)
        try:
            os.utime(self.m.path(p), (t, t), follow_symlinks=False)
        except OSError:
            pass

    def do_write(self, st):
        if "big" in st:
            st = dict(st, f=st.get("f", "") + big(*st["big"]))
        p = self.m.path(st["path"])
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            old = os.stat(p).st_mtime_ns if os.path.exists(p) else None
            with open(p, "wb") as f:
                f.write(real(enc(st["f"]), self.m.root))
        except OSError:
            return
        if st.get("keep") and old:
            os.utime(p, ns=(old, old))
        else:
            self.touch(st["path"], st)
        if st.get("bad"):
            try:
                q = project.resolve(self.snap(), st["path"])
                self.bad[q] = (hashlib.sha256(enc(st["f"])).digest(), st["bad"])
            except project.Bad:
                pass

    def do_rm(self, st):
        p = self.m.path(st["path"])
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        elif os.path.lexists(p):
            os.unlink(p)

    def do_link(self, st):
        self.do_rm(st)
        p = self.m.path(st["path"])
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.symlink(st["to"].replace(MARK, self.m.root), p)
        except OSError:
            pass

    def do_hard(self, st):
        """A hard link: another name of the same file."""
        self.do_rm(st)
        p = self.m.path(st["path"])
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            os.link(self.m.path(st["to"]), p)
        except OSError:
            pass

    def do_mkdir(self, st):
        try:
            os.makedirs(self.m.path(st["path"]), exist_ok=True)
        except OSError:
            pass

    def do_mv(self, st):
        try:
            os.rename(self.m.path(st["path"]), self.m.path(st["to"]))
        except OSError:
            pass

    def do_touch(self, st):
        self.touch(st["path"], st)

    def do_chmod(self, st):
        try:
            os.chmod(self.m.path(st["path"]), st["m"])
        except OSError:
            pass

    def do_swap(self, st):
        """Exchange the contents of two files."""
        self.loose = True
        a, b = self.m.path(st["path"]), self.m.path(st["to"])
        try:
            x, y = open(a, "rb").read(), open(b, "rb").read()
            open(a, "wb").write(y)
            open(b, "wb").write(x)
        except OSError:
            pass

    def do_edit(self, st):
        """Change the layout of a file as it is now."""
        import cligen
        p = self.m.path(st["path"])
        if os.path.isfile(p):
            t = project.text_of(open(p, "rb").read().replace(self.m.root.encode(), BMARK))
            open(p, "wb").write(real(enc(cligen.unformat(Rng("edit", st["seed"]), t)), self.m.root))
            self.touch(st["path"], st)

    def do_tear(self, st):
        """What a power loss leaves of a file that was being written."""
        p = self.m.path(st["path"])
        how, arg = st["how"], st.get("arg", 0)
        if os.path.isdir(p) and not os.path.islink(p):
            if how == "lost":
                shutil.rmtree(p)
                self.stat("fault_lost_directory")
            return
        if not os.path.isfile(p):
            return
        b = open(p, "rb").read()
        n = int(len(b) * arg)
        if how == "prefix":
            b = b[:n]
        elif how == "zero":
            b = b[:n] + b"\0" * (len(b) - n)
        elif how == "empty":
            b = b""
        elif how == "lost":
            os.unlink(p)
            self.stat("fault_lost_file")
            return
        elif how == "garbage":
            b = b[:n] + bytes((i * 37 + n) % 251 for i in range(min(len(b) - n, 300))) + b[n + 300:]
        elif how == "longer":
            b = b + b"\n}}} stale tail of an older, longer version\n" * 20
        elif how == "flip" and b:
            b = b[:n % len(b)] + bytes([b[n % len(b)] ^ 0x20]) + b[n % len(b) + 1:]
        open(p, "wb").write(b)
        self.stat("fault_torn_" + how)
        self.touch(st["path"], st)

    # -- runs ---------------------------------------------------------------------------------------------
    def sub(self, s):
        return s.replace(MARK, self.m.root)

    def args(self, st):
        c = st["cmd"]
        if c == "generate":
            a = ["generate", self.sub(st["entry"])]
            if st.get("rust"):
                a += ["--rust", self.sub(st["rust"])]
            if st.get("ts"):
                a += ["--typescript", self.sub(st["ts"])]
            if st.get("list"):
                a += ["--list-schemas"]
            return a
        if c == "format":
            return ["format", self.sub(st["entry"])]
        if c == "check":
            return ["format", self.sub(st["entry"]), "--check"]
        if c == "completion":
            return ["shell-completion", st.get("shell", "bash")]
        return st["args"]

    def start(self, st, tag=""):
        return osim.Proc(self.m.tools["launch"], self.m.tools["shim"], self.m.tools["typical"], self.args(st), self.m.root,
                         self.m.root + st.get("cwd", "/"), {a: b.replace(MARK, self.m.root) for a, b in (st.get("env") or {}).items()}, st.get("rand", 1), self.now, os.path.join(self.m.base, "io" + tag),
                         cpu=20)

    def execute(self, st):
        """Run one process to its end under its fault plan. Returns a Rec."""
        r = Rec()
        r.step, r.pre, r.cwd = st, self.snap(), st.get("cwd", "/")
        r.tears = []
        p = self.start(st)
        f = osim.Faults(st.get("faults", []))
        osim.run(p, f)
        r.post = self.snap()
        self.finish(r, p, f.fired)
        return r

    def finish(self, r, p, fired):
        r.code, r.ops, r.out, r.err, r.hung, r.fired = p.code, p.ops, p.out(), p.err(), p.hung, fired
        r.args = self.args(r.step)
        r.killed = any(a in ("kill", "kill_after", "short_kill") for _, a, _, _ in fired)
        # What this run wrote gets the simulated time.
        for q, (a, b) in project.diff(r.pre, r.post).items():
            if b and b[0] in "fd":
                self.touch(q, {})
        self.n += 1
        self.stat("runs")
        self.stat("cmd_" + r.step["cmd"])
        self.stat("ops", len(r.ops))
        self.stat("exit_%s" % r.code)
        for _, a, arg, o in fired:
            self.stat("fault_%s_%s" % (a if a != "fail" else errno.errorcode.get(arg, str(arg)), o.kind))
        self.sig.update(repr((r.step["cmd"], r.code, [(o.kind, self.short(o.path), o.act, o.arg) for o in r.ops if o.path != "<stderr>"])).encode("utf8", "replace"))
        self.trace.append((r.step, r.code, [repr(o) for o in r.ops]))

    def expect(self, r):
        """Fill in the model's view of a run."""
        st = r.step
        if st["cmd"] not in ("generate", "format", "check"):
            return
        try:
            cwd = project.resolve(r.pre, r.cwd)
        except project.Bad:
            cwd = r.cwd
        r.entry = project.join(cwd, unroot(st["entry"]))
        r.clo = project.closure(r.pre, r.entry, self.badset(r.pre, st["cmd"] != "generate"))
        e = {"valid": r.clo.ok(), "why": r.clo.problems[:3], "targets": {}, "dirs": set(), "possible": True}
        if self.loose and st["cmd"] == "generate" and e["valid"] and not self.m.clean_generate(r.clo, r.pre)[0]:
            e["valid"], e["why"] = False, "types are missing"
        if st["cmd"] == "generate":
            sofar = dict(r.pre)
            for k in ("rust", "ts"):
                if st.get(k):
                    t = project.target(sofar, project.join(cwd, unroot(st[k])))
                    for d in t.made:
                        sofar[d] = ("d", 0o755)
                    e["dirs"] |= set(t.made)
                    if t.why:
                        e["possible"] = False
                        e["nowrite"] = t.why
                    else:
                        e["targets"][k] = t.path
                        sofar[t.path] = sofar.get(t.path) or ("f", b"", 0o644)
            d = st["entry"].rpartition("/")
            d = d[0] if d[1] else None
            e["listing"] = sorted(self.sub((d + "/" if d is not None else "") + x) for x in r.clo.files)
        r.exp = e

    def expected_outputs(self, r):
        """{kind: bytes} or None when the clean room rejects the schemas although the model has no objection."""
        ok, rs, ts, se = self.m.clean_generate(r.clo, r.pre)
        if not ok:
            self.fail("clean-rejected", "the tool rejects a valid project even with canonical imports: %s" % text(se))
        done = ("scanned", id(rs))
        if self.m.cache.get(done) is rs:
            return {"rust": rs, "ts": ts}
        if not all(re.fullmatch(r"[^\W\d]\w*", w) for rel in r.clo.files for w in project.namespace(rel)):
            # Names that are no identifiers in the target languages (outside the claims: N01): the clean room decides alone.
            self.stat("strange_names")
            self.m.cache[done] = rs
            return {"rust": rs, "ts": ts}
        want = set()
        for rel, can in r.clo.files.items():
            for d in project.declarations(r.pre[can][1]):
                want |= {(project.namespace(rel), d, "In"), (project.namespace(rel), d, "Out")}
        for k, b, sc in (("rust", rs, project.scan_rust), ("ts", ts, project.scan_ts)):
            got = sc(b)
            if got != want:
                self.fail("wrong-types", "the %s output does not declare exactly the types of the closure: missing %s, extra %s" % (
                    k, sorted(want - got)[:4], sorted(got - want)[:4]))
        refs = {}
        for rel, can in r.clo.files.items():
            for d, to in (project.references(r.clo, rel, r.pre[can][1]) or {}).items():
                refs[project.namespace(rel), d] = to
        for k, b in (("rust", rs), ("ts", ts)):
            for (ns, d, end), got in project.scan_refs(b.decode("utf8", "replace"), k == "rust").items():
                to = refs.get((ns, d))
                if to is None or not all(re.fullmatch(r"\w+", w) for n in [ns] + [x for x, _ in to] for w in n):
                    # Unknown, or names that are no identifiers in the target languages (outside the claims: N01).
                    continue
                self.stat("references", len(to))
                if got != {x + (end,) for x in to}:
                    self.fail("wrong-types", "the %s output of %s %s%s refers to %s, not %s" % (k, ns, d, end, sorted(got), sorted(to)))
        self.m.cache[done] = rs
        return {"rust": rs, "ts": ts}

    # -- judging one run ----------------------------------------------------------------------------------
    def hard(self, r):
        """Injected faults that are not harmless."""
        return [(a, arg, o) for _, a, arg, o in r.fired if a == "fail" and arg != errno.EINTR]

    def judge(self, r):
        st = r.step
        d = project.diff(r.pre, r.post)
        hard = self.hard(r)
        self.stat("evaluations")
        where = describe(r)
        for o in r.ops:
            if o.outside and not self.ancestor(o):
                self.fail("outside", "%s: a change outside the machine: %r" % (where, o))
        if r.hung or (r.code in (-9, -24) and not r.killed):
            self.fail("hang", "%s does not terminate" % where)
        if r.code < 0 and not r.killed:
            self.fail("signal", "%s dies from signal %d: %s" % (where, -r.code, text(r.err)))
        if r.code == 101 and not any(o.path in ("<stdout>", "<stderr>") for _, _, o in hard):
            self.fail("panic", "%s panics: %s" % (where, text(r.err)))
        if r.code not in (0, 1, 101) and not r.killed and not (st["cmd"] == "other" and r.code == 2):
            self.fail("status", "%s exits with %d: %s" % (where, r.code, text(r.err)))
        self.expect(r)
        c = st["cmd"]
        if st.get("damaged"):
            self.judge_damaged(r, d, where)
            return
        if c in ("completion", "other"):
            if d:
                self.fail("touched", "%s changes %s" % (where, sorted(d)[:4]))
            if c == "completion" and not r.killed:
                want = self.completion(st)
                if r.code == 0 and r.out != want:
                    self.fail("wrong-output", "%s exits with 0 but printed %d of %d bytes" % (where, len(r.out), len(want)))
                if r.code != 0 and not hard:
                    self.fail("valid-rejected", "%s fails without a fault: %s" % (where, text(r.err)))
            return
        e = r.exp
        # Which paths may change at all.
        if c == "generate":
            allowed = set(e["targets"].values()) | e["dirs"]
        elif c == "format":
            allowed = set(r.clo.files.values())
        else:
            allowed = set()
        extra = sorted(p for p in d if p not in allowed)
        if extra:
            self.fail("touched", "%s changes %s, which it was not asked to write (%s)" % (where, extra[:4], brief(d[extra[0]])))
        for p, (a, b) in d.items():
            if a and b and a[0] != b[0]:
                self.fail("touched", "%s turns %s from %s into %s" % (where, p, a[0], b[0]))
            if b is None:
                self.fail("touched", "%s removes %s" % (where, p))
            if c == "format" and a and b and a[0] == "f" and a[2] != b[2]:
                self.fail("mode", "%s changes the permissions of %s from %o to %o" % (where, p, a[2], b[2]))
        if r.killed:
            if c == "format":
                self.judge_format_files(r, False)
            if d and not e["valid"]:
                self.fail("invalid-touched", "%s changes %s although the project is invalid: %s" % (where, sorted(d)[:3], e["why"]))
            return
        if not e["valid"]:
            if r.code == 0:
                self.fail("escape-accepted" if any(k == "escape" for k, _, _ in r.clo.problems) else "invalid-accepted",
                          "%s succeeds although the project is invalid: %s" % (where, e["why"]))
            if d:
                self.fail("invalid-touched", "%s changes %s although the project is invalid: %s" % (where, sorted(d)[:3], e["why"]))
            if any(k == "escape" for k, _, _ in r.clo.problems):
                self.judge_opened(r)
            return
        self.judge_opened(r)
        schemas = set(r.clo.files.values())
        if c == "generate":
            self.judge_generate(r, d, hard, schemas, where)
        elif c == "format":
            self.judge_format(r, d, hard, schemas, where)
        else:
            self.judge_check(r, hard, schemas, where)

    def judge_damaged(self, r, d, where):
        """A schema holds arbitrary bytes: the run ends with a success or an error, and on an error changes nothing."""
        c = r.step["cmd"]
        if r.killed or self.hard(r):
            return
        self.stat("damaged_accepted" if r.code == 0 else "damaged_rejected")
        if r.code != 0 and d:
            self.fail("invalid-touched", "%s reports an error on a damaged schema, but changed %s" % (where, sorted(d)[:3]))
        if c == "generate":
            allowed = set(r.exp["targets"].values()) | r.exp["dirs"]
        elif c == "format":
            b = (r.clo.base or "/nothing").rstrip("/") + "/"
            allowed = {p for p in r.pre if p.startswith(b) and r.pre[p][0] == "f"}
        else:
            allowed = set()
        extra = sorted(p for p in d if p not in allowed)
        if extra:
            self.fail("touched", "%s on a damaged project changes %s" % (where, extra[:4]))

    def ancestor(self, o):
        """Told that / does not exist, the standard library's create_dir_all tries to create what lies above, which exists."""
        return o.kind == "MKDIR" and (self.m.root + "/").startswith(o.path.rstrip("/") + "/")

    def judge_opened(self, r):
        """No file outside the base directory is opened."""
        if r.clo.base is None:
            return
        b = r.clo.base.rstrip("/") + "/"
        ok = set(r.exp["targets"].values()) | ({r.clo.files[r.clo.entry]} if r.clo.entry in r.clo.files else set())
        for o in r.ops:
            if o.kind != "OPEN" or o.outside:
                continue
            try:
                q = project.resolve(r.pre, o.path)
            except project.Bad:
                continue
            if r.pre.get(q, ("d",))[0] == "f" and not q.startswith(b) and q not in ok:
                self.fail("escape-opened", "%s opens %s, outside the base directory %s" % (describe(r), q, r.clo.base))

    def on_schema(self, r, hard, schemas):
        """Hard faults on operations on the schemas (which a run cannot do without)."""
        outs = set(r.exp["targets"].values())
        return [(a, arg, o) for a, arg, o in hard if o.kind in ("OPEN", "READ", "REALPATH") and not o.writes() and o.path[:1] == "/"
                and canonical(r.pre, o.path) not in outs]

    def judge_generate(self, r, d, hard, schemas, where):
        e = r.exp
        want = self.expected_outputs(r)
        if r.code != 0:
            if not hard and e["possible"]:
                self.fail("valid-rejected", "%s fails on a valid project without a fault: %s" % (where, text(r.err)))
            if not e["possible"] and not hard:
                self.stat("impossible_output")
            if self.on_schema(r, hard, schemas) and d:
                self.fail("readfault-touched", "%s could not read a schema, but changed %s" % (where, sorted(d)[:3]))
            return
        if not e["possible"]:
            self.fail("wrong-output", "%s succeeds although an output cannot be written (%s)" % (where, e["nowrite"]))
        for k, p in e["targets"].items():
            n = r.post.get(p)
            if n is None or n[0] != "f":
                self.fail("wrong-output", "%s exits with 0 but there is no %s output at %s" % (where, k, p))
            if n[1] != want[k]:
                self.fail("wrong-output", "%s exits with 0 but the %s output is not what the schemas generate: %s" % (where, k, cmp_bytes(n[1], want[k])))
        lines = r.out.decode("utf8", "replace").split("\n")
        if r.step.get("list"):
            if lines[-1] != "" or sorted(lines[:-1]) != e["listing"]:
                self.fail("wrong-listing", "%s lists %s instead of %s" % (where, lines[:-1][:6], e["listing"][:6]))
        elif r.out:
            self.fail("wrong-listing", "%s prints %s" % (where, text(r.out)))

    def formatted(self, r):
        """The model of format: (exit code, {canonical path: bytes})."""
        rc, t = self.m.clone_format(r.pre, r.step["entry"], r.cwd)
        return rc, t

    def judge_format_files(self, r, done):
        """Every schema is the old or the new one (all new when the run succeeded)."""
        rc, t = self.formatted(r)
        if not r.clo.ok():
            return
        for rel, p in sorted(r.clo.files.items()):
            old, new, got = r.pre[p][1], t[p][1], r.post.get(p, ("", b""))[1]
            if got == new or (got == old and not done):
                continue
            if done:
                self.fail("format-incomplete", "%s exits with 0, but %s is not formatted: %s" % (describe(r), p, cmp_bytes(got, new)))
            torn = [o for o in r.ops if o.kind == "OPEN" and o.writes() and canonical(r.pre, o.path) == p]
            if real(new, self.m.root).startswith(real(got, self.m.root)) and "KF11" in self.known and old != new and len(torn) == 1 and self.in_window(r, p) and (r.killed or r.code == 1):
                self.hits["KF11"] = self.hits.get("KF11", 0) + 1
                self.stop = True
                return
            self.fail("format-torn", "%s leaves %s neither as it was nor formatted: %s" % (describe(r), p, cmp_bytes(got, new)))

    def in_window(self, r, p):
        """The fault struck between the truncation of p and the end of its rewrite."""
        opened = False
        for o in r.ops:
            if o.path[:1] != "/" or canonical(r.pre, o.path) != p:
                continue
            if o.kind == "OPEN" and o.writes():
                opened = True
                if o.act in (osim.KILL_AFTER,):
                    return True
            elif opened and o.kind in ("WRITE", "CLOSE") and o.act != osim.GO:
                return True
        # A kill at any later operation that is not on this file cannot explain a torn file, except an operation on a terminal.
        return False

    def judge_format(self, r, d, hard, schemas, where):
        if r.code != 0:
            if not hard:
                self.fail("format-rejected", "%s fails on a loadable project without a fault: %s" % (where, text(r.err)))
            self.judge_format_files(r, False)
            if self.on_schema(r, hard, schemas) and d:
                self.fail("readfault-touched", "%s could not read a schema, but changed %s" % (where, sorted(d)[:3]))
            return
        rc, t = self.formatted(r)
        if rc != 0:
            self.fail("format-verdict", "%s succeeds, but an undisturbed run on a copy exits with %s" % (where, rc))
        self.judge_format_files(r, True)
        for rel, p in r.clo.files.items():
            a, b = project.comment_words(r.pre[p][1]), project.comment_words(r.post[p][1])
            if a != b:
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                self.fail("format-comment", "%s changes the words of a comment in %s: %r became %r" % (where, p, a[max(0, i - 1):i + 4], b[max(0, i - 1):i + 4]))
            a, b = project.meaning(r.pre[p][1]), project.meaning(r.post[p][1])
            if a is None:
                self.stat("meaning_unknown")
            elif a != b:
                x = next(((x, y) for x, y in zip(a[1], b[1] if b else []) if x != y), (a[0], b and b[0]))
                self.fail("format-meaning", "%s changes what %s says: %s" % (where, p, str(x)[:300]))
            else:
                self.stat("meaning_same")
        after = project.closure(r.post, r.entry)
        if after.files != r.clo.files or not after.ok():
            self.fail("format-meaning", "%s changes the closure from %s to %s" % (where, sorted(r.clo.files)[:6], sorted(after.files)[:6]))

    def judge_check(self, r, hard, schemas, where):
        rc, t = self.formatted(r)
        unformatted = sorted(p for p in r.clo.files.values() if t[p][1] != r.pre[p][1])
        if rc != 0:
            if r.code == 0:
                self.fail("check-verdict", "%s passes, but format on a copy exits with %s" % (where, rc))
            return
        if r.code == 0 and unformatted:
            self.fail("check-verdict", "%s passes, but format would change %s" % (where, unformatted[:4]))
        if r.code != 0 and not unformatted and not hard:
            self.fail("check-verdict", "%s fails, but format would change nothing: %s" % (where, text(r.err)))
        if r.code == 0:
            for f in r.step.get("faults", []):
                if f["act"] == "fail" and f.get("more") == -1 and f.get("arg") not in ("EINTR",) and f.get("op") in ("READ", "OPEN", "REALPATH"):
                    if any(o.kind == f["op"] for _, _, o in hard):
                        self.fail("check-readfault", "%s passes although %s keeps failing with %s" % (where, f["op"], f["arg"]))

    def completion(self, st):
        k = ("completion", st.get("shell", "bash"))
        if k not in self.m.cache:
            self.m.cache[k] = self.m.direct(["shell-completion", k[1]], "/", "/")[1]
        return self.m.cache[k]

    # -- steps that run the tool --------------------------------------------------------------------------
    def do_run(self, st):
        r = self.execute(st)
        self.judge(r)
        if self.stop:
            return
        self.after(r)

    def after(self, r):
        """History properties."""
        if r.step.get("damaged") or r.killed:
            return
        c = r.step["cmd"]
        if c == "generate" and r.code == 0 and r.exp["valid"]:
            # Formatting in between must not have changed what is generated.
            cur = self.expected_outputs(r)
            key = r.entry
            old = self.mem.get(("gen", key))
            if old and old[1] != cur:
                self.fail("format-meaning", "only format ran since the last generate, but %s now generates something else" % r.step["entry"])
            self.mem[("gen", key)] = (0, cur)
        if c == "format" and r.code == 0 and r.exp["valid"]:
            rc, t = self.m.clone_format(r.post, r.step["entry"], r.cwd)
            for p in r.clo.files.values():
                if t[p][1] != r.post[p][1]:
                    self.fail("format-unstable", "format is not stable: a second run changes %s: %s" % (p, cmp_bytes(t[p][1], r.post[p][1])))
            fin = self.mem.get(("final", r.entry))
            if fin:
                for p, b in fin.items():
                    if p in r.post and r.post[p][1] != b:
                        self.fail("format-diverges", "the format runs of this history lead to a different %s than one run would have: %s" % (p, cmp_bytes(r.post[p][1], b)))

    def do_mark(self, st):
        """Remember where one undisturbed format run leads from here, and what is generated here. Forgotten on `forget`."""
        t = self.snap()
        cwd = st.get("cwd", "/")
        entry = project.join(cwd, unroot(st["entry"]))
        clo = project.closure(t, entry, self.badset(t, True))
        if not clo.ok():
            return
        rc, f = self.m.clone_format(t, st["entry"], cwd)
        if rc == 0:
            self.mem[("final", entry)] = {p: f[p][1] for p in clo.files.values()}
        if not project.closure(t, entry, self.badset(t)).ok():
            return
        ok, rs, ts, se = self.m.clean_generate(clo, t)
        if ok:
            self.mem[("gen", entry)] = (0, {"rust": rs, "ts": ts})

    def do_group(self, st):
        """Variants of one project that must all give the same outputs, listing and verdict."""
        ref = None
        start = self.snap()
        for v in st["variants"]:
            self.m.put_snap(start, self.m.root)
            for s in v.get("pre", []):
                getattr(self, "do_" + s["k"])(s)
            r = self.execute(v["run"])
            self.judge(r)
            if r.killed or self.hard(r):
                continue
            got = {k: r.post[p][1] for k, p in r.exp["targets"].items() if p in r.post} if r.code == 0 else {}
            d = v["run"]["entry"].rpartition("/")
            pre = self.sub(d[0] + "/") if d[1] else ""
            lst = None
            if v["run"].get("list") and r.code == 0:
                lst = tuple(x[len(pre):] if x.startswith(pre) else x for x in r.out.decode("utf8", "replace").split("\n"))
            key = (r.clo.ok(), sorted((x, r.pre[p][1]) for x, p in r.clo.files.items() if p in r.pre))
            if ref is None:
                ref = [r.code, dict(got), lst, key]
                continue
            if key != ref[3]:
                self.stat("not_a_variant")
                continue
            if r.code != ref[0]:
                self.fail("variant-verdict", "%s exits with %s, an equivalent run with %s" % (describe(r), r.code, ref[0]))
            for k, b in got.items():
                if k in ref[1] and ref[1][k] != b:
                    self.fail("variant-output", "%s generates a different %s output than an equivalent run: %s" % (describe(r), k, cmp_bytes(b, ref[1][k])))
                ref[1].setdefault(k, b)
            if lst is not None:
                if ref[2] is not None and lst != ref[2]:
                    self.fail("variant-listing", "%s lists the schemas as %s, an equivalent run as %s" % (describe(r), lst[:6], ref[2][:6]))
                ref[2] = lst
        self.m.put_snap(start, self.m.root)

    # -- runs that overlap edits --------------------------------------------------------------------------
    def do_overlap(self, st):
        """One run, while schemas are being replaced, removed or added at given points of it."""
        s = st["run"]
        r = Rec()
        r.step, r.pre, r.cwd, r.tears = s, self.snap(), s.get("cwd", "/"), []
        f = osim.Faults(s.get("faults", []))
        versions, applied = {}, 0
        edits = sorted(st["edits"], key=lambda e: e["at"])
        p = self.start(s)
        n = -1
        try:
            while True:
                o = p.next()
                if o is None:
                    break
                if o.path != "<stderr>":
                    n += 1
                while applied < len(edits) and edits[applied]["at"] <= n:
                    self.replace(edits[applied], r.pre, versions)
                    applied += 1
                act, arg = f.decide(o)
                p.reply(act, arg)
        finally:
            p.kill()
        early = applied
        r.post = self.snap()
        self.finish(r, p, f.fired)
        self.expect(r)
        self.stat("overlap")
        self.stat("edits_during", early)
        self.sig.update(repr([(e["at"], e["path"]) for e in edits[:early]]).encode("utf8", "replace"))
        self.mem.clear()
        self.judge_overlap(r, versions)

    def replace(self, e, pre, versions):
        """Save a file the way editors do: the new contents appear at once. The process is between two operations."""
        q = canonical(pre, e["path"])
        now = lambda: ("f", open(self.m.path(q), "rb").read().replace(self.m.root.encode(), BMARK), 0o644) if os.path.isfile(self.m.path(q)) else None
        if q not in versions:
            versions[q] = [pre.get(q)]
        if "append" in e:
            if not now():
                return
            e = dict(e, f=now()[1].decode("utf8", "surrogateescape") + e["append"])
        if e.get("f") is None:
            if os.path.isfile(self.m.path(q)):
                os.unlink(self.m.path(q))
        else:
            t = self.m.path("/.saved")
            with open(t, "wb") as f:
                f.write(real(enc(e["f"]), self.m.root))
            if pre.get(q) and pre[q][0] == "f":
                os.chmod(t, pre[q][2])
            try:
                os.makedirs(os.path.dirname(self.m.path(q)), exist_ok=True)
                os.replace(t, self.m.path(q))
            except OSError:
                os.unlink(t)
        versions[q].append(now())
        if e.get("bad") and e.get("f") is not None:
            self.bad[q] = (hashlib.sha256(enc(e["f"])).digest(), e["bad"])
        self.touch(q, {})

    def judge_overlap(self, r, versions):
        self.stat("evaluations")
        c, where = r.step["cmd"], describe(r) + ", while %s changed" % sorted(versions)[:3]
        if r.hung or (r.code in (-9, -24) and not r.killed):
            self.fail("hang", "%s does not terminate" % where)
        if r.code < 0 and not r.killed:
            self.fail("signal", "%s dies from signal %d" % (where, -r.code))
        if r.code == 101:
            self.fail("panic", "%s panics: %s" % (where, text(r.err)))
        d = project.diff(r.pre, r.post)
        allowed = (set(r.exp["targets"].values()) | r.exp["dirs"]) if c == "generate" else set()
        for q, vs in versions.items():
            if (r.post.get(q) or (None, None))[:2] != (vs[-1] or (None, None))[:2]:
                self.fail("touched", "%s: the saved contents of %s are lost" % (where, q))
        extra = sorted(p for p in d if p not in allowed and p not in versions and not any(q.startswith(p + "/") for q in versions))
        if extra:
            self.fail("touched", "%s: it changes %s, which it was not asked to write" % (where, extra[:4]))
        got = {k: r.post[p][1] for k, p in r.exp["targets"].items() if p in r.post}
        lines = sorted(r.out.decode("utf8", "replace").split("\n")[:-1]) if r.step.get("list") else None
        changed = sorted(p for p in d if p in allowed)
        near = None
        qs = sorted(versions)
        choices = [[]]
        for q in qs:
            vs = []
            for v in versions[q]:
                if v not in vs:
                    vs.append(v)
            choices = [x + [v] for x in choices for v in vs]
        if len(choices) > 512:
            self.stat("overlap_skipped")
            return
        for ch in choices:
            t = dict(r.pre)
            for q, v in zip(qs, ch):
                if v is None:
                    t.pop(q, None)
                else:
                    t[q] = v
                    d = q.rpartition("/")[0]
                    while d and d not in t and d in r.post:
                        t[d] = r.post[d]
                        d = d.rpartition("/")[0]
            clo = project.closure(t, r.entry, self.badset(t, c != "generate"))
            if c == "check":
                ok = clo.ok()
                if ok:
                    rc, u = self.m.clone_format(t, r.step["entry"], r.cwd)
                    ok = rc == 0 and all(u[p][1] == t[p][1] for p in clo.files.values())
                if ok == (r.code == 0):
                    return
                continue
            ok = False
            if clo.ok():
                ok, rs, ts, _ = self.m.clean_generate(clo, t)
            if not ok or not r.exp["possible"]:
                if r.code != 0:
                    if changed and r.exp["possible"]:
                        self.fail("invalid-touched", "%s fails, but changes %s" % (where, changed[:3]))
                    return
                continue
            if r.code != 0:
                continue
            want = {"rust": rs, "ts": ts}
            if all(got.get(k) == want[k] for k in r.exp["targets"]):
                e = r.step["entry"].rpartition("/")
                lst = sorted(self.sub((e[0] + "/" if e[1] else "") + x) for x in clo.files)
                if lines is None or lines == lst:
                    self.stat("overlap_ok")
                    return
                near = "the listing is that of another state"
            elif any(got.get(k) == want[k] for k in r.exp["targets"]):
                near = "its outputs are those of different states"
        self.fail("mixed", "%s exits with %s, which no state of the schemas explains%s" % (where, r.code, ": " + near if near else ""))

    # -- concurrent runs ----------------------------------------------------------------------------------
    def do_par(self, st):
        pre = self.snap()
        ps, sched, trace = [], Sched(st["sched"], len(st["runs"])), []
        fs = [osim.Faults(s.get("faults", [])) for s in st["runs"]]
        for i, s in enumerate(st["runs"]):
            ps.append(self.start(s, str(i)))
        # Everyone runs up to its first operation, which none of them has executed yet.
        try:
            for p in ps:
                p.next()
            steps = 0
            while True:
                live = [i for i, p in enumerate(ps) if p.code is None]
                if not live:
                    break
                i = sched.pick(live, steps)
                steps += 1
                if steps > 60000:
                    self.fail("hang", "concurrent runs do not terminate")
                trace.append(i)
                ps[i].pending.t = steps
                act, arg = fs[i].decide(ps[i].pending)
                ps[i].reply(act, arg)
                ps[i].next()
        finally:
            for p in ps:
                p.kill()
        post = self.snap()
        self.stat("par")
        self.stat("switches", sum(1 for a, b in zip(trace, trace[1:]) if a != b))
        self.sig.update(repr(trace).encode())
        recs = []
        for i, (s, p) in enumerate(zip(st["runs"], ps)):
            r = Rec()
            r.step, r.pre, r.post, r.cwd, r.tears = s, pre, post, s.get("cwd", "/"), []
            self.finish(r, p, fs[i].fired)
            self.expect(r)
            recs.append(r)
        self.par_trace = trace
        self.judge_par(st, recs, pre, post)

    def judge_par(self, st, recs, pre, post):
        self.stat("evaluations")
        d = project.diff(pre, post)
        allowed = set()
        writers = {}
        formats = any(r.step["cmd"] == "format" for r in recs)
        for i, r in enumerate(recs):
            where = describe(r)
            if r.hung or (r.code in (-9, -24) and not r.killed):
                self.fail("hang", "%s does not terminate when run concurrently" % where)
            if r.code < 0 and not r.killed:
                self.fail("signal", "%s dies from signal %d when run concurrently" % (where, -r.code))
            if r.code == 101:
                self.fail("panic", "%s panics when run concurrently: %s" % (where, text(r.err)))
            for o in r.ops:
                if o.outside and not self.ancestor(o):
                    self.fail("outside", "%s: a change outside the machine: %r" % (where, o))
            if r.step["cmd"] == "generate":
                allowed |= set(r.exp["targets"].values()) | r.exp["dirs"]
                for p in r.exp["targets"].values():
                    writers.setdefault(p, []).append(i)
            elif r.step["cmd"] == "format":
                allowed |= set(r.clo.files.values())
        extra = sorted(p for p in d if p not in allowed)
        if extra:
            self.fail("touched", "concurrent runs change %s, which none was asked to write" % extra[:4])
        for p, (a, b) in d.items():
            if b is None:
                self.fail("touched", "concurrent runs remove %s" % p)
        if formats:
            # Schemas are being rewritten: each run may see them in flux, but every one ends as it was or formatted.
            for r in recs:
                if r.step["cmd"] != "format" or not r.exp["valid"]:
                    continue
                rc, t = self.formatted(r)
                for p in r.clo.files.values():
                    if post[p][1] not in (pre[p][1], t[p][1]):
                        if "KF15" in self.known and self.overlap(recs, p):
                            self.hits["KF15"] = self.hits.get("KF15", 0) + 1
                            self.stop = True
                            return
                        self.fail("format-torn", "after concurrent runs, %s is neither as it was nor formatted: %s" % (p, cmp_bytes(post[p][1], t[p][1])))
            return
        for i, r in enumerate(recs):
            where = describe(r)
            if r.killed:
                continue
            if r.step["cmd"] == "generate":
                alone = all(writers[p] == [i] for p in r.exp["targets"].values())
                if not r.exp["valid"]:
                    if r.code == 0:
                        self.fail("invalid-accepted", "%s succeeds although the project is invalid: %s" % (where, r.exp["why"]))
                    continue
                if r.code != 0 and not self.hard(r):
                    self.fail("valid-rejected", "%s fails when run concurrently with others: %s" % (where, text(r.err)))
                if r.code == 0 and alone:
                    want = self.expected_outputs(r)
                    for k, p in r.exp["targets"].items():
                        if p not in post or post[p][1] != want[k]:
                            self.fail("wrong-output", "%s, run concurrently with others, does not produce what it produces alone" % where)
                if r.code == 0 and r.step.get("list"):
                    lines = r.out.decode("utf8", "replace").split("\n")
                    if sorted(lines[:-1]) != r.exp["listing"]:
                        self.fail("wrong-listing", "%s lists %s instead of %s" % (where, lines[:6], r.exp["listing"][:6]))
            elif r.step["cmd"] == "check" and r.exp["valid"] and not self.hard(r):
                self.judge_check(r, [], set(r.clo.files.values()), where)


    def overlap(self, recs, p):
        """Whether one format run read p while another one was rewriting it."""
        reads, writes = [], []
        for r in recs:
            if r.step["cmd"] != "format":
                continue
            span, kind = {}, None
            for o in r.ops:
                if o.t is None or o.path[:1] != "/" or canonical(r.pre, o.path) != p:
                    continue
                if o.kind == "OPEN":
                    kind = "w" if o.writes() else "r"
                if kind and o.kind in ("OPEN", "READ", "WRITE"):
                    a, _ = span.get(kind, (o.t, o.t))
                    span[kind] = (a, o.t)
            reads.append(span.get("r"))
            writes.append(span.get("w"))
        return any(i != j and r and w and r[0] <= w[1] and w[0] <= r[1] for i, r in enumerate(reads) for j, w in enumerate(writes))


class Sched:
    """{"mode": "list", "seq": [[who, how many], ...]} or {"mode": uniform|sticky|pct, "seed": n}."""

    def __init__(self, s, n):
        self.s, self.n = s, n
        self.r = Rng("sched", s.get("seed", 0))
        self.cur, self.left, self.i = None, 0, 0
        if s["mode"] == "pct":
            self.prio = self.r.shuffle(list(range(n)))
            self.changes = {self.r.below(s.get("span", 150)) for _ in range(s.get("depth", 3))}

    def pick(self, live, step):
        m = self.s["mode"]
        if m == "list":
            while self.i < len(self.s["seq"]):
                if self.cur is None:
                    self.cur, self.left = self.s["seq"][self.i]
                if self.left > 0 and self.cur in live:
                    self.left -= 1
                    return self.cur
                self.cur = None
                self.i += 1
            return live[0]
        if m == "uniform":
            return self.r.pick(live)
        if m == "sticky":
            if self.cur not in live or self.r.chance(self.s.get("p", 0.15)):
                self.cur = self.r.pick(live)
            return self.cur
        if step in self.changes:
            best = min(live, key=lambda x: self.prio.index(x))
            self.prio.remove(best)
            self.prio.append(best)
        return min(live, key=lambda x: self.prio.index(x))


def canonical(t, p):
    try:
        return project.resolve(t, p)
    except project.Bad:
        return p


def text(b):
    return b.decode("utf8", "replace")[-500:].strip()


def brief(ab):
    f = lambda n: "absent" if n is None else n[0] + (":%d bytes" % len(n[1]) if n[0] == "f" else "")
    return f(ab[0]) + " -> " + f(ab[1])


def cmp_bytes(got, want):
    i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    return "%d bytes instead of %d, first difference at %d: %r instead of %r" % (len(got), len(want), i, got[i:i + 40], want[i:i + 40])


def describe(r):
    s = r.step
    x = "`%s`" % " ".join([s["cmd"]] + [str(s[k]) for k in ("entry", "rust", "ts", "shell") if s.get(k)])
    if s.get("cwd", "/") != "/":
        x += " in " + s["cwd"]
    if r.fired:
        x += " with " + ", ".join("%s %s %s" % (a if a != "fail" else errno.errorcode.get(arg, arg), o.kind, o.path) for _, a, arg, o in r.fired[:4])
    return x


# ---- the checks --------------------------------------------------------------------------------------------

CRASH = {"hang", "signal", "panic", "status"}
CLASSES = {
    "T01": CRASH | {"wrong-output", "wrong-listing", "valid-rejected", "clean-rejected", "format-incomplete", "format-rejected", "wrong-types", "check-readfault"},
    "T02": CRASH | {"invalid-accepted", "escape-accepted", "invalid-touched", "readfault-touched", "valid-rejected", "wrong-output"},
    "T03": CRASH | {"touched", "mode", "outside", "invalid-touched", "readfault-touched"},
    "T04": CRASH | {"variant-verdict", "variant-output", "variant-listing", "wrong-output", "wrong-listing", "valid-rejected", "wrong-types", "clean-rejected"},
    "T05": CRASH | {"wrong-output", "wrong-listing", "valid-rejected", "touched", "wrong-types", "clean-rejected"},
    "T06": CRASH | {"format-torn", "format-incomplete", "format-rejected", "touched", "format-diverges", "readfault-touched", "mode"},
    "T07": CRASH | {"format-comment", "format-meaning", "format-unstable", "format-diverges", "format-incomplete", "format-rejected", "format-verdict", "valid-rejected"},
    "T08": CRASH | {"check-verdict", "check-readfault", "touched", "invalid-accepted", "escape-accepted"},
    "T09": CRASH | {"wrong-output", "wrong-listing", "valid-rejected", "wrong-types", "clean-rejected", "invalid-accepted", "escape-accepted"},
    "T10": CRASH | {"escape-accepted", "escape-opened", "invalid-accepted", "invalid-touched", "valid-rejected", "wrong-output", "wrong-types", "touched"},
    "T11": CRASH | {"wrong-output", "wrong-listing", "valid-rejected", "touched", "outside", "format-torn", "format-incomplete", "format-diverges", "check-verdict", "wrong-types", "invalid-accepted"},
    "T13": CRASH | {"mixed", "touched", "invalid-touched", "wrong-output", "wrong-listing", "valid-rejected", "check-verdict"},
    "T12": CRASH | {"invalid-touched", "touched", "valid-rejected", "wrong-output", "wrong-types", "clean-rejected"},
}
CASES = {"quick": 6000, "thorough": 120000}
WEIGHT = {"T04": 0.7, "T12": 0.5}


def tools():
    return {"typical": build_typical(), "shim": build_shim(), "launch": build_launch()}


def run_case(m, prop, script, known):
    """(class or None, message, Case)"""
    c = Case(m, prop, script, known)
    try:
        c.run()
        return None, "ok", c
    except Violation as v:
        if v.cls in CLASSES[prop]:
            return v.cls, v.msg, c
        return None, "other: " + v.cls, c


def shrink(m, prop, script, cls, known, budget=160, t_end=None):
    """Greedy: drop steps, runs, faults and files, simplify schedules, as long as the same class of violation remains."""
    best = copy.deepcopy(script)
    left = [budget]

    def bad(s):
        if left[0] <= 0 or (t_end and time.time() > t_end):
            return False
        left[0] -= 1
        try:
            c, _, _ = run_case(m, prop, s, known)
            return c == cls
        except (HarnessError, OSError, KeyError, ValueError):
            return False

    # Turn a seeded schedule into an explicit one.
    for i, st in enumerate(best["steps"]):
        if st["k"] == "par" and st["sched"]["mode"] != "list":
            c = Case(m, prop, best, known)
            try:
                c.run()
            except Violation:
                pass
            s2 = copy.deepcopy(best)
            s2["steps"][i]["sched"] = dict(mode="list", seq=runs_of(getattr(c, "par_trace", [])))
            if bad(s2):
                best = s2
    changed = True
    while changed and left[0] > 0:
        changed = False
        for i in range(len(best["steps"]) - 1, -1, -1):
            s2 = copy.deepcopy(best)
            del s2["steps"][i]
            if bad(s2):
                best, changed = s2, True
        for i in range(len(best["steps"])):
            st = best["steps"][i]
            lists = [("edits", None)] if st["k"] == "overlap" else [("faults", None)] if st["k"] == "run" else [("runs", None)] if st["k"] == "par" else [("variants", None)] if st["k"] == "group" else []
            for key, _ in lists:
                for j in range(len(st.get(key, [])) - 1, -1, -1):
                    s2 = copy.deepcopy(best)
                    del s2["steps"][i][key][j]
                    if st["k"] == "par":
                        q = s2["steps"][i]["sched"]
                        if len(s2["steps"][i]["runs"]) < 1:
                            continue
                        if q["mode"] == "list":
                            q["seq"] = [[w - (w > j), n] for w, n in q["seq"] if w != j]
                    if bad(s2):
                        best, changed = s2, True
                        st = best["steps"][i]
            if st["k"] == "par":
                for j in range(len(st["runs"])):
                    if st["runs"][j].get("faults"):
                        s2 = copy.deepcopy(best)
                        s2["steps"][i]["runs"][j]["faults"] = []
                        if bad(s2):
                            best, changed = s2, True
                            st = best["steps"][i]
                if st["sched"]["mode"] == "list":
                    j = 0
                    while j + 1 < len(st["sched"]["seq"]) and left[0] > 0:
                        # Run the next segment of the same process now: one context switch less.
                        s2 = copy.deepcopy(best)
                        q = s2["steps"][i]["sched"]["seq"]
                        nx = next((k for k in range(j + 1, len(q)) if q[k][0] == q[j][0]), None)
                        if nx is None:
                            j += 1
                            continue
                        q[j][1] += q[nx][1]
                        del q[nx]
                        if bad(s2):
                            best, changed = s2, True
                            st = best["steps"][i]
                        else:
                            j += 1
            if st["k"] == "run":
                for key in ("list", "rust", "ts", "env"):
                    if st.get(key) and (key != "rust" or st.get("ts")):
                        s2 = copy.deepcopy(best)
                        s2["steps"][i].pop(key)
                        if bad(s2):
                            best, changed = s2, True
                            st = best["steps"][i]
        for p in sorted(best["tree"]):
            s2 = copy.deepcopy(best)
            del s2["tree"][p]
            if bad(s2):
                best, changed = s2, True
        if not changed:
            break
    return best


def runs_of(trace):
    out = []
    for t in trace:
        if out and out[-1][0] == t:
            out[-1][1] += 1
        else:
            out.append([t, 1])
    return out


def worker(job):
    """A slice of the cases of a check."""
    import cligen
    prop, base, idx, cases, seed_, known, tool, deadline, logdir = job
    m = Machine(os.path.join(base, "w%02d" % idx), tool)
    os.makedirs(m.base, exist_ok=True)
    out = dict(stats={}, sigs=set(), viol=[], samples=[], hits={}, done=0, error=None, sim=0, log=[])
    for i in cases:
        if time.time() > deadline:
            break
        cs = mix("case", prop, seed_, i)
        try:
            script = cligen.script(prop, Rng("script", cs))
            cls, msg, c = run_case(m, prop, script, known)
            for k, v in c.stats.items():
                out["stats"][k] = out["stats"].get(k, 0) + v
            for k, v in c.hits.items():
                out["hits"][k] = out["hits"].get(k, 0) + v
            out["sigs"].add(c.sig.digest()[:8])
            out["sim"] += abs(c.now - 1700000000)
            out["done"] += 1
            if logdir is not None:
                out["log"].append((i, c.sig.hexdigest(), cls))
            if msg.startswith("other: "):
                out["stats"]["aborted_" + msg[7:]] = out["stats"].get("aborted_" + msg[7:], 0) + 1
            if not out["samples"] and c.n > 1 and i < 40:
                out["samples"].append(dict(case=i, script=summary(script)))
            if cls:
                # A second execution must agree, or the harness is to blame.
                cls2, msg2, _ = run_case(m, prop, script, known)
                if cls2 != cls:
                    out["error"] = "case %d of %s is not deterministic: %s (%s) then %s (%s)" % (i, prop, cls, msg, cls2, msg2)
                    break
                small = shrink(m, prop, script, cls, known, t_end=min(deadline, time.time() + 60))
                cls3, msg3, _ = run_case(m, prop, small, known)
                if cls3 != cls:
                    small, msg3 = script, msg
                out["viol"].append((i, cls, msg3, small, script))
                break
        except Exception:
            out["error"] = "case %d of %s: %s" % (i, prop, traceback.format_exc()[-3000:])
            break
    shutil.rmtree(m.base, ignore_errors=True)
    return out


def summary(s):
    return dict(files=sorted(s["tree"])[:12], steps=[{k: (v if not isinstance(v, str) or len(v) < 80 else v[:80] + "...") for k, v in st.items()} if st["k"] not in ("group", "par") else
                                                     dict(k=st["k"], n=len(st.get("runs", st.get("variants", []))), sched=st.get("sched")) for st in s["steps"]][:12])


def check(prop, tier, workers=8, logdir=None):
    res = Result(prop, tier)
    tool = tools()
    base = scratch()
    kf = [f for f in findings() if f["property"] == prop]
    known = os.environ["SIM_KNOWN"].split(",") if "SIM_KNOWN" in os.environ else [f["id"] for f in kf]
    n = int(os.environ.get("SIM_CASES", int(CASES[tier] * WEIGHT.get(prop, 1))))
    workers = int(os.environ.get("SIM_WORKERS", workers))
    deadline = time.time() + (500 if tier == "quick" else 6 * 3600)
    # Interleaved slices: which worker runs a case has no influence on it.
    jobs = [(prop, base, w, range(w, n, workers), seed(), known, tool, deadline, logdir) for w in range(workers)]
    with multiprocessing.Pool(workers) as pool:
        outs = pool.map(worker, jobs, 1)
    tot, sigs, hits, samples, err, done, sim = {}, set(), {}, [], None, 0, 0
    viol = []
    for o in outs:
        for k, v in o["stats"].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in o["hits"].items():
            hits[k] = hits.get(k, 0) + v
        sigs |= o["sigs"]
        samples += o["samples"]
        err = err or o["error"]
        done += o["done"]
        sim += o["sim"]
        viol += o["viol"]
    for i, cls, msg, small, orig in sorted(viol, key=lambda v: v[0]):
        res.violation(cls, msg, dict(engine="cli", case=i, seed=seed(), script=small, original=orig if orig != small else None))
    if err and not res.violations:
        raise HarnessError(err)
    if logdir is not None:
        with open(logdir, "w") as f:
            for row in sorted(sum((o["log"] for o in outs), [])):
                f.write("%d %s %s\n" % row)
    for f in kf:
        rep = json.load(open(os.path.join(VERIF, f["replay"])))
        cls, msg = replay(rep, tool, [])
        if cls is None:
            continue
        if cls == rep["expected_class"]:
            res.known[f["id"]] = f["what"]
        else:
            res.violation(cls, msg, rep)
    res.coverage = dict(
        simulated_runs=tot.get("runs", 0), histories=done, evaluations=tot.get("evaluations", 0), distinct_nontrivial=len(sigs),
        rule="Each history is one seeded project with a sequence of edits, faults, crashes and runs of the real tool; a run is one execution of the tool in which every "
             "file operation was decided by the simulator. Distinct: histories by hash of the sequence of operations, decisions and exit codes of all their runs.",
        simulated_time_s=sim,
        faults={k[6:]: v for k, v in sorted(tot.items()) if k.startswith("fault_")},
        probes={k: v for k, v in sorted(tot.items()) if not k.startswith("fault_")},
        known_finding_hits=hits,
        real=["typical (the whole command line tool, built from /repo)", "the kernel's file system below a scratch directory"],
        stubbed=["system call results, transfer sizes and process death (LD_PRELOAD shim under the simulator)", "random numbers, clocks, file times, process scheduling"],
        samples=samples[:2])
    res.assumptions = ["the kernel's file system, the shim and libc are trusted",
                       "expected outputs are those of an undisturbed run on a canonical copy of the closure, whose declared types are checked against an independent reading of the schemas",
                       "power loss is modelled by tearing files written in the interrupted run"]
    return res


def replay(rep, tool=None, known=()):
    tool = tool or tools()
    m = Machine(os.path.join(scratch(), "replay"), tool)
    os.makedirs(m.base, exist_ok=True)
    try:
        cls, msg, _ = run_case(m, rep["property"], rep["script"], known)
        return cls, msg
    finally:
        shutil.rmtree(m.base, ignore_errors=True)
