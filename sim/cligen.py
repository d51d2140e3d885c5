"""Seeded generation of CLI histories: projects, layouts, spellings, edits, defects, faults and schedules, as explicit scripts."""
import re
import schemagen
from project import MARK
from prng import Rng

ERRNOS = ["EIO", "ENOSPC", "EACCES", "EMFILE", "ENOMEM", "EROFS", "EDQUOT", "ENOENT", "ESTALE", "EPERM", "EBUSY", "ENFILE", "EISDIR", "EAGAIN"]
BASES = ["/proj", "/proj/schemas", "/work dir/sch", "/\u00fcn\u00ef/b\u00e4se", "/a/b/c/d/e", "/proj/v1.2/types"]
ENVS = [{}, {"LC_ALL": "C"}, {"LANG": "de_DE.UTF-8", "TERM": "xterm-256color"}, {"TMPDIR": "/nonexistent"}, {"NO_COLOR": "1"}, {"CLICOLOR_FORCE": "1"},
        {"RUST_BACKTRACE": "1"}, {"COLUMNS": "20"}, {"HOME": "/nonexistent", "TZ": "Asia/Tokyo"}, {"SOURCE_DATE_EPOCH": "1"}, {"USER": "someone"},
        {"PWD": "/"}, {"PWD": MARK + "/"}, {"PWD": MARK + "/proj", "OLDPWD": MARK + "/"}, {"PWD": MARK + "/home"}, {"CI": "true", "TERM": "dumb"}, {"COLUMNS": "0", "LINES": "0"}, {"XDG_CACHE_HOME": "/tmp", "XDG_CONFIG_HOME": MARK + "/proj"},
        {"RUST_LOG": "trace", "RUST_LIB_BACKTRACE": "full"}, {"FORCE_COLOR": "3", "COLORTERM": "truecolor"}, {"LC_ALL": "tr_TR.UTF-8", "LANGUAGE": "tr"}, {"HOME": MARK + "/proj", "PATH": MARK + "/proj"}]

NASTY = [
    "tabs\tand\u00a0unbreakable\u00a0spaces, \u3000wide\u3000ones, thin\u2009ones and zero\u200bwidth\u2060ones are\u00a0kept wherever\u2003they happen to be in the line",
    "well-known state-of-the-art re-entrant copy-on-write behaviour of the read-eval-print loop, which is non-trivial and long-winded",
    "two  spaces.  After every   sentence.  That goes on until the line has to be wrapped somewhere, which it does  right about  here.",
    "see https://example.com/a/very/long/path/that/goes/on/and/on/without/any/space/so/that/it/cannot/be/wrapped/within/the/limit for details",
    "x" * 100, "a" * 77, "b" * 78 + " c", "word " * 40, "- item one - item two -- and a dash \u2014 like this\u2014or this, again and again and again and again",
    "\u65e5\u672c\u8a9e\u306e\u30b3\u30e1\u30f3\u30c8\u306f\u6298\u308a\u8fd4\u3057\u4f4d\u7f6e\u304c\u96e3\u3057\u3044\u3002" * 4, "tab\tseparated\tvalues\tare wrapped too when the line is long enough to need it, \tyes",
    "no-break\u00a0space and\u2009thin space and soft\u00adhyphen and zero\u200bwidth space in one rather long line that is wrapped at some point",
    "line\u2028separator and next\u0085line and form\x0cfeed and vertical\x0btab inside a comment that is fairly long so that it wraps",
    "# hash # in the middle # of everything #", "trailing backslash \\", "{ braces } [ brackets ] 'quotes' = 0", "import 'nothing.t'", "struct Fake {",
    "\U0001f468\u200d\U0001f469\u200d\U0001f467 emoji \U0001f600 " * 8, "A", "TODO(x): (a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y/z/aa/bb/cc/dd/ee/ff/gg/hh)", "e\u0301" * 60,
    "ends with a hyphen-", "-starts with one", "1-2-3-4-5-6-7-8-9-10-11-12-13-14-15-16-17-18-19-20-21-22-23-24-25-26-27-28-29-30-31-32-33-34-35",
]


class Proj:
    pass


def project(r, small=True, cfg=None, fmt=None):
    """A project: version, layout, spellings, and its tree in script form."""
    P = Proj()
    o = dict(nver=1, ntypes=r.range(1, 5) if small else r.range(3, 9), fields=r.pick(["small", "small", "mid"]), idx=r.pick(["dense", "perm", "gaps"]),
             nfiles=r.weighted([(1, 1), (2, 3), (3, 4), (r.range(4, 7), 3)]))
    if fmt == "wild":
        o["style"] = "wild"
    o.update(cfg or {})
    if o.get("dirs") == "twins":
        o.update(ntypes=r.range(4, 9), p_custom=r.pick([0.5, 0.75]))
    P.c = schemagen.make_cfg(r, dict(cfg=o))
    P.v, P.nevers = schemagen.gen_version0(r, P.c)
    P.base = r.weighted([(b, 3 if b.startswith("/proj") else 1) for b in BASES])
    P.fmt = fmt
    layout(r, P)
    P.tree = {}
    P.links(P.tree)
    P.render = lambda v, seed: render(P, v, seed)
    P.seed = r.u64()
    texts = render(P, P.v, P.seed)
    for p, t in texts.items():
        P.tree[p] = {"f": t, "t": 1600000000 + r.below(1000)}
    P.texts = texts
    return P


STRANGE = [" x", "x ", "a x", "~x", "$x", "${x}", "%41x", "x%20", "x\\y", "\\x", "x-y", "x-", "x--y", "x.y", ".x", "..x", "x..", "x.t", "[x]", "{x}", "*x", "x?", "&x", "x;y", '"x"', "x#y", "#x", "x:y", "C:x", "file:x",
           "e\u0301x", "x\u00a0y", "\u200bx", "\ufeffx", "X_\u00c4", "\U0001f600x", "x\ty", "x@2", "x+y", "x,y", "x=y", "x|y", "<x>", "x`y", "x!", "(x)", "1x", "x~", "#x#", "NUL.x", "xxx"]


def layout(r, P):
    """Names of files and directories, and symbolic links between them."""
    names, used = {(): ""}, set()
    # Names of files and directories that are no identifiers.
    P.strange = {}
    p_strange = r.weighted([(0.0, 7), (0.5, 1)])

    def style(ws):
        x = plainstyle(ws)
        if p_strange and r.chance(p_strange):
            y = r.pick(STRANGE).replace("x", x)
            P.strange[y] = x
            return y
        return x

    def plainstyle(ws):
        return r.weighted([(schemagen.snake, 6), (schemagen.camel, 1), (schemagen.pascal, 1)])(list(ws))

    def dirname(d):
        if d not in names:
            names[d] = (dirname(d[:-1]) + "/" + style(d[-1])).lstrip("/")
        return names[d]

    dirs = set()
    for f in P.v.files:
        for k in range(1, len(f)):
            dirs.add(dirname(f[:k]))
    P.paths = []
    for i, f in enumerate(P.v.files):
        d = dirname(f[:-1])
        n = style(f[-1]) if i else "main"
        ext = r.weighted([(".t", 12), (".typ", 1), ("", 1)])
        p = (d + "/" if d else "") + n + ext
        for ext in [".t", ".typ", ".x", ".y", ".z"]:
            if p in used or p in dirs:
                p = (d + "/" if d else "") + n + ext
        used.add(p)
        P.paths.append(p)
    P.dirs = sorted(dirs)
    P.dirlink, P.filelink = {}, {}
    if P.dirs and r.chance(0.5):
        for d in P.dirs:
            if r.chance(0.5):
                h, _, t = d.rpartition("/")
                P.dirlink[d] = (h + "/" if h else "") + "ln_" + t
    for k, p in enumerate(P.paths):
        if k and r.chance(0.12):
            P.filelink[k] = (r.pick([""] + [d + "/" for d in P.dirs]) if r.chance(0.5) else p.rpartition("/")[0] + "/").lstrip("/") + "al%d.t" % k
    P.ext = r.chance(0.35)
    P.sbase = r.chance(0.4)
    up = lambda q: "../" * q.count("/")

    def links(tree):
        for d, l in P.dirlink.items():
            tree[P.base + "/" + l] = {"l": d.rpartition("/")[2]}
        for k, l in P.filelink.items():
            tree[P.base + "/" + l] = {"l": up(l) + P.paths[k]}
        if P.ext:
            tree["/ext/back"] = {"l": MARK + P.base}
        if P.sbase:
            tree["/sbase"] = {"l": P.base[1:]}
    P.links = links
    P.p_odd = r.pick([0.0, 0.2, 0.6])
    P.p_bad = 0.0


def render(P, v, seed):
    r = Rng("render", seed)
    rs = Rng("spell", seed)
    t = schemagen.render(r, P.c, v, P.paths, lambda i, j: spell(rs, P, i, j))
    return {P.base + "/" + k: x for k, x in t.items()}


def relpath(frm, to):
    i = 0
    while i < len(frm) and i < len(to) - 1 and frm[i] == to[i]:
        i += 1
    return "../" * (len(frm) - i) + "/".join(to[i:])


def spell(r, P, i, j):
    frm, to = P.paths[i].split("/")[:-1], P.paths[j].split("/")
    rel = relpath(frm, to)
    rel, same = spell1(r, P, frm, to, rel, j)
    return rel, same and not any(x in P.paths[j] for x in P.strange)


def spell1(r, P, frm, to, rel, j):
    if not r.chance(P.p_odd):
        return rel, True
    bdepth = P.base.count("/")
    n = len(frm)
    up = "../" * n
    opts = ["dot", "detour", "slashes", "out", "far", "abs", "redundant", "inner"]
    if P.ext:
        opts += ["ext", "ext"]
    if any("/".join(to[:k]) in P.dirlink for k in range(1, len(to))):
        opts += ["dirlink"] * 3
    if j in P.filelink:
        opts += ["filelink"] * 3
    if P.sbase:
        opts += ["sbase"]
    k = r.pick(opts)
    if k == "dot":
        return r.pick(["./", "././", ".//"]) + rel, True
    if k == "detour":
        here = "/".join(frm)
        subs = [d for d in P.dirs if d.rpartition("/")[0] == here]
        if subs:
            return r.pick(subs).rpartition("/")[2] + "/../" + rel, True
        return ("../" + frm[-1] + "/" + rel if frm else "./" + rel), True
    if k == "slashes":
        return rel.replace("/", "//") if "/" in rel else ".///" + rel, True
    if k == "out":
        return up + "../" + P.base.rpartition("/")[2] + "/" + "/".join(to), True
    if k == "far":
        return up + "../" * bdepth + P.base[1:] + "/" + "/".join(to), True
    if k == "abs":
        return MARK + P.base + "/" + "/".join(to), True
    if k == "redundant":
        return up + "/".join(to) if n else "./" + "/".join(to), True
    if k == "inner":
        return rel.replace("/", "/./") if "/" in rel else "./" + rel, True
    if k == "ext":
        return r.pick([MARK, up + "../" * bdepth]).rstrip("/") + "/ext/back/" + "/".join(to), True
    if k == "sbase":
        return MARK + "/sbase/" + "/".join(to), True
    if k == "dirlink":
        ks = [q for q in range(1, len(to)) if "/".join(to[:q]) in P.dirlink]
        q = r.pick(ks)
        return (up or "./") + P.dirlink["/".join(to[:q])] + "/" + "/".join(to[q:]), True
    return (up or "./") + P.filelink[j], False


def entry(r, P, which=None, odd=0.5):
    """(entry as spelled, working directory) for a file of the project."""
    p = which or P.paths[0]
    full = P.base + "/" + p
    d = full.rpartition("/")[0]
    if not r.chance(odd):
        return full[1:], "/"
    opts = ["abs", "base", "dot", "dotdot", "parent"]
    if P.sbase:
        opts += ["sbase", "sbasecwd"]
    k = r.pick(opts)
    if k == "abs":
        return MARK + full, r.pick(["/", "/home", P.base])
    if k == "base":
        return full[len(d) + 1:], d
    if k == "dot":
        return "./" + full[len(d) + 1:], d
    if k == "dotdot":
        return full[1:].split("/")[0] + "/../" + full[1:], "/"
    if k == "parent":
        return "../" + full[1:], "/home"
    if k == "sbase":
        return "sbase/" + p, "/"
    return p, "/sbase"


def outs(r, P, tree, cwd, want=None):
    """Output options; may add things to the tree."""
    rust = ts = None
    want = want or r.weighted([("both", 5), ("rust", 2), ("ts", 2), ("none", 1)])
    if want in ("both", "rust"):
        rust = out1(r, P, tree, cwd, "types.rs")
    if want in ("both", "ts"):
        ts = out1(r, P, tree, cwd, "types.ts")
    return rust, ts


def out1(r, P, tree, cwd, name):
    if r.chance(0.25):
        b, _, x = name.partition(".")
        name = r.pick([b + "_" + x, b + ".gen." + x, ".%s.%s" % (b, x), "na\u00efve %s.%s" % (b, x), b[0] * 245 + "." + x, b + "." + x + ".t", b + ".tmp." + x, b.upper() + "." + x.upper()])
    k = r.weighted([("isdir", P.p_bad), ("underfile", P.p_bad), ("abs", 4), ("nested", 3), ("bare", 2), ("inbase", 2), ("old", 4), ("link", 1), ("dotdot", 1), ("linkdir", 1), ("dangling", 1), ("long", 2)])
    if k == "abs":
        return MARK + "/" + name
    if k == "nested":
        return MARK + "/out/" + r.pick(["x", "x/y", "x y/z", "p/q/r"]) + "/" + name
    if k == "bare":
        return r.pick(["", "./"]) + name
    if k == "inbase":
        return MARK + P.base + r.pick(["/", "/generated/"]) + name
    if k in ("old", "long"):
        p = "/build/" + name
        tree[p] = {"f": old_output(r) if k == "old" else "// old\n" + "x" * 60 * 4000, "t": r.pick([1500000000, 1900000000]), "m": r.pick([0o644, 0o644, 0o600, 0o755, 0o444])}
        return MARK + p
    if k == "link":
        tree["/real/" + name] = {"f": old_output(r)}
        tree["/lnk/" + name] = {"l": "../real/" + name}
        return MARK + "/lnk/" + name
    if k == "dangling":
        tree["/real/keep"] = {"f": "k"}
        tree["/lnk/" + name] = {"l": "../real/" + name}
        return MARK + "/lnk/" + name
    if k == "isdir":
        tree["/build/" + name + "/keep"] = {"f": "k"}
        return MARK + "/build/" + name
    if k == "underfile":
        tree["/build/plain"] = {"f": "k"}
        return MARK + "/build/plain/" + r.pick(["", "x/"]) + name
    if k == "linkdir":
        tree["/real/keep"] = {"f": "k"}
        tree["/lnkd"] = {"l": "real"}
        return MARK + "/lnkd/sub/" + name
    return MARK + "/out/a/../b/" + name


def old_output(r):
    return r.pick(["", "// older output\n", "garbage \udcff\udc80 bytes", "x" * 5000, "pub mod main {\n}\n", "\0" * 4096])


def gen_step(r, P, tree, odd=0.5, want=None, **kw):
    e, cwd = entry(r, P, odd=odd)
    rust, ts = outs(r, P, tree, cwd, want)
    s = dict(k="run", cmd="generate", entry=e, cwd=cwd, rust=rust, ts=ts, rand=r.below(1 << 30))
    if r.chance(0.4) or (not rust and not ts and r.chance(0.8)):
        s["list"] = 1
    s.update(kw)
    return s


def again(r, s, **kw):
    s = {k: v for k, v in s.items() if k != "faults"}
    s["rand"] = r.below(1 << 30)
    s.update(kw)
    return s


# ---- faults ------------------------------------------------------------------------------------------------

def span(P):
    return 14 + 8 * len(P.paths)


def benign(r):
    fs = []
    for _ in range(r.range(1, 4)):
        k = r.below(4)
        if k == 0:
            fs.append({"op": r.pick(["READ", "WRITE", "OPEN"]), "nth": r.below(8), "act": "fail", "arg": "EINTR", "more": r.below(4)})
        elif k == 1:
            fs.append({"op": "READ", "nth": r.below(6), "act": "short", "arg": r.pick([1, 2, 7, 31, 32, 100, 1000]), "more": r.pick([0, 3, -1])})
        elif k == 2:
            fs.append({"op": "WRITE", "nth": r.below(3), "act": "short", "arg": r.pick([1, 7, 100, 4096, 8191, 20000]), "more": r.pick([0, 2, 20])})
        else:
            fs.append({"at": r.below(40), "act": "fail", "arg": "EINTR"})
    return fs


def hard(r, P, outnames=()):
    k = r.weighted([("at", 5), ("full", 3), ("fd", 1), ("path", 3), ("mkdir", 1), ("stdout", 1), ("open_w", 2)])
    if k == "at":
        return [{"at": r.below(span(P)), "act": "fail", "arg": r.pick(ERRNOS), "more": r.pick([0, 0, 0, 3, -1])}]
    if k == "full":
        n = r.pick([1, 10, 100, 4096, 8192, 30000])
        p = r.pick(list(outnames)) if outnames else "/"
        return [{"op": "WRITE", "path": p, "nth": 0, "act": "short", "arg": n}, {"op": "WRITE", "path": p, "nth": r.pick([0, 1, 1, 1]), "act": "fail", "arg": r.pick(["ENOSPC", "EDQUOT", "EIO", "EFBIG"]), "more": -1}]
    if k == "fd":
        return [{"op": "OPEN", "nth": r.below(6), "act": "fail", "arg": r.pick(["EMFILE", "ENFILE", "ENOMEM"]), "more": -1}]
    if k == "path":
        p = r.pick(P.paths).rpartition("/")[2]
        return [{"op": r.pick(["OPEN", "READ", "REALPATH", "READ"]), "path": "/" + p, "nth": r.below(2), "act": "fail", "arg": r.pick(["EIO", "EACCES", "ENOENT", "ESTALE", "ENOMEM", "EISDIR"]), "more": r.pick([0, -1, -1])}]
    if k == "mkdir":
        return [{"op": "MKDIR", "nth": r.below(3), "act": "fail", "arg": r.pick(["EACCES", "ENOSPC", "EROFS", "EEXIST", "EMLINK"]), "more": r.pick([0, -1])}]
    if k == "stdout":
        return [{"op": "WRITE", "path": "<stdout>", "nth": r.below(4), "act": "fail", "arg": r.pick(["EPIPE", "ENOSPC", "EIO"]), "more": -1}]
    return [{"op": "OPEN", "writes": 1, "nth": r.below(2), "act": "fail", "arg": r.pick(["EACCES", "EROFS", "ENOSPC", "ETXTBSY", "EISDIR", "EPERM"]), "more": r.pick([0, -1])}]


def kill(r, P):
    k = r.below(3)
    if k < 2:
        return [{"at": r.below(span(P)), "act": r.pick(["kill", "kill_after", "short_kill"]), "arg": r.pick([0, 1, 50, 1000, 4096, 20000])}]
    return [{"op": "WRITE", "writes": 1, "nth": r.below(3), "act": "short_kill", "arg": r.pick([0, 1, 50, 1000, 4096, 20000])}]


def outnames(s):
    return [x.rpartition("/")[2] for x in (s.get("rust"), s.get("ts")) if x] + (["<stdout>"] if s.get("list") else [])


# ---- edits -------------------------------------------------------------------------------------------------

def evolve(r, P):
    """Steps that take the project to another version."""
    P.v, _ = schemagen.evolve(r, P.c, P.v, P.nevers)
    P.seed = r.u64()
    new = render(P, P.v, P.seed)
    steps = [dict(k="write", path=p, f=t) for p, t in sorted(new.items()) if P.texts.get(p) != t]
    P.texts = new
    for s in steps:
        if r.chance(0.3):
            s["keep"] = 1
        elif r.chance(0.3):
            s["t"] = r.pick([1, 1000000000, 1500000000, 2000000000])
    return steps


def lines_of(t):
    return t.split("\n")


def add_comments(r, text, n, pool=NASTY):
    ls = lines_of(text)
    spots = [i for i, l in enumerate(ls) if (l.lstrip().startswith(("struct ", "choice ")) or (" = " in l and not l.lstrip().startswith("#")))]
    for i in sorted(r.sample(spots, min(n, len(spots))), reverse=True):
        ind = ls[i][:len(ls[i]) - len(ls[i].lstrip())]
        c = [ind + r.pick(["# ", "#", "#   "]) + r.pick(pool) for _ in range(r.weighted([(1, 4), (2, 2), (3, 1)]))]
        if len(c) > 1 and r.chance(0.5):
            c.insert(1, ind + "#")
        ls[i:i] = c
    if r.chance(0.3) and not text.lstrip().startswith("#"):
        ls[0:0] = ["# " + r.pick(pool), ""]
    return "\n".join(ls)


CODE = re.compile(r"\$?\w+|[^\s\w]")


def relayout(r, text):
    """The same tokens with any other white space between them."""
    out, last = "", ""
    p = r.pick([0.05, 0.3, 1.0])
    for l in lines_of(text):
        if "#" in l or "'" in l or not l.strip():
            out += ("" if out.endswith("\n") or not out else "\n") + l + "\n"
            last = ""
            continue
        first = True
        for t in CODE.findall(l):
            glue = last and re.match(r"\w", last[-1]) and re.match(r"[$\w]", t)
            if r.chance(p):
                sep = r.pick([" ", " ", "\n", "\t", "   ", "\r\n", "\n\n", "\u3000", "\n \t"] + ([] if glue else [""] * 6))
            else:
                sep = ("\n" + l[:len(l) - len(l.lstrip())] if last else "") if first else " " if glue or t not in ".]" and last not in ".[" else ""
            out += sep + t
            last, first = t, False
    return out


def unformat(r, text):
    """Change layout but not meaning."""
    ls = lines_of(text)
    k = r.below(8)
    if k >= 6:
        return relayout(r, text)
    if k == 0:
        # Not within or after a comment: that would make it two comments, or one that belongs to nothing.
        i = r.below(len(ls))
        if i == 0 or not ls[i - 1].lstrip().startswith("#"):
            ls[i:i] = [""] * r.range(1, 3)
    elif k == 1:
        i = r.below(len(ls))
        ls[i] = ls[i] + " " * r.range(1, 4)
    elif k == 2:
        ls = [l.replace("    ", "\t") for l in ls]
    elif k == 3:
        ls = [("   " + l if " = " in l and "#" not in l else l) for l in ls]
    elif k == 4:
        ls = [l.replace(" = ", "=").replace(" {", "{") if "#" not in l and "'" not in l else l for l in ls]
    else:
        return text.rstrip("\n") if r.chance(0.5) else text + "\n\n"
    return "\n".join(ls)


# Contents that are invalid whatever the other files hold.
SYNTAX = ["struct {\n", "struct Cut {\n", "choice Cut {\n    a = 0\n", "\n%%%\n", "struct A { a: [U64 = 0 }\n", "}\n", "import 'x.t\n", "struct A { x: U64 = 99999999999999999999999 }\n", "struct _a {}\n", "\0\0\0\0\0\0",
          "struct SynA {\n    a: U64 = 0\n    deleted 1 1\n}\n", "struct SynB {\n    a: U64\n}\n", "struct SynC {\n    a U64 = 0\n}\n", "struct SynD {\n    optional optional a: U64 = 0\n}\n",
          "struct SynE {\n    a: U64 = -1\n}\n", "import 'q.t'\n", "choice SynF {\n    a: = 0\n}\n", "struct SynG {\n    a: [U64]] = 0\n}\n",
          "struct SynH {\n    a: U64 = 0x1\n}\n", "struct SynI\n{\n    a: [[U64] = 0\n}\n", "struct SynJ {\n    a: one.two.Three = 0\n}\n", "struct SynK {\n    a: U64 = 0 b\n}\n",
          "struct SynL {\n    a: U64 = 18446744073709551616\n}\n", "structure SynM {\n}\n", "struct SynN {\n    deleted\n    a: U64 = 0 =\n}\n", "choice {\n    a = 0\n}\n",
          "struct SynO {\n    a: [] = 0\n}\n", "struct SynP {\n    a: U64 = \n}\n", "struct SynQ {\n}}\n", "struct SynR {\n    a: 'U64' = 0\n}\n",
          "struct SynS {\n    required a: U64 = 0\n}\n", "\u00a7\n", "struct SynT;\n", "struct SynU {\n    a: U64 = 0,\n}\n",
          "struct SynV {\n    a: U64 = 0\n    deleted 1,2\n}\n", "struct 9Syn {\n}\n"]
SEMANTIC = ["struct DupA {\n    a: U64 = 0\n    b: U64 = 0\n}\n", "struct DupB {\n    a: U64 = 0\n    a: S64 = 1\n}\n", "struct Gap {\n    a: U64 = 5\n}\n",
            "struct Ref {\n    a: NoSuchTypeAnywhere = 0\n}\n", "struct Ref {\n    a: nosuchimport.Thing = 0\n}\n", "struct Loop {\n    a: Loop = 0\n}\n",
            "struct Ping {\n    a: [Pong] = 0\n}\nchoice Pong {\n    b: Ping = 0\n}\n", "struct Twice {}\nstruct Twice {}\n", "struct Del {\n    a: U64 = 0\n    deleted 0\n}\n",
            "choice Ref {\n    a: U64 = 0\n    b: [[AlsoMissing]] = 1\n}\n"]


def semantic(r):
    """Declarations that parse but are invalid: one flaw at a random place among much that is fine."""
    if r.chance(0.25):
        return r.pick(SEMANTIC)
    k = r.below(1000)
    T = "Zz%d" % k
    ty = lambda: "[" * (d := r.weighted([(0, 4), (1, 2), (2, 1), (4, 1)])) + r.pick(["U64", "String", "Bool", "Bytes", "F64", "S64", "Unit"]) + "]" * d
    n = r.weighted([(1, 2), (2, 3), (3, 3), (5, 2), (12, 1), (40, 1)])
    names = ["f%d_%s" % (i, r.pick(["ab", "cd", "ef"])) for i in range(n)]
    idx = list(range(n))
    dele = [i for i in range(n) if r.chance(0.2)] if r.chance(0.4) else []
    types = [ty() for _ in range(n)]
    kind = r.pick(["struct", "choice"])
    extra, x, y = "", r.below(n), r.below(n)
    wrap = lambda t: "[" * (d := r.below(4)) + t + "]" * d
    flaw = r.pick(["dupname", "dupindex", "gap", "gap0", "deleted", "excess", "notype", "noimport", "self", "ring", "duptype", "duptype"])
    fresh = {"dupname": n > 1, "dupindex": n > 1}
    if not fresh.get(flaw, True):
        flaw = "gap"
    if flaw == "dupname":
        y = (x + 1 + r.below(n - 1)) % n
        a = names[x].split("_")
        names[y] = r.pick([names[x], a[0] + a[1].capitalize(), a[0].capitalize() + a[1].capitalize(), names[x]])
    elif flaw == "dupindex":
        y = (x + 1 + r.below(n - 1)) % n
        idx[y] = idx[x]
    elif flaw == "gap":
        idx = [i + 1 if i >= x else i for i in idx]
        dele = [i + 1 if i >= x else i for i in dele]
    elif flaw == "gap0":
        idx, dele = [i + 1 for i in idx], [i + 1 for i in dele]
    elif flaw == "excess":
        idx[n - 1] = n + r.pick([0, 1, 30, 100000])
    elif flaw == "notype":
        types[x] = wrap("NoSuch%d" % k)
    elif flaw == "noimport":
        types[x] = wrap("no_such%d.Zz%d" % (k, k))
    elif flaw == "self":
        types[x] = wrap(T)
    elif flaw == "ring":
        m = r.pick([1, 1, 2, 5, 30])
        types[x] = wrap("%sq0" % T)
        for i in range(m):
            extra += "%s %sq%d {\n    a: U64 = 0\n    %sb: %s = 1\n}\n\n" % (r.pick(["struct", "choice"]), T, i, r.pick(["", "optional ", "asymmetric "]), wrap("%sq%d" % (T, i + 1) if i + 1 < m else T))
    elif flaw == "duptype":
        extra = "%s %s {\n}\n\n" % (r.pick(["struct", "choice"]), r.pick([T, "zz%d" % k]))
    keep = [i for i in range(n) if i == x or i == y or i not in dele] if flaw != "deleted" else list(range(n))
    gone = [idx[i] for i in range(n) if i not in keep]
    if flaw == "deleted":
        gone = [idx[x]] + [idx[i] for i in dele if i != x]
        keep = [i for i in range(n) if i == x or i not in dele]
    order = r.shuffle(keep) if r.chance(0.5) else keep
    body = "".join("    %s%s: %s = %d\n" % (r.pick(["", "", "optional ", "asymmetric "]), names[i], types[i], idx[i]) for i in order)
    if gone:
        body += "\n    deleted " + " ".join(map(str, gone)) + "\n"
    fine = lambda c: "%s Fine%d%s {\n    a: U64 = 0\n}\n\n" % (r.pick(["struct", "choice"]), k, c) if r.chance(0.4) else ""
    main = "%s %s {\n%s}\n\n" % (kind, T, body)
    return fine("a") + (main + extra if r.chance(0.5) else extra + main) + fine("b")


def ring(r, P, f):
    """A cycle of types over several files, each of which is fine on its own."""
    d, k, n = f.rpartition("/")[0], r.below(1000), r.pick([1, 2, 2, 3, 6])
    spots = ["ring%d/%sr%d.t" % (k, r.pick(["", "in/", "in/deep/"]), i) for i in range(n)]
    out, last = [], r.chance(0.5)
    wrap = lambda t: "[" * (m := r.below(3)) + t + "]" * m
    for i, p in enumerate(spots):
        to = f if i == n - 1 and last else d + "/" + spots[(i + 1) % n]
        t = "import '%s' as next_one\n\n%s Ring {\n    a: U64 = 0\n    %sb: %s = 1\n}\n" % (
            relpath((d + "/" + p).split("/")[:-1], to.split("/")), r.pick(["struct", "choice"]), r.pick(["", "optional ", "asymmetric "]), wrap("next_one.Ring%s" % (k if i == n - 1 and last else "")))
        out.append(dict(k="write", path=d + "/" + p, f=t))
    g = with_import(P.texts[f], "import '%s' as ring_in%d" % (spots[0], k)) + "\nstruct Ring%d {\n    a: ring_in%d.Ring = 0\n}\n" % (k, k)
    return out + [dict(k="write", path=f, f=g, bad="semantic")]


def defect(r, P, f=None):
    """Steps that break file f: returns (break, repair)."""
    f = f or P.base + "/" + r.pick(P.paths)
    good = P.texts[f]
    k = r.weighted([("syntax", 4), ("semantic", 5), ("ring", 1), ("stray", 1), ("gone", 1), ("dir", 1), ("dangling", 1), ("loop", 1), ("utf8", 1), ("import", 2), ("cut", 2)])
    fix = [dict(k="rm", path=f), dict(k="write", path=f, f=good)]
    if k == "syntax":
        return [dict(k="write", path=f, f=good + "\n" + r.pick(SYNTAX), bad="syntax")], [dict(k="write", path=f, f=good)]
    if k == "semantic":
        return [dict(k="write", path=f, f=good + "\n" + semantic(r), bad="semantic")], [dict(k="write", path=f, f=good)]
    if k == "ring":
        return ring(r, P, f), [dict(k="write", path=f, f=good)]
    if k == "stray":
        # A type of another file without the name of the import, a type of this file with it, or the name of the file instead of the alias.
        q = r.below(3)
        i = "aux%d" % r.below(1000)
        g = with_import(good, "import '%s.t'%s" % (i, " as by_alias" if q == 2 else ""))
        g += "\nstruct Own%s {\n    a: %s = 0\n}\n" % (i, ["Far" + i, "%s.Own%s" % (i, i), "%s.Far%s" % (i, i)][q])
        return [dict(k="write", path=f.rpartition("/")[0] + "/" + i + ".t", f="struct Far%s {\n    b: U64 = 0\n}\n" % i), dict(k="write", path=f, f=g, bad="semantic")], [dict(k="write", path=f, f=good)]
    if k == "gone":
        return [dict(k="rm", path=f)], fix
    if k == "dir":
        return [dict(k="rm", path=f), dict(k="mkdir", path=f)], fix
    if k == "dangling":
        return [dict(k="link", path=f, to="nowhere.t")], fix
    if k == "loop":
        return [dict(k="link", path=f, to=f.rpartition("/")[2])], fix
    if k == "utf8":
        b = good + "\n# \udcff\udcfe\n" if r.chance(0.5) else "\udc80" + good
        return [dict(k="write", path=f, f=b, bad="syntax")], [dict(k="write", path=f, f=good)]
    if k == "cut":
        return [dict(k="write", path=f, f=good[:r.below(len(good) + 1)] + "\n}\nstruct Broken {\n", bad="syntax")], [dict(k="write", path=f, f=good)]
    imp = "import '%s' as zz_missing\n" % r.pick(["missing.t", "../missing/x.t", "nodir/x.t", MARK + "/nothing/there.t", "main.t/x.t", "."])
    return [dict(k="write", path=f, f=imp + strip_header(good))], [dict(k="write", path=f, f=good)]


def strip_header(t):
    """Drop a leading comment so that an import can be put first."""
    ls = lines_of(t)
    i = 0
    while i < len(ls) and (ls[i].strip() == "" or ls[i].lstrip().startswith("#")):
        i += 1
    return "\n".join(ls[i:])


def with_import(t, imp):
    """Put an import first; its alias is made unique."""
    h, sep, a = imp.partition("' as ")
    if sep:
        n, b = 0, a
        while any(l.lstrip().startswith("import") and l.rstrip().endswith(" as " + b) for l in t.split("\n")):
            n += 1
            b = "%s_n%d" % (a, n)
        imp = h + sep + b
    return imp + "\n" + strip_header(t)


# ---- scripts per property ----------------------------------------------------------------------------------

def hop(r, P, f):
    """A file that imports through a link to a directory elsewhere and back up: what the path says and where it leads differ."""
    d, n = f.rpartition("/")[0], r.pick(["wares.t", "goods.t", "main.t", "vault/goods.t"])
    k = r.below(1000)
    a = "by_hop%d" % k if n == "main.t" or r.chance(0.4) else n.rpartition("/")[2][:-2]
    g = with_import(P.texts[f], "import 'hop/../%s'%s" % (n, " as " + a if a[:2] == "by" else ""))
    g += "\nstruct Hop%d {\n    a: %s.Wares = 0\n}\n" % (k, a)
    P.texts[f] = g
    out = [dict(k="write", path=P.base + "/vault/deep/room/x.t", f="struct X {}\n"), dict(k="link", path=d + "/hop", to=MARK + P.base + "/vault/deep/room"),
           dict(k="write", path=P.base + "/vault/deep/" + n, f="struct Wares {\n    right: U64 = 0\n}\n")]
    if r.chance(0.7) and d + "/" + n not in P.texts:
        out.append(dict(k="write", path=d + "/" + n, f="struct Wares {\n    decoy: String = 0\n}\n"))
    return out + [dict(k="write", path=f, f=g)]


def mirror(r, P, f):
    """Copies of one tree of files, which differ only in what the files declare, imported side by side."""
    d, k = f.rpartition("/")[0], r.below(1000)
    spots = r.sample(["a.t", "x/a.t", "x/b.t", "y/a.t", "y/z/c.t", "x/z/c.t", "y/z/w/d.t", "q/r/e.t"], r.range(2, 5))
    copies = r.pick([["left", "right"], ["one", "two", "three"], ["v1/api", "v2/api"], ["m", "n/m"], ["p", "p/p"]])
    edges = [(i, j) for i in range(len(spots)) for j in range(i + 1, len(spots)) if j == i + 1 or r.chance(0.4)]
    out, g = [], P.texts[f]
    order = r.shuffle(list(range(len(copies))))
    for c, m in enumerate(copies):
        for i, p in enumerate(spots):
            imps = [(j, r2) for a, j in edges if a == i for r2 in [relpath(p.split("/")[:-1], spots[j].split("/"))]]
            t = "".join("import '%s' as to%d\n" % (q, j) for j, q in imps) + ("\n" if imps else "")
            t += "struct Mirror {\n    of_%s_%d: U64 = 0\n%s}\n" % ("abc"[c], i, "".join("    n%d: to%d.Mirror = %d\n" % (j, j, n + 1) for n, (j, q) in enumerate(imps)))
            out.append(dict(k="write", path=d + "/" + m + "/" + p, f=t))
    for c in order:
        g = with_import(g, "import '%s/%s' as mirror%d_%d" % (copies[c], spots[0], k, c))
    P.texts[f] = g
    return out + [dict(k="write", path=f, f=g)]


def script(prop, r):
    return globals()["gen_" + prop](r)


def dts(r, steps):
    for s in steps:
        if r.chance(0.3):
            s["dt"] = r.pick([0, 1, 3600, 86400 * 30, -3600, -86400 * 400])
        if s["k"] == "run" and r.chance(0.1):
            s["env"] = wild(r, r.pick(ENVS))
    return steps


def wild(r, e):
    """Any variable the tool asks for may happen to be set."""
    return dict(e, SIM_ENV=str(1 + r.below(1 << 20))) if r.chance(0.6) else e


def gen_T01(r):
    P = project(r)
    P.p_bad = 0.15
    tree, steps = P.tree, []
    what = r.weighted([("generate", 12), ("format", 2), ("check", 1), ("completion", 2), ("help", 1)])
    if what == "generate":
        s = gen_step(r, P, tree)
        if r.chance(0.3):
            steps.append(again(r, s))
            if r.chance(0.6):
                steps += evolve(r, P)
        for _ in range(r.range(1, 3)):
            k = r.weighted([("none", 1), ("benign", 4), ("hard", 8), ("both", 3)])
            f = (benign(r) if k in ("benign", "both") else []) + (hard(r, P, outnames(s)) if k in ("hard", "both") else [])
            steps.append(again(r, s, faults=f))
        steps.append(again(r, s, faults=benign(r) if r.chance(0.5) else []))
    elif what in ("format", "check"):
        e, cwd = entry(r, P)
        for _ in range(r.range(1, 2)):
            k = r.weighted([("benign", 3), ("hard", 4)])
            steps.append(dict(k="run", cmd=what, entry=e, cwd=cwd, rand=r.below(1 << 30), faults=benign(r) if k == "benign" else hard(r, P, [r.pick(P.paths)])))
            if steps[-1]["cmd"] == "format" and k == "hard":
                break
    elif what == "completion":
        sh = r.pick(["bash", "fish", "zsh", "powershell", "elvish", "Bash", " zsh "])
        f = r.weighted([([], 1), (benign(r), 2), ([{"op": "WRITE", "path": "<stdout>", "nth": r.below(4), "act": "fail", "arg": r.pick(["EPIPE", "ENOSPC", "EIO"]), "more": -1}], 4),
                        ([{"op": "WRITE", "path": "<stdout>", "nth": 0, "act": "short", "arg": r.pick([1, 100, 1000, 4000]), "more": r.pick([0, 3, -1])}], 3),
                        ([{"op": "WRITE", "path": "<stdout>", "nth": 0, "act": "short", "arg": r.pick([1, 100, 1000, 4000])}, {"op": "WRITE", "path": "<stdout>", "nth": 1, "act": "fail", "arg": "ENOSPC", "more": -1}], 3)])
        steps.append(dict(k="run", cmd="completion", shell=sh, faults=f, rand=r.below(1 << 30)))
    else:
        steps.append(dict(k="run", cmd="other", args=r.pick([["--help"], ["help", "generate"], ["--version"], ["generate", "--help"]]), faults=benign(r)))
    return dict(tree=tree, steps=dts(r, steps))


def gen_T02(r):
    P = project(r)
    P.p_bad = 0.15
    tree, steps = P.tree, []
    s = gen_step(r, P, tree, want=r.weighted([("both", 5), ("rust", 2), ("ts", 2)]))
    if r.chance(0.6):
        steps.append(again(r, s))
    for _ in range(r.range(1, 3)):
        if r.chance(0.3):
            steps += evolve(r, P)
        k = r.weighted([("defect", 6), ("fault", 3), ("two", 2)])
        if k == "fault":
            steps.append(again(r, s, faults=[{"op": r.pick(["OPEN", "READ", "READ", "REALPATH"]), "path": P.base if r.chance(0.4) else "/" + r.pick(P.paths).rpartition("/")[2], "nth": r.below(4), "act": "fail", "arg": r.pick(["EIO", "EACCES", "ESTALE", "ENOENT", "ENOMEM", "EISDIR", "EMFILE"]), "more": r.pick([0, -1, -1])}]))
            continue
        a, fa = defect(r, P)
        b, fb = defect(r, P) if k == "two" else ([], [])
        steps += a + b
        for _ in range(r.range(1, 2)):
            t = again(r, s)
            if r.chance(0.2):
                t["faults"] = benign(r) if r.chance(0.6) else kill(r, P)
            if r.chance(0.3):
                t["rust"], t["ts"] = (t["rust"], None) if r.chance(0.5) and t["rust"] else (None, t["ts"])
            steps.append(t)
        if r.chance(0.2):
            steps.append(dict(k="run", cmd=r.pick(["format", "check"]), entry=s["entry"], cwd=s["cwd"], rand=1))
            if steps[-1]["cmd"] == "format":
                return dict(tree=tree, steps=dts(r, steps))
        if r.chance(0.8):
            steps += fb + fa + [again(r, s)]
        else:
            break
    return dict(tree=tree, steps=dts(r, steps))


def clutter(r, P, tree, s):
    """Unrelated files with names an implementation might be tempted to use."""
    for o in (s.get("rust"), s.get("ts")):
        if o and r.chance(0.7):
            q = o[len(MARK):] if o.startswith(MARK) else s["cwd"].rstrip("/") + "/" + (o[2:] if o.startswith("./") else o)
            d, _, n = q.rpartition("/")
            if "/../" in q or d == "":
                d = ""
            for x in r.sample([n + ".tmp", n + "~", n + ".bak", "." + n + ".tmp", n + ".new", n + ".lock", "keep.txt", "mod.rs", "index.ts", n + ".part", "." + n + ".swp", "tmp"], r.range(1, 4)):
                if d in tree or d + "/" + x in tree or d.startswith("/lnk"):
                    continue
                if not any(k.startswith(d + "/") for k in tree) and r.chance(0.5):
                    continue
                tree[d + "/" + x] = {"f": "unrelated " + x, "m": r.pick([0o644, 0o600, 0o444])}
    for p in P.paths:
        q = P.base + "/" + p
        if r.chance(0.3):
            tree[q]["m"] = r.pick([0o644, 0o600, 0o640, 0o444, 0o755, 0o666])
        if r.chance(0.2):
            d, _, n = q.rpartition("/")
            for x in r.sample([n + ".tmp", n + "~", n + ".bak", "." + n + ".tmp", "." + n + ".swp", n + ".orig", "other.t", n + ".formatted"], r.range(1, 3)):
                if d + "/" + x not in tree:
                    tree[d + "/" + x] = {"f": r.pick(["unrelated", "struct   Unrelated {}", "struct Foo { x :U64=0 }"]), "m": r.pick([0o644, 0o600, 0o400])}


def gen_T03(r):
    P = project(r, fmt="wild" if r.chance(0.6) else None)
    tree, steps = P.tree, []
    s = gen_step(r, P, tree)
    clutter(r, P, tree, s)
    for _ in range(r.range(1, 4)):
        k = r.weighted([("generate", 6), ("format", 4), ("check", 2), ("completion", 1), ("help", 1), ("defect", 2), ("evolve", 1), ("other", 1)])
        f = r.weighted([([], 2), (benign(r), 1), (hard(r, P, outnames(s) or [P.paths[0]]), 3), (kill(r, P), 3)])
        if k == "generate":
            steps.append(again(r, s, faults=f))
        elif k in ("format", "check"):
            e, cwd = entry(r, P)
            steps.append(dict(k="run", cmd=k, entry=e, cwd=cwd, rand=r.below(1 << 30), faults=f))
        elif k == "completion":
            steps.append(dict(k="run", cmd=k, shell=r.pick(["bash", "zsh", "fish"]), rand=1, faults=f))
        elif k == "help":
            steps.append(dict(k="run", cmd="other", args=["--help"], rand=1))
        elif k == "other":
            e, cwd = entry(r, P)
            # Bad invocations.
            steps.append(dict(k="run", cmd="other", args=r.pick([["shell-completion", "nosuch"], ["format", MARK[:0] + "nosuch.t"], ["generate", "nosuch.t", "--rust", "o.rs"], ["generate"], ["format"], ["shell-completion"], ["generate", "--rust", "o.rs"], ["generate", "--list-schemas"], [], ["nosuch"], ["format", "--check"]]), rand=1))
        elif k == "evolve":
            steps += evolve(r, P)
        else:
            a, _ = defect(r, P)
            steps += a
    return dict(tree=tree, steps=dts(r, steps))


def gen_T04(r):
    P = project(r)
    tree = P.tree
    base = gen_step(r, P, tree, want="both")
    variants = [dict(pre=[], run=again(r, base, list=1))]
    bad = defect(r, P)[0] if r.chance(0.15) else []
    for _ in range(r.range(2, 5)):
        pre, v = [], again(r, base, list=1)
        for k in r.sample(["rand", "env", "cwd", "times", "subset", "leftovers", "benign", "outdir", "order", "prior", "clock"], r.range(1, 4)):
            if k == "env":
                v["env"] = wild(r, r.pick(ENVS))
            elif k == "cwd":
                v["entry"], v["cwd"] = entry(r, P, odd=0.8)
                for o in ("rust", "ts"):
                    if v.get(o) and not v[o].startswith(MARK):
                        v[o] = MARK + "/elsewhere/" + v[o].rpartition("/")[2]
            elif k == "times":
                pre += [dict(k="touch", path=P.base + "/" + p, t=r.pick([1, 946684800, 1700000000, 2000000000, 4000000000])) for p in P.paths]
            elif k == "subset":
                o = r.pick(["rust", "ts", "list"])
                v[o] = None if o != "list" else 0
            elif k == "leftovers":
                for o in ("rust", "ts"):
                    if v.get(o) and v[o].startswith(MARK) and "/../" not in v[o]:
                        p = v[o][len(MARK):]
                        if p not in tree and not any(q in tree for q in (p.rpartition("/")[0],)) and not p.startswith("/lnk"):
                            pre.append(dict(k="write", path=p, f=old_output(r), t=r.pick([1, 1600000000, 3000000000])))
            elif k == "benign":
                v["faults"] = benign(r)
            elif k == "outdir":
                for o in ("rust", "ts"):
                    if v.get(o):
                        v[o] = MARK + "/other place/" + v[o].rpartition("/")[2]
            elif k == "order":
                # The same files created in another order.
                for p in r.shuffle(list(P.paths)):
                    pre.append(dict(k="write", path=P.base + "/" + p, f=P.texts[P.base + "/" + p]))
            elif k == "prior":
                pre.append(again(r, v))
            elif k == "clock":
                v["dt"] = r.pick([-10 ** 9, 10 ** 9, 10 ** 8])
        variants.append(dict(pre=[] if bad else pre, run=v))
    steps = list(bad) + [dict(k="group", variants=variants)]
    if r.chance(0.3):
        moved = move_base(r, P, tree, base)
        if moved:
            steps.append(moved)
    return dict(tree=tree, steps=steps)


def move_base(r, P, tree, base):
    """The same project in another directory gives the same outputs."""
    if P.ext or P.sbase or P.p_odd:
        return None
    to = r.pick(["/moved", "/moved/far/away", "/x y/z"])
    a = again(r, base, entry=MARK + P.base + "/" + P.paths[0], cwd="/", list=1)
    b = again(r, a, entry=MARK + to + "/" + P.paths[0])
    for s in (a, b):
        for o, n in (("rust", "m.rs"), ("ts", "m.ts")):
            s[o] = MARK + "/mv/" + n
    pre = [dict(k="write", path=to + "/" + p, f=P.texts[P.base + "/" + p]) for p in P.paths]
    return dict(k="group", variants=[dict(pre=[], run=a), dict(pre=pre, run=b)])


def gen_T05(r):
    P = project(r)
    P.p_bad = 0.15
    tree, steps = P.tree, []
    s = gen_step(r, P, tree, want=r.weighted([("both", 5), ("rust", 2), ("ts", 2)]))
    if r.chance(0.4):
        steps.append(again(r, s))
    for _ in range(r.range(1, 4)):
        if r.chance(0.5):
            steps += evolve(r, P)
        steps.append(again(r, s, faults=kill(r, P) if r.chance(0.8) else hard(r, P, outnames(s))))
        for o in (s["rust"], s["ts"]):
            if o and r.chance(0.6):
                p = o[len(MARK):] if o.startswith(MARK) else s["cwd"].rstrip("/") + "/" + o
                if "/../" in p:
                    continue
                if r.chance(0.15):
                    p = p.rpartition("/")[0]
                    if p in ("", P.base) or not p.startswith("/out") :
                        continue
                    steps.append(dict(k="tear", path=p, how="lost"))
                    continue
                steps.append(dict(k="tear", path=p, how=r.pick(["prefix", "zero", "empty", "lost", "garbage", "longer", "flip", "prefix"]), arg=r.below(1000) / 1000.0, t=r.pick([1, 1700000000, 1600000000, 3000000000])))
        if r.chance(0.15):
            steps += [dict(k="run", cmd="check", entry=s["entry"], cwd=s["cwd"], rand=1)]
        if r.chance(0.75):
            steps.append(again(r, s))
    steps.append(again(r, s, faults=benign(r) if r.chance(0.2) else []))
    return dict(tree=tree, steps=dts(r, steps))


def messy(r, P, pool=schemagen.COMMENTS, p=0.7):
    """Unformat the files of the project in its tree."""
    for f in P.paths:
        q = P.base + "/" + f
        if q in P.tree and r.chance(p):
            t = P.tree[q]["f"]
            if r.chance(0.6):
                t = add_comments(r, t, r.range(1, 3), pool)
            for _ in range(r.below(3)):
                t = unformat(r, t)
            P.tree[q]["f"] = P.texts[q] = t


def gen_T06(r):
    P = project(r, fmt="wild" if r.chance(0.7) else None, cfg=dict(nfiles=r.range(2, 6)))
    messy(r, P)
    tree, steps = P.tree, []
    e, cwd = entry(r, P)
    tree[P.base + "/unrelated.t"] = {"f": "struct   NotImported{x:U64=0}\n"}
    for _ in range(r.range(1, 3)):
        k = r.weighted([("kill", 6), ("hard", 4), ("benign", 1), ("none", 1)])
        # Faults between the truncation of a file and the end of its rewrite are the recorded finding; the rest is explored more.
        f = {"kill": kill(r, P), "hard": hard(r, P, [x.rpartition("/")[2] for x in P.paths]), "benign": benign(r), "none": []}[k]
        if k == "kill" and r.chance(0.5):
            f = [{"op": r.pick(["OPEN", "CLOSE", "WRITE", "READ"]), "path": r.pick(P.paths).rpartition("/")[2], "nth": r.below(3), "act": r.pick(["kill", "kill_after"])}]
        steps.append(dict(k="run", cmd="format", entry=e, cwd=cwd, rand=r.below(1 << 30), faults=f))
    steps.append(dict(k="run", cmd="format", entry=e, cwd=cwd, rand=r.below(1 << 30)))
    steps[0:0] = [dict(k="mark", entry=e, cwd=cwd)]
    return dict(tree=tree, steps=dts(r, steps))


def gen_T07(r):
    P = project(r, fmt="wild" if r.chance(0.7) else None, small=r.chance(0.6), cfg=dict(names=r.pick(["plain", "odd", "kw", "kw", "uni", "mixed"])))
    messy(r, P, NASTY, 0.8)
    tree = P.tree
    e, cwd = entry(r, P, odd=0.3)
    s = gen_step(r, P, tree, want="both", entry=e, cwd=cwd)
    fmt = lambda e=e, cwd=cwd, f=[]: dict(k="run", cmd="format", entry=e, cwd=cwd, rand=r.below(1 << 30), faults=f)
    steps = hop(r, P, P.base + "/" + r.pick(P.paths)) if r.chance(0.2) else []
    steps.append(dict(k="mark", entry=e, cwd=cwd))
    for _ in range(r.range(0, 4)):
        k = r.weighted([("partial", 3), ("file", 3), ("generate", 1), ("check", 1), ("fault", 2)])
        if k == "partial":
            steps.append(fmt(f=[{"op": "OPEN", "writes": 1, "nth": r.below(4), "act": "kill"}] if r.chance(0.7) else [{"op": "CLOSE", "nth": r.below(12), "act": "kill_after"}]))
        elif k == "file":
            e2, c2 = entry(r, P, r.pick(P.paths), 0.2)
            steps.append(fmt(e2, c2))
        elif k == "generate":
            steps.append(again(r, s))
        elif k == "check":
            steps.append(dict(k="run", cmd="check", entry=e, cwd=cwd, rand=1))
        else:
            steps.append(fmt(f=[{"op": "OPEN", "writes": 1, "nth": r.below(4), "act": "fail", "arg": r.pick(["EACCES", "EROFS", "ENOSPC"]), "more": r.pick([0, -1])}]))
    steps += [fmt(), again(r, s)]
    if r.chance(0.2):
        steps += [fmt(), dict(k="run", cmd="check", entry=e, cwd=cwd, rand=1)]
    return dict(tree=tree, steps=dts(r, steps))


def gen_T08(r):
    P = project(r, fmt="wild" if r.chance(0.3) else None)
    if r.chance(0.3):
        messy(r, P, p=0.4)
    tree, steps = P.tree, []
    e, cwd = entry(r, P)
    chk = lambda f=[]: dict(k="run", cmd="check", entry=e, cwd=cwd, rand=r.below(1 << 30), faults=f)
    fmt = lambda f=[]: dict(k="run", cmd="format", entry=e, cwd=cwd, rand=r.below(1 << 30), faults=f)
    for _ in range(r.range(1, 4)):
        k = r.weighted([("check", 3), ("format", 4), ("edit", 4), ("evolve", 1), ("fault", 3), ("hard", 2), ("defect", 1), ("readfault", 2), ("swap", 1)])
        if k == "check":
            steps.append(chk(benign(r) if r.chance(0.3) else []))
        elif k == "format":
            steps += [fmt(), chk()]
        elif k == "edit":
            f = P.base + "/" + r.pick(P.paths)
            t = P.texts[f]
            n = unformat(r, t) if r.chance(0.7) else add_comments(r, t, 1, schemagen.COMMENTS)
            steps += [fmt(), dict(k="edit", path=f, seed=r.below(1 << 30)), chk()] if r.chance(0.6) else [dict(k="write", path=f, f=n, **({"keep": 1} if r.chance(0.4) else {})), chk()]
        elif k == "evolve":
            steps += evolve(r, P) + [chk()]
        elif k == "fault":
            steps.append(chk(kill(r, P) if r.chance(0.2) else hard(r, P)))
        elif k == "hard":
            steps += [fmt([{"op": "OPEN", "writes": 1, "nth": r.below(3), "act": "fail", "arg": "EACCES", "more": r.pick([0, -1])}]), chk()]
        elif k == "readfault":
            p = r.pick(P.paths).rpartition("/")[2]
            steps += ([fmt()] if r.chance(0.6) else []) + [chk([{"op": r.pick(["READ", "OPEN", "READ", "REALPATH"]), "path": "/" + p, "nth": r.below(2), "act": "fail", "arg": r.pick(["EIO", "EACCES", "ENOENT", "EISDIR", "ESTALE"]), "more": -1}])]
        elif k == "swap":
            if len(P.paths) > 1:
                a, b = r.sample(P.paths, 2)
                steps += [fmt(), dict(k="swap", path=P.base + "/" + a, to=P.base + "/" + b), chk()]
        else:
            a, fx = defect(r, P)
            steps += a + [chk()] + fx + [chk()]
    steps.append(chk())
    return dict(tree=tree, steps=dts(r, steps))


def gen_T09(r):
    P = project(r, cfg=dict(nfiles=r.range(2, 7), p_circular=r.pick([0.0, 0.3, 0.7]), dirs=r.pick(["flat", "deep", "deep", "same", "twins", "twins"])))
    P.p_odd, P.hopped, P.mirrored, P.fresh = r.pick([0.2, 0.6, 0.9]), False, False, 0
    P.texts = render(P, P.v, P.seed)
    for p, t in P.texts.items():
        P.tree[p]["f"] = t
    tree, steps = P.tree, []
    s = gen_step(r, P, tree, want=r.weighted([("both", 4), ("rust", 1), ("ts", 1), ("none", 1)]), list=1)
    steps.append(again(r, s))
    for _ in range(r.range(0, 3)):
        f = P.base + "/" + r.pick(P.paths)
        k = r.weighted([("evolve", 4), ("clash", 4), ("same", 2), ("self", 1), ("twice", 2), ("unreachable", 3), ("new", 3), ("relink", 3), ("drop", 2), ("swap", 2), ("entrylink", 2), ("spelling", 3), ("sub", 2), ("chain", 1), ("hop", 2), ("mirror", 3), ("hard", 2)])
        t = P.texts[f]
        if k == "evolve":
            steps += evolve(r, P)
        elif k == "hard":
            # One file under two names: two schemas, and what they import is another file for each.
            d = f.rpartition("/")[0]
            n = r.pick(["hard/one/u.t", "hard_one/u.t"])
            q = n.replace("one", "two") if r.chance(0.7) else n.replace("u.t", "v.t")
            deep = r.chance(0.6) and q.endswith("/u.t")
            steps.append(dict(k="write", path=d + "/" + n, f="import 'w.t'\n\nstruct One {\n    a: w.Wide = 0\n}\n" if deep else "struct One {\n    a: U64 = 0\n}\n"))
            steps.append(dict(k="hard", path=d + "/" + q, to=d + "/" + n))
            if deep:
                for i, x in enumerate((n, q)):
                    steps.append(dict(k="write", path=d + "/" + x.replace("u.t", "w.t"), f="struct Wide {\n    %s: U64 = 0\n}\n" % "ab"[i]))
            g = t
            for i, x in enumerate((n, q)):
                g = with_import(g, "import '%s' as hard_%d" % (x, 2 * P.fresh + i))
            P.fresh += 1
            P.texts[f] = g
            steps.append(dict(k="write", path=f, f=g))
        elif k == "mirror":
            if not P.mirrored:
                P.mirrored = True
                steps += mirror(r, P, f)
        elif k == "hop":
            if not P.hopped:
                P.hopped = True
                steps += hop(r, P, f)
        elif k == "spelling":
            P.seed = r.u64()
            new = render(P, P.v, P.seed)
            steps += [dict(k="write", path=p, f=x) for p, x in sorted(new.items()) if x != P.texts[p]]
            P.texts = new
        elif k == "clash":
            d = f.rpartition("/")[0]
            a, b = r.pick([("foo_bar.t", "fooBar.t"), ("foo_bar.t", "FooBar.t"), ("zed.t", "zed.typ"), ("zed.t", "zed"), ("k9.t", "K9.t"), ("dd/u.t", "Dd/u.t"), ("dd/u.t", "dd/u.x"), ("x_y/u.t", "xY/u.t")])
            if r.chance(0.25):
                a, b = r.pick([("foo_bar.t", "foobaz.t"), ("dd/u.t", "ee/u.t"), ("zed.t", "zed/zed.t"), ("ab/c.t", "a/bc.t"), ("u.t", "dd/u.t")])
            steps += [dict(k="write", path=d + "/" + a, f="struct One {\n    a: U64 = 0\n}\n"), dict(k="write", path=d + "/" + b, f=r.pick(["struct Two {\n    b: S64 = 0\n}\n", "struct One {\n    a: U64 = 0\n}\n", "struct One {\n    a: U64 = 0\n}", ""]))]
            g = with_import(t, "import '%s' as clash_one" % a)
            if r.chance(0.7):
                g = with_import(g, "import '%s' as clash_two" % b)
            P.texts[f] = g
            steps.append(dict(k="write", path=f, f=g))
        elif k in ("same", "twice"):
            j = r.below(len(P.paths))
            i = P.paths.index(f[len(P.base) + 1:])
            P.fresh += 1
            g = with_import(t, "import '%s' as again_%d" % (spell(r, P, i, j)[0], 2000 * P.fresh + r.below(1000)))
            if k == "twice":
                g = with_import(g, "import '%s' as again_%d" % (spell(r, P, i, j)[0], 2000 * P.fresh + 1000 + r.below(1000)))
            P.texts[f] = g
            steps.append(dict(k="write", path=f, f=g))
        elif k == "self":
            P.texts[f] = with_import(t, "import '%s' as myself" % f.rpartition("/")[2])
            steps.append(dict(k="write", path=f, f=P.texts[f]))
        elif k == "unreachable":
            steps.append(dict(k="write", path=f.rpartition("/")[0] + "/" + r.pick(["stray.t", "aaa.t", "zzz.t", "mod.t"]), f=r.pick(["struct Stray {}\n", "struct {", "import 'nothing.t'\n", "\udcff"])))
        elif k == "new":
            P.fresh += 1
            n = "fresh%d" % (100 * P.fresh + r.below(100))
            q = f.rpartition("/")[0] + "/" + r.pick(["", "newdir/"]) + n + ".t"
            steps.append(dict(k="write", path=q, f="choice Fresh%d {\n    a: U64 = 0\n    optional b: String = 1\n}\n" % r.below(9), t=r.pick([1, 1700000000])))
            P.texts[f] = with_import(t, "import '%s'" % (q[len(f.rpartition("/")[0]) + 1:]))
            steps.append(dict(k="write", path=f, f=P.texts[f], **({"keep": 1} if r.chance(0.4) else {})))
            if r.chance(0.5):
                steps.append(again(r, s))
                steps.append(dict(k="write", path=q, f="choice Fresh%d {\n    a: U64 = 0\n    optional c: String = 1\n}\n" % r.below(9), keep=1))
        elif k == "relink":
            # A directory reached through a link is switched to another one with other contents.
            d = f.rpartition("/")[0]
            steps += [dict(k="write", path=d + "/va/lib.t", f="struct Lib {\n    a: U64 = 0\n}\n"), dict(k="write", path=d + "/vb/lib.t", f="struct Lib {\n    b: S64 = 0\n}\n"),
                      dict(k="link", path=d + "/current", to="va")]
            P.texts[f] = with_import(t, "import 'current/lib.t' as lib_now")
            steps += [dict(k="write", path=f, f=P.texts[f]), again(r, s), dict(k="link", path=d + "/current", to="vb")]
            if r.chance(0.3):
                P.texts[f] = with_import(P.texts[f], "import 'va/lib.t' as lib_a")
                steps.append(dict(k="write", path=f, f=P.texts[f]))
        elif k == "drop":
            # A file loses its imports (and the types that need them).
            f = P.base + "/" + P.paths[0]
            if not any("import" in l and "main" in l for q, x in P.texts.items() if q != f for l in x.split("\n")):
                P.texts[f] = "struct Alone%d {\n    a: U64 = 0\n}\n" % r.below(100)
                steps.append(dict(k="write", path=f, f=P.texts[f]))
        elif k == "swap":
            if len(P.paths) > 1:
                a, b = r.sample(P.paths, 2)
                steps.append(dict(k="swap", path=P.base + "/" + a, to=P.base + "/" + b))
        elif k == "entrylink":
            # The entry is a link into another directory.
            l = r.pick(["/links/entry.t", P.base + "/linked.t", "/entry.t"])
            steps.append(dict(k="link", path=l, to=r.pick([MARK + P.base + "/" + P.paths[0], "../" * (l.count("/") - 1) + P.base[1:] + "/" + P.paths[0]])))
            if r.chance(0.5):
                for p in P.paths[1:]:
                    steps.append(dict(k="write", path=l.rpartition("/")[0] + "/" + p, f=P.texts[P.base + "/" + p]))
            steps.append(again(r, s, entry=MARK + l))
        elif k == "sub":
            # Another file as the entry.
            e, cwd = entry(r, P, r.pick(P.paths), 0.5)
            o = again(r, s, entry=e, cwd=cwd)
            for x in ("rust", "ts"):
                if o[x] and not o[x].startswith(MARK):
                    o[x] = MARK + "/sub/" + o[x].rpartition("/")[2]
            steps.append(o)
        else:
            d = f.rpartition("/")[0]
            n = r.range(5, 30)
            if r.chance(0.4):
                # Every file imports both files of the next level: 2^n paths lead to the last one.
                for i in range(n):
                    for j in "ab":
                        imp = "".join("import 'c%d%s.t'\n" % (i + 1, q) for q in "ab") if i + 1 < n else ""
                        use = "".join("    %s: c%d%s.C = %d\n" % (q, i + 1, q, x) for x, q in enumerate("ab")) if i + 1 < n else ""
                        steps.append(dict(k="write", path=d + "/chain/c%d%s.t" % (i, j), f=imp + "\nstruct C {\n" + use + "}\n"))
                steps.append(dict(k="write", path=d + "/chain/c0.t", f="import 'c0a.t'\nimport 'c0b.t'\n\nstruct C0 {\n    a: c0a.C = 0\n    b: c0b.C = 1\n}\n"))
                n = 0
            for i in range(n):
                steps.append(dict(k="write", path=d + "/chain/c%d.t" % i, f=("import 'c%d.t'\n\n" % ((i + 1) % n)) + "struct C%d {\n    a: U64 = 0\n}\n" % i))
            P.texts[f] = with_import(t, "import 'chain/c0.t' as chain_start")
            steps.append(dict(k="write", path=f, f=P.texts[f]))
        steps.append(again(r, s, faults=benign(r) if r.chance(0.1) else []))
    return dict(tree=tree, steps=dts(r, steps))


def gen_T10(r):
    P = project(r, cfg=dict(nfiles=r.range(1, 4)))
    P.base = r.pick(["/proj/schemas", "/a/b/c", "/proj/v1.2/types", "/work dir/sch"])
    P.tree = {}
    P.links(P.tree)
    P.texts = render(P, P.v, P.seed)
    for p, t in P.texts.items():
        P.tree[p] = {"f": t}
    tree, steps = P.tree, []
    par, _, bn = P.base.rpartition("/")
    out = "struct Outside {\n    secret: U64 = 0\n}\n"
    places = [par + "/" + bn + "2/x.t", par + "/x.t", par + "/" + bn + "x.t", "/outside/x.t", "/outside/deep/x.t", par + "/" + bn + "-old/x.t", par + "/other/x.t", "/x.t"]
    for p in places:
        tree[p] = {"f": out}
    for p in P.paths:
        tree[par + "/" + bn + "2/" + p] = {"f": "struct Decoy {\n    decoy: U64 = 0\n}\n"}
    if r.chance(0.6):
        # What is left of a path outside, when something is cut off it, names a file inside as well.
        for p in places:
            q = p[len(P.base):] if p.startswith(P.base) else p
            q = q.strip("/").split("/")
            for n in range(len(q)):
                tree.setdefault(P.base + "/" + "/".join(q[n:]), {"f": "struct Decoy {\n    decoy: U64 = 0\n}\n"})
    s = gen_step(r, P, tree, want=r.weighted([("both", 4), ("rust", 1), ("ts", 1)]))
    steps.append(again(r, s))
    for _ in range(r.range(1, 3)):
        i = r.below(len(P.paths))
        f = P.base + "/" + P.paths[i]
        t = P.texts[f]
        d = f.rpartition("/")[0]
        up = "../" * P.paths[i].count("/")
        bdepth = P.base.count("/")
        k = r.weighted([("parent", 3), ("abs", 2), ("filelink", 2), ("dirlink", 3), ("prefix", 3), ("through", 3), ("relink", 4), ("chain", 2), ("back", 4), ("updir", 2), ("linkback", 3), ("lexical", 3)])
        al = "esc%d" % r.below(10000)
        pre, imp, post = [], None, []
        tgt = r.pick(places)
        if k == "parent":
            imp = up + "../" * bdepth + tgt[1:] if r.chance(0.6) else up + "../x.t"
        elif k == "abs":
            imp = MARK + tgt
        elif k == "filelink":
            pre = [dict(k="link", path=d + "/in.t", to=r.pick([MARK + tgt, "../" * d.count("/") + tgt[1:]]))]
            imp = "in.t"
        elif k == "dirlink":
            pre = [dict(k="link", path=d + "/ind", to=r.pick([MARK + tgt.rpartition("/")[0], "../" * d.count("/") + (tgt.rpartition("/")[0][1:] or ".")]))]
            imp = "ind/x.t"
        elif k == "prefix":
            imp = up + "../" + bn + r.pick(["2/x.t", "x.t", "-old/x.t"])
        elif k == "through":
            # A link leads out, and `..` is taken physically from there.
            pre = [dict(k="link", path=d + "/ind", to=MARK + "/outside/deep")]
            imp = r.pick(["ind/../x.t", "./ind/../x.t", "ind/../deep/x.t"])
        elif k == "lexical":
            # Lexically it would leave the base, physically it does not (or the other way round).
            pre = [dict(k="mkdir", path=P.base + "/p/q/r"), dict(k="write", path=P.base + "/p/q/x.t", f="struct Inside {\n    a: U64 = 0\n}\n"), dict(k="link", path=P.base + "/short", to="p/q/r")]
            imp = up + r.pick(["short/../x.t", "short/../../q/x.t", "short/../../../" + P.paths[0], "short/../../../../x.t"])
        elif k == "chain":
            pre = [dict(k="link", path=d + "/l1", to="l2"), dict(k="link", path=d + "/l2", to=MARK + "/hop"), dict(k="link", path="/hop", to=r.pick(["outside", P.base[1:]]))]
            imp = r.pick(["l1/x.t", "l1/" + P.paths[0]])
        elif k == "back":
            j = r.below(len(P.paths))
            P2 = P.p_odd
            P.p_odd = 1.0
            imp = spell(r, P, i, j)[0]
            P.p_odd = P2
        elif k == "updir":
            imp = r.pick([up + "..", up + ".", "/", up + "../" + bn])
        elif k == "linkback":
            pre = [dict(k="link", path="/ext/into", to=MARK + P.base)]
            imp = MARK + r.pick(["/ext/into/" + P.paths[0], "/ext/into/../x.t", "/ext/../ext/into/" + P.paths[0]])
        else:
            pre = [dict(k="write", path=P.base + "/libs/x.t", f="struct Inside {\n    a: U64 = 0\n}\n"), dict(k="link", path=d + "/cur", to=MARK + P.base + "/libs")]
            imp = "cur/x.t"
            post = [again(r, s), dict(k="link", path=d + "/cur", to=MARK + r.pick(["/outside", par + "/" + bn + "2", par]))]
            if r.chance(0.4):
                post += [again(r, s), dict(k="link", path=d + "/cur", to=MARK + P.base + "/libs")]
        if not imp.startswith((MARK, "/")) and r.chance(0.3):
            # The same by another spelling.
            imp = r.pick([MARK + d + "/", MARK + d + "/", "./", up + "../" * bdepth + d[1:] + "/", "../" + d.rpartition("/")[2] + "/"]) + imp
        g = with_import(t, "import '%s' as %s" % (imp, al))
        steps += pre + [dict(k="write", path=f, f=g, **({"keep": 1} if r.chance(0.3) else {}))] + post
        steps.append(again(r, s))
        if r.chance(0.25):
            steps.append(dict(k="run", cmd=r.pick(["format", "check"]), entry=s["entry"], cwd=s["cwd"], rand=1))
            if steps[-1]["cmd"] == "format":
                break
        if r.chance(0.6):
            steps += [dict(k="write", path=f, f=t), again(r, s)]
        else:
            P.texts[f] = g
    return dict(tree=tree, steps=dts(r, steps))


def sched(r):
    m = r.weighted([("uniform", 3), ("sticky", 3), ("pct", 4)])
    s = dict(mode=m, seed=r.below(1 << 30))
    if m == "sticky":
        s["p"] = r.pick([0.03, 0.1, 0.3])
    if m == "pct":
        s["depth"], s["span"] = r.range(1, 5), r.pick([40, 100, 200])
    return s


def gen_T11(r):
    P = project(r)
    tree, steps = P.tree, []
    n = r.weighted([(2, 5), (3, 3), (4, 1)])
    mode = r.weighted([("disjoint", 5), ("same", 3), ("mixed", 2), ("format", 2)])
    base = gen_step(r, P, tree, want="both")
    if mode == "disjoint" and r.chance(0.3):
        messy(r, P)
    runs = []
    shared = r.pick(["/o", "/deep/new/dir", P.base + "/gen", "/n/e/w"])
    for i in range(n):
        e, cwd = entry(r, P)
        s = again(r, base, entry=e, cwd=cwd)
        if mode in ("disjoint", "mixed"):
            d = shared if r.chance(0.6) else shared + "/sub%d" % r.below(2)
            s["rust"], s["ts"] = MARK + d + "/r%d.rs" % i, MARK + d + "/t%d.ts" % i
            o = r.pick(["both", "rust", "ts"])
            if o != "both":
                s["ts" if o == "rust" else "rust"] = None
            if mode == "mixed" and r.chance(0.5):
                s["rust"] = MARK + shared + "/same.rs"
        else:
            for o in ("rust", "ts"):
                if s.get(o) and not s[o].startswith(MARK):
                    s[o] = MARK + base["cwd"].rstrip("/") + "/" + (s[o][2:] if s[o].startswith("./") else s[o])
        if r.chance(0.3):
            s["list"] = 1
        if mode == "disjoint" and r.chance(0.2):
            s = dict(k="run", cmd="check", entry=e, cwd=cwd, rand=r.below(1 << 30))
        if mode == "format" and (i == 0 or r.chance(0.5)):
            s = dict(k="run", cmd=r.pick(["format", "format", "check"]) if i else "format", entry=e, cwd=cwd, rand=r.below(1 << 30))
        if r.chance(0.15):
            s["faults"] = [f for f in benign(r) if f["act"] != "short" or f["op"] == "READ"]
        elif mode == "same" and r.chance(0.25) and s["cmd"] == "generate":
            s["faults"] = kill(r, P)
        runs.append(s)
    if mode == "format":
        messy(r, P)
        # A format run killed in the middle is T06; here everyone finishes.
        steps.append(dict(k="mark", entry=base["entry"], cwd=base["cwd"]))
    steps.append(dict(k="par", runs=runs, sched=sched(r)))
    if mode == "format":
        steps.append(dict(k="run", cmd="format", entry=base["entry"], cwd=base["cwd"], rand=1))
    for s in runs:
        if s["cmd"] == "generate" and (mode != "disjoint" or r.chance(0.2)):
            steps.append(again(r, s))
    return dict(tree=tree, steps=steps)


ODDCHARS = ["\u00b2\u0663\u2167\u00bd\u09ea\u0967\U0001d7d8\uff11\u4e09", "\u00df\u0130\u0131\ufb01\u01c5\u0345\u0301\U00010400\u1e9e\u03c2\u02bc\u2118",
            "\u200d\u200b\u2060\u00ad\u202e\u2028\u2029\u0085\u00a0\u3000\u180e\ufeff\x0b\x0c\x1b", "\u2018\u2019\uff07\uff3f\u203f\u00b7\U0001f600\U000e0100\ufffd\x00\x7f", "9_$Zz"]


def damage(r, t):
    b = bytearray(t.encode("utf8", "surrogateescape"))
    for _ in range(r.weighted([(1, 5), (2, 3), (3, 1)])):
        n = len(b)
        k = r.weighted([("char", 6), ("cut", 3), ("zerotail", 3), ("zeroblock", 2), ("flip", 4), ("dupblock", 3), ("dropblock", 3), ("splice", 2), ("insert", 4), ("swap", 2), ("crlf", 1), ("bom", 1), ("utf8", 1), ("nest", 1), ("empty", 1), ("grow", 2), ("conflict", 2), ("swapfile", 1), ("token", 6)])
        i = r.below(n + 1)
        j = min(n, i + r.weighted([(r.below(4), 3), (r.below(40), 3), (r.below(600), 1)]))
        if k == "cut":
            del b[i:]
        elif k == "zerotail":
            b[i:] = b"\0" * (n - i)
        elif k == "zeroblock":
            b[i:j] = b"\0" * (j - i)
        elif k == "flip" and n:
            for _ in range(r.range(1, 3)):
                b[r.below(n)] ^= 1 << r.below(8)
        elif k == "dupblock":
            b[i:i] = b[i:j] * r.pick([1, 1, 2, 20])
        elif k == "dropblock":
            del b[i:j]
        elif k == "splice":
            b[i:] = b[r.below(n + 1):]
        elif k == "insert":
            b[i:i] = r.pick([b"#", b"'", b"{", b"}", b"[", b"]", b"$", b"_", b"=", b":", b".", b"\n", b"\r", b"\t", b" ", b"import '", b"import", b"deleted", b"struct", b"choice", b"18446744073709551615", b"18446744073709551616", b"9223372036854775807", b"optional", b"asymmetric", b"\xc3", b"\xe2\x80\xa8", b"\xef\xbb\xbf", b"as", b"import ''", b"import '.'", b"import '/'", b"import '..'", b"import '\n'", b"deleted 0 1 2 3", b"$$", b"$ ", b"0", b"# "])
        elif k == "swap" and n > 1:
            x, y = r.below(n), r.below(n)
            b[x], b[y] = b[y], b[x]
        elif k == "crlf":
            b = bytearray(bytes(b).replace(b"\n", b"\r\n" if r.chance(0.7) else b"\r"))
        elif k == "bom":
            b[0:0] = r.pick([b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff"])
        elif k == "utf8":
            b[i:i] = r.pick([b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\x80"])
        elif k == "nest":
            pre, c, m = r.pick([b"struct Nest { x: ", b"\n"]), r.pick([b"[", b"{", b"'", b"#", b"$", b"a.", b"]"]), r.pick([10, 200, 3000, 20000])
            if c == b"$":
                m = min(m, 5000)  # each is an error of its own that quotes the line: KF14
            b += pre + c * m + r.pick([b"", b"import ", b"struct ", b"deleted "]) * r.pick([1, 20, 200])
        elif k == "empty":
            b = bytearray()
        elif k == "grow":
            b += bytes(b) * r.pick([1, 3, 10]) if n < 3000 else b""
        elif k == "conflict":
            b[i:i] = b"<<<<<<< HEAD\n" + bytes(b[i:j]) + b"=======\n>>>>>>> branch\n"
        elif k == "swapfile":
            b = bytearray(b"b0VIM 8.2\0\0\0\0\x10\0\0" + b"\0" * r.pick([100, 4000]))
        elif k == "char":
            # A character that is a digit, letter, blank, quote or nothing depending on whom one asks.
            x = r.pick(r.pick(ODDCHARS))
            at = [m.start() for m in re.finditer(r.pick([rb"[0-9]", rb"(?<![0-9])[0-9]", rb"[A-Za-z]", rb"(?<![A-Za-z_])[A-Za-z]", rb"['#$:={}\[\].]", rb"[ \n]"]), bytes(b))]
            if at:
                i = r.pick(at) + r.below(2)
                b[i:i + r.below(2)] = x.encode() * r.pick([1, 1, 1, 2, 40])
        elif k == "token":
            ws = bytes(b).split(b" ")
            x = r.below(len(ws))
            y = r.below(len(ws))
            q = r.below(3)
            if q == 0:
                ws[x], ws[y] = ws[y], ws[x]
            elif q == 1:
                ws[x:x] = [ws[y]]
            else:
                del ws[x]
            b = bytearray(b" ".join(ws))
    return bytes(b).decode("utf8", "surrogateescape")


BIG = [("chain", [500, 8000, 20000]), ("lattice", [30, 60, 500]), ("lattice", [40, 60, 2000]), ("word", [1000, 99990, 100001, 1000000]), ("word", [900000, 2000000]), ("words", [1000, 100000, 400000]),
       ("gaps", [500, 4000]), ("far", [300, 5000]), ("fields", [500, 5000]), ("name", [1000, 100000]), ("blank", [1000, 100000]), ("path", [1000, 10000])]


def gen_T12(r):
    P = project(r)
    tree, steps = P.tree, []
    s = gen_step(r, P, tree)
    if r.chance(0.012):
        # Something enormous: recursion, quadratic output and lost memoisation show only then.
        x = again(r, s, rust=None, ts=None, list=1, damaged=1) if r.chance(0.7) else dict(k="run", cmd=r.pick(["format", "check"]), entry=s["entry"], cwd=s["cwd"], rand=r.below(1 << 30), damaged=1)
        f = P.base + "/" + r.pick(P.paths)
        kind, sizes = r.pick(BIG)
        pre = P.texts[f] + "\n"
        if kind == "path":
            pre = ""
        return dict(tree=tree, steps=[dict(k="write", path=f, f=pre, big=[kind, r.pick(sizes)], damaged=1), x, dict(k="write", path=f, f=P.texts[f]), again(r, s)])
    if r.chance(0.3):
        messy(r, P, NASTY)
    if r.chance(0.3):
        steps.append(again(r, s))
    for _ in range(r.range(1, 3)):
        f = P.base + "/" + r.pick(P.paths)
        old = P.texts[f]
        steps.append(dict(k="write", path=f, f=damage(r, old), damaged=1))
        for _ in range(r.range(1, 3)):
            c = r.weighted([("generate", 5), ("check", 2), ("format", 2)])
            x = again(r, s) if c == "generate" else dict(k="run", cmd=c, entry=s["entry"], cwd=s["cwd"], rand=r.below(1 << 30))
            if r.chance(0.1):
                x["faults"] = benign(r)
            x["damaged"] = 1
            steps.append(x)
            if c == "format":
                break
        if c == "format":
            steps += [dict(k="write", path=p, f=t) for p, t in sorted(P.texts.items())]
        else:
            steps.append(dict(k="write", path=f, f=old))
        steps.append(again(r, s))
    return dict(tree=tree, steps=dts(r, steps))


def gen_T13(r):
    P = project(r, cfg=dict(nfiles=r.range(1, 4)))
    P.p_bad = 0.15
    tree, steps = P.tree, []
    s = gen_step(r, P, tree, want=r.weighted([("both", 6), ("rust", 1), ("ts", 1)]))
    if r.chance(0.4):
        steps.append(again(r, s))
    for _ in range(r.range(1, 3)):
        n = 14 + 8 * len(P.paths)
        check = dict(k="run", cmd="check", entry=s["entry"], cwd=s["cwd"], rand=r.below(1 << 30))
        x = again(r, s) if r.chance(0.7) else check
        if r.chance(0.3) and x["cmd"] == "generate":
            x["list"] = 1
        if r.chance(0.15):
            x["faults"] = benign(r)
        edits = []
        tidy = x is check and r.chance(0.6)
        if tidy:
            # Every version is formatted, save perhaps one.
            steps.append(dict(check, cmd="format"))
        for _ in range(r.weighted([(1, 5), (2, 4), (3, 1)])):
            k = "append" if tidy and r.chance(0.9) else r.weighted([("evolve", 5), ("layout", 3), ("defect", 3), ("rm", 2), ("revert", 2), ("new", 2), ("import", 2)])
            i = r.below(len(P.paths))
            f = P.base + "/" + P.paths[i]
            t = P.texts[f]
            at = r.below(n)
            if k == "evolve":
                # A new version of the project arrives file by file.
                for w in evolve(r, P):
                    edits.append(dict(at=at, path=w["path"], f=w["f"]))
                    at += r.below(4)
            elif k == "append":
                edits.append(dict(at=at, path=f, append="\nstruct %s%d {%s}\n" % (r.pick(["Added", "added"]), r.below(10000), r.weighted([("\n    a: U64 = 0\n", 6), ("", 1), ("\n  a: U64 = 0\n", 1)]))))
            elif k == "layout":
                edits.append(dict(at=at, path=f, f=unformat(r, t)))
            elif k == "defect":
                a, b = defect(r, P, f)
                w = [y for y in a if y["k"] == "write" and y["path"] == f and "f" in y]
                if w:
                    edits.append(dict(at=at, path=f, f=w[-1]["f"]))
                    # A syntax error only counts as one when it is registered as such.
                    edits[-1]["bad"] = w[-1].get("bad")
            elif k == "rm":
                edits.append(dict(at=at, path=f, f=None))
            elif k == "revert":
                edits += [dict(at=at, path=f, f=None if r.chance(0.5) else unformat(r, t)), dict(at=at + r.below(12), path=f, f=t)]
            elif k == "new":
                d = f.rpartition("/")[0]
                edits += [dict(at=at, path=d + "/brand_new.t", f="struct Fresh {\n    a: U64 = 0\n}\n"), dict(at=at + r.below(6), path=f, f=with_import(t, "import 'brand_new.t' as fresh%d" % r.below(100)))]
            else:
                j = r.below(len(P.paths))
                edits.append(dict(at=at, path=f, f=with_import(t, "import '%s' as again%d" % (relpath(P.paths[i].split("/")[:-1], P.paths[j].split("/")), r.below(100)))))
        steps.append(dict(k="overlap", run=x, edits=edits))
        steps += [dict(k="write", path=p, f=t) for p, t in sorted(P.texts.items())]
        steps.append(again(r, s))
    return dict(tree=tree, steps=dts(r, steps))
