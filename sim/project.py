"""The reference model of a project on disk: trees, path resolution, import closure, generated declarations. Independent of the tool."""
import os, re

MARK = "@ROOT@"
BMARK = b"@ROOT@"


# ---- trees -------------------------------------------------------------------------------------------------
# A tree maps absolute machine paths ("/proj/a.t") to ("f", bytes, mode), ("l", target) or ("d", mode). In contents and link targets the
# real directory that stands for the root of the machine is written @ROOT@.

def snap(root):
    t = {}
    stack = [""]
    while stack:
        d = stack.pop()
        with os.scandir(root + d if d else root) as it:
            for e in it:
                p = d + "/" + e.name
                if e.is_symlink():
                    t[p] = ("l", os.readlink(root + p).replace(root, MARK))
                elif e.is_dir(follow_symlinks=False):
                    t[p] = ("d", e.stat(follow_symlinks=False).st_mode & 0o7777)
                    stack.append(p)
                elif e.is_file(follow_symlinks=False):
                    with open(root + p, "rb") as f:
                        t[p] = ("f", f.read().replace(root.encode(), BMARK), e.stat(follow_symlinks=False).st_mode & 0o7777)
                else:
                    t[p] = ("x",)
    return t


def diff(a, b):
    """{path: (before, after)} of everything that differs."""
    return {p: (a.get(p), b.get(p)) for p in a.keys() | b.keys() if a.get(p) != b.get(p)}


class Bad(Exception):
    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


def resolve(t, path, leaf=True, missing_ok=False):
    """Physical resolution of an absolute machine path. With leaf=False the last component is not followed; with missing_ok the last
    component may be absent. Raises Bad(missing|loop|notdir)."""
    todo = [c for c in path.split("/") if c and c != "."]
    if path.rstrip("/").endswith("/.") or path.endswith("/"):
        todo.append(".")
    cur, links = "", 0
    while todo:
        c = todo.pop(0)
        node = ("d",) if cur == "" else t.get(cur)
        if node is None:
            raise Bad("missing")
        if node[0] != "d":
            raise Bad("notdir")
        if c == ".":
            continue
        if c == "..":
            if not cur:
                # Out of the machine, where nothing of interest exists.
                raise Bad("missing")
            cur = cur.rsplit("/", 1)[0]
            continue
        nxt = cur + "/" + c
        n = t.get(nxt)
        if n is None:
            if todo or not missing_ok:
                raise Bad("missing")
            return nxt
        if n[0] == "l" and (todo or leaf):
            links += 1
            if links > 38:
                raise Bad("loop")
            tgt = n[1]
            if tgt.startswith(MARK):
                cur, tgt = "", tgt[len(MARK):]
            elif tgt.startswith("/"):
                raise Bad("missing")
            todo = [x for x in tgt.split("/") if x and x != "."] + todo
            continue
        cur = nxt
    return cur or "/"


def join(d, p):
    return p if p.startswith("/") else (d.rstrip("/") + "/" + p)


def unroot(p):
    """A path as the user spells it -> machine path."""
    return p[len(MARK):] or "/" if p.startswith(MARK) else p


# ---- imports -----------------------------------------------------------------------------------------------

IMPORT = re.compile(r"^[ \t\r]*import[ \t]*'([^']*)'(?:[ \t]*as[ \t]+\$?(\w+))?", re.M)
DECL = re.compile(r"^[ \t\r]*(struct|choice)[ \t]+\$?(\w+)[ \t]*\{", re.M)


def text_of(b):
    return b.decode("utf8", "surrogateescape")


def imports_of(b):
    """[(spelled path, alias or None)]"""
    return [(m.group(1), m.group(2)) for m in IMPORT.finditer(text_of(b))]


def words(s):
    """The words of a name: what makes two names the same."""
    out = [""]
    for ch in s:
        if ch in "_-":
            out.append("")
        elif ch.isupper():
            out.append(ch)
        else:
            out[-1] += ch
    return tuple(w.lower() for w in out if w)


def flat(s):
    return "".join(words(s))


def stem(f):
    return f[:f.rfind(".")] if f.rfind(".") > 0 else f


def namespace(rel, how=flat):
    d, _, f = rel.rpartition("/")
    return tuple(how(x) for x in ((d + "/" if d else "") + stem(f)).split("/"))


class Closure:
    """files: based path -> canonical path; problems: [(kind, importing file, spelled)]; edges: (file, spelled) -> based path."""

    def __init__(self):
        self.files, self.problems, self.edges, self.base, self.entry = {}, [], {}, None, None

    def ok(self):
        return not self.problems


def closure(t, entry, bad=()):
    """The model of a run on machine path `entry` (already absolute). `bad` holds canonical paths of files that are invalid."""
    c = Closure()
    d, _, name = entry.rstrip("/").rpartition("/")
    try:
        real = resolve(t, entry)
        c.base = resolve(t, d or "/")
        if t.get(real, ("d",))[0] != "f":
            raise Bad("notfile")
    except Bad as e:
        c.problems.append((e.why, None, entry))
        return c
    c.entry = name
    todo = [name]
    c.files[name] = real
    b = c.base.rstrip("/")
    while todo:
        rel = todo.pop()
        can = c.files[rel]
        node = t.get(can)
        if node is None or node[0] != "f":
            c.problems.append(("notfile", rel, can))
            continue
        if can in bad:
            c.problems.append(("bad", rel, can))
            continue
        here = (b + "/" + rel).rpartition("/")[0]
        for sp, _ in imports_of(node[1]):
            try:
                q = resolve(t, join(here, unroot(sp)))
            except Bad as e:
                c.problems.append((e.why, rel, sp))
                continue
            if q != c.base and not q.startswith(b + "/"):
                c.problems.append(("escape", rel, sp))
                continue
            r = q[len(b) + 1:]
            c.edges[(rel, sp)] = r
            if r not in c.files:
                c.files[r] = q
                todo.append(r)
    seen = {}
    for r in sorted(c.files):
        k = namespace(r, words)
        if k in seen:
            c.problems.append(("clash", seen[k], r))
        seen[k] = r
    return c


def canonical_text(c, rel, b):
    """The same schema with every import spelled canonically."""
    here = rel.split("/")[:-1]

    def sub(m):
        sp, al = m.group(1), m.group(2)
        to = c.edges[(rel, sp)].split("/")
        i = 0
        while i < len(here) and i < len(to) - 1 and here[i] == to[i]:
            i += 1
        p = "../" * (len(here) - i) + "/".join(to[i:])
        old = stem(sp.rstrip("/").rpartition("/")[2])
        if al is None and words(old) != words(stem(to[-1])):
            al = old
        return "import '%s'%s" % (p, " as $" + al if al else "")
    return IMPORT.sub(sub, text_of(b)).encode("utf8", "surrogateescape")


TOKEN = re.compile(r"#[^\n]*|'[^']*'|\$?\w+|[^\s\w]")


def parse(b):
    """Everything a schema says, apart from its comments: (imports, [(kind, name, [(rule, name, type, index)], {deleted})])
    with names and types as spelled; None where that is not clear."""
    ts = [t for t in TOKEN.findall(text_of(b)) if t[0] != "#"]
    n, out, i = 0, [], 0
    try:
        while i < len(ts):
            if ts[i] == "import":
                n += 1
                i += 4 if ts[i + 2:i + 3] == ["as"] else 2
                continue
            kind, name, i = ts[i], ts[i + 1], i + 3
            if kind not in ("struct", "choice") or ts[i - 1] != "{":
                return None
            fields, dele = [], set()
            while ts[i] != "}":
                if ts[i] == "deleted":
                    i += 1
                    while ts[i].isdigit():
                        dele.add(int(ts[i]))
                        i += 1
                    continue
                rule, ty = "required", ["Unit"]
                if ts[i] in ("optional", "asymmetric"):
                    rule, i = ts[i], i + 1
                f, i = ts[i], i + 1
                if ts[i] == ":":
                    j = ts.index("=", i)
                    ty, i = ts[i + 1:j], j
                if ts[i] != "=":
                    return None
                fields.append((rule, f, tuple(ty), int(ts[i + 1])))
                i += 2
            i += 1
            out.append((kind, name, fields, dele))
    except (IndexError, ValueError):
        return None
    return n, out


def meaning(b):
    """The same for comparison: names by their words."""
    x = parse(b)
    name = lambda t: words(t.lstrip("$"))
    return x and (x[0], [(k, name(n), [(r, name(f), tuple(t if t in PRIMITIVE or not re.match(r"[$\w]", t) else name(t) for t in ty), i) for r, f, ty, i in fs], d)
                         for k, n, fs, d in x[1]])


def declarations(b):
    x = parse(b)
    return [flat(d[1].lstrip("$")) for d in x[1]] if x else [flat(m.group(2)) for m in DECL.finditer(text_of(b))]


PRIMITIVE = {"Bool", "Bytes", "F64", "S64", "String", "U64", "Unit"}


def references(c, rel, b):
    """{type: {(namespace, type it refers to)}} of one file of closure c, or None where names are too close to tell."""
    x = parse(b)
    if x is None:
        return None
    alias, ns = {}, namespace(rel)
    for sp, al in imports_of(b):
        k = flat(al or stem(sp.rstrip("/").rpartition("/")[2]))
        if (rel, sp) not in c.edges or k in alias:
            return None
        alias[k] = namespace(c.edges[(rel, sp)])
    out = {}
    for kind, name, fields, _ in x[1]:
        refs = set()
        for _, _, ty, _ in fields:
            ty = [t for t in ty if t not in "[]"]
            if len(ty) == 1:
                if ty[0] not in PRIMITIVE:
                    refs.add((ns, flat(ty[0].lstrip("$"))))
            elif len(ty) == 3 and ty[1] == ".":
                k = flat(ty[0].lstrip("$"))
                if k not in alias:
                    return None
                refs.add((alias[k], flat(ty[2].lstrip("$"))))
            else:
                return None
        name = flat(name.lstrip("$"))
        if name in out:
            return None
        out[name] = refs
    return out


# ---- scanning generated code -------------------------------------------------------------------------------

RS_MOD = re.compile(r"^(\s*)pub mod (?:r#)?(.+) \{")
RS_TYPE = re.compile(r"^(\s*)pub (?:struct|enum) (?:r#)?(\w+?)(In|Out)\b")
TS_NS = re.compile(r"^(\s*)export namespace (.+) \{")
TS_TYPE = re.compile(r"^(\s*)export type (\w+?)(In|Out)\b")


def scan(text, mod, typ):
    """Set of (namespace path, flattened type name, In|Out) declared in generated code, by indentation."""
    out, stack = set(), []
    for line in text.split("\n"):
        m = mod.match(line)
        if m:
            n = len(m.group(1))
            while stack and stack[-1][0] >= n:
                stack.pop()
            stack.append((n, flat(m.group(2))))
            continue
        m = typ.match(line)
        if m:
            n = len(m.group(1))
            while stack and stack[-1][0] >= n:
                stack.pop()
            out.add((tuple(x for _, x in stack), flat(m.group(2)), m.group(3)))
    return out


def scan_rust(b):
    return scan(b.decode("utf8", "replace"), RS_MOD, RS_TYPE)


def scan_ts(b):
    return scan(b.decode("utf8", "replace"), TS_NS, TS_TYPE)


RS_REF = re.compile(r"(?<![\w:#])((?:super::)*)((?:(?:r#)?\w+::)*)(?:r#)?(\w+?)(In|Out)\b")
TS_REF = re.compile(r"(?<![\w'$.])((?:[\w$]+\.)*)(\w+?)(In|Out)(?![\w':?])")
TS_ALIAS = re.compile(r"^(?:export )?import ([\w$]+) = ([\w$.]+);", re.M)


def scan_refs(text, rust):
    """{(namespace, type, In|Out): {(namespace, type, In|Out)}}: what the declarations in generated code refer to, resolved by the rules of
    the language."""
    mod, typ = (RS_MOD, RS_TYPE) if rust else (TS_NS, TS_TYPE)
    decls, spaces = [], set()
    aliases = {} if rust else {m.group(1): [flat(x) for x in m.group(2).split(".")] for m in TS_ALIAS.finditer(text)}
    stack, cur = [], None
    for line in text.split("\n"):
        m = mod.match(line)
        if m:
            n = len(m.group(1))
            while stack and stack[-1][0] >= n:
                stack.pop()
            stack.append((n, flat(m.group(2))))
            spaces.add(tuple(x for _, x in stack))
            cur = None
            continue
        m = typ.match(line)
        if m:
            n = len(m.group(1))
            while stack and stack[-1][0] >= n:
                stack.pop()
            cur = (tuple(x for _, x in stack), flat(m.group(2)), m.group(3))
            decls.append((cur, []))
            continue
        if cur and line.strip() in ("}", "};", ""):
            cur = None
        if cur:
            if rust:
                # What follows the name of the field or of the variant.
                i, j = line.find(":"), line.find("(")
                line = line[j + 1:] if j >= 0 and (i < 0 or j < i) else line[i + 1:] if i >= 0 else ""
            decls[-1][1].append(line)
    out = {}
    for cur, lines in decls:
        refs = out.setdefault(cur, set())
        for line in lines:
            for m in (RS_REF if rust else TS_REF).finditer(line):
                if rust:
                    up, path, name, end = m.group(1).count("super::"), [x[2:] if x.startswith("r#") else x for x in m.group(2).split("::") if x], m.group(3), m.group(4)
                    if "super" in path or up > len(cur[0]):
                        continue
                    refs.add((cur[0][:len(cur[0]) - up] + tuple(map(flat, path)), flat(name), end))
                else:
                    path = [x for x in m.group(1).split(".") if x]
                    if path and path[0] in aliases:
                        refs.add((tuple(aliases[path[0]] + [flat(x) for x in path[1:]]), flat(m.group(2)), m.group(3)))
                        continue
                    path = [flat(x) for x in path]
                    at = cur[0]
                    while path and at and at + (path[0],) not in spaces:
                        at = at[:-1]
                    refs.add((at + tuple(path), flat(m.group(2)), m.group(3)))
        refs.discard(cur)
    return out


# ---- outputs -----------------------------------------------------------------------------------------------

class Target:
    """Where an output lands: canonical path, directories that have to be created, or why it cannot be written."""

    def __init__(self, path, made, why=None):
        self.path, self.made, self.why = path, made, why


def target(t, path):
    comps = [c for c in path.split("/") if c and c != "."]
    cur, made = "", []
    virtual = set()
    for c in comps[:-1]:
        if c == "..":
            cur = cur.rsplit("/", 1)[0] if cur else ""
            continue
        nxt = cur + "/" + c
        if cur in virtual or (nxt not in t):
            if nxt not in virtual:
                virtual.add(nxt)
                made.append(nxt)
            cur = nxt
            continue
        try:
            cur = resolve(t, nxt)
            cur = "" if cur == "/" else cur
        except Bad as e:
            return Target(None, made, e.why)
        if cur and t[cur][0] != "d":
            return Target(None, made, "notdir")
    last = cur + "/" + comps[-1]
    if cur in virtual or last not in t:
        return Target(last, made)
    try:
        p = resolve(t, last, True, True)
    except Bad as e:
        return Target(None, made, e.why)
    if p in t and t[p][0] != "f":
        return Target(None, made, "notfile")
    return Target(p, made)


def comment_words(b):
    out = []
    for line in re.split(r"\r?\n", text_of(b)):
        if IMPORT.match(line):
            line = IMPORT.sub("", line)
        i = line.find("#")
        if i >= 0:
            out += [w.strip() for w in line[i + 1:].split(" ") if w.strip()]
    return out
