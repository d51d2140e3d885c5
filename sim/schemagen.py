"""Seeded generation of *worlds*: chains of schema versions that differ only by README-safe changes."""
from prng import Rng

TYPICAL_KW = {"asymmetric", "as", "Bool", "Bytes", "choice", "deleted", "F64", "import", "optional",
              "S64", "String", "struct", "U64", "Unit"}
RUST_KW = set("""Self abstract as async await become box break const continue crate do dyn else enum extern false
final fn for if impl in let loop macro macro_rules match mod move mut override priv pub ref return self static
struct super trait true try type typeof union unsafe unsized use virtual where while yield""".split())
TS_KW = set("""abstract any as assert asserts async await bigint boolean break case catch class const constructor
continue debugger declare default delete do else enum export extends false finally for from function get global if
implements import in infer instanceof interface intrinsic is keyof let module namespace never new null number object
of override package private protected public readonly require return set static string super switch symbol this throw
true try type typeof undefined unique unknown var void while with yield""".split())

# Word lists. Names are lists of lowercase words; identity is the snake-case form.
PLAIN = """alpha beta gamma delta item count user name email body subject total price flag level node link part
left right first last width height color shape point line owner host port addr token value key data info state
status code kind group region zone label title note day hour minute second rate limit quota step stage phase
order invoice account balance amount currency street city country phone device serial model version release
author editor reader writer source target origin vector matrix scalar graph edge vertex path route hop""".split()
ODD = """payload atlas message index offset buffer size reader writer view sub element fallback field header varint
missing result error bytes string text number object array map set list x y z io std core vec option some none ok
err box self1 in out r f t e o k v2 a1 utf8 log2n""".split()
KWLIKE = """fn type match struct choice import as deleted optional asymmetric let mut ref async await loop move
impl trait enum use where while yield try dyn static const for if else in class function var new delete default
export extends interface namespace module get any of from unknown never null true false return break continue
switch case typeof void with package private public readonly symbol require abstract final override box do macro
mod pub unsafe virtual priv unsized become typeof extern union bigint boolean number string global keyof infer
is declare debugger finally throw catch protected instanceof implements intrinsic assert asserts unique u64 s64 f64
bool bytes unit""".split()
UNI = ["größe", "naïve", "поле", "имя", "名前", "café", "señal", "ωμέγα"]
# Names the generated code has to avoid or escape.
TS_RESERVED = {"Array", "RangeError", "ArrayBuffer", "BigInt", "DataView", "Error", "Number", "Object", "TextDecoder", "TextEncoder", "Uint8Array",
               "hasOwnProperty", "isPrototypeOf", "propertyIsEnumerable", "toLocaleString", "toString", "valueOf"}
RUST_NOT_RAW = {"Self", "crate", "self", "super"}
MOD_BANNED = {"main"}
HIDING = [["range", "error"], ["array"], ["error"], ["object"], ["number"], ["big", "int"], ["data", "view"], ["array", "buffer"], ["uint8", "array"], ["text", "encoder"],
          ["text", "decoder"], ["std"], ["io"], ["core"], ["alloc"], ["self"], ["super"], ["crate"], ["to", "string"], ["value", "of"],
          ["has", "own", "property"], ["to", "locale", "string"], ["constructor"], ["proto"], ["undefined"], ["this"], ["array"], ["map"],
          ["math"], ["symbol"], ["serialize"], ["deserialize"], ["size"], ["atlas"], ["option"], ["vec"], ["box"], ["some"], ["none"],
          ["result"], ["ok"], ["err"], ["string", "in"], ["then"], ["length"], ["prototype"], ["unreachable"], ["deserializable"]]


def snake(ws):
    return "_".join(ws)


def cap(w):
    return w[0].upper() + w[1:].lower()


def pascal(ws):
    return "".join(cap(w) for w in ws)


def camel(ws):
    return ws[0].lower() + "".join(cap(w) for w in ws[1:])


def rs_field(ws):
    s = snake(ws)
    return "_" + s if s in RUST_NOT_RAW else "r#" + s if s in RUST_KW else s


def rs_pascal(ws, suffix=""):
    s = pascal(ws) + suffix
    return "_" + s if s in RUST_NOT_RAW else "r#" + s if s in RUST_KW else s


def ts_field(ws):
    s = camel(ws)
    return "_" + s if s in TS_KW or s in TS_RESERVED else s


def ts_pascal(ws):
    s = pascal(ws)
    return "_" + s if s in TS_KW or s in TS_RESERVED else s


class Field:
    __slots__ = ("fid", "idx", "rule", "name", "ty", "comment")

    def __init__(self, fid, idx, rule, name, ty, comment=None):
        self.fid, self.idx, self.rule, self.name, self.ty, self.comment = fid, idx, rule, name, ty, comment

    def copy(self):
        return Field(self.fid, self.idx, self.rule, list(self.name), self.ty, self.comment)


class Type:
    __slots__ = ("tid", "kind", "name", "file", "fields", "deleted", "never", "nextfid", "comment")

    def __init__(self, tid, kind, name, file):
        self.tid, self.kind, self.name, self.file = tid, kind, name, file
        self.fields, self.deleted, self.never, self.nextfid, self.comment = [], set(), False, 0, None

    def copy(self):
        t = Type(self.tid, self.kind, list(self.name), self.file)
        t.fields = [f.copy() for f in self.fields]
        t.deleted, t.never, t.nextfid, t.comment = set(self.deleted), self.never, self.nextfid, self.comment
        return t


class Version:
    """types: tid -> Type; files: list of paths, each a tuple of components (lists of words)."""

    def __init__(self):
        self.types, self.files, self.imports, self.order = {}, [], [], []

    def copy(self):
        v = Version()
        v.types = {k: t.copy() for k, t in self.types.items()}
        v.files = list(self.files)
        v.imports = [list(x) for x in self.imports]
        return v


class World:
    def __init__(self):
        self.versions, self.roots, self.cfg, self.texts = [], [], {}, []


def make_cfg(r, opts):
    """Swarm configuration: every world enables a random subset of features."""
    c = dict(
        nver=opts.get("nver") or r.weighted([(2, 5), (3, 3)]),
        ntypes=r.weighted([(r.range(2, 4), 3), (r.range(5, 8), 4), (r.range(9, 12), 1)]),
        nfiles=r.weighted([(1, 2), (2, 3), (3, 3), (r.range(4, 6), 2)]),
        p_choice=r.pick([0.2, 0.4, 0.5, 0.7]),
        p_array=r.pick([0.0, 0.2, 0.4, 0.6]),
        max_depth=r.weighted([(1, 2), (2, 3), (3, 3), (4, 1)]),
        p_custom=r.pick([0.15, 0.3, 0.5]),
        p_optional=r.pick([0.1, 0.3, 0.45]),
        p_asym=r.pick([0.0, 0.15, 0.35]),
        fields=r.weighted([("small", 5), ("mid", 4), ("many", 2), ("wide", 1), ("huge", 1.2)]),
        idx=r.weighted([("dense", 4), ("perm", 3), ("gaps", 3), ("edge32", 3), ("edge128", 1), ("edge4k", 1)]),
        names=r.weighted([("plain", 4), ("odd", 3), ("kw", 4), ("uni", 1), ("mixed", 4)]),
        p_repeat=r.pick([0.0, 0.1, 0.4]),
        style=r.weighted([("canon", 4), ("wild", 3)]),
        dirs=r.weighted([("flat", 4), ("deep", 6), ("same", 4), ("twins", 3)]),
        p_circular=r.pick([0.0, 0.3, 0.7]),
        p_alias=r.pick([0.0, 0.3, 0.8]),
        p_never=r.pick([0.0, 0.0, 0.3]),
        p_unit_array=r.pick([0.0, 0.0, 0.3]),
        evolve=r.pick([0.15, 0.35, 0.6]),
        p_convert=r.pick([0.0, 0.3, 0.6]),
        p_move=r.pick([0.0, 0.0, 0.25]),
    )
    c.update(opts.get("cfg", {}))
    return c


class Namer:
    def __init__(self, r, mode):
        self.r, self.mode = r, mode

    def words(self, used, allow_uni=True, extra_ban=None):
        r = self.r
        for _ in range(10000):
            mode = self.mode
            if mode == "mixed":
                mode = r.pick(["plain", "odd", "kw", "plain2"])
            if mode == "uni":
                mode = r.pick(["unione", "plain"]) if allow_uni else "plain"
            if mode == "plain":
                ws = [r.pick(PLAIN)]
                if r.chance(0.4):
                    ws.append(r.pick(PLAIN))
            elif mode == "plain2":
                ws = [r.pick(PLAIN), r.pick(PLAIN)] + ([r.pick(ODD)] if r.chance(0.3) else [])
            elif mode == "odd" and r.chance(0.15):
                ws = list(r.pick(HIDING))
            elif mode == "odd":
                ws = [r.pick(ODD)] + ([r.pick(ODD + PLAIN)] if r.chance(0.3) else [])
            elif mode == "kw":
                ws = [r.pick(KWLIKE)] + ([r.pick(KWLIKE)] if r.chance(0.15) else [])
            else:
                ws = [r.pick(UNI)] + ([r.pick(PLAIN)] if r.chance(0.3) else [])
            if any(not w[0].isalpha() for w in ws):
                continue
            flat = "".join(ws)
            if flat in used or (extra_ban and (snake(ws) in extra_ban or ws[0] in extra_ban)):
                continue
            used.add(flat)
            return ws
        raise Exception("name space exhausted")


PRIMS = [("N", 5), ("S", 4), ("F", 3), ("B", 3), ("Y", 3), ("T", 4), ("U", 2)]


def gen_ty(r, c, tid, ntypes, nevers, depth=0, allow_never=False):
    if depth < c["max_depth"] and r.chance(c["p_array"] if depth == 0 else min(0.75, c["p_array"] + 0.15)):
        return ("a", gen_ty(r, c, tid, ntypes, nevers, depth + 1, True))
    later = [t for t in range(tid + 1, ntypes) if t not in nevers or allow_never]
    if later and r.chance(c["p_custom"]):
        return ("c", r.pick(later))
    p = r.weighted(PRIMS)
    if p == "U" and depth > 0 and not r.chance(c["p_unit_array"]):
        p = "N"
    return p


def has_unit_array(ty):
    return isinstance(ty, tuple) and ty[0] == "a" and (ty[1] == "U" or has_unit_array(ty[1]))


def nfields(r, c):
    m = c["fields"]
    if m == "small":
        return r.weighted([(0, 1), (1, 4), (2, 4), (3, 3)])
    if m == "mid":
        return r.range(1, 7)
    if m == "many":
        return r.range(4, 14)
    if m == "huge":
        return r.weighted([(r.range(82, 140), 1), (r.range(1, 4), 4)])
    return r.weighted([(r.range(20, 40), 2), (r.range(2, 5), 6)])


def assign_indices(r, c, n):
    """Choose n distinct indices and the deleted ones such that the union is 0..m-1."""
    mode = c["idx"]
    if n == 0:
        return [], set(range(r.pick([0, 0, 1, 2, 5])))
    if mode == "dense":
        return list(range(n)), set()
    if mode == "perm":
        return r.shuffle(list(range(n))), set()
    if mode == "gaps":
        m = n + r.range(0, 4)
        ids = r.sample(range(m), n)
    elif mode == "edge32":
        m = r.pick([31, 32, 33, 34, 36]) + n
        near = [i for i in (0, 29, 30, 31, 32, 33, 34, m - 1) if i < m]
        ids = list(dict.fromkeys(r.shuffle(near)))[: n]
        rest = [i for i in range(m) if i not in ids]
        ids += r.sample(rest, n - len(ids))
    elif mode == "edge128":
        m = r.pick([127, 128, 129, 200, 260]) + n
        near = [i for i in (31, 32, 126, 127, 128, 129, 255, 256, m - 1, 0) if i < m]
        ids = list(dict.fromkeys(r.shuffle(near)))[: n]
        rest = [i for i in range(m) if i not in ids]
        ids += r.sample(rest, n - len(ids))
    else:
        m = r.pick([4126, 4127, 4128, 4129, 4200]) + n
        near = [i for i in (31, 32, 4126, 4127, 4128, 4129, 4130, m - 1, 0) if i < m]
        ids = list(dict.fromkeys(r.shuffle(near)))[: n]
        rest = [i for i in range(m) if i not in ids]
        ids += r.sample(rest, n - len(ids))
    r.shuffle(ids)
    # Trailing indices above the largest field must be deleted explicitly to be reserved; keep the
    # union contiguous from 0.
    top = max(ids)
    extra = r.range(0, 2) if r.chance(0.3) else 0
    union = set(range(top + 1 + extra))
    return ids, union - set(ids)


COMMENTS = ["A short remark.", "Used by the scheduler; see `docs`.", "x", "TODO: rename this",
            "The quick brown fox jumps over the lazy dog, then naps for a while before it does it all again today.",
            "1 + 1 = 2 {not code} 'quoted' [brackets]", "# nested hash", "unicode: naïve café"]


def maybe_comment(r, p=0.15):
    return r.pick(COMMENTS) if r.chance(p) else None


def new_field(r, c, t, namer, used, ntypes, nevers, rule, idx):
    ty = gen_ty(r, c, t.tid, ntypes, nevers, 0, rule == "o" and t.kind == "struct")
    if t.kind == "choice" and isinstance(ty, str) is False and ty[0] == "c" and ty[1] in nevers:
        ty = "U"
    if t.kind == "choice" and r.chance(0.2):
        ty = "U"
    f = Field(t.nextfid, idx, rule, namer.words(used), ty, maybe_comment(r))
    t.nextfid += 1
    return f


def field_used(t):
    return {"".join(f.name) for f in t.fields}


COMBOS = [(k, rule, d, b) for d in range(5) for b in ("N", "S", "F", "B", "Y", "T", "U", "struct", "choice", "struct:imp", "choice:imp")
          for k in ("struct", "choice") for rule in "roa"]


def add_strata(r, c, v, nevers, namer, seed):
    """Fields of every combination of container, rule, array depth and base type, in turns over consecutive worlds."""
    host = {}
    for tid in sorted(v.types):
        t = v.types[tid]
        if not t.never and t.fields:
            host.setdefault(t.kind, t)
    per = 16
    for j in range(per):
        k, rule, d, b = COMBOS[(seed * per + j) * 101 % len(COMBOS)]
        t = host.get(k)
        if not t:
            continue
        if ":" in b or b in ("struct", "choice"):
            fit = [x.tid for x in v.types.values() if x.tid > t.tid and x.tid not in nevers and x.kind == b[:6]]
            if not fit:
                continue
            ty = ("c", r.pick([x for x in fit if (v.types[x].file != t.file) == (":" in b)] or fit))
        else:
            ty = b
        for _ in range(d):
            ty = ("a", ty)
        used = field_used(t)
        union = t.deleted | {f.idx for f in t.fields}
        if r.chance(0.5) and t.deleted:
            i = r.pick(sorted(t.deleted))
            t.deleted.discard(i)
        else:
            i = max(union) + 1
        t.fields.insert(r.below(len(t.fields) + 1), Field(t.nextfid, i, rule, namer.words(used), ty, None))
        t.nextfid += 1


def gen_version0(r, c, seed=None):
    v = Version()
    namer = Namer(r, c["names"])
    # Files. The entry is always main.t; components of paths are sometimes repeated, beside or inside each other.
    modused = set()
    modnamer = Namer(r, "mixed" if c["names"] in ("kw", "odd", "mixed") else "plain")

    def comp():
        if len(files) > 1 and r.chance(c["p_repeat"]):
            return r.pick(r.pick(files[1:]))
        return tuple(modnamer.words(modused, extra_ban=MOD_BANNED, allow_uni=False))

    files = [((("main",)),)]
    dirs = [()]
    while len(files) < c["nfiles"]:
        if c["dirs"] == "flat":
            d = ()
        elif c["dirs"] == "same" and len(files) > 1 and r.chance(0.6):
            d = r.pick(files[1:])
        else:
            d = r.pick(dirs)
            if len(d) < 3 and r.chance(0.6):
                d = d + (comp(),)
                dirs.append(d)
        twins = [f for f in files if len(f) > 1 and not any(g[:len(f)] == f for g in files if g != f)]
        if c["dirs"] == "twins" and not twins:
            files.append(tuple(comp() for _ in range(r.range(2, 4))))
            continue
        if twins and c["dirs"] != "same" and r.chance(0.85 if c["dirs"] == "twins" else 0.35):
            # A file of the same name in a directory beside it.
            f = r.pick(twins)
            f = f[:-2] + (comp(), f[-1])
        else:
            f = d + (comp(),)
        if f not in files:
            files.append(f)
    v.files = files
    ntypes = c["ntypes"]
    nevers = set()
    for tid in range(1, ntypes):
        if r.chance(c["p_never"]) and len(nevers) < 1:
            nevers.add(tid)
    typeused = {}
    for tid in range(ntypes):
        file = r.below(len(files))
        used = typeused.setdefault(file, set())
        kind = "choice" if r.chance(c["p_choice"]) else "struct"
        twin = [x.name for x in v.types.values() if x.file != file and files[x.file][-1] == files[file][-1] and "".join(x.name) not in used]
        if twin and r.chance(0.75):
            name = list(r.pick(twin))
            used.add("".join(name))
        elif len(files) > 1 and r.chance(c["p_repeat"]) and [x for f in files[1:] for x in f if "".join(x) not in used]:
            # A type of the same name as a module.
            name = list(r.pick([x for f in files[1:] for x in f if "".join(x) not in used]))
            used.add("".join(name))
        else:
            name = namer.words(used)
        t = Type(tid, kind, name, file)
        t.comment = maybe_comment(r)
        v.types[tid] = t
        if tid in nevers:
            t.kind, t.never = "choice", True
            continue
        n = nfields(r, c)
        if kind == "choice":
            n = max(1, n)
        ids, t.deleted = assign_indices(r, c, n)
        used = set()
        for i in range(n):
            x = r.u64() % 1000 / 1000.0
            rule = "o" if x < c["p_optional"] else ("a" if x < c["p_optional"] + c["p_asym"] else "r")
            if kind == "choice" and i == 0:
                rule = "r"
            t.fields.append(new_field(r, c, t, namer, used, ntypes, nevers, rule, ids[i]))
        r.shuffle(t.fields)
    if seed is not None and r.chance(0.8):
        add_strata(r, c, v, nevers, namer, seed)
    gen_imports(r, c, v)
    return v, nevers


def gen_imports(r, c, v):
    """imports[file] = list of (target file, alias words or None)."""
    n = len(v.files)
    need = [set() for _ in range(n)]
    for i in range(1, n):
        need[r.below(i)].add(i)
    for t in v.types.values():
        for f in t.fields:
            ty = f.ty
            while isinstance(ty, tuple) and ty[0] == "a":
                ty = ty[1]
            if isinstance(ty, tuple):
                tf = v.types[ty[1]].file
                if tf != t.file:
                    need[t.file].add(tf)
    for i in range(n):
        if n > 1 and r.chance(c["p_circular"]):
            need[i].add(r.below(n))
    v.imports = []
    for i in range(n):
        used = set()
        lst = []
        for j in r.shuffle(sorted(need[i])):
            stem = v.files[j][-1]
            default = "".join(stem)
            if not r.chance(c["p_alias"]) and default not in used:
                used.add(default)
                lst.append((j, None))
            elif default not in used and r.chance(0.25):
                # The name of the file, but for underscores.
                used.add(default)
                lst.append((j, respell(r, stem)))
            else:
                lst.append((j, Namer(r, "mixed").words(used)))
        v.imports.append(lst)


def respell(r, ws):
    flat = "".join(ws)
    cuts = [k for k in range(1, len(flat)) if flat[k].isalpha()]
    if len(ws) > 1 and r.chance(0.6) or not cuts:
        return [flat]
    k = r.pick(cuts)
    return [flat[:k], flat[k:]]


def evolve(r, c, v0, nevers):
    v = v0.copy()
    namer = Namer(r, c["names"])
    p = c["evolve"]
    ntypes = max(v.types) + 1
    changes = []
    for t in v.types.values():
        if t.never:
            continue
        if len(t.fields) == 1 and t.fields[0].rule == "r" and r.chance(c["p_convert"]):
            # A choice case of a required Unit/any payload and a required struct field share one encoding.
            t.kind = "choice" if t.kind == "struct" else "struct"
            changes.append(("convert", t.tid))
            continue
        keep_req = None
        if t.kind == "choice":
            reqs = [f.fid for f in t.fields if f.rule == "r"]
            keep_req = r.pick(reqs)
        out = []
        for f in t.fields:
            if r.chance(p * 0.5):
                used = field_used(t)
                f.name = namer.words(used)
                changes.append(("rename", t.tid, f.fid))
            if r.chance(p):
                if f.rule == "r" and f.fid != keep_req:
                    f.rule = "a"
                    changes.append(("demote", t.tid, f.fid))
                elif f.rule == "a":
                    x = r.below(3)
                    if x == 0:
                        f.rule = "r"
                        changes.append(("promote", t.tid, f.fid))
                    elif x == 1:
                        f.rule = "o"
                        changes.append(("relax", t.tid, f.fid))
                    else:
                        t.deleted.add(f.idx)
                        changes.append(("remove_asymmetric", t.tid, f.fid))
                        continue
                elif f.rule == "o":
                    if r.chance(0.5) and not (isinstance(f.ty, tuple) and f.ty[0] == "c" and f.ty[1] in nevers):
                        f.rule = "a"
                        changes.append(("tighten", t.tid, f.fid))
                    else:
                        t.deleted.add(f.idx)
                        changes.append(("remove_optional", t.tid, f.fid))
                        continue
            out.append(f)
        t.fields = out
        nadd = r.weighted([(0, 3), (1, 4), (2, 2), (3, 1)]) if r.chance(p + 0.2) else 0
        for _ in range(nadd):
            union = {f.idx for f in t.fields} | t.deleted
            m = len(union)
            skip = r.range(0, 2) if c["idx"] != "dense" else 0
            for k in range(skip):
                t.deleted.add(m + k)
            rule = r.pick(["o", "a"])
            used = field_used(t)
            t.fields.append(new_field(r, c, t, namer, used, ntypes, nevers, rule, m + skip))
            changes.append(("add_" + rule, t.tid, t.nextfid - 1))
        if r.chance(p):
            r.shuffle(t.fields)
    # Moving or renaming a type is invisible on the wire.
    for t in v.types.values():
        others = lambda f: {"".join(x.name) for x in v.types.values() if x is not t and x.file == f}
        if r.chance(c["p_move"]):
            nf = r.below(len(v.files))
            if "".join(t.name) not in others(nf):
                t.file = nf
                changes.append(("move", t.tid))
    gen_imports(r, c, v)
    return v, changes


def bulk(v):
    """About the size of the largest type in memory, with all the cases of a choice side by side."""
    memo = {}

    def size(t):
        if t not in memo:
            memo[t] = 0
            fs = [size(f.ty[1]) if isinstance(f.ty, tuple) and f.ty[0] == "c" else 24 for f in v.types[t].fields]
            memo[t] = sum(fs) if v.types[t].kind == "struct" else max(fs + [0]) + 16, sum(fs)
            memo[t], wide[t] = memo[t]
        return memo[t]
    wide = {}
    for t in v.types:
        size(t)
    return max(wide.values())


def gen_world(seed, opts=None):
    opts = opts or {}
    for attempt in range(100):
        r = Rng("world", seed, attempt) if attempt else Rng("world", seed)
        w = World()
        w.seed = seed
        w.cfg = c = make_cfg(r, opts)
        v, nevers = gen_version0(r, c, seed)
        w.versions.append(v)
        w.changes = []
        for _ in range(c["nver"] - 1):
            v, ch = evolve(r, c, v, nevers)
            w.versions.append(v)
            w.changes.append(ch)
        # Types contain each other by value in Rust, so a value of the outermost type can take more than a stack holds.
        if max(bulk(v) for v in w.versions) < 20000:
            break
    w.texts = [render(Rng("render", seed, i), c, v) for i, v in enumerate(w.versions)]
    # Roots: the types that appear as whole messages.
    cand = [t for t in w.versions[0].types if not w.versions[0].types[t].never]

    def weight(t):
        return sum(3 * len(v.types[t].fields) + 2 for v in w.versions)

    first = sorted(cand, key=lambda t: (t, ))[:2]
    rest = r.shuffle([t for t in cand if t not in first])
    w.roots = sorted(first + rest[: opts.get("nroots", 5) - len(first)])
    return w


# ---- rendering -------------------------------------------------------------------------------------------

def ident(r, ws, canon, wild):
    s = r.pick([snake, pascal, camel])(ws) if wild else canon(ws)
    # Identity is snake case after splitting at capitals; all three styles agree for lowercase words.
    if s in TYPICAL_KW:
        return "$" + s
    if wild and r.chance(0.1):
        return "$" + s
    return s


def rel_path(frm, to):
    """Path of file `to` relative to the directory of file `frm` (both component tuples)."""
    fd, i = list(frm[:-1]), 0
    while i < len(fd) and i < len(to) - 1 and fd[i] == to[i]:
        i += 1
    return "../" * (len(fd) - i) + "/".join(snake(list(x)) for x in to[i:]) + ".t"


def file_path(f):
    return "/".join(snake(list(x)) for x in f) + ".t"


def render(r, c, v, paths=None, spell=None):
    """Return {path: text}. `paths` gives the path of every file; `spell(i, j)` how file i spells its import of file j, and
    whether that spelling still ends in the name of file j."""
    wild = c["style"] == "wild"
    out = {}
    order = {}
    for t in r.shuffle(list(v.types.values())):
        order.setdefault(t.file, []).append(t)
    for i, f in enumerate(v.files):
        lines = []
        nl = "\n"
        if wild and r.chance(0.3):
            lines.append("# " + r.pick(COMMENTS))
            lines.append("")
        alias = {}
        for j, al in v.imports[i]:
            path, same = spell(i, j) if spell else (rel_path(f, v.files[j]), True)
            if wild and r.chance(0.3) and not spell:
                path = "./" + path
            if al is None and not same:
                lines.append("import '%s' as %s" % (path, ident(r, list(v.files[j][-1]), snake, wild)))
                alias[j] = list(v.files[j][-1])
            elif al is None:
                lines.append("import '%s'" % path)
                alias[j] = list(v.files[j][-1])
            else:
                lines.append("import '%s' as %s" % (path, ident(r, al, snake, wild)))
                alias[j] = al
        if lines:
            lines.append("")

        def ty_text(ty):
            if isinstance(ty, str):
                return {"U": "Unit", "F": "F64", "N": "U64", "S": "S64", "B": "Bool", "Y": "Bytes", "T": "String"}[ty]
            if ty[0] == "a":
                return "[" + ty_text(ty[1]) + "]"
            t2 = v.types[ty[1]]
            nm = ident(r, t2.name, pascal, wild)
            if t2.file == i:
                return nm
            return ident(r, alias[t2.file], snake, wild) + "." + nm

        for t in order.get(i, []):
            if t.comment:
                lines.append("# " + t.comment)
            lines.append("%s %s {" % (t.kind, ident(r, t.name, pascal, wild)))
            for fl in t.fields:
                if fl.comment:
                    lines.append("    # " + fl.comment)
                rule = {"r": "", "o": "optional ", "a": "asymmetric "}[fl.rule]
                if fl.ty == "U" and (not wild or r.chance(0.7)):
                    body = ident(r, fl.name, snake, wild)
                else:
                    body = "%s: %s" % (ident(r, fl.name, snake, wild), ty_text(fl.ty))
                lines.append("    %s%s = %d" % (rule, body, fl.idx))
            if t.deleted:
                lines.append("    deleted " + " ".join(map(str, sorted(t.deleted))))
            lines.append("}")
            lines.append("")
        text = "\n".join(lines) + ("\n" if lines else "")
        if wild and r.chance(0.2) and "#" not in text:
            text = text.replace("\n", "\r\n") if r.chance(0.3) else text.replace("    ", "\t")
        out[paths[i] if paths else file_path(f)] = text
    return out


# ---- descriptors -----------------------------------------------------------------------------------------

def desc_ty(ty):
    if isinstance(ty, str):
        return ty
    if ty[0] == "a":
        return {"a": desc_ty(ty[1])}
    return {"c": ty[1]}


def descriptor(w):
    """What the Rust runtime and the JS peer need to know about the world."""
    vers = []
    for v in w.versions:
        ts = []
        for tid in sorted(v.types):
            t = v.types[tid]
            ts.append(dict(id=tid, kind=t.kind, name=pascal(t.name), never=t.never,
                           ts=[ts_pascal(list(x)) for x in v.files[t.file]], tsn=ts_pascal(t.name),
                           fields=[dict(idx=f.idx, rule=f.rule, ty=desc_ty(f.ty), ts=ts_field(f.name),
                                        name=snake(f.name)) for f in t.fields]))
        vers.append(dict(types=ts))
    return dict(versions=vers, roots=w.roots)


# ---- Rust glue -------------------------------------------------------------------------------------------

def rs_path(v, ver, t, suffix):
    mods = "::".join(("_" if snake(x) == "std" or (k == 0 and snake(x) == "io") else "") + rs_field(list(x)) for k, x in enumerate(v.files[t.file]))
    return "v%d::%s::%s" % (ver, mods, rs_pascal(t.name, suffix))


def conv_out(ver, ty, e):
    if isinstance(ty, str):
        return {"U": "()", "F": "%s.f()", "N": "%s.n()", "S": "%s.s()", "B": "%s.b()", "Y": "%s.y().to_vec()",
                "T": "%s.t().to_owned()"}[ty].replace("%s", e)
    if ty[0] == "a":
        return "%s.a().iter().map(|e| %s).collect::<Vec<_>>()" % (e, conv_out(ver, ty[1], "e"))
    return "o_%d_%d(%s)" % (ver, ty[1], e)


def conv_in(ver, ty, e):
    if isinstance(ty, str):
        return {"U": "{ let () = %s; Value::Unit }", "F": "Value::F(%s.to_bits())", "N": "Value::N(%s)",
                "S": "Value::S(%s)", "B": "Value::B(%s)", "Y": "Value::Y(%s)", "T": "Value::T(%s)"}[ty].replace("%s", e)
    if ty[0] == "a":
        return "Value::A(%s.into_iter().map(|e| %s).collect())" % (e, conv_in(ver, ty[1], "e"))
    return "i_%d_%d(%s)" % (ver, ty[1], e)


def rust_main(w):
    L = ["#![allow(warnings)]", "use rt::{Value, Codec};", "use std::io::{self, Write, BufRead};"]
    for i in range(len(w.versions)):
        L.append('#[path = "v%d.rs"] mod v%d;' % (i, i))
    for ver, v in enumerate(w.versions):
        for tid in sorted(v.types):
            t = v.types[tid]
            O, I = rs_path(v, ver, t, "Out"), rs_path(v, ver, t, "In")
            if t.kind == "struct":
                L.append("fn o_%d_%d(v: &Value) -> %s { %s {" % (ver, tid, O, O))
                for f in t.fields:
                    if f.rule == "o":
                        L.append("  %s: v.opt(%d).map(|e| %s)," % (rs_field(f.name), f.idx, conv_out(ver, f.ty, "e")))
                    else:
                        L.append("  %s: { let e = v.req(%d); %s }," % (rs_field(f.name), f.idx, conv_out(ver, f.ty, "e")))
                L.append("} }")
                L.append("fn i_%d_%d(x: %s) -> Value { let mut r: Vec<(u64, Value)> = Vec::new();" % (ver, tid, I))
                for f in t.fields:
                    if f.rule == "r":
                        L.append("  { let e = x.%s; r.push((%d, %s)); }" % (rs_field(f.name), f.idx, conv_in(ver, f.ty, "e")))
                    else:
                        L.append("  if let Some(e) = x.%s { r.push((%d, %s)); }" % (rs_field(f.name), f.idx, conv_in(ver, f.ty, "e")))
                L.append("  Value::st(r) }")
            else:
                L.append("fn o_%d_%d(v: &Value) -> %s { match v.case() {" % (ver, tid, O))
                for f in t.fields:
                    args = []
                    if f.ty != "U":
                        args.append("{ let e = v.payload(); %s }" % conv_out(ver, f.ty, "e"))
                    if f.rule != "r":
                        args.append("Box::new(o_%d_%d(v.fallback()))" % (ver, tid))
                    L.append("  %d => %s::%s%s," % (f.idx, O, rs_pascal(f.name), "(" + ", ".join(args) + ")" if args else ""))
                L.append("  c => panic!(\"harness: no case {}\", c) } }")
                L.append("fn i_%d_%d(x: %s) -> Value { match x {" % (ver, tid, I))
                for f in t.fields:
                    pats, pv, fv = [], "Value::Unit", "None"
                    if f.ty != "U":
                        pats.append("e")
                        pv = conv_in(ver, f.ty, "e")
                    if f.rule == "o":
                        pats.append("f")
                        fv = "Some(Box::new(i_%d_%d(*f)))" % (ver, tid)
                    L.append("  %s::%s%s => Value::C(%d, Box::new(%s), %s)," % (
                        I, rs_pascal(f.name), "(" + ", ".join(pats) + ")" if pats else "", f.idx, pv, fv))
                L.append("} }")
    cod = []
    for ver, v in enumerate(w.versions):
        for tid in w.roots:
            t = v.types[tid]
            O, I = rs_path(v, ver, t, "Out"), rs_path(v, ver, t, "In")
            k = "%d_%d" % (ver, tid)
            L.append("""fn e_%(k)s(v: &Value, w: &mut dyn Write, mode: u8) -> io::Result<()> {
  use v%(ver)d::Serialize; let m = o_%(k)s(v); let mut w = w;
  match mode { 0 => m.serialize(w), 1 => { let a = m.atlas(); m.serialize_with_atlas(&mut w, &a) },
    2 => { let a = m.atlas(); let m2 = m.clone(); m2.serialize_with_atlas(&mut w, &a.clone()) },
    _ => m.serialize(&mut w) } }
fn s_%(k)s(v: &Value) -> (usize, usize) { use v%(ver)d::Serialize; let m = o_%(k)s(v); (m.size(), m.atlas().size()) }
fn d_%(k)s(r: &mut dyn BufRead, mode: u8) -> io::Result<Value> { use v%(ver)d::Deserialize; let mut r = r;
  let m: %(I)s = if mode == 0 { <%(I)s>::deserialize(r)? } else { <%(I)s>::deserialize_from_reader_ref(&mut r)? };
  Ok(i_%(k)s(m)) }
fn l_%(k)s(v: &Value) -> Value { let m: %(I)s = o_%(k)s(v).into(); i_%(k)s(m) }""" % dict(k=k, ver=ver, I=I))
            cod.append("Codec { ver: %d, ty: %d, enc: e_%s, size: s_%s, dec: d_%s, local: l_%s }" % (ver, tid, k, k, k, k))
    L.append("fn main() { rt::main(vec![\n%s\n]); }" % ",\n".join(cod))
    return "\n".join(L) + "\n"
