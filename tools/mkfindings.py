"""Writes the hand-made demonstrations of recorded findings to findings/ (the others are minimised search results)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim"))
import schemagen as g
from prng import Rng

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "findings")


def world(kind, fields):
    v = g.Version()
    v.files = [(["main"],)]
    v.imports = [[]]
    t = g.Type(0, kind, ["event"], 0)
    for i, (name, rule, ty) in enumerate(fields):
        t.fields.append(g.Field(i, i, rule, name, ty))
    v.types[0] = t
    w = g.World()
    w.versions, w.roots, w.seed = [v], [0], 0
    w.texts = [g.render(Rng("x"), dict(style="plain"), v)]
    return w


def plan(**kw):
    return dict(dict(chunks=[], fault=None, fintr=[], rintr=[]), **kw)


def case(prop, **kw):
    c = dict(prop=prop, cut=None, raw=None, dmode=0, emode=0, frames=[], pre="", post="", r=plan(), r2=plan(), rlang=0, rver=0, slang=0,
             sver=0, time_ms=0, trace=["hand-made"], w=dict(chunks=[], fault=None, intr=[]))
    c.update(kw)
    return c


def save(name, w, c, cls):
    r = dict(engine="wire", texts=w.texts, world=g.descriptor(w), main_rs=g.rust_main(w), world_seed=0, case=c, expected_class=cls, property=c["prop"])
    with open(os.path.join(OUT, name + ".json"), "w") as f:
        f.write(json.dumps(r, indent=1, sort_keys=True))


# KF4: an unknown field that announces 5 bytes, of which the stream has 1.
w = world("struct", [(["a"], "o", "N")])
save("KF4-W10", w, case("W10", raw="1f0b61", frames=[dict(ty=0, val={"St": []})]), "decode/livelock")
# KF6: a long chain of optional cases.
w = world("choice", [(["a"], "o", "U"), (["b"], "r", "U")])
save("KF6-W10", w, case("W10", raw="01" * 200000 + "09", frames=[dict(ty=0, val={"C": [1, "U", None]})]), "crash/-6")
# KF8: a leading byte order mark, decoded by the TypeScript code.
w = world("struct", [(["a"], "r", "T")])
val = {"St": [[0, {"T": "\ufeffx"}]]}
save("KF8-W01", w, case("W01", slang=1, rlang=1, frames=[dict(ty=0, val=val)]), "value")
save("KF8-W06", w, case("W06", slang=0, rlang=1, frames=[dict(ty=0, val=val)]), "value")
