"""Debug helper: python3 tools/dbg.py PROP WORLDSEED RUNS [known]: build one world in .build/dbg and run it."""
import sys; sys.path.insert(0,'/verif/sim')
import os, shutil, json, wire, schemagen
from common import *
from prng import Rng
prop, ws, runs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
d='/verif/.build/dbg'; shutil.rmtree(d, ignore_errors=True)
w=schemagen.gen_world(ws, wire.PLAN[prop]["opts"])
wire.write_world(d, w.texts, schemagen.descriptor(w), schemagen.rust_main(w))
wire.build_world(d, len(w.versions), build_typical(), build_rt())
rs = Rng("runs", prop, ws).u64() & 0x7FFFFFFFFFFFFFFF
print(wire.run_world(d, ["--prop",prop,"--seed",str(rs),"--runs",str(runs),"--known",sys.argv[4] if len(sys.argv)>4 else "","--trace",d+"/trace.json"], 60))
