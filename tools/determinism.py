#!/usr/bin/env python3
"""Run one seed of each engine twice, with different numbers of workers, and compare the complete logs."""
import filecmp, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
import cli, common, wire

os.environ.setdefault("SIM_CASES", "400")
os.environ.setdefault("SIM_WORLDS", "8")
bad = 0
try:
    for prop in sys.argv[1:] or ["W01", "W04", "W07", "W09", "W10", "T01", "T03", "T04", "T05", "T06", "T08", "T09", "T10", "T11", "T12", "T13"]:
        d = tempfile.mkdtemp(prefix="det-")
        try:
            rows = 0
            if prop[0] == "W":
                for n, k in (("a", 8), ("b", 2)):
                    os.mkdir(os.path.join(d, n))
                    wire.check(prop, "quick", workers=k, keep_log=os.path.join(d, n))
                logs = sorted(f for f in os.listdir(os.path.join(d, "a")) if f.startswith("log-"))
                same = logs == sorted(f for f in os.listdir(os.path.join(d, "b")) if f.startswith("log-")) and bool(logs)
                for f in logs:
                    same = same and filecmp.cmp(os.path.join(d, "a", f), os.path.join(d, "b", f), shallow=False)
                    rows += open(os.path.join(d, "a", f), "rb").read().count(b"\n")
            else:
                for n, k in (("a", 8), ("b", 3)):
                    cli.check(prop, "quick", workers=k, logdir=os.path.join(d, n))
                a, b = open(os.path.join(d, "a")).read(), open(os.path.join(d, "b")).read()
                same, rows = a == b and bool(a), a.count("\n")
            print(prop, "same" if same else "DIFFERENT", rows, "log lines", flush=True)
            bad |= not same
        finally:
            shutil.rmtree(d, ignore_errors=True)
finally:
    common.drop_scratch()
sys.exit(bad)
