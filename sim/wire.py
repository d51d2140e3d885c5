"""Wire engine: worlds of schema versions, compiled by the real tool, run in a simulated cluster."""
import concurrent.futures, json, os, shutil, subprocess, time
import schemagen
from common import *
from prng import Rng

PEER = os.path.join(VERIF, "sim", "peer.js")

# Per property: schema generation options, worlds and runs per world in each tier.
PLAN = {
    "W01": dict(quick=(140, 30), thorough=(320, 120), opts={}),
    "W02": dict(quick=(140, 30), thorough=(320, 120), opts={}),
    "W03": dict(quick=(140, 30), thorough=(320, 120), opts={}),
    "W04": dict(quick=(140, 40), thorough=(320, 160), opts=dict(nver=3)),
    "W05": dict(quick=(140, 40), thorough=(320, 160), opts=dict(nver=3, cfg=dict(p_choice=0.75, p_optional=0.4, p_asym=0.3))),
    "W06": dict(quick=(140, 30), thorough=(320, 120), opts=dict(nver=2)),
    "W07": dict(quick=(140, 25), thorough=(320, 100), opts=dict(nver=2)),
    "W08": dict(quick=(140, 25), thorough=(320, 100), opts=dict(nver=2)),
    "W09": dict(quick=(140, 20), thorough=(320, 80), opts=dict(nver=2)),
    "W10": dict(quick=(140, 20), thorough=(320, 80), opts=dict(nver=2)),
    "W11": dict(quick=(140, 30), thorough=(320, 120), opts=dict(nver=2)),
}


def write_world(d, texts, world_json, main_rs):
    os.makedirs(d, exist_ok=True)
    for i, tx in enumerate(texts):
        for p, c in tx.items():
            q = os.path.join(d, "schemas", str(i), p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "w", newline="") as f:
                f.write(c)
    with open(os.path.join(d, "world.json"), "w") as f:
        json.dump(world_json, f)
    with open(os.path.join(d, "main.rs"), "w") as f:
        f.write(main_rs)


class Rejected(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, msg)
        self.cls, self.msg = cls, msg


def build_world(d, nver, typical, rlib):
    """Compile every version with the real tool, then the Rust and the TypeScript."""
    env = {"PATH": os.environ["PATH"], "HOME": d, "LC_ALL": "C.UTF-8"}
    for i in range(nver):
        try:
            p = sh([typical, "generate", os.path.join(d, "schemas", str(i), "main.t"), "--rust", os.path.join(d, "v%d.rs" % i),
                    "--typescript", os.path.join(d, "v%d.ts" % i)], env=env, timeout=60)
        except subprocess.TimeoutExpired:
            raise Rejected("tool/hang", "the tool does not terminate on a valid schema")
        if p.returncode != 0:
            raise Rejected("tool/rejected", "the tool rejects a valid schema (version %d): %s" % (i, p.stdout[-1500:]))
        p = sh([NODE_TOOLS + "/esbuild", os.path.join(d, "v%d.ts" % i), "--format=cjs", "--outfile=" + os.path.join(d, "v%d.js" % i),
                "--log-level=error"])
        if p.returncode != 0:
            raise Rejected("tool/typescript", "the generated TypeScript does not parse: " + p.stdout[-1500:])
    p = sh(["rustc", "--edition", "2021", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "overflow-checks=on", "-C", "codegen-units=4",
            "--cap-lints=allow", "--extern", "rt=" + rlib, "-o", os.path.join(d, "world"), os.path.join(d, "main.rs")])
    if p.returncode != 0:
        raise Rejected("tool/rust", "the generated Rust does not compile: " + p.stdout[:2500])


def run_world(d, args, timeout):
    cmd = [os.path.join(d, "world"), "--dir", d, "--peer", PEER] + args
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout,
                           cwd=d, env={"PATH": os.environ["PATH"]})
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


def replay_file(w, case, extra):
    return dict(engine="wire", texts=w["texts"], world=w["world"], main_rs=w["main_rs"], world_seed=w["seed"], case=case, **extra)


def one_world(prop, wseed, opts, runs, typical, rlib, known, base, keep_log=False, tier_quick=True):
    """Returns a dict: stats/distinct/violations(list of (class,msg,replay))/error."""
    d = os.path.join(base, "w%d" % wseed)
    t0 = time.time()
    w = schemagen.gen_world(wseed, opts)
    info = dict(texts=w.texts, world=schemagen.descriptor(w), main_rs=schemagen.rust_main(w), seed=wseed)
    out = dict(stats={}, distinct=0, violations=[], samples=[], seed=wseed, error=None, changes=sum(len(c) for c in w.changes))
    try:
        write_world(d, info["texts"], info["world"], info["main_rs"])
        try:
            build_world(d, len(w.versions), typical, rlib)
        except Rejected as e:
            out["violations"].append((e.cls, e.msg, replay_file(info, None, {})))
            return out
        out["build_s"] = time.time() - t0
        rs = Rng("runs", prop, wseed).u64() & 0x7FFFFFFFFFFFFFFF
        args = ["--prop", prop, "--seed", str(rs), "--runs", str(runs), "--known", ",".join(known)]
        if keep_log:
            args += ["--log", os.path.join(base, "log-%d" % wseed)]
        rc, so, se = run_world(d, args, 90 if tier_quick else 3600)
        if rc == 0:
            r = json.loads(so.splitlines()[-1])
            out["stats"], out["distinct"], out["samples"] = r["stats"], r["distinct"], r["samples"]
            for v in r["violations"]:
                out["violations"].append((v["class"], v["msg"], replay_file(info, v["case"], dict(original=v["original"], run=v["run"], run_seed=rs))))
            out["run_s"] = time.time() - t0 - out["build_s"]
            return out
        if rc in (3, 101) or "harness:" in se:
            out["error"] = "world %d: exit %s: %s" % (wseed, rc, se[-1500:])
            return out
        # The process died or hung: the code under test did that. Find the case.
        tr = os.path.join(d, "trace.json")
        rc2, so, se = run_world(d, args + ["--trace", tr], 90 if tier_quick else 3600)
        case = json.load(open(tr)) if os.path.exists(tr) else None
        cls = "hang" if rc in ("timeout", 9) else "crash/%s" % rc
        out["violations"].append((cls, "the process running the generated code %s (exit %s): %s" % (
            "hangs" if rc in ("timeout", 9) else "dies", rc2, se[-500:]), replay_file(info, case, {})))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(rep, typical, rlib, known, base):
    """Rebuild and re-execute a replay file. Returns (class or None, message)."""
    d = os.path.join(base, "replay")
    shutil.rmtree(d, ignore_errors=True)
    write_world(d, rep["texts"], rep["world"], rep["main_rs"])
    try:
        try:
            build_world(d, len(rep["texts"]), typical, rlib)
        except Rejected as e:
            return e.cls, e.msg
        if rep.get("case") is None:
            return None, "ok"
        with open(os.path.join(d, "case.json"), "w") as f:
            json.dump(rep["case"], f)
        rc, so, se = run_world(d, ["--case", os.path.join(d, "case.json"), "--known", ",".join(known)], 120)
        if rc == 0:
            return None, so.strip()
        if rc == 1:
            r = json.loads(so.splitlines()[-1])
            return r["class"], r["msg"]
        if rc in (3, 101) or "harness:" in se:
            raise HarnessError(se[-1500:])
        return ("hang" if rc in ("timeout", 9) else "crash/%s" % rc), se[-500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(prop, tier, workers=8, keep_log=None):
    res = Result(prop, tier)
    typical, rlib = build_typical(), build_rt()
    base = keep_log or scratch()
    kf = [f for f in findings() if f["property"] == prop]
    known = os.environ["SIM_KNOWN"].split(",") if "SIM_KNOWN" in os.environ else [f["id"] for f in kf]
    worlds, runs = PLAN[prop][tier]
    worlds = int(os.environ.get("SIM_WORLDS", worlds))
    s0 = Rng("worlds", prop, seed()).u64() % 10**9
    total, distinct, samples, err, changes = {}, 0, [], None, 0
    budget = 700 if tier == "quick" else 1e9
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(one_world, prop, s0 + i, PLAN[prop]["opts"], runs, typical, rlib, known, base, keep_log is not None,
                          tier == "quick")
                for i in range(worlds)]
        done = 0
        for f in futs:
            try:
                r = f.result(timeout=max(1, budget - (time.time() - res.t0)))
            except concurrent.futures.TimeoutError:
                for g in futs:
                    g.cancel()
                break
            done += 1
            for k, v in r["stats"].items():
                total[k] = total.get(k, 0) + v
            distinct += r["distinct"]
            changes += r["changes"]
            if len(samples) < 2 and r["samples"]:
                samples.append(dict(world_seed=r["seed"], case=r["samples"][0]))
            if r["error"] and not err:
                err = r["error"]
            for cls, msg, rep in r["violations"]:
                res.violation(cls, msg, rep)
            if res.violations:
                for g in futs:
                    g.cancel()
                break
    if err and not res.violations:
        raise HarnessError(err)
    for f in kf:
        rep = json.load(open(os.path.join(VERIF, f["replay"])))
        cls, msg = replay(rep, typical, rlib, [], base)
        if cls is None:
            continue
        if cls.split("/")[0] == rep["expected_class"].split("/")[0]:
            res.known[f["id"]] = f["what"]
        else:
            res.violation(cls, msg, rep)
    res.coverage = dict(
        simulated_runs=total.get("runs", 0), worlds=done, evaluations=total.get("evaluations", 0), distinct_nontrivial=distinct,
        schema_changes=changes,
        rule="Each world is a seeded chain of schema versions compiled by the real tool; each run is one seeded cluster history of "
             "sends, deliveries, stored reads, crashes and upgrades. A case is one delivery. Distinct: by hash of versions, "
             "languages, entry points, value shape, segmentation, interruptions, fault and corrupted bytes.",
        simulated_time_s=total.get("sim_ms", 0) // 1000,
        faults={k[6:]: v for k, v in sorted(total.items()) if k.startswith("fault_")},
        probes={k: v for k, v in sorted(total.items()) if not k.startswith("fault_")},
        known_finding_hits={k[6:]: v for k, v in total.items() if k.startswith("known_")},
        real=["typical (tool, built from /repo)", "generated Rust code", "generated TypeScript code (node)"],
        stubbed=["network, storage, readers and writers, clock, other peers (simulated)"],
        samples=samples)
    res.assumptions = ["rustc, std's Read/Write adaptors, node and esbuild are trusted",
                       "expected values come from rt/src/model.rs, written from the README's encoding section"]
    return res
