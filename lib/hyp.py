"""The hypothesis side of the checks: runs facets, shards them, shrinks, writes replays and evidence."""
import argparse, collections, contextlib, hashlib, importlib.util, io, json, multiprocessing, os, shutil, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "standins"))
from hypothesis import HealthCheck, Phase, given, seed, settings, strategies as st
from py import modules
from py.frames import StandInGap

FLAGS = modules.install()
WORK = None  # this worker's scratch directory
ID, RULE, ASSUMPTIONS, FACETS = None, "", [], {}  # facet: (strategy, check, quick, thorough)


class Broken(Exception): pass
def need(ok, fmt, *a):
    if not ok: raise Broken(fmt % a if a else fmt)


def script(name):
    """A script of the tree under test, loaded afresh, with its flags at their defaults."""
    FLAGS.known.clear(); modules.reset()
    spec = importlib.util.spec_from_file_location("script_" + name, os.path.join(REPO, "scripts", name + ".py"))
    m = importlib.util.module_from_spec(spec); sys.modules[spec.name] = m
    spec.loader.exec_module(m)
    def missing(n):  # another way to write the script: nothing to decide by this name
        if n.startswith("__"): raise AttributeError(n)
        raise StandInGap("%s.%s" % (name, n))
    m.__getattr__ = missing
    return m


def run_main(m):
    out = io.StringIO()
    with contextlib.redirect_stdout(out): m.main(["script"])
    return out.getvalue()


def path(name): return os.path.join(WORK, name)


def one(name, case):
    """Runs one case: ('ok', nontrivial, labels) / ('fail', message) / ('gap', what) / ('discard',)."""
    labels = []
    try: r = FACETS[name][1](json.loads(json.dumps(case)), labels.append)
    except Broken as e: return "fail", str(e), labels
    except StandInGap as e: return "gap", str(e), labels
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        ours = os.path.join(REPO, "scripts")
        where = [f for f in tb if f.filename.startswith(ours)]
        if not where and isinstance(e, (NameError, ImportError)): raise
        return "fail", "%s: %s%s" % (type(e).__name__, e, " (%s:%d)" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else ""), labels
    return ("discard", None, labels) if r is None else ("ok", bool(r), labels)


def worker(job):
    name, sd, count, deadline = job
    global WORK
    WORK = tempfile.mkdtemp(prefix=ID.lower() + "-")
    out = {"facet": name, "evaluations": 0, "discarded": 0, "nontrivial": 0, "hashes": [], "labels": collections.Counter(), "samples": [], "gaps": collections.Counter(), "failure": None, "stopped": False}
    last = {}
    @seed(sd)
    @settings(max_examples=count, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False, report_multiple_bugs=False)
    @given(FACETS[name][0]())
    def body(case):
        if time.time() > deadline: out["stopped"] = True; return
        kind, info, labels = one(name, case)
        out["evaluations"] += 1
        if kind == "fail":
            last["case"], last["message"] = case, info
            raise Broken(info)
        if kind == "gap": out["gaps"][info] += 1; out["discarded"] += 1; return
        if kind == "discard": out["discarded"] += 1; return
        for l in labels: out["labels"][l] += 1
        if info:
            out["nontrivial"] += 1
            out["hashes"].append(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16])
            if len(out["samples"]) < 2: out["samples"].append(json.dumps(case)[:400])
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err): body()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt): raise
        if last:
            again = [one(name, last["case"])[0] for _ in range(3)]
            if again == ["fail"] * 3: out["failure"] = (last["case"], last["message"])
            else: out["flaky"] = last["message"]
        else: out["broken"] = "".join(traceback.format_exception(e))[-2000:]
    shutil.rmtree(WORK, ignore_errors=True)
    return out


def main():
    global WORK
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay"); ap.add_argument("--evidence", default="evidence/%s.json" % ID); ap.add_argument("--replay-dir", default="replays")
    ap.add_argument("--workers", type=int, default=8); ap.add_argument("--limit", type=float); ap.add_argument("--scale", type=float, default=1.0); ap.add_argument("--facet"); ap.add_argument("--findings"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay)); WORK = tempfile.mkdtemp(prefix=ID.lower() + "-")
        kind, info, _ = one(d["facet"], d["case"]); shutil.rmtree(WORK, ignore_errors=True)
        print("facet %s: %s" % (d["facet"], info if kind == "fail" else "held" if kind == "ok" else "%s %s" % (kind, info)))
        if kind == "fail": print("VIOLATION property=%s replay=%s" % (ID, a.replay)); return 1
        return 0
    t0 = time.time(); limit = a.limit or (240 if a.tier == "quick" else 800)
    shards, jobs = 8, []
    for name, (_, _, q, th) in FACETS.items():
        if a.facet and a.facet != name: continue
        n = max(1, int((q if a.tier == "quick" else th) * a.scale) // shards)
        jobs += [(name, a.seed * 1000003 + hash_of(name) + k, n, t0 + limit) for k in range(shards)]
    with multiprocessing.get_context("fork").Pool(a.workers) as pool: results = pool.map(worker, jobs, chunksize=1)
    facets, violations, samples, rc = [], 0, [], 0
    for name in FACETS:
        rs = [r for r in results if r["facet"] == name]
        if not rs: continue
        labels = sum((r["labels"] for r in rs), collections.Counter()); gaps = sum((r["gaps"] for r in rs), collections.Counter())
        hashes = {h for r in rs for h in r["hashes"]}
        f = {"name": name, "evaluations": sum(r["evaluations"] for r in rs), "discarded": sum(r["discarded"] for r in rs), "nontrivial": sum(r["nontrivial"] for r in rs), "distinct_nontrivial": len(hashes),
             "stopped_by_time_limit": any(r["stopped"] for r in rs), "labels": dict(labels)}
        if gaps: f["stand_in_gaps"] = dict(gaps); print("NOTE: %s: the stand-ins do not have %s: nothing decided on those cases" % (name, ", ".join(gaps)))
        facets.append(f); samples += [name + ": " + s for r in rs[:2] for s in r["samples"][:1]]
        print("%s/%s: %d cases (%d discarded), %d non-trivial, %d distinct" % (ID, name, f["evaluations"], f["discarded"], f["nontrivial"], f["distinct_nontrivial"]))
        for r in rs:
            if r.get("flaky"): print("NOTE: %s: did not repeat: %s" % (name, r["flaky"]))
            if r.get("broken"): print("the harness failed:\n" + r["broken"]); rc = 2
        bad = min((r["failure"] for r in rs if r["failure"]), key=lambda x: len(json.dumps(x[0])), default=None)
        if bad:
            violations += 1
            os.makedirs(a.replay_dir, exist_ok=True)
            p = os.path.join(a.replay_dir, "%s-%s.replay" % (ID, name.replace(" ", "-")))
            json.dump({"facet": name, "case": bad[0], "message": bad[1]}, open(p, "w"))
            print("facet %s: %s\n  case: %s\nVIOLATION property=%s replay=%s" % (name, bad[1], json.dumps(bad[0])[:600], ID, p))
    ev = {"property": ID, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": {"evaluations": sum(f["evaluations"] for f in facets), "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in facets),
          "discarded": sum(f["discarded"] for f in facets), "rule": RULE,
          "facets": facets, "samples": samples},
          "assumptions": ASSUMPTIONS, "wall_s": time.time() - t0, "violations": violations}
    os.makedirs(os.path.dirname(a.evidence) or ".", exist_ok=True)
    json.dump(ev, open(a.evidence, "w"), indent=1)
    print("%s %s: %s, %.1fs" % (ID, a.tier, "violated" if violations else "held", time.time() - t0))
    return 1 if violations else rc


def hash_of(s): return int(hashlib.sha1(s.encode()).hexdigest()[:6], 16)
