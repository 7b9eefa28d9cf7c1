"""Decide one property: explore its harnesses, replay what the solver finds, report."""
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import tempfile
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("SYMX_OUT", VERIF)  # where evidence and replays go
REPO = os.environ.get("GLIMPSE_REPO", "/repo")


class H:
    """One harness: a function of S, explored once per configuration."""

    def __init__(self, name, fn, configs=None, thorough=None, budget_s=60, max_paths=3000,
                 timeout_ms=8000, bounds="", witness=30, sampled=False):
        self.name, self.fn = name, fn
        self.configs = configs or [{}]
        self.thorough = thorough
        self.budget_s, self.max_paths, self.timeout_ms = budget_s, max_paths, timeout_ms
        self.bounds = bounds
        self.witness = witness
        self.sampled = sampled

    def all_configs(self, tier):
        if tier == "thorough" and self.thorough is not None:
            return list(self.configs) + list(self.thorough)
        return list(self.configs)


def _scrub_env():
    os.environ.setdefault("MPLBACKEND", "agg")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True


def load(prop):
    return importlib.import_module("props." + prop)


def _child(q, kind, prop, hname, config, extra):
    try:
        mod = load(prop)
        h = {h.name: h for h in mod.HARNESSES}[hname]
        from . import sym

        if kind == "sym":
            sym.patch_modules()
            r = sym.explore(
                h.fn, config, max_paths=extra["max_paths"], budget_s=extra["budget_s"],
                timeout_ms=h.timeout_ms, max_witness=extra["witness"],
                repo_root=os.path.join(REPO, "src"),
            )
        else:
            r = []
            for i, v in enumerate(extra["values"]):
                o = sym.run_concrete(h.fn, config, v)
                if o["outcome"] in ("fail", "exception") and i >= extra["ncand"]:
                    # not predicted by the solver: rounding at a degenerate point?
                    if not _persists(sym, h, config, v, o):
                        o = dict(outcome="unstable", first=o)
                r.append(o)
        q.send(("ok", r))
    except BaseException:
        q.send(("crash", traceback.format_exc()))
    finally:
        q.close()
        os._exit(0)


def _persists(sym, h, config, values, o):
    """Does the failure survive small changes of the real-valued inputs?"""
    import random

    rnd = random.Random(1)
    labels = {f[0] for f in o.get("failures", [])} | ({o["label"]} if "label" in o else set())
    for scale in (1e-6, 1e-4, 1e-3):
        tried = failed = 0
        for n in range(60):
            # all inputs at first, then some (inputs may lie at their bounds)
            if tried >= 12 or n >= 24 and tried >= 4:
                break
            w, part = {}, 1 if n < 24 else 0.75
            for k, x in values.items():
                if isinstance(x, str) and x != "None" and rnd.random() < part:
                    f = float(Fraction(x))
                    x = str(Fraction(f + scale * (1 + abs(f)) * rnd.uniform(-1, 1)))
                w[k] = x
            p = sym.run_concrete(h.fn, config, w)
            if p["outcome"] == "skip":
                continue
            got = {f[0] for f in p.get("failures", [])} | ({p["label"]} if "label" in p else set())
            tried += 1
            failed += p["outcome"] in ("fail", "exception") and bool(got & labels)
        if os.environ.get("SYMX_DUMP"): print("PERS", scale, tried, failed, labels)
        if failed < 0.15 * tried or not tried:
            return False
    return True


class Pool:
    """A process per task, forked from this (unpatched) process."""

    def __init__(self, n):
        self.n = n
        self.ctx = mp.get_context("fork")

    def run(self, tasks, until=None):
        """tasks: list of (key, kind, prop, harness, config, extra, limit_s)."""
        todo = list(tasks)
        live, out = {}, {}
        while todo or live:
            if until is not None and time.time() > until:
                for task in todo:
                    out[task[0]] = ("timeout", "not started: the time of the check is up")
                todo = []
                live = {k: (p, a, min(end, until)) for k, (p, a, end) in live.items()}
                if not live:
                    break
            while todo and len(live) < self.n:
                key, kind, prop, hname, config, extra, limit = todo.pop(0)
                a, b = self.ctx.Pipe(duplex=False)
                p = self.ctx.Process(target=_child, args=(b, kind, prop, hname, config, extra))
                p.start()
                b.close()
                live[key] = (p, a, time.time() + limit)
            ready = mp.connection.wait([v[1] for v in live.values()], timeout=1.0)
            for key in list(live):
                p, a, end = live[key]
                if a in ready:
                    try:
                        out[key] = a.recv()
                    except EOFError:
                        out[key] = ("crash", "worker died")
                    p.join(5)
                    if p.is_alive():
                        p.kill()
                    a.close()
                    del live[key]
                elif time.time() > end:
                    p.kill()
                    p.join()
                    a.close()
                    out[key] = ("timeout", "killed after its time limit")
                    del live[key]
        return out


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def _matches(k, hname, label, config):
    return (
        k["harness"] == hname
        and k["label"] == label
        and all(config.get(a) == b for a, b in k.get("config", {}).items())
    )


def main(prop, tier=None, only=None, verbose=False):
    t0 = time.time()
    _scrub_env()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, os.path.join(REPO, "src"))
    sys.path.insert(1, VERIF)
    scratch = tempfile.mkdtemp(prefix="symx-")
    os.environ.setdefault("MPLCONFIGDIR", scratch)
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    try:
        return _main(prop, tier, seed, only, verbose, t0)
    finally:
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, seed, only, verbose, t0):
    import warnings

    warnings.simplefilter("ignore")
    import glimpse  # noqa: F401  (imported before forking)

    if not os.path.abspath(glimpse.__file__).startswith(os.path.join(REPO, "src")):
        print("ERROR: glimpse imported from", glimpse.__file__)
        return 2
    from . import sym  # noqa: F401

    mod = load(prop)
    scale = getattr(mod, "THOROUGH_SCALE", 4) if tier == "thorough" else 1
    pool = Pool(int(os.environ.get("SYMX_JOBS", "8")))
    tasks, jobs = [], {}
    for h in mod.HARNESSES:
        if only and not fnmatch.fnmatch(h.name, only):
            continue
        for i, config in enumerate(h.all_configs(tier)):
            key = (h.name, i)
            jobs[key] = (h, config)
            b = h.budget_s * scale
            tasks.append(
                (key, "sym", prop, h.name, config,
                 dict(max_paths=h.max_paths * scale, budget_s=b, witness=h.witness), b + 45)
            )
    tasks.sort(key=lambda t: -jobs[t[0]][0].budget_s)
    quick = tier == "quick"
    res = pool.run(tasks, until=t0 + 560 if quick else None)

    # replay on the unpatched code
    rtasks = []
    for key, (status, r) in res.items():
        if status != "ok":
            continue
        h, config = jobs[key]
        vals = [c["values"] for c in r["candidates"]] + [w["values"] for w in r["witnesses"]]
        if vals:
            rtasks.append((key, "con", prop, h.name, config, dict(values=vals, ncand=len(r["candidates"])), 240))
    rres = pool.run(rtasks, until=t0 + 800 if quick else None)

    violations, known, incon, errors = [], [], [], []
    known_list = known_findings(prop)
    validated = 0
    agg = {}
    funcs, samples, perjob, concretised = set(), [], [], set()
    exhaustive = True
    shown = set()
    for key in sorted(res):
        status, r = res[key]
        h, config = jobs[key]
        tag = "%s%s" % (h.name, json.dumps(config, default=str) if config else "")
        if status != "ok":
            incon.append("%s: %s" % (tag, r if verbose else r.strip().splitlines()[-1]))
            exhaustive = False
            if verbose:
                print(r)
            continue
        for k, v in r["stats"].items():
            agg[k] = agg.get(k, 0) + v
        funcs |= set(r["functions"])
        concretised |= set(r["concretised"])
        if not r["complete"]:
            exhaustive = False
        for m in r["inconclusive"]:
            incon.append("%s: %s" % (tag, m))
        rr = rres.get(key)
        nc = len(r["candidates"])
        if rr is None or rr[0] != "ok":
            if rr is not None:
                incon.append("%s: replay %s" % (tag, rr[1].strip().splitlines()[-1]))
            outcomes = []
        else:
            outcomes = rr[1]
        if verbose:
            print("--", tag, "paths", r["stats"]["paths"], "obl", r["stats"]["obligations"],
                  "disch", r["stats"]["discharged"], "alg", r["stats"]["algebraic"],
                  "unk", r["stats"]["unknown"], "cand", nc, "wit", len(r["witnesses"]),
                  "%.1fs" % r["wall_s"], "" if r["complete"] else "INCOMPLETE",
                  r["inconclusive"][:3], r["concretised"][:3])
        nok = 0
        for i, o in enumerate(outcomes):
            cand = r["candidates"][i] if i < nc else None
            wit = r["witnesses"][i - nc] if i >= nc else None
            if o["outcome"] == "ok":
                if cand is not None:
                    incon.append("%s: counterexample to '%s' does not reproduce (%s)"
                                 % (tag, cand["label"], cand["detail"]))
                    exhaustive = False
                    if verbose and (tag, cand["label"]) not in shown:
                        shown.add((tag, cand["label"]))
                        print("   not reproduced:", cand["label"], cand["detail"], cand["values"])
                        if cand.get("tb"):
                            print("\n".join(cand["tb"].splitlines()[-8:]))
                else:
                    validated += 1
                    nok += 1
                    if len(samples) < 12 and nok <= 2:
                        samples.append(dict(harness=h.name, config=config, inputs=wit["values"]))
            elif o["outcome"] == "unstable":
                incon.append("%s: a path witness fails only through rounding (%s)" % (tag, o["first"].get("failures") or o["first"].get("label")))
                exhaustive = False
            elif o["outcome"] == "skip":
                if cand is not None:
                    incon.append("%s: counterexample to '%s' outside assumptions in floats" % (tag, cand["label"]))
            elif o["outcome"] == "error":
                incon.append("%s: harness error %s %s" % (tag, o["label"], o["detail"]))
                exhaustive = False
                if verbose:
                    print("   harness error", o)
            else:
                fails = list(o.get("failures", []))
                if o["outcome"] == "exception":
                    fails.append((o["label"], o["detail"]))
                vals = (cand or wit)["values"]
                # is any failing label not a listed finding?
                fresh = []
                for lab, det in fails:
                    ks = [k for k in known_list if _matches(k, h.name, lab, config)]
                    if ks:
                        for k in ks:
                            if k not in known:
                                known.append(k)
                    else:
                        fresh.append((lab, det))
                if fresh:
                    violations.append(dict(property=prop, harness=h.name, config=config,
                                           values=vals, label=fresh[0][0], detail=fresh[0][1],
                                           source="solver counterexample" if cand else "path witness"))
        if "vacuous" not in r and not any(True for _ in r["reached"]) and r["complete"]:
            incon.append("%s: reachability witness missing (vacuous?)" % tag)
            errors.append("%s: no path reached the end of the harness" % tag)
        perjob.append(dict(harness=h.name, config=config, paths=r["stats"]["paths"],
                           obligations=r["stats"]["obligations"], discharged=r["stats"]["discharged"],
                           complete=r["complete"], seconds=round(r["wall_s"], 2)))

    # report
    rc = 0
    rdir = os.path.join(OUT, "replays")
    seen = set()
    for v in violations:
        sig = (v["harness"], v["label"])
        if sig in seen:
            continue
        seen.add(sig)
        os.makedirs(rdir, exist_ok=True)
        name = re.sub(r"[^A-Za-z0-9]+", "-", "%s-%s-%s" % (prop, v["harness"], v["label"]))[:100]
        path = os.path.join(rdir, name + ".json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s -- %s (config %s, %s)" % (v["harness"], v["label"], v["detail"], v["config"], v["source"]))
        rc = 1
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for m in sorted(set(incon))[:20]:
        print("INCONCLUSIVE %s" % m[:400])
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=agg.get("paths", 0),
            transitions=agg.get("branches", 0),
            traces_validated_against_impl=validated,
            samples=samples,
            functions_encoded=sorted(funcs),
            bounds={h.name: h.bounds for h in mod.HARNESSES},
            queries=agg.get("queries", 0),
            solver_s=round(agg.get("solver_s", 0), 2),
            solver_unknown=agg.get("unknown", 0),
            obligations=agg.get("obligations", 0),
            discharged=agg.get("discharged", 0),
            discharged_by_constant_folding=agg.get("trivial", 0),
            terms_discharged_by_normal_form=agg.get("algebraic", 0),
            jobs=perjob,
            all_paths_within_bounds=exhaustive and not incon,
            inconclusive=sorted(set(incon))[:50],
            concretised=sorted(concretised),
            explanation=(
                "states = paths of the real functions executed symbolically; transitions = "
                "branch decisions put to z3; traces_validated_against_impl = path witnesses "
                "(solver models) re-run on the unpatched code with the same oracle."
            ),
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []) + [
            "symbolic numbers are exact reals/integers: IEEE rounding is outside the claim",
            "numpy's value-dependent functions are replaced by the element-wise encodings of symx/arr.py",
        ],
        wall_s=round(time.time() - t0, 2),
        violations=len(seen),
        known_findings=[k["what"] for k in known],
    )
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("property=%s tier=%s paths=%d queries=%d obligations=%d discharged=%d validated=%d "
          "complete=%s wall=%.1fs" % (prop, tier, agg.get("paths", 0), agg.get("queries", 0),
                                      agg.get("obligations", 0), agg.get("discharged", 0),
                                      validated, exhaustive and not incon, time.time() - t0))
    if rc == 0 and not agg.get("paths"):
        print("ERROR: nothing was explored")
        return 2
    return rc
