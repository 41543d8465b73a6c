"""Check driver:  python -m sx.run <property> [--tier quick|thorough]

exit 0: held on everything explored; 1: VIOLATION (replayed on the real code);
other: the check could not give an answer."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPLAYS = os.path.join(VERIF, "replays")


class H:
    """A harness: fn(ctx, **cfg) with a list of configurations per tier."""

    def __init__(self, fn, quick, thorough=None, stubs=False, timeout_ms=20000, name=None):
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.stubs = stubs
        self.timeout_ms = timeout_ms
        self.name = name or fn.__name__


def load_check(prop):
    return importlib.import_module(f"checks.{prop}")


_CHECK = [None]


def _job(args):
    hi, cfg, prefixes, budget, deadline = args
    from .core import Ctx, explore
    from . import hook
    check = _CHECK[0]
    h = check.HARNESSES[hi]
    ctx = Ctx("sym", query_timeout_ms=h.timeout_ms, deadline=deadline)
    t0 = time.time()
    try:
        viol, status, degraded = explore(lambda c: h.fn(c, **cfg), ctx, prefixes=prefixes,
                                         budget_s=budget)
        left = ctx.work if status == "handoff" else []
        return dict(hi=hi, cfg=cfg, status=status, left=left, stats=ctx.stats.as_dict(),
                    viol=[dict(label=v.label, detail=str(v.detail), values=v.values,
                               exc=getattr(v, "exc", False)) for v in viol],
                    degraded=degraded, sources=dict(hook.SOURCES),
                    lines=dict(hook.FUNC_LINES), t=time.time() - t0)
    except BaseException as e:  # noqa: BLE001
        return dict(hi=hi, cfg=cfg, status="crash", left=[], stats=None,
                    error=traceback.format_exc()[-3000:] + repr(e), viol=[], degraded=[],
                    sources={}, lines={}, t=time.time() - t0)


def replay_batch(prop, items, timeout=400):
    """Run counterexamples against the real code in a fresh process."""
    if not items:
        return []
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "in.json")
        o = os.path.join(d, "out.json")
        with open(p, "w") as f:
            json.dump(dict(property=prop, items=items), f)
        env = dict(os.environ)
        try:
            r = subprocess.run([sys.executable, "-m", "sx.replay", p, o], cwd=VERIF, env=env,
                               timeout=timeout, capture_output=True, text=True)
        except subprocess.TimeoutExpired:
            return [dict(error="replay timeout")] * len(items)
        if not os.path.exists(o):
            return [dict(error="replay crashed: " + r.stderr[-1500:])] * len(items)
        with open(o) as f:
            return json.load(f)


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f).get("findings", []) if e.get("property") == prop]


def is_known(kf, hname, label, cfg):
    for e in kf:
        if e.get("harness") not in (None, hname):
            continue
        if e["label"] != label:
            continue
        if "cfg" in e and any(cfg.get(k) != v for k, v in e["cfg"].items()):
            continue
        return e
    return None


def main(argv=None):
    argv = argv or sys.argv[1:]
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    verbose = "-v" in argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = float(os.environ.get("SX_LIMIT", "700" if tier == "quick" else "5400"))
    deadline = t0 + limit
    from . import hook
    hook.install()
    from . import libs
    libs.loguru_off()
    try:
        check = load_check(prop)
        importlib.import_module("instancespace")
    except Exception:
        # the repository does not import / lacks the public API: not an answer
        traceback.print_exc()
        return 2
    _CHECK[0] = check
    jobs = []
    for hi, h in enumerate(check.HARNESSES):
        if only and h.name != only:
            continue
        for cfg in (h.quick if tier == "quick" else h.thorough):
            jobs.append((hi, cfg, [[]]))
    nproc = int(os.environ.get("SX_PROCS", "8"))
    budget = 6.0
    total = dict(jobs=0, configs=len(jobs))
    agg = {}
    entered, unsupported, stubs, labels, sources, lines = set(), {}, set(), {}, {}, {}
    per_h = {}
    samples, incomplete, crashes, sampled = [], [], [], {}
    viols, degr = [], []
    ctxm = mp.get_context("fork")
    with ctxm.Pool(nproc, maxtasksperchild=200) as pool:
        pending = []
        kf0 = known_findings(prop)
        tried = {}

        def confirmed_now(r):
            """Replay a new kind of counterexample at once: one confirmed is enough to stop."""
            h = check.HARNESSES[r["hi"]]
            its = []
            for v in r["viol"]:
                key = (r["hi"], v["label"])
                if is_known(kf0, h.name, v["label"], r["cfg"]) or not v["values"] \
                        or tried.get(key, 0) >= 3:
                    continue
                tried[key] = tried.get(key, 0) + 1
                its.append(dict(hi=r["hi"], cfg=_js(r["cfg"]), values=v["values"][0]))
            for q in replay_batch(prop, its[:6], timeout=120):
                if not q.get("error") and [f for f in q["failures"]
                                           if not is_known(kf0, h.name, f[0], r["cfg"])]:
                    return True
            return False

        def submit(hi, cfg, prefixes):
            pending.append(pool.apply_async(_job, ((hi, cfg, prefixes, budget, deadline),)))
        for j in jobs:
            submit(*j)
        stop = False
        while pending and not stop:
            done = [p for p in pending if p.ready()]
            if not done:
                time.sleep(0.02)
                continue
            for p in done:
                pending.remove(p)
                r = p.get()
                h = check.HARNESSES[r["hi"]]
                total["jobs"] += 1
                if r["status"] == "crash":
                    crashes.append(r)
                    continue
                st = r["stats"]
                for k, v in st.items():
                    if isinstance(v, (int, float)):
                        agg[k] = agg.get(k, 0) + v
                ph = per_h.setdefault(h.name, dict(paths=0, obligations=0, reached=0, configs=[],
                                                   solver_s=0.0))
                ph["paths"] += st["paths"]
                ph["obligations"] += st["obligations"]
                ph["reached"] += st["reached"]
                ph["solver_s"] = round(ph["solver_s"] + st["solver_s"], 2)
                if r["cfg"] not in ph["configs"]:
                    ph["configs"].append(r["cfg"])
                entered |= set(st["entered"])
                stubs |= set(st["stubs"])
                for k, v in st["unsupported"].items():
                    unsupported[k] = unsupported.get(k, 0) + v
                for k, v in st["labels"].items():
                    labels[k] = labels.get(k, 0) + v
                sources.update(r["sources"])
                lines.update(r["lines"])
                if st["samples"] and sampled.get(r["hi"], 0) < 4:
                    sampled[r["hi"]] = sampled.get(r["hi"], 0) + 1
                    samples.append(dict(hi=r["hi"], cfg=_js(r["cfg"]), values=st["samples"][0]))
                for v in r["viol"]:
                    viols.append((r["hi"], r["cfg"], v))
                for d in r["degraded"]:
                    degr.append((r["hi"], r["cfg"], d))
                if verbose:
                    print(f"  {h.name} {_js(r['cfg'])} {r['status']} paths={st['paths']} "
                          f"ob={st['obligations']} viol={len(r['viol'])} "
                          f"solver={st['solver_s']:.1f}s t={r['t']:.1f}s left={len(r['left'])}",
                          flush=True)
                if r["viol"] and not stop and tier == "quick" and confirmed_now(r):
                    stop = True
                    viols[:] = viols[-len(r["viol"]):]
                if r["status"] == "handoff" and time.time() < deadline:
                    left = r["left"]
                    n = min(len(left), 8)
                    for c in range(n):
                        submit(r["hi"], r["cfg"], left[c::n])
                elif r["status"] not in ("complete",):
                    incomplete.append(f"{h.name} {_js(r['cfg'])}: {r['status']}")
        pool.terminate()
    # --- replay candidates
    kf = known_findings(prop)
    items, meta = [], []
    nomodel = {}
    for hi, cfg, v in viols[:60]:
        if not v["values"]:
            k = (check.HARNESSES[hi].name, v["label"])
            nomodel[k] = nomodel.get(k, 0) + 1
        for vals in v["values"][:2]:
            items.append(dict(hi=hi, cfg=_js(cfg), values=vals))
            meta.append((hi, cfg, v))
    for hi, cfg, (msg, vals) in degr[:60]:
        if vals is not None:
            items.append(dict(hi=hi, cfg=_js(cfg), values=vals))
            meta.append((hi, cfg, dict(label="degraded: " + msg, detail="", deg=True)))
    # models of reachable paths are re-run on the real code too: validates the encoding
    ncand = len(items)
    res = replay_batch(prop, items + samples)
    sres = res[ncand:]
    agree = sum(1 for r in sres if not r.get("error") and not r["failures"]
                and not r.get("aborted"))
    diverge = [(s, r) for s, r in zip(samples, sres) if r.get("error") or r["failures"]]
    confirmed, unrepro, known_hit = [], {}, {}
    for it, (hi, cfg, v), r in zip(items, meta, res):
        h = check.HARNESSES[hi]
        key = (hi, json.dumps(_js(cfg), sort_keys=True), v["label"], v["detail"][:80])
        if r.get("error"):
            unrepro.setdefault(key, []).append(r["error"])
            continue
        fails = r["failures"]
        if fails:
            new = [f for f in fails if not is_known(kf, h.name, f[0], cfg)]
            for f in fails:
                e = is_known(kf, h.name, f[0], cfg)
                if e:
                    known_hit[e["id"]] = e
            if new:
                confirmed.append((it, h, cfg, new[0]))
            unrepro.pop(key, None)
            unrepro[key] = None
        elif not v.get("deg"):
            if key not in unrepro or unrepro[key] is not None:
                unrepro.setdefault(key, []).append("did not reproduce")
    unrepro = {k: v for k, v in unrepro.items() if v}
    if any(k[2].startswith("degraded") for k in unrepro):
        unrepro = {k: v for k, v in unrepro.items()
                   if not (k[2].startswith("degraded") and v)}
    code = 0
    nviol = 0
    if confirmed:
        os.makedirs(REPLAYS, exist_ok=True)
        it, h, cfg, f = confirmed[0]
        path = os.path.join(REPLAYS, f"{prop}.json")
        with open(path, "w") as fo:
            json.dump(dict(property=prop, items=[it], failure=f,
                           how="cd /verif && bin/replay " + path), fo, indent=1)
        nviol = len({(c[1].name, c[3][0]) for c in confirmed})
        print(f"counterexample [{h.name} {_js(cfg)}]: {f[0]} {f[1]}"[:1500])
        print("inputs: " + json.dumps(it["values"])[:1500])
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    for e in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    vac = [n for n, p in per_h.items() if p["reached"] == 0]
    if code == 0:
        if crashes:
            for c in crashes[:3]:
                print("CRASH", check.HARNESSES[c["hi"]].name, _js(c["cfg"]), c["error"][-1800:])
            code = 3
        elif unrepro:
            # artefact of the abstraction (exact reals, uninterpreted functions): refuted by the
            # real code, so no violation; the obligation stays undischarged in the evidence
            for k, v in list(unrepro.items())[:6]:
                print("UNREPRODUCED", check.HARNESSES[k[0]].name, k[1:], v[:2])
            code = 4 if os.environ.get("SX_STRICT") else 0
        elif vac and not unsupported:
            print("VACUOUS harnesses:", vac)
            code = 5
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(check, "LEVEL", "other"),
        coverage=dict(
            explanation=getattr(check, "EXPLANATION", "").strip(),
            functions_encoded=sorted(f"{q} (line {lines.get(q, '?')})" for q in entered),
            sources={v[0]: v[1] for k, v in sorted(sources.items())
                     if any(q.startswith(k + ":") for q in entered)},
            bounds=getattr(check, "BOUNDS", ""),
            outside=getattr(check, "OUTSIDE", ""),
            harnesses=_js(per_h),
            infeasible_paths=agg.get("infeasible", 0),
            obligations=agg.get("obligations", 0), discharged=agg.get("discharged", 0),
            decided_by_normal_form=agg.get("normal_form", 0),
            decided_by_path_condition=agg.get("trivial_obligations", 0),
            solver_queries=agg.get("feas_queries", 0) + agg.get("obligation_queries", 0),
            obligation_queries=agg.get("obligation_queries", 0),
            solver_unknown=agg.get("unknown", 0),
            solver_seconds=round(agg.get("solver_s", 0.0), 2),
            reachability_witnesses=agg.get("reached", 0),
            paths_concretised=agg.get("concretised_paths", 0),
            unsupported=unsupported, incomplete=incomplete,
            undecided_without_model=[[*k, n] for k, n in nomodel.items()],
            candidates_refuted_by_replay=[list(map(str, k)) for k in list(unrepro)[:20]],
            exhaustive=not incomplete and not unsupported and not unrepro
            and not nomodel and code in (0, 1),
            obligations_by_label=dict(sorted(labels.items())),
            states=agg.get("paths", 0), transitions=agg.get("forks", 0),
            traces_validated_against_impl=len(res),
            sample_traces=dict(run=len(samples), agree=agree,
                               diverge=[r for _, r in diverge[:3]]),
            samples=[dict(harness=check.HARNESSES[s["hi"]].name, cfg=s["cfg"],
                          inputs=dict(list(s["values"].items())[:14]))
                     for s in samples[:5]] or [dict(note="no reachable sample")],
            stubs=sorted(stubs)),
        assumptions=list(getattr(check, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: paths={agg.get('paths', 0)} obligations={agg.get('obligations', 0)} "
          f"discharged={agg.get('discharged', 0)} queries="
          f"{agg.get('feas_queries', 0) + agg.get('obligation_queries', 0)} "
          f"solver={agg.get('solver_s', 0):.1f}s concretised={agg.get('concretised_paths', 0)} "
          f"wall={time.time() - t0:.1f}s exit={code}")
    for sm, r in diverge[:3]:
        print("  NOTE sampled model behaves differently on the real code:",
              check.HARNESSES[sm["hi"]].name, sm["cfg"],
              (r.get("error") or str(r.get("failures")))[-600:], json.dumps(sm["values"])[:600])
    for k, n in nomodel.items():
        print("  UNDECIDED (no concrete model extracted):", *k, n)
    if verbose or unsupported:
        for k, v in list(unsupported.items())[:8]:
            print("  unsupported:", k, v)
        for i in incomplete[:5]:
            print("  incomplete:", i)
    return code


def _js(o):
    return json.loads(json.dumps(o, default=str))


if __name__ == "__main__":
    sys.exit(main())
