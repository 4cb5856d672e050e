"""check driver: explore symbolically, replay on the real package, write evidence."""
import sys, os, json, time, importlib, traceback, subprocess, tempfile, shutil, argparse, random, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
NPROC = int(os.environ.get("SX_PROCS", "8"))


class H:
    """one harness: fn(path, world, **cfg)"""
    def __init__(self, name, fn, configs=({},), thorough=(), opts=None, labels=(), samples=6, conc=True):
        self.name, self.fn = name, fn
        self.configs, self.thorough = list(configs), list(thorough)
        self.opts = opts or {}
        self.labels = labels
        self.samples = samples
        self.conc = conc


def load_check(pid):
    return importlib.import_module("checks." + pid)


def items(mod, tier):
    out = []
    for hi, h in enumerate(mod.HARNESSES):
        cfgs = h.configs + (h.thorough if tier == "thorough" else [])
        for ci, c in enumerate(cfgs):
            out.append((hi, c))
    return out


_W = None
_tbs = set()
_MOD = None


def _task(a):
    hi, cfg, tier = a
    from sx import engine, world, core
    h = _MOD.HARNESSES[hi]
    st = engine.Stats()
    opts = dict(h.opts)
    opts["tier"] = tier
    world.ENCODED.clear()
    sys.monitoring.restart_events()
    t0 = time.time()
    try:
        r = engine.explore(lambda p, w: h.fn(p, w, **cfg), _W, st, opts)
    except BaseException as e:
        r = dict(violations=[], inconclusive=[], unsupported=["engine failure: " + "".join(traceback.format_exception(e)[-6:])], notes=[], labels={}, witnesses=[])
    r["stats"] = st.__dict__
    r["encoded"] = sorted(world.ENCODED)
    r["wall"] = time.time() - t0
    r["harness"], r["cfg"] = h.name, cfg
    r["hi"] = hi
    return r


def run_pool(tasks, budget):
    """fork one process per task, at most NPROC at a time"""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    res = [None] * len(tasks)
    running = {}
    nxt = 0
    deadline = time.time() + budget

    def child(conn, t):
        try:
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            conn.send(_task(t))
        except BaseException as e:
            try:
                conn.send(dict(violations=[], inconclusive=[], unsupported=["worker: %r" % e], notes=[], labels={}, witnesses=[], stats={}, encoded=[], wall=0, harness="?", cfg=t[1], hi=t[0]))
            except BaseException:
                pass
        finally:
            conn.close()
            os._exit(0)

    while nxt < len(tasks) or running:
        while nxt < len(tasks) and len(running) < NPROC:
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, tasks[nxt]))
            p.start()
            b.close()
            running[nxt] = (p, a)
            nxt += 1
        done = []
        for k, (p, a) in running.items():
            if a.poll(0.0):
                try:
                    res[k] = a.recv()
                except EOFError:
                    pass
                done.append(k)
            elif not p.is_alive() and not a.poll(0):
                done.append(k)
        for k in done:
            p, a = running.pop(k)
            p.join(1)
            if p.is_alive():
                p.kill()
            if res[k] is None:
                res[k] = dict(violations=[], inconclusive=[], unsupported=["worker died"], notes=[], labels={}, witnesses=[], stats={}, encoded=[], wall=0,
                              harness=_MOD.HARNESSES[tasks[k][0]].name, cfg=tasks[k][1], hi=tasks[k][0])
        if not done:
            time.sleep(0.01)
        if time.time() > deadline:
            for k, (p, a) in running.items():
                p.kill()
                res[k] = dict(violations=[], inconclusive=["time budget exceeded"], unsupported=[], notes=[], labels={}, witnesses=[], stats={}, encoded=[], wall=budget,
                              harness=_MOD.HARNESSES[tasks[k][0]].name, cfg=tasks[k][1], hi=tasks[k][0])
            for k in range(nxt, len(tasks)):
                res[k] = dict(violations=[], inconclusive=["time budget exceeded"], unsupported=[], notes=[], labels={}, witnesses=[], stats={}, encoded=[], wall=0,
                              harness=_MOD.HARNESSES[tasks[k][0]].name, cfg=tasks[k][1], hi=tasks[k][0])
            break
    return res


# ------------------------------------------------------------------ replay on the real code
def conc_run(mod, hi, cfg, values, seed, w):
    from sx import engine, core
    h = mod.HARNESSES[hi]
    p = engine.ConcPath(values, seed)
    core.CUR = None
    try:
        h.fn(p, w, **cfg)
    except core.PathAbort:
        return dict(status="skipped", failures=p.failures, used=p.used)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return dict(status="ran", failures=p.failures + ["exception %s: %s" % (type(e).__name__, str(e)[:300])], used=p.used,
                    tb="".join(traceback.format_exception(e)[-6:]))
    return dict(status="ran", failures=p.failures, used=p.used, checked=p.checked)


def replay_main(pid, path):
    """executed in a fresh interpreter against the real package; prints JSON"""
    from sx import world
    w = world.load_real()
    import io, contextlib
    job = json.load(open(path))
    mod = load_check(pid)
    out = []
    sink = io.StringIO()
    import warnings
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(sink):
        import numpy
        numpy.seterr(all="ignore")
        def late(*a):
            raise TimeoutError("replayed run does not end")
        signal.signal(signal.SIGALRM, late)
        t0 = time.time()
        warmed = set()
        for c in job["cases"]:
            key = (c["hi"], json.dumps(c["cfg"], sort_keys=True, default=str))
            if key not in warmed and c.get("label"):
                # counterexamples: an earlier call with other values must not show (as in the symbolic run)
                warmed.add(key)
                signal.alarm(25)
                try:
                    conc_run(mod, c["hi"], c["cfg"], {}, 4242, w)
                except BaseException:
                    pass
                signal.alarm(0)
            if time.time() - t0 > job.get("timeout", 300) - 90:
                out.append(dict(status="skipped", failures=[], used={}, case=c))
                continue
            signal.alarm(60)
            r = conc_run(mod, c["hi"], c["cfg"], c["values"], c.get("seed", 0), w)
            signal.alarm(0)
            if r["failures"] and r["failures"][-1].startswith("exception TimeoutError: replayed run"):
                r["status"] = "skipped"
            r["case"] = c
            out.append(r)
    json.dump(out, open(path + ".out", "w"), default=str)
    bad = [r for r in out if r["status"] == "ran" and r["failures"]]
    for r in bad:
        print("REPRODUCED harness=%s cfg=%s inputs=%s: %s" % (r["case"].get("harness"), r["case"]["cfg"], r["used"], r["failures"][:3]))
    return 1 if bad else 0


def replay(pid, cases, keep=None, timeout=300):
    d = tempfile.mkdtemp(prefix="sxreplay")
    try:
        f = keep or os.path.join(d, "job.json")
        json.dump(dict(property=pid, cases=cases, timeout=timeout), open(f, "w"), indent=1)
        env = dict(os.environ, NUMBA_CACHE_DIR=os.path.join(d, "nc"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                   HOME=d, TMPDIR=d, PYTHONWARNINGS="ignore", OMP_NUM_THREADS="2")
        try:
            p = subprocess.run([PY, os.path.join(VERIF, "check.py"), pid, "--replay", f], env=env, capture_output=True, text=True, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            return None, "replay does not end"
        try:
            res = json.load(open(f + ".out"))
        except Exception:
            return None, p.stdout[-2000:] + p.stderr[-3000:]
        finally:
            if keep and os.path.exists(f + ".out"):
                os.remove(f + ".out")
        return res, p.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings(pid):
    out = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(f):
        for l in open(f):
            l = l.rstrip("\n")
            if l.startswith("known: property=%s " % pid):
                body = l[len("known: property=%s " % pid):]
                key, _, desc = body.partition(" :: ")
                out.append((key.strip(), desc.strip()))
    return out


def is_known(kf, harness, cfg, label):
    ck = ",".join("%s=%s" % (k, v) for k, v in sorted(cfg.items()))
    for key, desc in kf:
        h, c, lab = (key.split("|") + ["", ""])[:3]
        if h == harness and (c in ("", "*") or c == ck) and (lab in ("", "*") or label.startswith(lab)):
            return key, desc
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--validate", action="store_true", help="only run the harnesses concretely on the real package")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--strict", action="store_true", help="exit 2 when any part is undecided")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    if a.replay:
        return replay_main(a.pid, a.replay)
    t0 = time.time()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    global _W, _MOD
    if a.validate:
        _MOD = load_check(pid)
        cases = []
        for hi, cfg in items(_MOD, tier):
            h = _MOD.HARNESSES[hi]
            if (a.only and a.only != h.name) or not h.conc:
                continue
            for s in range(h.samples):
                cases.append(dict(hi=hi, harness=h.name, cfg=cfg, values={}, seed=s))
        res, log = replay(pid, cases)
        if res is None:
            print(log)
            return 2
        bad = [r for r in res if r["failures"] and r["status"] == "ran"]
        print("validated %d runs, %d ran, %d failed" % (len(res), sum(r["status"] == "ran" for r in res), len(bad)))
        for r in bad[:4]:
            print(r["case"]["harness"], r["case"]["cfg"], r["used"], r["failures"][:3])
            print(r.get("tb", "")[-900:])
        return 1 if bad else 0

    from sx import world, engine
    try:
        _W = world.load_symbolic()
        import dolo
    except BaseException:
        traceback.print_exc()
        print("ERROR property=%s the package cannot be loaded symbolically" % pid)
        return 2
    _MOD = load_check(pid)
    tasks = [(hi, cfg, tier) for hi, cfg in items(_MOD, tier) if (not a.only or _MOD.HARNESSES[hi].name == a.only) and (not os.environ.get("SX_CFG") or os.environ["SX_CFG"] in str(cfg))]
    # real-code validation of witnesses runs beside the exploration
    budget = float(os.environ.get("SX_BUDGET", "450" if tier == "quick" else "20000"))
    if a.serial:
        results = [_task(t) for t in tasks]
    else:
        results = run_pool(tasks, budget)
    st = engine.Stats()
    viol, incon, unsup, labels, enc, notes = [], [], [], {}, set(), []
    for r in results:
        if r["stats"]:
            st.merge(r["stats"])
        enc.update(r["encoded"])
        for v in r["violations"]:
            viol.append((r, v))
        incon += [(r["harness"], r["cfg"], x) for x in r["inconclusive"]]
        unsup += [(r["harness"], r["cfg"], x) for x in r["unsupported"]]
        notes += r["notes"]
        for k, n in r["labels"].items():
            labels[r["harness"] + ": " + k] = labels.get(r["harness"] + ": " + k, 0) + n
        if a.v:
            print("%-28s %-40s %6.1fs paths=%s q=%s %s" % (r["harness"], r["cfg"], r["wall"], r["stats"].get("paths"), r["stats"].get("queries"),
                  "VIOL " + "; ".join(v["label"] + " " + str(v["values"]) for v in r["violations"][:3]) if r["violations"] else ""))
            for x in r["inconclusive"][:3]:
                print("    inconclusive:", x)
            for x in r["unsupported"][:2]:
                print("    unsupported:", x)
            for v in r["violations"][:1]:
                if v.get("tb") and v["label"] not in _tbs:
                    _tbs.add(v["label"])
                    print(v["tb"][-3000:])
    # vacuity
    vac = []
    for r in results:
        h = _MOD.HARNESSES[r["hi"]]
        if not r["violations"] and not r["inconclusive"] and not r["unsupported"]:
            if not r["stats"].get("witnessed"):
                vac.append((h.name, r["cfg"], "no feasible path reached the end"))
            for l in h.labels:
                if not any(k.startswith(l) for k in r["labels"]):
                    vac.append((h.name, r["cfg"], "goal never reached: " + l))
            if not r["labels"]:
                vac.append((h.name, r["cfg"], "no goal reached"))
    kf = known_findings(pid)
    known_hit, fresh = {}, []
    for r, v in viol:
        k = is_known(kf, r["harness"], r["cfg"], v["label"])
        if k:
            known_hit.setdefault(k, []).append((r, v))
        else:
            fresh.append((r, v))
    # ---- replay
    cases = []
    for r, v in fresh[:24]:
        cases.append(dict(hi=r["hi"], harness=r["harness"], cfg=r["cfg"], values=v["values"], seed=0, label=v["label"]))
    seen = set()
    for r, v in fresh:
        key = (r["hi"], json.dumps(r["cfg"], sort_keys=True, default=str))
        if key in seen or len(seen) >= 8:
            continue
        seen.add(key)
        for s in range(6):
            cases.append(dict(hi=r["hi"], harness=r["harness"], cfg=r["cfg"], values={}, seed=s + 1, label=v["label"]))
    for k, l in known_hit.items():
        r, v = l[0]
        cases.append(dict(hi=r["hi"], harness=r["harness"], cfg=r["cfg"], values=v["values"], seed=0, label=v["label"], known=k[0]))
    # parts without a verdict: at least run them on the real code
    undec = [(r["hi"], r["harness"], r["cfg"]) for r in results if r["inconclusive"] or r["unsupported"]]
    undec += [([h.name for h in _MOD.HARNESSES].index(n), n, c) for n, c, x in vac]
    for hi, hn, cfg in undec[:10]:
        key = (hi, json.dumps(cfg, sort_keys=True, default=str))
        if key in seen or not _MOD.HARNESSES[hi].conc:
            continue
        seen.add(key)
        for s in range(6):
            cases.append(dict(hi=hi, harness=hn, cfg=cfg, values={}, seed=s + 1, label="undecided"))
    nval = 0
    if tier == "thorough" or os.environ.get("SX_VALIDATE"):
        for r in results:
            if not _MOD.HARNESSES[r["hi"]].conc:
                continue
            for wv in r["witnesses"][:2]:
                cases.append(dict(hi=r["hi"], harness=r["harness"], cfg=r["cfg"], values=wv, seed=0, label="witness", witness=True))
            cases.append(dict(hi=r["hi"], harness=r["harness"], cfg=r["cfg"], values={}, seed=seed, label="witness", witness=True))
    reproduced, known_rep, valbad = [], set(), []
    replay_file = os.path.join(evdir, pid + ".replay.json")
    if cases:
        res, log = replay(pid, cases)
        if res is None:
            print("ERROR property=%s replay could not run\n%s" % (pid, log))
            write_evidence(pid, tier, seed, st, enc, labels, notes, results, incon, unsup, 0, 0, t0, ["replay failed"])
            return 2
        for x in res:
            if x["case"].get("witness"):
                if x["status"] == "ran":
                    nval += 1
                    if x["failures"]:
                        if is_known(kf, x["case"]["harness"], x["case"]["cfg"], x["failures"][0]):
                            continue
                        valbad.append(x)
                continue
            if x["status"] == "ran" and x["failures"]:
                if x["case"].get("known"):
                    known_rep.add(x["case"]["known"])
                else:
                    # a failure listed as known does not count as a fresh one
                    fl = [f for f in x["failures"] if not is_known(kf, x["case"]["harness"], x["case"]["cfg"], f)]
                    if fl:
                        x["failures"] = fl
                        reproduced.append(x)
    rc = 0
    for (key, desc), l in known_hit.items():
        print("KNOWN-FINDING: property=%s %s%s" % (pid, desc, "" if key in known_rep else " (solver counterexample)"))
    for key, desc in kf:
        if (key, desc) not in known_hit:
            notes.append("known finding not observed on this tree: " + desc)
    if reproduced or valbad:
        bad = (reproduced + valbad)[:6]
        json.dump(dict(property=pid, cases=[b["case"] | {"values": b["used"]} for b in bad], failures=[b["failures"] for b in bad]),
                  open(replay_file, "w"), indent=1, default=str)
        for b in bad[:3]:
            print("counterexample harness=%s cfg=%s inputs=%s" % (b["case"]["harness"], b["case"]["cfg"], b["used"]))
            for f in b["failures"][:3]:
                print("    " + str(f))
        print("VIOLATION property=%s replay=%s" % (pid, replay_file))
        rc = 1
    else:
        for h, c, x in vac:
            print("VACUOUS harness=%s cfg=%s: %s" % (h, c, x))
        if fresh:
            for r, v in fresh[:4]:
                print("NOT REPRODUCED harness=%s cfg=%s label=%s values=%s" % (r["harness"], r["cfg"], v["label"], v["values"]))
        for h, c, x in incon[:5]:
            print("INCONCLUSIVE harness=%s cfg=%s: %s" % (h, c, x))
        for h, c, x in unsup[:5]:
            print("UNSUPPORTED harness=%s cfg=%s: %s" % (h, c, x))
        if fresh or incon or unsup or vac:
            print("UNDECIDED property=%s part of the check has no solver verdict on this tree (see evidence); nothing explored violates the property" % pid)
            rc = 0
            if st.goals - st.goals_concrete <= 0 or a.strict:
                print("ERROR property=%s no verdict" % pid)
                rc = 2
    write_evidence(pid, tier, seed, st, enc, labels, notes, results, incon, unsup, len(reproduced), nval, t0, [])
    print("property=%s tier=%s rc=%d harnesses=%d paths=%d goals=%d (simplifier %d, concrete %d) queries=%d unsat=%d sat=%d unknown=%d solver=%.1fs wall=%.1fs validated=%d" % (
        pid, tier, rc, len(tasks), st.paths, st.goals, st.goals_simplifier, st.goals_concrete, st.queries, st.unsat, st.sat, st.unknown, st.solver_s, time.time() - t0, nval))
    return rc


def write_evidence(pid, tier, seed, st, enc, labels, notes, results, incon, unsup, nviol, nval, t0, errors):
    mod = _MOD
    wit = []
    for r in results:
        for wv in r["witnesses"][:1]:
            wit.append(dict(harness=r["harness"], config={k: str(v) for k, v in r["cfg"].items()}, inputs={k: wv[k] for k in list(wv)[:12]}))
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=dict(
        explanation=(mod.__doc__ or "").strip() + "  Method: the functions listed under functions_encoded were executed symbolically from /repo's current source; "
        "every goal below was put to z3 on every feasible path and refuted its negation (unsat) within the stated bounds.",
        functions_encoded=sorted(enc), bounds=getattr(mod, "BOUNDS", ""), outside=getattr(mod, "OUTSIDE", ""),
        harness_configurations=len(results), paths=st.paths, paths_with_witness=st.witnessed, branch_decisions=st.decisions,
        goals=st.goals, goals_closed_by_z3_simplifier=st.goals_simplifier, goals_on_constants=st.goals_concrete,
        solver_queries=st.queries, unsat=st.unsat, sat=st.sat, unknown=st.unknown, solver_seconds=round(st.solver_s, 3),
        definedness_assumptions=st.defined, goals_by_label=labels, runs_validated_on_real_code=nval,
        samples=wit[:6], notes=sorted(set(notes))[:20],
        inconclusive=[str(x)[:300] for x in incon[:10]], unsupported=[str(x)[:300] for x in unsup[:10]], errors=errors),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
            "floating point is modelled by exact real arithmetic; float constants are read as the simplest rational that rounds to them",
            "numba compiled functions are taken to mean their Python source; numpy, scipy, interpolation and quantecon calls are taken by contract",
            "inputs for which the code divides by zero or takes roots/logs outside their domain are outside the claim"],
        wall_s=round(time.time() - t0, 3), violations=nviol)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
