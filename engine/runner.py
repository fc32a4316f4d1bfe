"""Runs verification units, in parallel processes, and collects what they report."""
import importlib
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

MODULES = ["bech32", "address", "byron", "txc", "bip32c", "edwards", "nodec"]


def load_modules():
    import contracts
    for m in MODULES:
        p = os.path.join(os.path.dirname(contracts.__file__), m + ".py")
        if os.path.exists(p):
            importlib.import_module("contracts." + m)
    return contracts


def make_engine(prog, u, contracts, ok_contracts):
    from .interp import Engine
    from .domains import BVDom, IntDom
    if u.dom == "int":
        dom = IntDom()
    elif u.dom == "ring":
        from .ring import RingDom
        dom = RingDom()
    else:
        dom = BVDom()
    E = Engine(prog, dom, u.name)
    for c in u.uses:
        if c in contracts.CONTRACTS and c in ok_contracts:
            E.contracts[c] = contracts.CONTRACTS[c][0]
    for c in u.relies:
        if c in prog.funcs:
            E.contracts[c] = contracts.CONTRACTS[c][0]
            units = [v for v in contracts.UNITS.values() if c == v.provides or (isinstance(v.provides, list) and c in v.provides)]
            E.assumed.append("contract of %s: discharged by %s" % (c, ", ".join(sorted(
                "%s (check %s)" % (v.name, "/".join(v.props)) for v in units)) or "nothing (assumed)"))
    return E


def where(e):
    fs = [f for f in traceback.extract_tb(e.__traceback__) if "/verif/" in f.filename or "engine" in f.filename][-4:]
    return " > ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in fs)


def run_part(prog, u, part, contracts, ok_contracts):
    """in a child process"""
    from .domains import Unsupported, NoBound
    from .models import ASSUMED
    import z3
    t = time.time()
    force = frozenset()
    while True:
        E = make_engine(prog, u, contracts, ok_contracts)
        E.part = part
        E.force_inv = force
        status, msg = "ok", ""
        try:
            u.fn(E)
        except NoBound as e:
            if not E.templates and e.loop not in force and len(force) < 6:
                force = force | {e.loop}
                continue
            status, msg = "unsupported", str(e) + ("; " + E.last_noinv if getattr(E, "last_noinv", None) else "")
        except Unsupported as e:
            status, msg = "unsupported", str(e) + ("; " + E.last_noinv if getattr(E, "last_noinv", None) else "")
        except (z3.Z3Exception, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError,
                ZeroDivisionError) as e:
            status, msg = "unsupported", "%s: %s at %s" % (type(e).__name__, e, where(e))
        break
    s = E.stats
    if E.failures and status == "ok":
        status = "failed"
    return {"unit": u.name, "part": part, "status": status, "msg": msg, "obligations": s.obligations,
            "discharged": s.discharged, "queries": s.queries, "solver_s": round(s.time, 3), "by": dict(s.by),
            "funcs": sorted(s.funcs), "inlined": sorted(s.inlined), "contracts": sorted(s.contracts_used),
            "models": sorted(m for m in s.models_used), "assumed": sorted({"%s: %s" % (m, ASSUMED[m]) for m in s.models_used if m in ASSUMED}
                                                                       | set(E.assumed)),
            "loops": s.loops, "failures": E.failures[:12], "wall_s": round(time.time() - t, 2)}


def child(conn, prog, u, part, contracts, ok):
    try:
        os.setpgrp()
        r = run_part(prog, u, part, contracts, ok)
    except BaseException as e:  # reported as an undischarged unit
        r = {"unit": u.name, "part": part, "status": "unsupported", "msg": "%s: %s" % (type(e).__name__, e), "obligations": 0,
             "discharged": 0, "queries": 0, "solver_s": 0, "by": {}, "funcs": [], "inlined": [], "contracts": [], "models": [],
             "assumed": [], "loops": [], "failures": [], "wall_s": 0}
    try:
        conn.send(r)
    except Exception:
        r["failures"] = [{"obligation": f.get("obligation"), "why": str(f.get("why"))} for f in r["failures"]]
        conn.send(r)
    conn.close()


def run_jobs(prog, jobs, contracts, ok, limit, deadline, procs=None, verbose=False):
    """jobs: [(unit, part)] -> [report]"""
    procs = procs or int(os.environ.get("VERIF_PROCS", "8"))
    ctx = mp.get_context("fork")
    todo = list(jobs)
    run = []
    out = []
    while todo or run:
        while todo and len(run) < procs:
            u, part = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, prog, u, part, contracts, ok), daemon=True)
            p.start()
            b.close()
            run.append((p, a, u, part, time.time()))
        nxt = []
        for p, a, u, part, t0 in run:
            r = None
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = blank(u, part, "the verifier ended without a result")
            elif not p.is_alive() and not a.poll(0.05):
                r = blank(u, part, "the verifier ended without a result (memory?)")
            elif time.time() - t0 > limit or time.time() > deadline:
                r = blank(u, part, "time limit of %d s" % limit)
            if r is None:
                nxt.append((p, a, u, part, t0))
                continue
            try:
                if p.is_alive() and r["status"] == "unsupported":
                    os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.join(2)
            if p.is_alive():
                p.kill()
            out.append(r)
            if verbose:
                print("  %-34s %-4s %-11s %4d/%4d obligations %6.1fs %s" % (
                    r["unit"], "" if part is None else part, r["status"], r["discharged"], r["obligations"], r["wall_s"], r["msg"][:300]), flush=True)
                for f in r["failures"][:4]:
                    print("       ", str(f)[:500], flush=True)
        run = nxt
        if run:
            time.sleep(0.02)
    return out


def blank(u, part, msg):
    return {"unit": u.name, "part": part, "status": "unsupported", "msg": msg, "obligations": 0, "discharged": 0, "queries": 0,
            "solver_s": 0, "by": {}, "funcs": [], "inlined": [], "contracts": [], "models": [], "assumed": [], "loops": [],
            "failures": [], "wall_s": 0}


def parts(u):
    return [(u, None)] if u.parts == 1 else [(u, i) for i in range(u.parts)]


def plan(contracts, prop=None, names=None):
    """units that decide the property, and the providers of the contracts they use, in layers"""
    U = contracts.UNITS
    main = [u for u in U.values() if (names and any(n in u.name for n in names)) or (prop and prop in u.props)]
    prov = {}
    for u in U.values():
        if u.provides:
            for c in ([u.provides] if isinstance(u.provides, str) else u.provides):
                prov.setdefault(c, []).append(u)
    need, todo = {}, list(main)
    while todo:
        u = todo.pop()
        for c in u.uses:
            for v in prov.get(c, []):
                if v.name not in need:
                    need[v.name] = v
                    todo.append(v)
    return main, need, prov


def layer(need, prov):
    """providers ordered so that the contracts a provider uses are decided before"""
    done, out = set(), []
    rest = dict(need)
    while rest:
        ready = [u for u in rest.values() if all(v.name in done or v.name not in need or v.name == u.name
                                                 for c in u.uses for v in prov.get(c, []))]
        if not ready:
            ready = list(rest.values())
        out.append(ready)
        for u in ready:
            done.add(u.name)
            rest.pop(u.name)
    return out


def verify(prog, prop=None, names=None, limit=400, total=780, verbose=False):
    contracts = load_modules()
    main, need, prov = plan(contracts, prop, names)
    deadline = time.time() + total
    ok = set()
    reports = []
    bad_prov = {}
    if os.environ.get("VERIF_ASSUME"):      # development only: take the helper contracts as proved
        ok = set(prov)
        need = {}
    for us in layer(need, prov):
        rs = run_jobs(prog, [j for u in us for j in parts(u)], contracts, ok, limit, deadline, verbose=verbose)
        reports += rs
        for u in us:
            mine = [r for r in rs if r["unit"] == u.name]
            good = mine and all(r["status"] == "ok" for r in mine)
            if not good:
                bad_prov[u.name] = "; ".join(r["msg"] or str(r["failures"][:1]) for r in mine if r["status"] != "ok")
        for c, us2 in prov.items():
            if all(v.name in {r["unit"] for r in reports} for v in us2) and not any(v.name in bad_prov for v in us2):
                ok.add(c)
    jobs = [j for u in main if u.name not in need for j in parts(u)]
    rs = run_jobs(prog, jobs, contracts, ok, limit, deadline, verbose=verbose)
    reports += rs
    mainnames = {u.name for u in main}
    return {"reports": reports, "main": sorted(mainnames), "providers": sorted(need), "demoted": bad_prov,
            "bad": [r for r in reports if r["unit"] in mainnames and r["status"] != "ok"]}
