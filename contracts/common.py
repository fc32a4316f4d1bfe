import sys
import z3
from engine.domains import *
from engine.values import *
from engine.interp import *
from engine.ssa import intinfo
from engine.models import cond_all, u8cmp, opaque_fn, memo_rope
from . import unit, contract

MAXLEN = 1 << 40   # lengths of slices and strings given by callers (address space)


def call(E, st, fname, args):
    """execute the body of a function (never its own contract)"""
    E.stats.funcs.add(fname)
    f = E.prog.funcs.get(fname)
    if f is None or not f.blocks:
        raise Unsupported("function %s does not exist" % fname)
    c = E.contracts.pop(fname, None)
    m = E.models.pop(fname, None)
    try:
        return E.run(st, f, args, ())
    finally:
        if c is not None:
            E.contracts[fname] = c
        if m is not None:
            E.models[fname] = m


def rets(E, outs, what):
    """obligation: no path panics; returns the states that return"""
    r = []
    for st, k, v in outs:
        if k == "panic":
            r2, m = E._solve(st.pc)
            E.stats.obligations += 1
            if r2 == z3.unsat:
                E.stats.discharged += 1
                continue
            E.fail(st, "%s: never panics (%s)" % (what, v), "panic is reachable", m)
        else:
            E.stats.obligations += 1
            E.stats.discharged += 1
            r.append((st, v))
    E.oblige(None, any(E.feasible(st) for st, v in r), what + ": some returning path is feasible (not vacuous)")
    return r


def feasible_some(E, rs, what):
    """vacuity: some path must be feasible"""
    ok = any(E.feasible(st) for st, v in rs)
    E.oblige(None, ok, what + ": specification is not vacuous")
    return ok


def struct(E, tname, **kw):
    ty = E.prog.ty(tname)
    f = []
    for fd, ft in zip(ty.u.fields, ty.field_types()):
        f.append(kw.pop(fd["name"]) if fd["name"] in kw else E.zero(ft))
    if kw:
        raise Unsupported("type %s has no field %s" % (tname, list(kw)))
    return StructV(ty, f)


def fld(E, v, name):
    for i, fd in enumerate(v.ty.u.fields):
        if fd["name"] == name:
            return v.f[i]
    raise Unsupported("type %s has no field %s" % (v.ty.str, name))


def sym_slice(E, st, name, n, et=None, spare=False, content=None):
    """slice given by the caller"""
    r = content if content is not None else E.sym_bytes(name, n, et)
    cap = r.n
    if spare:
        cap = E.fresh_int(name + "_cap")
        E.axiom(cap >= E.idom.lift(r.n))
    s = E.new_slice(st, r, pre=True, cap=cap)
    s.cap = cap
    if not isinstance(n, int):
        s.nilc = z3.And(z3.Bool(name + "_isnil"), E.idom.lift(n) == 0)
    return s


def sym_len(E, name, lo=0):
    n = z3.Int(name)
    E.axiom(z3.And(n >= lo, n < MAXLEN))
    return n


def prove_rope(E, st, a, b, name):
    if E.rope_eq(st, a, b):
        return E.oblige(st, True, name)
    # a counterexample, when the solver gives one
    I = E.idom.lift
    m = None
    try:
        r, m = E._solve(st.pc + [Not(I(a.n) == I(b.n))])
        if m is None:
            s2 = st.fork()
            k = E.fresh_int("k", 0)
            s2.pc.append(k < I(a.n))
            if E.feasible(s2):
                r, m = E._solve(s2.pc + [B(Not(E.num_eq(E.at(s2, a, k), E.at(s2, b, k))))])
    except Exception:
        m = None
    E.stats.obligations += 1
    E.fail(st, name, "not provable", m)
    return False


def prove_val(E, st, a, b, name):
    if isinstance(a, Rope) and isinstance(b, Rope):
        return prove_rope(E, st, a, b, name)
    if E.val_eq(st, a, b):
        return E.oblige(st, True, name)
    m = None
    try:
        if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)):
            r, m = E._solve(st.pc + [Not(E.num_eq(a, b))])
        else:
            r, m = E._solve(st.pc)
    except Exception:
        pass
    E.stats.obligations += 1
    E.fail(st, name, "not provable", m)
    return False


def no_writes(E, st, name, allow=()):
    """frame: nothing that existed before is modified"""
    w = [x for x in st.notes.get("writes", ()) if x[0] not in allow]
    return E.oblige(st, not w, name + ": does not modify its arguments", "writes to %s" % (w,))


def is_nil_err(v):
    return isinstance(v, NilIface)


def is_err(v):
    return isinstance(v, (OpaqueV, IfaceV)) and not (isinstance(v, OpaqueV) and v.isnil is not False)


def lin(t):
    """linear form of a z3 Int term: ({id: (term, coefficient)}, constant)"""
    if isinstance(t, int):
        return {}, t
    if z3.is_int_value(t):
        return {}, t.as_long()
    if z3.is_add(t):
        d, c = {}, 0
        for i in range(t.num_args()):
            d2, c2 = lin(t.arg(i))
            c += c2
            for k, (x, co) in d2.items():
                d[k] = (x, d.get(k, (x, 0))[1] + co)
        return d, c
    if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        d, c = lin(t.arg(1))
        m = t.arg(0).as_long()
        return {k: (x, co * m) for k, (x, co) in d.items()}, c * m
    if z3.is_sub(t):
        d, c = lin(t.arg(0))
        for i in range(1, t.num_args()):
            d2, c2 = lin(t.arg(i))
            c -= c2
            for k, (x, co) in d2.items():
                d[k] = (x, d.get(k, (x, 0))[1] - co)
        return d, c
    return {t.get_id(): (t, 1)}, 0


def divmod_c(t, P):
    """(quotient term, concrete remainder) of t by P when the remainder is evident, else None"""
    d, c = lin(isimp(t) if not isinstance(t, int) else t)
    if any(co % P for _, co in d.values()):
        return None
    q = c // P
    for x, co in d.values():
        q = iadd(q, isimp(x * (co // P)))
    return q, c % P
