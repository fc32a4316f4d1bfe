"""Symbolic interpreter for the SSA of the Go code, with obligations discharged by z3 (cvc5 as second back end).

Functions with a contract are replaced at call sites by the contract; others
are executed.  Loops whose bound is decided by the program (or by the solver)
are unrolled completely; other loops are verified with loop invariants chosen
from the templates of the unit: every loop-carried variable must be given as a
function of the number k of completed iterations, checked at entry (k=0) and
by one arbitrary iteration (k to k+1)."""
import itertools
import os
import subprocess
import tempfile
import time
import z3
from .domains import *
from .domains import norm
from .values import *
from .ssa import intinfo

CVC5 = "cvc5"


class Fail(Exception):
    pass


class Stats:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.queries = 0
        self.time = 0.0
        self.by = {}
        self.funcs = set()
        self.inlined = set()
        self.contracts_used = set()
        self.models_used = set()
        self.loops = []


class Engine:
    UNROLL = 400
    soft = None         # time limit (ms) of queries whose failure only costs precision

    def __init__(self, prog, vdom=None, name="unit", timeout=20000):
        self.prog = prog
        self.hints = {}     # loop -> the invariant that worked last time
        self.name = name
        self.idom = IntDom()
        self.idom.E = self
        self.vdom = vdom or BVDom()
        self.vdom.E = self
        self.axioms = []
        self.axset = set()
        self.axpairs = {}
        self.axidx = {}
        self.axpairs = {}
        self.symcache = {}
        self.purecache = {}
        self.keep = []
        self.n = 0
        self.timeout = timeout
        self.stats = Stats()
        self.failures = []
        self.contracts = {}
        self.models = {}
        self.invokes = {}
        self.templates = []      # loop templates of the unit
        self.bounds = []         # extra candidates for bounds on the iteration count
        self.period = 1
        self.lazy = {}
        self.inputs = {}
        self.hashes = []
        self.cbor_default_map_order = None
        self.globals_ready = {}
        self.gheap = {}
        self.u8 = prog.ty("byte") if "byte" in prog.bystr else prog.ty("uint8")
        self.tint = prog.ty("int")
        self.tstring = prog.ty("string")
        self.depth = 0
        self.part = None
        self.maxpaths = 20000
        self.cache = {}
        self.assumed = []
        self.unroll_limit = self.UNROLL
        from . import models
        models.install(self)

    # ------------------------------------------------------------------ solver
    def axiom(self, c, owner=None, both=None):
        """owner: the new symbol which c defines; c matters only where it occurs; both: two terms, c matters only where they occur"""
        if c is True:
            return
        if isinstance(c, bool):
            raise Unsupported("false axiom")
        i = c.get_id()
        if i in self.axset:
            return
        self.axset.add(i)
        self.keep.append(c)
        self.axioms.append(c)
        if both is not None:
            a, b = both[0].get_id(), both[1].get_id()
            self.axpairs.setdefault(a, []).append((b, len(self.axioms) - 1))
            self.axpairs.setdefault(b, []).append((a, len(self.axioms) - 1))
            return
        ids, apps, consts = self.syms(c)
        for k in ([owner.get_id()] if owner is not None else apps or consts):
            self.axidx.setdefault(k, []).append(len(self.axioms) - 1)

    def syms(self, t):
        """identifiers of the applications of uninterpreted functions and of the constants in t"""
        i = t.get_id()
        r = self.symcache.get(i)
        if r is not None:
            return r
        self.keep.append(t)
        apps, consts, seen = set(), set(), set()
        todo = [t]
        while todo:
            x = todo.pop()
            k = x.get_id()
            if k in seen:
                continue
            seen.add(k)
            if z3.is_app(x):
                d = x.decl().kind()
                if d == z3.Z3_OP_UNINTERPRETED:
                    (apps if x.num_args() else consts).add(k)
                elif d == z3.Z3_OP_BV2INT:
                    apps.add(k)
                todo.extend(x.children())
        r = (None, apps, consts)
        self.symcache[i] = r
        return r

    def relevant(self, cons):
        """the axioms about what occurs in the constraints"""
        used, seen, todo = [], set(), []
        done = set()
        for c in cons:
            if not isinstance(c, bool):
                _, a, k = self.syms(c)
                todo.extend(a)
                todo.extend(k)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for j in itertools.chain(self.axidx.get(x, ()), [j for y, j in self.axpairs.get(x, ()) if y in seen]):
                if j not in done:
                    done.add(j)
                    used.append(self.axioms[j])
                    _, a, k = self.syms(self.axioms[j])
                    todo.extend(a)
                    todo.extend(k)
        return used

    def K(self, t):
        """hashable identity of a value"""
        if isinstance(t, (int, str, bool)) or t is None:
            return t
        if isinstance(t, z3.AstRef):
            self.keep.append(t)
            return ("z", t.get_id())
        if isinstance(t, (tuple, list)):
            return tuple(self.K(x) for x in t)
        if isinstance(t, Lit):
            return ("L", tuple(self.K(x) for x in t.v))
        if isinstance(t, Fn):
            return ("F", t.key, self.K(t.off), self.K(t.n))
        if isinstance(t, Rope):
            return ("R", tuple(self.K(x) for x in t.segs))
        if isinstance(t, Ptr):
            return ("P", t.oid, tuple(self.K(x) for x in t.path))
        if isinstance(t, StructV):
            return ("S", tuple(self.K(x) for x in t.f))
        if isinstance(t, ArrV):
            return ("A", tuple(self.K(x) for x in t.v))
        if isinstance(t, OpaqueV):
            return ("O", t.kind, t.key)
        if isinstance(t, IfaceV):
            return ("I", t.ty.str, self.K(t.v))
        if isinstance(t, NilIface):
            return ("nil",)
        if hasattr(t, "key"):
            return ("k", t.key() if callable(t.key) else t.key)
        self.keep.append(t)
        return ("id", id(t))

    def fresh_name(self, base):
        self.n += 1
        return "%s!%d" % (base, self.n)

    def fresh_int(self, base, lo=None, hi=None):
        v = z3.Int(self.fresh_name(base))
        if lo is not None:
            self.axiom(v >= lo)
        if hi is not None:
            self.axiom(v <= hi)
        return v

    def fresh_bool(self, base):
        return z3.Bool(self.fresh_name(base))

    def fresh_val(self, ty, base):
        w, s = intinfo(ty)
        return self.domof(ty).fresh(self, self.fresh_name(base), w, s)

    def _solve(self, cons, timeout=None):
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        s.add(*self.relevant(cons))
        s.add(*[c for c in cons if not isinstance(c, bool)])
        if any(c is False for c in cons):
            return z3.unsat, None
        t = time.time()
        r = s.check()
        self.stats.queries += 1
        dt = time.time() - t
        self.stats.time += dt
        if dt > 0.3 and os.environ.get("VERIF_SLOW"):
            self.n += 1
            open("/tmp/slow%d.smt2" % self.n, "w").write(s.to_smt2())
            import traceback
            print("SLOW", self.n, "%.1f" % dt, r, [x.name + ":" + str(x.lineno) for x in traceback.extract_stack()[-6:-1]], flush=True)
        self.stats.by["z3"] = self.stats.by.get("z3", 0) + 1
        if r == z3.unknown and timeout is None:
            t = time.time()
            r2 = self._cvc5(s)
            self.stats.time += time.time() - t
            if r2 is not None:
                self.stats.by["cvc5"] = self.stats.by.get("cvc5", 0) + 1
                return (z3.unsat if r2 == "unsat" else z3.sat), None
        return r, (s.model() if r == z3.sat else None)

    def _cvc5(self, s):
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write("(set-logic ALL)\n" + s.to_smt2())
            o = subprocess.run([CVC5, "--tlimit=20000", f.name], capture_output=True, text=True, timeout=40).stdout
        except Exception:
            return None
        finally:
            try:
                os.unlink(f.name)
            except OSError:
                pass
        o = o.strip().split("\n")[0] if o else ""
        return o if o in ("sat", "unsat") else None

    def pure(self, t):
        """no bit vectors inside"""
        if isinstance(t, bool):
            return True
        i = t.get_id()
        r = self.purecache.get(i)
        if r is None:
            r = True
            seen, todo = set(), [t]
            while todo and r:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_bv(x) or (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BV2INT):
                    r = False
                todo.extend(x.children())
            self.keep.append(t)
            self.purecache[i] = r
        return r

    def quick(self, st, c):
        """satisfiability of c with the arithmetic part of the path condition: False if impossible, True if
        possible as far as that part goes, None if c is not arithmetic"""
        if self.vdom.name != "bv" or not self.pure(c):
            return None
        cons = [x for x in st.pc if self.pure(x)]
        key = ("q", c if isinstance(c, bool) else c.get_id(), tuple(x.get_id() for x in cons if not isinstance(x, bool)))
        if key in self.cache:
            return self.cache[key]
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*[B(x) for x in cons + [c]])
        s.add(*[x for x in self.relevant(cons + [c]) if self.pure(x)])
        t = time.time()
        r = s.check() != z3.unsat
        self.stats.time += time.time() - t
        self.stats.queries += 1
        self.stats.by["z3"] = self.stats.by.get("z3", 0) + 1
        self.cache[key] = r
        self.keep.append(c)
        return r

    def feasible(self, st, c=True, quick=False):
        c = pyb(c)
        if c is False:
            return False
        if c is True and not st.pc:
            return True
        if c is not True:
            q = self.quick(st, c)
            if q is False or (quick and q is True):
                return q
        r, _ = self._solve(st.pc + [c], self.soft)
        return r != z3.unsat

    def valid(self, st, c, quick=False):
        c = pyb(c)
        if c is True:
            return True
        if c is not False:
            q = self.quick(st, Not(c))
            if q is False:
                return True
            if quick and q is True:
                return False
        key = (c if isinstance(c, bool) else c.get_id(), tuple(x.get_id() for x in st.pc if not isinstance(x, bool)),
               len(self.axioms))
        if key in self.cache:
            return self.cache[key]
        if c is not False:
            self.keep.append(c)
        r, _ = self._solve(st.pc + [Not(c)], self.soft)
        res = r == z3.unsat
        self.cache[key] = res
        return res

    def decide(self, st, c):
        c = pyb(c)
        if isinstance(c, bool):
            return c
        if self.valid(st, c, True):
            return True
        if self.valid(st, Not(c), True):
            return False
        return None

    def assume(self, st, c):
        c = pyb(c)
        if c is True:
            return True
        st.pc.append(B(c))
        return c is not False

    def prove(self, st, c, name):
        """an obligation"""
        self.stats.obligations += 1
        c = pyb(c)
        if c is True:
            self.stats.discharged += 1
            return True
        r, m = self._solve(st.pc + [Not(c)])
        if r == z3.unsat:
            self.stats.discharged += 1
            return True
        self.fail(st, name, "sat" if r == z3.sat else str(r), m)
        return False

    def oblige(self, st, ok, name, detail=""):
        """an obligation decided by the engine itself (structural comparison)"""
        self.stats.obligations += 1
        if ok:
            self.stats.discharged += 1
        else:
            self.fail(st, name, detail or "not provable", None)
        return ok

    def fail(self, st, name, why, m=None):
        d = {"obligation": name, "why": why, "unit": self.name}
        if m is not None:
            d["inputs"] = self.eval_inputs(st, m)
        if st is not None and st.trace:
            d["trace"] = list(st.trace[-12:])
        self.failures.append(d)

    # -- counterexamples
    def eval_inputs(self, st, m):
        r = {}
        for n, v in self.inputs.items():
            try:
                r[n] = self.eval_val(st, m, v)
            except Exception as e:  # a model that cannot be read gives no replay hint
                r[n] = None
        return r

    def eval_val(self, st, m, v):
        if isinstance(v, (int, str, bool)):
            return v
        if isinstance(v, z3.BoolRef):
            return z3.is_true(m.eval(v, model_completion=True))
        if isinstance(v, z3.ExprRef):
            x = m.eval(v, model_completion=True)
            return x.as_long()
        if isinstance(v, Rope):
            n = self.eval_val(st, m, v.n)
            if n > 4096:
                return None
            return [self.eval_val(st, m, self.at(st, v, k)) for k in range(n)]
        if isinstance(v, ArrV):
            return [self.eval_val(st, m, x) for x in v.v]
        if isinstance(v, SliceV):
            return self.eval_val(st, m, self.content(st, v))
        if isinstance(v, StructV):
            return [self.eval_val(st, m, x) for x in v.f]
        return None

    # ------------------------------------------------------------------ values
    def domof(self, ty):
        u = ty.u
        if u.k == "basic" and u.name in ("int", "untyped int"):
            return self.idom
        return self.vdom

    def isint(self, ty):
        return intinfo(ty) is not None

    def zero(self, ty):
        u = ty.u
        if u.k == "basic":
            if intinfo(ty):
                return 0
            if u.name in ("bool", "untyped bool"):
                return False
            if u.name in ("string", "untyped string"):
                return Rope(self.u8, [])
            if u.name in ("float64", "float32"):
                return 0
            if u.name in ("unsafe.Pointer", "Pointer", "untyped nil"):
                return NIL
            raise Unsupported("zero of " + ty.str)
        if u.k == "struct":
            return StructV(ty, [self.zero_lazy(t) for t in ty.field_types()])
        if u.k == "array":
            z = self.zero(ty.elem)
            return ArrV(ty.elem, [z] * u.len)
        if u.k == "ptr":
            return NIL
        if u.k == "slice":
            return SliceV(None, 0, 0, 0, 0, True)
        if u.k == "map":
            return NIL
        if u.k == "iface":
            return NILI
        if u.k == "func":
            return NIL
        if u.k == "tuple":
            return tuple(self.zero(self.prog.types[e]) for e in u.elems)
        if u.k == "chan":
            return NIL
        raise Unsupported("zero of " + ty.str)

    def zero_lazy(self, t):
        return self.zero(t)

    def new(self, st, val, ty=None, pre=False, grow=False):
        self.n += 1
        oid = "o%d" % self.n
        st.heap[oid] = Cell(val, ty, pre, grow=grow)
        return oid

    def new_slice(self, st, rope, pre=False, cap=None, nilc=False):
        oid = self.new(st, rope, None, pre, grow=not pre)
        return SliceV(Ptr(oid), 0, rope.n, cap, 0, nilc)

    def sym_bytes(self, name, n, et=None):
        """rope of n symbolic elements of integer type"""
        et = et or self.u8
        w, s = intinfo(et)
        d = self.domof(et)
        if isinstance(n, int) and n <= 200:
            return Rope(et, [Lit([d.fresh(self, "%s[%d]" % (name, i), w, s) for i in range(n)])])
        f = z3.Function(name, z3.IntSort(), z3.BitVecSort(w) if d.name == "bv" else z3.IntSort())
        key = ("sym", name)

        def at(E, st, j):
            t = f(E.idom.lift(j))
            if d.name == "int":
                lo, hi = d.rng(w, s)
                E.axiom(z3.And(t >= lo, t <= hi))
            return t
        return Rope(et, [Fn(key, 0, n, at)])

    def string(self, s):
        b = s.encode() if isinstance(s, str) else s
        return Rope(self.u8, [Lit(list(b))])

    def error(self, key=None):
        return OpaqueV("error", key or self.fresh_name("err"))

    # ------------------------------------------------------------------ ropes
    def find(self, st, rope, i, end=False):
        """(segment number, offset) of index i, or None if the solver cannot tell"""
        if is_b2i(i) and len(rope.segs) == 1 and isinstance(rope.segs[0], Lit):
            return (0, i) if not end else None
        pos = 0
        for k, s in enumerate(rope.segs):
            nxt = iadd(pos, s.n)
            if isinstance(i, int) and isinstance(pos, int) and isinstance(nxt, int):
                if i < nxt or (end and i == nxt):
                    return k, i - pos
            else:
                r = self.decide(st, self.idom.lift(i) == self.idom.lift(pos))
                if r is True:
                    return k, 0
                L = self.idom.lift
                r = self.decide(st, (L(i) <= L(nxt)) if end else (L(i) < L(nxt)))
                if r is True:
                    return k, isub(i, pos)
                if r is None:
                    return None
            pos = nxt
        return len(rope.segs), 0

    def fn_at(self, st, s, j):
        k = iadd(s.off, j)
        v = s.at(self, st, k)
        for u in st.univ.get(s.key, ()):
            f = u(self, st, k)
            if f is not None and f is not True:
                i = f.get_id()
                if not any(c.get_id() == i for c in st.pc):
                    st.pc.append(f)
        return v

    def ite(self, c, a, b, ty):
        if a is b:
            return a
        if isinstance(a, (bool, z3.BoolRef)):
            return pyb(z3.If(B(c), B(a), B(b)))
        w, s = intinfo(ty)
        return self.domof(ty).ite(c, a, b, w)

    def at(self, st, rope, i):
        a = self.alts(st, rope, i)
        if len(a) == 1:
            return a[0][1]
        if not self.isint(rope.et):
            raise Unsupported("undetermined element of a sequence")
        r = a[-1][1]
        for c, v in reversed(a[:-1]):
            r = self.ite(c, v, r, rope.et)
        return r

    def alts(self, st, rope, i):
        """alternatives [(condition, element)] for index i (assumed in range)"""
        out = []
        pos = 0
        I = self.idom.lift
        segs = rope.segs
        f = self.find(st, rope, i)
        if f is not None and f[0] < len(segs):
            s = segs[f[0]]
            if isinstance(s, Fn):
                # find takes the first segment starting at i, which may be an empty one
                if f[0] == len(segs) - 1 or not (isinstance(f[1], int) and f[1] == 0) or isinstance(s.n, int) or self.decide(st, I(s.n) > 0) is True:
                    return [(True, self.fn_at(st, s, f[1]))]
            elif isinstance(f[1], int):
                return [(True, s.v[f[1]])]
            else:
                return self.lit_alts(st, s, f[1])
        for s in segs:
            j = isub(i, pos)
            if isinstance(s, Fn):
                c = pyb(And(I(j) >= 0, I(j) < I(s.n)))
                if c is not False and self.feasible(st, c, True):
                    # facts about this element hold only when the index is inside
                    out.append((c, self.fn_at(st, s, j)))
            else:
                for k, v in enumerate(s.v):
                    c = pyb(I(j) == k)
                    if c is not False and self.feasible(st, c, True):
                        out.append((c, v))
            pos = iadd(pos, s.n)
        if not out:
            raise Unsupported("index outside of a sequence")
        return out

    def lit_alts(self, st, s, j):
        out = []
        for k, v in enumerate(s.v):
            c = idx_eq(self, j, k)
            if c is False:
                continue
            if len(s.v) <= 64 and not self.isintval(v):
                if not self.feasible(st, c):
                    continue
            out.append((c, v))
        if not out:
            raise Unsupported("index outside of a sequence")
        return out

    def isintval(self, v):
        return isinstance(v, (int, z3.ExprRef))

    def sub(self, st, rope, lo, hi):
        if isinstance(lo, int) and lo == 0 and self.same_int(st, hi, rope.n):
            return rope
        if self.same_int(st, lo, hi):
            return Rope(rope.et, [])
        a = self.find(st, rope, lo)
        b = self.find(st, rope, hi, True)
        if a is None or b is None:
            n = isub(hi, lo)
            key = ("sub", self.K(rope))
            return Rope(rope.et, [Fn(key, lo, n, lambda E, s, j: E.at(s, rope, j))])
        out = []
        for k, s in enumerate(rope.segs):
            if k < a[0] or k > b[0] or (k == b[0] and isinstance(b[1], int) and b[1] == 0):
                continue
            o = a[1] if k == a[0] else 0
            e = b[1] if k == b[0] else s.n
            if isinstance(s, Lit):
                if not (isinstance(o, int) and isinstance(e, int)):
                    if self.same_int(st, e, s.n):
                        e = s.n
                    if not (isinstance(o, int) and isinstance(e, int)):
                        n = isub(hi, lo)
                        return Rope(rope.et, [Fn(("sub", self.K(rope)), lo, n, lambda E, s2, j: E.at(s2, rope, j))])
                out.append(Lit(s.v[o:e]))
            else:
                out.append(Fn(s.key, iadd(s.off, o), isub(e, o), s.at))
        return Rope(rope.et, out)

    def same_int(self, st, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return self.valid(st, self.idom.lift(a) == self.idom.lift(b), True)

    def hasdef(self, *ns):
        """lengths defined by an axiom outside of pure arithmetic"""
        d = self.__dict__.get("lendefs")
        if not d:
            return False
        for n in ns:
            if not isinstance(n, int):
                _, apps, consts = self.syms(n)
                if (apps | consts) & d:
                    return True
        return False

    def concat(self, *ropes):
        return Rope(ropes[0].et, [s for r in ropes for s in r.segs])

    def update(self, st, rope, i, v):
        if self.stores is not None:
            self.stores.append((self.K(i), i))
        f = self.find(st, rope, i)
        if f is not None and f[0] < len(rope.segs) and isinstance(rope.segs[f[0]], Lit) and isinstance(f[1], int):
            s = rope.segs[f[0]]
            nv = list(s.v)
            nv[f[1]] = v
            return Rope(rope.et, rope.segs[:f[0]] + (Lit(nv),) + rope.segs[f[0] + 1:])
        L = rope.lits()
        if L is not None and self.isint(rope.et):
            w, sg = intinfo(rope.et)
            d = self.domof(rope.et)
            return Rope(rope.et, [Lit([d.ite(pyb(self.idom.lift(i) == k), v, x, w) for k, x in enumerate(L)])])
        n = rope.n
        if isinstance(i, int) or self.decide(st, self.idom.lift(i) < self.idom.lift(n)) is True:
            a = self.sub(st, rope, 0, i)
            b = self.sub(st, rope, iadd(i, 1), n)
            return Rope(rope.et, a.segs + (Lit([v]),) + b.segs)
        raise Unsupported("store into a sequence at an undetermined index")

    def splice(self, st, rope, off, new):
        """replace rope[off:off+len(new)] by new"""
        end = iadd(off, new.n)
        a = self.sub(st, rope, 0, off)
        b = self.sub(st, rope, end, rope.n)
        return self.concat(a, new, b)

    def rope_eq(self, st, a, b, prove=False):
        """is the equality provable?  structural first, then element by element at an arbitrary index"""
        if a is b:
            return True
        if self.K(a) == self.K(b):
            return True
        for x, y in st.notes.get("eq", ()):
            kx, ky = self.K(x), self.K(y)
            if (kx, ky) == (self.K(a), self.K(b)) or (ky, kx) == (self.K(a), self.K(b)):
                return True
        if not self.same_int(st, a.n, b.n):
            if (self.pure(self.idom.lift(a.n)) and self.pure(self.idom.lift(b.n)) and not self.hasdef(a.n, b.n)) \
                    or not self.valid(st, self.idom.lift(a.n) == self.idom.lift(b.n)):
                return False
        # walk the aligned segments
        sa, sb = list(a.segs), list(b.segs)
        while sa and sb:
            x, y = sa[0], sb[0]
            if isinstance(x, Lit) and isinstance(y, Lit):
                m = min(len(x.v), len(y.v))
                for p, q in zip(x.v[:m], y.v[:m]):
                    if not self.val_eq(st, p, q, a.et):
                        return False
                sa[0:1] = [Lit(x.v[m:])] if len(x.v) > m else []
                sb[0:1] = [Lit(y.v[m:])] if len(y.v) > m else []
                continue
            if isinstance(x, Fn) and isinstance(y, Fn) and self.same_int(st, x.n, y.n):
                if x.key == y.key and self.same_int(st, x.off, y.off):
                    sa.pop(0)
                    sb.pop(0)
                    continue
                if self.fn_eq(st, x, y, a.et):
                    sa.pop(0)
                    sb.pop(0)
                    continue
                return False
            if isinstance(x, Fn) and isinstance(y, Fn) and x.key == y.key and self.same_int(st, x.off, y.off):
                d = isub(x.n, y.n)
                if isinstance(d, int) and abs(d) <= 8:
                    lg, sh, rest = (x, y, sa) if d > 0 else (y, x, sb)
                    tail = Lit([self.fn_at(st, lg, iadd(sh.n, i)) for i in range(abs(d))])
                    sa.pop(0)
                    sb.pop(0)
                    rest.insert(0, tail)
                    continue
            if isinstance(x, Lit) != isinstance(y, Lit):
                g, l, rest = (y, x, sb) if isinstance(x, Lit) else (x, y, sa)
                m = len(l.v)
                if m <= 64 and (g.n >= m if isinstance(g.n, int) else self.valid(st, self.idom.lift(g.n) >= m)):
                    rest[0:1] = [Lit([self.fn_at(st, g, i) for i in range(m)])] + \
                        ([] if isinstance(g.n, int) and g.n == m else [Fn(g.key, iadd(g.off, m), isub(g.n, m), g.at)])
                    continue
            break
        if not sa and not sb:
            return True
        a2, b2 = Rope(a.et, sa), Rope(a.et, sb)
        if (not sa and self.same_int(st, b2.n, 0)) or (not sb and self.same_int(st, a2.n, 0)):
            return True
        # element by element
        n = a2.n
        if isinstance(n, int) and n <= 300:
            return all(self.val_eq(st, self.at(st, a2, k), self.at(st, b2, k), a.et) for k in range(n))
        st2 = st.fork()
        k = self.fresh_int("k", 0)
        st2.pc.append(k < self.idom.lift(n))
        if not self.feasible(st2):
            return True
        try:
            return self.val_eq(st2, self.at(st2, a2, k), self.at(st2, b2, k), a.et)
        except Unsupported:
            return False

    def fn_eq(self, st, x, y, et):
        hook = getattr(x.at, "fn_eq", None) or getattr(y.at, "fn_eq", None)
        if hook is not None:
            r = hook(self, st, x, y)
            if r is not None:
                return r
        st2 = st.fork()
        k = self.fresh_int("k", 0)
        st2.pc.append(k < self.idom.lift(x.n))
        if not self.feasible(st2):
            return True
        try:
            p = self.fn_at(st2, x, k)
            q = self.fn_at(st2, y, k)
            return self.val_eq(st2, p, q, et)
        except Unsupported:
            return False

    def val_eq(self, st, a, b, ty=None):
        """provable equality of two values (pointers to fresh objects are compared by contents)"""
        if a is b:
            return True
        if isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
                return self.valid(st, B(a) == B(b))
            return self.valid(st, self.num_eq(a, b))
        if hasattr(a, "ring_eq"):
            return a.ring_eq(self, st, b)
        if hasattr(b, "ring_eq"):
            return b.ring_eq(self, st, a)
        if isinstance(a, Rope) and isinstance(b, Rope):
            return self.rope_eq(st, a, b)
        if isinstance(a, ArrV) and isinstance(b, ArrV):
            return len(a.v) == len(b.v) and all(self.val_eq(st, x, y, a.et) for x, y in zip(a.v, b.v))
        if isinstance(a, StructV) and isinstance(b, StructV):
            return len(a.f) == len(b.f) and all(self.val_eq(st, x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return self.rope_eq(st, self.content(st, a), self.content(st, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.oid == b.oid and a.path == b.path:
                return True
            if a.oid is None or b.oid is None:
                return False
            x = self.load(st, a)
            y = self.load(st, b)
            if len(x) != 1 or len(y) != 1:
                return False
            return self.val_eq(st, x[0][1], y[0][1])
        if isinstance(a, NilIface) and isinstance(b, NilIface):
            return True
        if isinstance(a, IfaceV) and isinstance(b, IfaceV):
            return a.ty.str == b.ty.str and self.val_eq(st, a.v, b.v)
        if isinstance(a, OpaqueV) and isinstance(b, OpaqueV):
            return a.kind == b.kind and a.key == b.key
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.val_eq(st, x, y) for x, y in zip(a, b))
        if isinstance(a, BuilderV) and isinstance(b, BuilderV):
            return self.rope_eq(st, a.rope, b.rope)
        if isinstance(a, IterV) and isinstance(b, IterV):
            return self.rope_eq(st, a.rope, b.rope) and self.same_int(st, a.pos, b.pos)
        return False

    def num_eq(self, a, b):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if z3.is_bv(a):
                return a == z3.BitVecVal(b, a.size())
            return a == b
        if a.sort() != b.sort():
            if z3.is_bv(a) and z3.is_int(b):
                return z3.BV2Int(a) == b
            if z3.is_int(a) and z3.is_bv(b):
                return a == z3.BV2Int(b)
            return False
        return a == b

    # ------------------------------------------------------------------ memory
    def cell(self, st, oid):
        c = st.heap.get(oid)
        if c is None:
            if oid in self.gheap:
                st.heap[oid] = self.gheap[oid]
                return st.heap[oid]
            if isinstance(oid, tuple) and oid[0] == "g":
                return self.global_cell(st, oid)
            if isinstance(oid, tuple) and oid[0] == "lazy":
                return Cell(self.lazy[oid[1]](self, st, self.lazyj[oid[1:]]), None, True)
            raise Unsupported("unknown object %s" % (oid,))
        return c

    def lazy_ptr(self, key, j):
        """pointer to the object which element j of a list of unknown length points to"""
        k = self.K(j)
        lz = self.__dict__.setdefault("lazyj", {})
        lz.pop((key, k), None)      # the most recent one last
        lz[(key, k)] = j
        return Ptr(("lazy", key, k))

    def global_cell(self, st, oid):
        name = oid[1]
        if oid in self.gheap:
            c = self.gheap[oid]
            st.heap[oid] = c
            return c
        pkg = name.rsplit(".", 1)[0]
        m = self.models.get("global:" + name)
        if m is not None:
            c = Cell(m(self, st), None, True)
            st.heap[oid] = c
            return c
        if pkg not in self.globals_ready:
            self.init_package(pkg)
        if oid in self.gheap:
            st.heap[oid] = self.gheap[oid]
            for k, v in self.gheap.items():
                st.heap.setdefault(k, v)
            return st.heap[oid]
        ty = self.prog.globals.get(name)
        if ty is None:
            m = self.models.get("global:" + name)
            if m is not None:
                c = Cell(m(self, st), None, True)
                st.heap[oid] = c
                return c
            raise Unsupported("global " + name)
        c = Cell(self.zero(ty.elem), ty.elem, True)
        st.heap[oid] = c
        return c

    def init_package(self, pkg):
        """execute the package's initialisation to get the initial values of its variables"""
        self.globals_ready[pkg] = True
        f = self.prog.funcs.get(pkg + ".init")
        if f is None or not f.blocks:
            return
        written = self.prog.written_globals()
        st = State()
        st.notes["init"] = True
        d, self.depth = self.depth, 0
        outs = self.run(st, f, [], ())
        self.depth = d
        rets = [o for o in outs if o[1] == "ret"]
        if len(rets) != 1:
            raise Unsupported("initialisation of " + pkg)
        for oid, c in rets[0][0].heap.items():
            if isinstance(oid, tuple) and oid[0] == "g" and oid[1] in written:
                continue
            self.gheap[oid] = c.with_(pre=True)
        self.axioms.extend([])
        for n in written:
            if n.rsplit(".", 1)[0] == pkg:
                raise Unsupported("package variable %s is assigned outside of the initialisation" % n)

    def load(self, st, p, gen=None):
        if p.oid is None:
            raise Unsupported("load through nil")
        c = self.cell(st, p.oid)
        return self.get_path(st, c.val, p.path)

    def get_path(self, st, v, path):
        alts = [(True, v)]
        for i in path:
            nxt = []
            for c, v in alts:
                if isinstance(v, StructV):
                    nxt.append((c, v.f[i]))
                elif isinstance(v, ArrV):
                    if isinstance(i, int):
                        nxt.append((c, v.v[i]))
                    else:
                        L = Lit(v.v)
                        if all(self.isintval(x) for x in v.v):
                            a = self.lit_alts(st, L, i)
                            r = a[-1][1]
                            for cc, vv in reversed(a[:-1]):
                                r = self.ite(cc, vv, r, v.et)
                            nxt.append((c, r))
                        else:
                            nxt.extend((And(c, cc), vv) for cc, vv in self.lit_alts(st, L, i))
                elif isinstance(v, Rope):
                    a = self.alts(st, v, i)
                    if len(a) > 1 and self.isint(v.et):
                        nxt.append((c, self.at(st, v, i)))
                    else:
                        nxt.extend((And(c, cc), vv) for cc, vv in a)
                elif hasattr(v, "field"):
                    nxt.append((c, v.field(self, st, i)))
                else:
                    raise Unsupported("path into %r" % (v,))
            alts = nxt
        return alts

    def load1(self, st, p):
        a = self.load(st, p)
        if len(a) != 1:
            raise Unsupported("undetermined load")
        return a[0][1]

    def store(self, st, p, v):
        if p.oid is None:
            raise Unsupported("store through nil")
        c = self.cell(st, p.oid)
        if isinstance(p.oid, tuple) and p.oid[0] == "lazy":
            raise Unsupported("store into an element of an input list")
        if isinstance(p.oid, tuple) and p.oid[0] == "g" and not st.notes.get("init"):
            raise Unsupported("store to package variable %s" % (p.oid[1],))
        if c.pre:
            w = st.notes.get("writes", frozenset())
            st.notes["writes"] = w | {(p.oid, tuple(self.K(x) for x in p.path))}
        st.heap[p.oid] = c.with_(val=self.set_path(st, c.val, p.path, v))

    def set_path(self, st, old, path, v):
        if not path:
            return v
        i = path[0]
        if isinstance(old, StructV):
            f = list(old.f)
            f[i] = self.set_path(st, f[i], path[1:], v)
            return StructV(old.ty, f)
        if isinstance(old, ArrV):
            if isinstance(i, int):
                f = list(old.v)
                f[i] = self.set_path(st, f[i], path[1:], v)
                return ArrV(old.et, f)
            if len(path) == 1 and self.isint(old.et):
                w, sg = intinfo(old.et)
                d = self.domof(old.et)
                return ArrV(old.et, [d.ite(idx_eq(self, i, k), v, x, w) for k, x in enumerate(old.v)])
            raise Unsupported("store at an undetermined index")
        if isinstance(old, Rope):
            if len(path) > 1:
                x = self.at(st, old, i)
                v = self.set_path(st, x, path[1:], v)
            return self.update(st, old, i, v)
        raise Unsupported("store into %r" % (old,))

    def seqval(self, st, p):
        """the sequence (as a Rope) at a location holding an array or backing array"""
        v = self.load1(st, p)
        if isinstance(v, Rope):
            return v
        if isinstance(v, ArrV):
            return Rope(v.et, [Lit(v.v)])
        if isinstance(v, BuilderV):
            return v.rope
        raise Unsupported("not a sequence: %r" % (v,))

    def content(self, st, s, et=None):
        """contents of a slice"""
        if s.ptr is None:
            return Rope(et or self.u8, [])
        c = self.cell(st, s.ptr.oid)
        if s.gen < c.dirty:
            raise Unsupported("slice that may share its array with another one")
        return self.sub(st, self.seqval(st, s.ptr), s.off, iadd(s.off, s.n))

    def set_seq(self, st, p, rope):
        v = self.load1(st, p)
        if isinstance(v, ArrV):
            L = rope.lits()
            if L is None:
                L = [self.at(st, rope, k) for k in range(len(v.v))]
            self.store(st, p, ArrV(v.et, L))
        else:
            self.store(st, p, rope)

    def slice_store(self, st, s, i, v):
        """note a write through the slice"""
        c = self.cell(st, s.ptr.oid)
        if s.ptr.oid in st.notes.get("shared", ()):
            raise Unsupported("write to a slice that may share its array with another one")
        if c.grow:
            if s.gen < c.gen:
                raise Unsupported("write to a slice that may share its array with another one")
            if c.gen > 0:
                st.heap[s.ptr.oid] = c.with_(dirty=c.gen)

    def append(self, st, s, new):
        """append; returns [(state, slice)]"""
        m = new.n
        if s.ptr is None:
            if isinstance(m, int) and m == 0:
                return [(st, s)]
            r = self.new_slice(st, new)
            if not isinstance(m, int):
                r.nilc = pyb(self.idom.lift(m) == 0)
            return [(st, r)]
        if isinstance(m, int) and m == 0:
            return [(st, s)]
        c = self.cell(st, s.ptr.oid)
        if s.gen < c.dirty:
            raise Unsupported("append to a slice that may share its array with another one")
        end = iadd(s.off, s.n)
        whole = not s.ptr.path and isinstance(c.val, Rope)
        newn = iadd(s.n, m)
        if c.grow and whole and self.same_int(st, end, c.val.n):
            g = c.gen + 1
            st.heap[s.ptr.oid] = c.with_(val=self.concat(c.val, new), gen=g)
            nl = s.nilc if isinstance(s.nilc, bool) and not s.nilc else \
                (False if isinstance(newn, int) else pyb(And(s.nilc, self.idom.lift(newn) == 0)))
            return [(st, SliceV(s.ptr, s.off, newn, None, g, nl))]
        old = self.content(st, s, new.et)
        out = []
        # not enough capacity: moved to a new array
        cap = s.cap
        fits = None
        if cap is not None:
            fits = pyb(self.idom.lift(newn) <= self.idom.lift(cap))
        if whole and self.same_int(st, end, c.val.n):
            # in place (beyond what is visible of the array) or moved: the result is a sequence of its own, except that another
            # append at the same place may overwrite it, and writes to it may reach the array
            if fits is None or fits is True or (fits is not False and self.feasible(st, fits)):
                kids = st.notes.get("kids", {})
                for k in kids.get(s.ptr.oid, ()):
                    st.heap[k] = st.heap[k].with_(dirty=10 ** 9)
                r = self.new_slice(st, self.concat(old, new))
                st.notes["kids"] = {**kids, s.ptr.oid: kids.get(s.ptr.oid, ()) + (r.ptr.oid,)}
                st.notes["spare"] = st.notes.get("spare", ()) + (s.ptr.oid,)
                st.notes["shared"] = st.notes.get("shared", frozenset()) | {r.ptr.oid}
            else:
                r = self.new_slice(st, self.concat(old, new))
            if not isinstance(newn, int) and s.nilc is not False:
                r.nilc = pyb(And(s.nilc, self.idom.lift(newn) == 0))
            return [(st, r)]
        s1 = st.fork()
        if fits is None or fits is False or (fits is not True and self.feasible(s1, Not(fits))):
            if fits is not None and not isinstance(fits, bool):
                s1.pc.append(Not(fits))
            out.append((s1, self.new_slice(s1, self.concat(old, new))))
        if fits is not False:
            s2 = st.fork()
            ok = True
            if fits is not None and fits is not True:
                ok = self.feasible(s2, fits)
                s2.pc.append(fits)
            if ok:
                cur = self.seqval(s2, s.ptr)
                if self.same_int(s2, end, cur.n):
                    if fits is None:
                        return out
                    if self.valid(s2, self.idom.lift(m) == 0):
                        out.append((s2, s))
                        return out
                    raise Unsupported("append beyond an array")
                else:
                    room = isub(cur.n, end)
                    if isinstance(m, int) and isinstance(room, int) and m > room:
                        raise Unsupported("append across the visible part of an array")
                    if not (isinstance(m, int) and isinstance(room, int)) and not self.valid(
                            s2, self.idom.lift(m) <= self.idom.lift(room)):
                        raise Unsupported("append across the visible part of an array")
                    self.slice_store(s2, s, None, None)
                    self.set_seq(s2, s.ptr, self.splice(s2, cur, end, new))
                    out.append((s2, SliceV(s.ptr, s.off, newn, cap, s.gen, False)))
        return out

    # ------------------------------------------------------------------ execution
    def require(self, st, c, msg):
        c = pyb(c)
        if c is True or self.valid(st, c):
            return
        st.pend.append((c, msg))

    def product(self, X, Y):
        """product of two unknown non-negative integers: an uninterpreted function, with the monotony of the products made so far"""
        X, Y = self.idom.lift(isimp(X)), self.idom.lift(isimp(Y))
        if X.get_id() > Y.get_id():
            X, Y = Y, X
        f = z3.Function("mul", z3.IntSort(), z3.IntSort(), z3.IntSort())
        t = f(X, Y)
        tab = self.__dict__.setdefault("products", {})
        k = (X.get_id(), Y.get_id())
        if k not in tab:
            self.keep += [X, Y]
            self.axiom(z3.Implies(z3.And(X >= 0, Y >= 0), t >= 0))
            for x, y in ((X, Y), (Y, X)):
                for (a, b), t2 in list(tab.values()):
                    for p, q in ((a, b), (b, a)):
                        if p.get_id() == x.get_id():
                            self.axiom(z3.Implies(z3.And(x >= 0, y <= q), t <= t2), both=(t, t2))
                            self.axiom(z3.Implies(z3.And(x >= 0, q <= y), t2 <= t), both=(t, t2))
            tab[k] = ((X, Y), t)
        return t

    def const(self, r):
        ty = self.prog.types[r["t"]]
        if r.get("nil"):
            return self.zero(ty)
        if "bool" in r:
            return r["bool"]
        if "str" in r:
            return Rope(self.u8, [Lit(r["str"])])
        if intinfo(ty) and "int" in r:
            w, s = intinfo(ty)
            return norm(int(r["int"]), w, s)
        if "float" in r:
            return ("float", r["float"])
        if "int" in r:
            return ("float", r["int"])
        if ty.u.k in ("struct", "array"):
            return self.zero(ty)
        raise Unsupported("constant %r" % (r,))

    def val(self, env, r):
        k = r["k"]
        if k == "reg":
            return env[r["n"]]
        if k == "const":
            return self.const(r)
        if k == "global":
            return Ptr(("g", r["n"]))
        if k == "func":
            return FuncV(r["n"])
        if k == "builtin":
            return FuncV("builtin:" + r["n"])
        raise Unsupported("operand " + k)

    def ty(self, r):
        return self.prog.types[r["t"]]

    def call_named(self, st, name, args, instr=None, resty=None):
        """-> [(state, kind, value)]"""
        m = self.models.get(name)
        if m is not None:
            self.stats.models_used.add(name)
            return self.norm_outs(st, m(self, st, args, instr))
        c = self.contracts.get(name)
        if c is not None:
            self.stats.contracts_used.add(name)
            return self.norm_outs(st, c(self, st, args))
        f = self.prog.funcs.get(name)
        if f is None or not f.blocks:
            if name.endswith(".init") and st.notes.get("init"):
                return [(st, "ret", ())]
            raise Unsupported("call of %s" % name)
        if st.notes.get("init") and name.endswith(".init"):
            return [(st, "ret", ())]
        self.stats.inlined.add(name)
        return self.run(st, f, args, ())

    def norm_outs(self, st, r):
        if isinstance(r, list):
            return [x if len(x) == 3 else (x[0], "ret", x[1]) for x in r]
        return [(st, "ret", r)]

    def call_value(self, st, fv, args, instr=None):
        if isinstance(fv, FuncV):
            if fv.name.startswith("builtin:"):
                raise Unsupported("builtin as a value")
            if fv.bind:
                f = self.prog.funcs.get(fv.name)
                return self.run(st, f, args, fv.bind)
            return self.call_named(st, fv.name, args, instr)
        if isinstance(fv, OpaqueV):
            m = self.models.get("call:" + fv.kind)
            if m:
                return self.norm_outs(st, m(self, st, fv, args, instr))
        if callable(fv):
            return self.norm_outs(st, fv(self, st, args))
        raise Unsupported("call of an unknown function value")

    def invoke(self, st, recv, method, args, instr=None):
        if isinstance(recv, NilIface):
            return [(st, "panic", "nil interface")]
        if isinstance(recv, IfaceV):
            fn = self.prog.methods.get((recv.ty.str, method))
            if fn is None:
                m = self.models.get("method:%s.%s" % (recv.ty.str, method))
                if m is not None:
                    return self.norm_outs(st, m(self, st, [recv.v] + args, instr))
                raise Unsupported("method %s of %s" % (method, recv.ty.str))
            return self.call_named(st, fn, [recv.v] + args, instr)
        if isinstance(recv, OpaqueV):
            m = self.invokes.get((recv.kind, method))
            if m is None:
                raise Unsupported("method %s of unknown %s" % (method, recv.kind))
            self.stats.models_used.add("%s.%s" % (recv.kind, method))
            outs = []
            if recv.isnil is not False:
                if recv.isnil is True:
                    return [(st, "panic", "nil interface")]
                s2 = st.fork()
                if self.feasible(s2, recv.isnil):
                    s2.pc.append(recv.isnil)
                    outs.append((s2, "panic", "nil interface"))
                self.assume(st, Not(recv.isnil))
            return outs + self.norm_outs(st, m(self, st, recv, args))
        raise Unsupported("invoke on %r" % (recv,))

    def run(self, st, f, args, bindings):
        if self.depth > 40:
            raise Unsupported("recursion")
        self.depth += 1
        try:
            env = {}
            for p, a in zip(f.params, args):
                env[p["n"]] = a
            for p, a in zip(f.freevars, bindings):
                env[p["n"]] = a
            outs = []
            back, exits = self.region(f, [(st, env, 0, None, 0)], None, None, outs)
            return outs
        finally:
            self.depth -= 1

    def region(self, f, work, loopset, header, outs, unroll=None):
        """execute until return/panic (to outs), back edge to header (back) or exit from the loop (exits)"""
        back, exits = [], []
        work = list(work)
        steps = 0
        while work:
            item = work.pop()
            st, env, b, prev, pc = item
            if len(outs) + len(work) > self.maxpaths:
                raise Unsupported("too many paths")
            blk = f.blocks[b]
            if pc == 0 and prev is not None:
                if loopset is not None:
                    if b == header:
                        back.append((st, env, prev))
                        continue
                    if b not in loopset:
                        exits.append((st, env, b, prev))
                        continue
                loops = f.loops()
                if b in loops and prev not in loops[b]:
                    # entering a loop
                    r = self.enter_loop(f, st, env, b, prev, loops[b], outs)
                    if r is not None:
                        for (s2, e2, b2, p2) in r:
                            work.append((s2, e2, b2, p2, 0))
                        continue
                    env = dict(env)
                    env[("iter", b)] = 0
                    env[("retry", b)] = 2 if self.templates and self.probe_skipped else 0
                elif b in loops:
                    env = dict(env)
                    if env.get(("retry", b)):
                        # the first iterations were decided by the program: cut the loop here
                        env[("retry", b)] -= 1
                        r = self.enter_loop(f, st, env, b, prev, loops[b], outs)
                        if r is not None:
                            for (s2, e2, b2, p2) in r:
                                work.append((s2, e2, b2, p2, 0))
                            continue
                        if not self.probe_skipped:
                            env[("retry", b)] = 0
                    env[("iter", b)] = env.get(("iter", b), 0) + 1
                    lim = self.unroll_limit if env.get(("sym", b), 0) == 0 else self.sym_unroll
                    if env[("iter", b)] > lim:
                        e = NoBound("loop without bound in %s" % f.name)
                        e.loop = (f.name, b)
                        raise e
            if pc == 0:
                env = self.phis(f, blk, env, prev)
            res = self.block(f, st, env, b, prev, pc, outs)
            work.extend(res)
            steps += 1
            if steps > 200000:
                raise Unsupported("too many steps")
        return back, exits

    sym_unroll = 40

    def phis(self, f, blk, env, prev):
        new = None
        for ins in blk.instrs:
            if ins["op"] != "Phi":
                break
            if new is None:
                new = {}
            k = blk.preds.index(prev)
            new[ins["name"]] = self.val(env, ins["edges"][k])
        if new is None:
            return dict(env)
        env = dict(env)
        env.update(new)
        return env

    # -- one block; returns work items
    def block(self, f, st, env, b, prev, pc, outs):
        blk = f.blocks[b]
        ins_list = blk.instrs
        while pc < len(ins_list):
            ins = ins_list[pc]
            op = ins["op"]
            if op == "Phi":
                pc += 1
                continue
            if op == "If":
                c = pyb(self.val(env, ins["x"]))
                t, e = blk.succs
                if c is True:
                    return [(st, env, t, b, 0)]
                if c is False:
                    return [(st, env, e, b, 0)]
                loops = f.loops()
                for h in loops:
                    if b in loops[h] and (t not in loops[h] or e not in loops[h]):
                        env[("sym", h)] = 1
                r = []
                ft = self.feasible(st, c)
                fe = self.feasible(st, Not(c)) if ft else True
                if ft and fe:
                    s2 = st.fork()
                    s2.pc.append(Not(c))
                    s2.trace += ("%s:%s else" % (f.name, ins.get("line", "")),)
                    r.append((s2, dict(env), e, b, 0))
                    st.pc.append(c)
                    st.trace += ("%s:%s then" % (f.name, ins.get("line", "")),)
                    r.append((st, env, t, b, 0))
                elif ft:
                    st.pc.append(c)
                    r.append((st, env, t, b, 0))
                else:
                    st.pc.append(Not(c))
                    r.append((st, env, e, b, 0))
                return r
            if op == "Jump":
                return [(st, env, blk.succs[0], b, 0)]
            if op == "Return":
                vs = [self.val(env, x) for x in ins["results"]]
                outs.append((st, "ret", vs[0] if len(vs) == 1 else tuple(vs)))
                return []
            if op == "Panic":
                outs.append((st, "panic", "explicit panic in %s" % f.name))
                return []
            res = self.instr(f, st, env, ins, outs)
            # res: list of (state, value)
            if len(res) == 1:
                st, v = res[0]
                if "name" in ins:
                    env[ins["name"]] = v
                pc += 1
                continue
            r = []
            for s2, v in res:
                e2 = dict(env)
                if "name" in ins:
                    e2[ins["name"]] = v
                r.append((s2, e2, b, prev, pc + 1))
            return r
        raise Unsupported("block without end")

    def check(self, st, c, msg, f, outs):
        """run-time check: adds a panic outcome when it can fail; returns False when it always fails"""
        c = pyb(c)
        if c is True:
            return True
        if c is False:
            outs.append((st, "panic", msg))
            return False
        if self.valid(st, c):
            return True
        s2 = st.fork()
        s2.pc.append(Not(c))
        if self.feasible(s2):
            outs.append((s2, "panic", msg))
        st.pc.append(c)
        return self.feasible(st)

    def instr(self, f, st, env, ins, outs):
        op = ins["op"]
        where = "%s line %s" % (f.name, ins.get("line", "?"))
        h = getattr(self, "op_" + op.replace(":", "_"), None)
        if h is None:
            raise Unsupported("instruction %s in %s" % (op, f.name))
        r = h(f, st, env, ins, outs, where)
        if st.pend:
            pend, st.pend = st.pend, []
            for c, msg in pend:
                if not self.check(st, c, "%s: %s" % (where, msg), f, outs):
                    return []
        return r

    def op_Alloc(self, f, st, env, ins, outs, where):
        ty = self.ty(ins).elem
        m = self.models.get("new:" + ty.str)
        v = m(self, st) if m else self.zero(ty)
        return [(st, Ptr(self.new(st, v, ty)))]

    def op_BinOp(self, f, st, env, ins, outs, where):
        x = self.val(env, ins["x"])
        y = self.val(env, ins["y"])
        tok = ins["tok"]
        xt = self.ty(ins["x"])
        ii = intinfo(xt)
        if ii and xt.u.k == "basic":
            w, s = ii
            if tok in CMP:
                return [(st, self.int_cmp(st, tok, x, y, xt))]
            if tok in ("/", "%"):
                if not self.check(st, self.nonzero(y, xt), where + ": division by zero", f, outs):
                    return []
            if isinstance(x, int) and isinstance(y, int):
                if tok in ("<<", ">>") and y < 0:
                    outs.append((st, "panic", where + ": negative shift"))
                    return []
                return [(st, conc(tok, x, y, w, s))]
            yt = self.ty(ins["y"])
            yi = intinfo(yt)
            d = self.domof(xt)
            if tok in ("<<", ">>") and not isinstance(y, int) and self.domof(yt) is not d:
                raise Unsupported("shift by an unknown of another domain")
            return [(st, d.binop(self, st, tok, x, y, w, s, yi[0] if yi else None, yi[1] if yi else False))]
        if tok in ("==", "!="):
            r = self.equal(st, x, y, xt, self.ty(ins["y"]))
            if isinstance(r, list):
                return [(s2, v if tok == "==" else Not(v)) for s2, v in r]
            return [(st, r if tok == "==" else pyb(Not(r)))]
        if tok == "+" and isinstance(x, Rope):
            return [(st, self.concat(x, y))]
        if isinstance(x, Rope) and tok in CMP:
            a, b = x.concrete(), y.concrete()
            if a is not None and b is not None:
                return [(st, CMP[tok](a, b))]
        raise Unsupported("operator %s on %s in %s" % (tok, xt.str, where))

    def nonzero(self, y, ty):
        if isinstance(y, int):
            return y != 0
        return self.int_cmp(None, "!=", y, 0, ty)

    def int_cmp(self, st, tok, x, y, ty):
        if isinstance(x, int) and isinstance(y, int):
            return CMP[tok](x, y)
        w, s = intinfo(ty)
        return self.domof(ty).cmp(tok, x, y, w, s)

    def equal(self, st, x, y, xt, yt):
        """x == y of Go: bool/z3 Bool or [(state, bool)]"""
        if isinstance(x, (bool, z3.BoolRef)) and isinstance(y, (bool, z3.BoolRef)):
            if isinstance(x, bool) and isinstance(y, bool):
                return x == y
            return pyb(B(x) == B(y))
        if isinstance(x, Rope) and isinstance(y, Rope):
            return self.rope_test(st, x, y)
        if isinstance(x, (NilIface, IfaceV, OpaqueV)) or isinstance(y, (NilIface, IfaceV, OpaqueV)):
            if isinstance(y, NilIface) or (isinstance(y, Ptr) and y.oid is None):
                x, y = y, x
            if isinstance(x, NilIface) or (isinstance(x, Ptr) and x.oid is None):
                if isinstance(y, NilIface):
                    return True
                if isinstance(y, IfaceV):
                    return False
                if isinstance(y, OpaqueV):
                    return y.isnil
                if isinstance(y, Ptr):
                    return y.oid is None
            if isinstance(x, OpaqueV) and isinstance(y, OpaqueV):
                if x.kind == y.kind and x.key == y.key:
                    return True
            raise Unsupported("comparison of interfaces")
        if isinstance(x, SliceV) and isinstance(y, SliceV):
            if y.ptr is None and y.nilc is True:
                return x.nilc
            if x.ptr is None and x.nilc is True:
                return y.nilc
            raise Unsupported("comparison of slices")
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.oid is None or y.oid is None:
                return x.oid is None and y.oid is None
            if isinstance(x.oid, tuple) and isinstance(y.oid, tuple) and x.oid[0] == y.oid[0] == "lazy":
                raise Unsupported("comparison of pointers of an input list")
            return x.oid == y.oid and x.path == y.path
        if isinstance(x, (FuncV,)) or isinstance(y, (FuncV,)):
            return False
        if isinstance(x, ArrV) and isinstance(y, ArrV) and self.isint(x.et):
            return pyb(And(*[self.int_cmp(st, "==", a, b, x.et) for a, b in zip(x.v, y.v)]))
        if isinstance(x, StructV) and isinstance(y, StructV):
            r = True
            for a, b, t in zip(x.f, y.f, x.ty.field_types()):
                e = self.equal(st, a, b, t, t) if not self.isint(t) else self.int_cmp(st, "==", a, b, t)
                if isinstance(e, list):
                    raise Unsupported("comparison of structs")
                r = And(r, e)
            return pyb(r)
        raise Unsupported("comparison of %r and %r" % (x, y))

    def rope_test(self, st, x, y):
        a, b = x.concrete(), y.concrete()
        if a is not None and b is not None:
            return a == b
        lx, ly = x.lits(), y.lits()
        if lx is not None and ly is not None:
            if len(lx) != len(ly):
                return False
            return pyb(And(*[self.int_cmp(st, "==", p, q, x.et) for p, q in zip(lx, ly)]))
        d = self.decide(st, self.idom.lift(x.n) == self.idom.lift(y.n))
        if d is False:
            return False
        if self.rope_eq(st, x, y):
            return True
        # nothing known: both outcomes, with what each of them says
        s1, s2 = st.fork(), st.fork()
        out = []
        lit, other = (lx, y) if lx is not None else (ly, x)
        if lit is not None and len(lit) <= 64 and len(other.segs) == 1:
            same = self.idom.lift(other.n) == len(lit)
            s1.pc.append(same)
            if self.feasible(s1):
                conj = B(And(*[self.num_eq(self.at(s1, other, i), v) for i, v in enumerate(lit)]))
                s1.pc.append(conj)
                s1.notes["eq"] = s1.notes.get("eq", ()) + ((x, y),)
                self.note_equal(s1, x, y)
                if self.feasible(s1):
                    out.append((s1, True))
                same = z3.And(same, conj)
            s2.pc.append(z3.Not(same))
            if self.feasible(s2):
                out.append((s2, False))
            return out
        s1.pc.append(self.idom.lift(x.n) == self.idom.lift(y.n))
        s1.notes["eq"] = s1.notes.get("eq", ()) + ((x, y),)
        self.note_equal(s1, x, y)
        if self.feasible(s1):
            out.append((s1, True))
        w = self.fresh_int("w", 0)
        s3 = s2.fork()
        s3.pc.append(self.idom.lift(x.n) == self.idom.lift(y.n))
        s2.pc.append(self.idom.lift(x.n) != self.idom.lift(y.n))
        if self.feasible(s2):
            out.append((s2, False))
        s3.pc.append(w < self.idom.lift(x.n))
        if self.feasible(s3):
            s3.pc.append(B(Not(self.num_eq(self.at(s3, x, w), self.at(s3, y, w)))))
            if self.feasible(s3):
                out.append((s3, False))
        return out

    def note_equal(self, st, x, y):
        """x and y are equal: facts about the elements of every unknown segment of either"""
        for a, b in ((x, y), (y, x)):
            pos = 0
            for s in a.segs:
                if isinstance(s, Fn):
                    def u(E, st2, j, s=s, pos=pos, b=b):
                        k = isub(j, s.off)
                        idx = iadd(pos, k)
                        if st2.notes.get("inst", 0) > 2:
                            return None
                        st2.notes["inst"] = st2.notes.get("inst", 0) + 1
                        try:
                            v = E.at(st2, b, idx)
                        except Unsupported:
                            return None
                        finally:
                            st2.notes["inst"] -= 1
                        return B(Implies(And(E.idom.lift(k) >= 0, E.idom.lift(k) < E.idom.lift(s.n)),
                                         E.num_eq(s.at(E, st2, j), v)))
                    st.univ[s.key] = st.univ.get(s.key, ()) + (u,)
                pos = iadd(pos, s.n)

    def op_UnOp(self, f, st, env, ins, outs, where):
        x = self.val(env, ins["x"])
        tok = ins["tok"]
        if tok == "*":
            return self.do_load(f, st, x, outs, where)
        if tok == "!":
            return [(st, pyb(Not(x)))]
        ty = self.ty(ins)
        w, s = intinfo(ty)
        if tok == "-":
            return [(st, norm(-x, w, s) if isinstance(x, int) else self.domof(ty).neg(self, st, x, w, s))]
        if tok == "^":
            return [(st, norm(~x, w, s) if isinstance(x, int) else self.domof(ty).compl(self, st, x, w, s))]
        raise Unsupported("operator %s in %s" % (tok, where))

    def do_load(self, f, st, x, outs, where):
        r = self.do_load1(f, st, x, outs, where)
        if any(poisoned(v) for _, v in r):
            raise Unsupported("variable that is not determined")
        return r

    def do_load1(self, f, st, x, outs, where):
        if isinstance(x, Ptr):
            if x.oid is None:
                outs.append((st, "panic", where + ": nil dereference"))
                return []
            a = self.load(st, x)
        elif hasattr(x, "load"):
            a = [(True, x.load(self, st))]
        else:
            raise Unsupported("load through %r in %s" % (x, where))
        if len(a) == 1:
            return [(st, a[0][1])]
        out = []
        for c, v in a:
            s2 = st.fork()
            s2.pc.append(B(c))
            if self.feasible(s2):
                out.append((s2, v))
        return out

    def op_Store(self, f, st, env, ins, outs, where):
        p = self.val(env, ins["addr"])
        v = self.val(env, ins["x"])
        if isinstance(p, Ptr):
            if p.oid is None:
                outs.append((st, "panic", where + ": nil dereference"))
                return []
            if len(p.path) and st.heap.get(p.oid) is not None and p.path[-1:] and isinstance(p, SPtr):
                self.slice_store(st, p.sl, None, None)
            self.store(st, p, v)
            return [(st, None)]
        if hasattr(p, "store"):
            p.store(self, st, v)
            return [(st, None)]
        raise Unsupported("store through %r" % (p,))

    def op_FieldAddr(self, f, st, env, ins, outs, where):
        x = self.val(env, ins["x"])
        if isinstance(x, Ptr):
            if x.oid is None:
                outs.append((st, "panic", where + ": nil dereference"))
                return []
            return [(st, Ptr(x.oid, x.path + (ins["i"],)))]
        if isinstance(x, OpaqueV):
            m = self.models.get("fieldaddr:" + x.kind)
            if m:
                return [(st, m(self, st, x, ins["i"]))]
        raise Unsupported("field of %r in %s" % (x, where))

    def op_Field(self, f, st, env, ins, outs, where):
        x = self.val(env, ins["x"])
        if isinstance(x, StructV):
            return [(st, x.f[ins["i"]])]
        if hasattr(x, "field"):
            return [(st, x.field(self, st, ins["i"]))]
        raise Unsupported("field of %r" % (x,))

    def inrange(self, i, n):
        if isinstance(i, int) and isinstance(n, int):
            return 0 <= i < n
        I = self.idom.lift
        if is_b2i(i) and isinstance(n, int):
            b = i.arg(0)
            if n < (1 << b.size()):
                return z3.ULT(b, n)
            return True
        return And(I(i) >= 0, I(i) < I(n))

    def toint(self, st, v, ty):
        """value of integer type as an index (int domain)"""
        if isinstance(v, int) or self.domof(ty) is self.idom or self.domof(ty).name == "int":
            return v
        if z3.is_bv(v):
            w, s = intinfo(ty)
            return self.bv2int(v, s)
        if hasattr(v, "as_index"):
            return v.as_index(self, st)
        raise Unsupported("index of another domain")

    def bv2int(self, v, signed):
        t = z3.BV2Int(v, signed)
        w = v.size()
        if signed:
            self.axiom(z3.And(t >= -(1 << (w - 1)), t < (1 << (w - 1))))
        else:
            self.axiom(z3.And(t >= 0, t < (1 << w)))
        return t

    def op_IndexAddr(self, f, st, env, ins, outs, where):
        x = self.val(env, ins["x"])
        i = self.toint(st, self.val(env, ins["y"]), self.ty(ins["y"]))
        if isinstance(x, SliceV):
            if not self.check(st, self.inrange(i, x.n), where + ": index out of range", f, outs):
                return []
            c = self.cell(st, x.ptr.oid)
            if x.gen < c.dirty:
                raise Unsupported("slice that may share its array with another one")
            p = SPtr(x.ptr.oid, x.ptr.path + (iadd(x.off, i),))
            p.sl = x
            return [(st, p)]
        if isinstance(x, Ptr):
            if x.oid is None:
                outs.append((st, "panic", where + ": nil dereference"))
                return []
            n = self.ty(ins["x"]).elem.u.len
            if not self.check(st, self.inrange(i, n), where + ": index out of range", f, outs):
                return []
            return [(st, Ptr(x.oid, x.path + (i,)))]
        raise Unsupported("index of %r" % (x,))

    def op_Index(self, f, st, env, ins, outs, where):
        x = self.val(env, ins["x"])
        i = self.toint(st, self.val(env, ins["y"]), self.ty(ins["y"]))
        return self.index(f, st, x, i, outs, where)

    def index(self, f, st, x, i, outs, where):
        if isinstance(x, ArrV):
            x = Rope(x.et, [Lit(x.v)])
        if not isinstance(x, Rope):
            raise Unsupported("index of %r" % (x,))
        if not self.check(st, self.inrange(i, x.n), where + ": index out of range", f, outs):
            return []
        return [(st, self.at(st, x, i))]

    def op_Lookup(self, f, st, env, ins, outs, where):
        x = self.val(env, ins["x"])
        y = self.val(env, ins["y"])
        if isinstance(x, Rope):
            return self.index(f, st, x, self.toint(st, y, self.ty(ins["y"])), outs, where)
        xt = self.ty(ins["x"])
        zero = self.zero(xt.elem)
        if isinstance(x, Ptr) and x.oid is None:
            m = MapV()
        elif isinstance(x, Ptr):
            m = self.load1(st, x)
        else:
            raise Unsupported("lookup in %r" % (x,))
        if not isinstance(m, MapV):
            raise Unsupported("lookup in %r" % (m,))
        out = []
        cur = st
        for k, v in reversed(m.entries):
            if self.isint(xt.key):
                c = self.int_cmp(cur, "==", k, y, xt.key)
            else:
                c = self.equal(cur, k, y, xt.key, xt.key)
            if isinstance(c, list):
                raise Unsupported("lookup of an unknown string")
            if c is True:
                out.append((cur, v, True))
                cur = None
                break
            if c is False:
                continue
            s2 = cur.fork()
            s2.pc.append(c)
            if self.feasible(s2):
                out.append((s2, v, True))
            cur = cur.fork()
            cur.pc.append(Not(c))
            if not self.feasible(cur):
                cur = None
                break
        if cur is not None:
            out.append((cur, zero, False))
        if ins.get("commaok"):
            return [(s, (v, ok)) for s, v, ok in out]
        return [(s, v) for s, v, ok in out]

    def op_MapUpdate(self, f, st, env, ins, outs, where):
        p = self.val(env, ins["x"])
        k = self.val(env, ins["y"])
        v = self.val(env, ins["v"])
        if not isinstance(p, Ptr) or p.oid is None:
            if isinstance(p, Ptr):
                outs.append((st, "panic", where + ": nil map"))
                return []
            raise Unsupported("map update")
        m = self.load1(st, p)
        kt = self.ty(ins["x"]).key
        ents = []
        for a, b in m.entries:
            c = self.int_cmp(st, "==", a, k, kt) if self.isint(kt) else self.equal(st, a, k, kt, kt)
            if not isinstance(c, bool):
                raise Unsupported("update of an unknown key")
            if not c:
                ents.append((a, b))
        self.store(st, p, MapV(ents + [(k, v)]))
        return [(st, None)]

    def op_MakeMap(self, f, st, env, ins, outs, where):
        return [(st, Ptr(self.new(st, MapV(), self.ty(ins))))]

    def op_MakeSlice(self, f, st, env, ins, outs, where):
        n = self.toint(st, self.val(env, ins["len"]), self.ty(ins["len"]))
        cap = self.toint(st, self.val(env, ins["cap"]), self.ty(ins["cap"]))
        et = self.ty(ins).elem
        I = self.idom.lift
        if not (isinstance(n, int) and isinstance(cap, int) and 0 <= n <= cap):
            if not self.check(st, And(I(n) >= 0, I(n) <= I(cap)), where + ": makeslice", f, outs):
                return []
        z = self.zero(et)
        if isinstance(n, int):
            r = Rope(et, [Lit([z] * n)])
        else:
            r = Rope(et, [Fn(("zero", et.str), 0, n, lambda E, s, j: z)])
        oid = self.new(st, r, None, False, grow=True)
        return [(st, SliceV(Ptr(oid), 0, n, cap, 0, False))]

    def op_Slice(self, f, st, env, ins, outs, where):
        x = self.val(env, ins["x"])
        lo = self.toint(st, self.val(env, ins["low"]), self.ty(ins["low"])) if ins.get("low") else 0
        hi = self.toint(st, self.val(env, ins["high"]), self.ty(ins["high"])) if ins.get("high") else None
        mx = self.toint(st, self.val(env, ins["max"]), self.ty(ins["max"])) if ins.get("max") else None
        I = self.idom.lift

        def le(a, b):
            if isinstance(a, int) and isinstance(b, int):
                return a <= b
            return I(a) <= I(b)
        if isinstance(x, Rope):
            if hi is None:
                hi = x.n
            if not self.check(st, And(le(0, lo), le(lo, hi), le(hi, x.n)), where + ": slice bounds out of range", f, outs):
                return []
            return [(st, self.sub(st, x, lo, hi))]
        if isinstance(x, Ptr):
            if x.oid is None:
                outs.append((st, "panic", where + ": nil dereference"))
                return []
            n = self.ty(ins["x"]).elem.u.len
            if hi is None:
                hi = n
            cap = mx if mx is not None else n
            if not self.check(st, And(le(0, lo), le(lo, hi), le(hi, cap), le(cap, n)), where + ": slice bounds out of range", f, outs):
                return []
            return [(st, SliceV(x, lo, isub(hi, lo), isub(cap, lo), 0, False))]
        if isinstance(x, SliceV):
            cap = x.cap
            if hi is None:
                hi = x.n
                ok = And(le(0, lo), le(lo, hi))
            else:
                if cap is None:
                    # the capacity is at least the length; beyond it nothing is known
                    ok = And(le(0, lo), le(lo, hi), le(hi, x.n))
                else:
                    ok = And(le(0, lo), le(lo, hi), le(hi, cap))
            if mx is not None:
                ok = And(ok, le(hi, mx), le(mx, cap if cap is not None else x.n))
            if not self.check(st, ok, where + ": slice bounds out of range", f, outs):
                return []
            if cap is not None and not (isinstance(hi, int) and isinstance(x.n, int) and hi <= x.n):
                if not self.valid(st, le(hi, x.n)):
                    # beyond the length but within the capacity
                    if x.ptr is None or not self.valid(st, le(iadd(x.off, hi), self.seqval(st, x.ptr).n)):
                        raise Unsupported("slice beyond the known contents in " + where)
            ncap = isub(mx if mx is not None else cap, lo) if (mx is not None or cap is not None) else None
            return [(st, SliceV(x.ptr, iadd(x.off, lo), isub(hi, lo), ncap, x.gen, x.nilc))]
        raise Unsupported("slice of %r" % (x,))

    def op_Extract(self, f, st, env, ins, outs, where):
        return [(st, self.val(env, ins["x"])[ins["i"]])]

    def op_MakeInterface(self, f, st, env, ins, outs, where):
        v = self.val(env, ins["x"])
        return [(st, IfaceV(self.ty(ins["x"]), v))]

    def op_ChangeInterface(self, f, st, env, ins, outs, where):
        return [(st, self.val(env, ins["x"]))]

    def op_ChangeType(self, f, st, env, ins, outs, where):
        v = self.val(env, ins["x"])
        if isinstance(v, StructV):
            v = StructV(self.ty(ins), v.f)
        return [(st, v)]

    def op_MakeClosure(self, f, st, env, ins, outs, where):
        return [(st, FuncV(ins["fn"]["n"], [self.val(env, b) for b in ins["bindings"]]))]

    def op_Convert(self, f, st, env, ins, outs, where):
        x = self.val(env, ins["x"])
        return self.convert(st, x, self.ty(ins["x"]), self.ty(ins), where)

    def convert(self, st, x, ft, tt, where=""):
        fi, ti = intinfo(ft), intinfo(tt)
        if fi and ti and ft.u.k == "basic" and tt.u.k == "basic":
            return [(st, self.conv_int(st, x, ft, tt))]
        if isinstance(x, Rope) and tt.u.k == "slice":
            if tt.elem.u.name in ("uint8", "byte"):
                return [(st, self.new_slice(st, x))]
        if isinstance(x, SliceV) and tt.u.k == "basic" and tt.u.name == "string":
            return [(st, self.content(st, x))]
        if fi and tt.u.k == "basic" and tt.u.name == "string":
            if isinstance(x, int) and 0 <= x < 128:
                return [(st, Rope(self.u8, [Lit([x])]))]
        if isinstance(x, Rope) and tt.u.k == "basic":
            return [(st, x)]
        if isinstance(x, tuple) and x and x[0] == "float":
            raise Unsupported("floating point in " + where)
        raise Unsupported("conversion from %s to %s in %s" % (ft.str, tt.str, where))

    def conv_int(self, st, x, ft, tt):
        w1, s1 = intinfo(ft)
        w2, s2 = intinfo(tt)
        if isinstance(x, int):
            return norm(x, w2, s2)
        d1, d2 = self.domof(ft), self.domof(tt)
        if d1 is d2 or (d1.name == d2.name):
            return d1.convert(self, st, x, w1, s1, w2, s2)
        if d1.name == "int" and d2.name == "bv":
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BV2INT:
                b = x.arg(0)
                if b.size() == w2:
                    return b
                if b.size() > w2:
                    return d2.simp(z3.Extract(w2 - 1, 0, b), s2)
                return d2.simp(z3.ZeroExt(w2 - b.size(), b), s2)
            return z3.Int2BV(x, w2)
        if d1.name == "bv" and d2.name == "int":
            if w2 > w1 or (w2 == w1 and s1 == s2):
                return self.bv2int(x, s1)
            y = d1.convert(self, st, x, w1, s1, w2, s2)
            return self.bv2int(y, s2) if not isinstance(y, int) else y
        if hasattr(d1, "to_dom"):
            return d1.to_dom(self, st, x, ft, tt, d2)
        if hasattr(d2, "from_dom"):
            return d2.from_dom(self, st, x, ft, tt, d1)
        raise Unsupported("conversion between domains")

    def op_TypeAssert(self, f, st, env, ins, outs, where):
        x = self.val(env, ins["x"])
        at = self.prog.types[ins["asserted"]]
        iface = at.u.k == "iface"
        cok = ins.get("commaok")
        zero = None

        def res(s, v, ok):
            nonlocal zero
            if cok:
                return [(s, (v if ok else self.zero(at), ok))]
            if ok:
                return [(s, v)]
            outs.append((s, "panic", where + ": type assertion"))
            return []
        if isinstance(x, NilIface):
            return res(st, None, False)
        if isinstance(x, IfaceV):
            if iface:
                ok = all((x.ty.str, m) in self.prog.methods for m in at.u.methods)
                return res(st, x, ok)
            return res(st, x.v, x.ty.str == at.str)
        if isinstance(x, OpaqueV):
            m = self.models.get("assert:" + x.kind)
            if m is not None:
                r = []
                for s2, v, ok in m(self, st, x, at):
                    r += res(s2, v, ok)
                return r
        raise Unsupported("type assertion on %r in %s" % (x, where))

    def op_Range(self, f, st, env, ins, outs, where):
        x = self.val(env, ins["x"])
        if isinstance(x, Rope):
            return [(st, Ptr(self.new(st, IterV(x, 0))))]
        if isinstance(x, Ptr):
            m = MapV() if x.oid is None else self.load1(st, x)
            if isinstance(m, MapV) and len(m.entries) <= 1:
                return [(st, Ptr(self.new(st, ("mapiter", m, 0))))]
        raise Unsupported("range over %r in %s" % (x, where))

    def op_Next(self, f, st, env, ins, outs, where):
        p = self.val(env, ins["x"])
        it = self.load1(st, p)
        if isinstance(it, tuple):
            _, m, k = it
            if k >= len(m.entries):
                return [(st, (False, None, None))]
            self.store(st, p, ("mapiter", m, k + 1))
            return [(st, (True,) + m.entries[k])]
        rope, pos = it.rope, it.pos
        I = self.idom.lift
        rt = self.prog.ty("rune") if "rune" in self.prog.bystr else self.prog.ty("int32")
        out = []
        more = (pos < rope.n) if isinstance(pos, int) and isinstance(rope.n, int) else (I(pos) < I(rope.n))
        s0 = st.fork()
        if pyb(Not(more)) is not False and self.feasible(s0, Not(more)):
            self.assume(s0, Not(more))
            out.append((s0, (False, 0, 0)))
        if pyb(more) is False or not self.feasible(st, more):
            return out
        self.assume(st, more)
        b = self.at(st, rope, pos)
        u8 = self.u8
        asc = self.int_cmp(st, "<", b, 0x80, u8)
        s1 = st.fork()
        if self.feasible(s1, asc):
            self.assume(s1, asc)
            self.store(s1, p, IterV(rope, iadd(pos, 1)))
            out.append((s1, (True, pos, self.conv_int(s1, b, u8, rt))))
        s2 = st.fork()
        if pyb(Not(asc)) is not False and self.feasible(s2, Not(asc)):
            self.assume(s2, Not(asc))
            c = self.fresh_val(rt, "rune")
            self.assume(s2, self.int_cmp(s2, ">=", c, 0x80, rt))
            self.assume(s2, self.int_cmp(s2, "<=", c, 0x10FFFF, rt))
            w = self.fresh_int("width", 1, 4)
            s2.pc.append(I(iadd(pos, w)) <= I(rope.n))
            self.store(s2, p, IterV(rope, iadd(pos, w)))
            out.append((s2, (True, pos, c)))
        return out

    def op_RunDefers(self, f, st, env, ins, outs, where):
        ds = list(st.notes.get(("defer", self.depth), ()))
        states = [st]
        st.notes[("defer", self.depth)] = ()
        while ds:
            fv, args = ds.pop()
            nxt = []
            for s in states:
                for s2, k, v in self.call_value(s, fv, args):
                    if k == "panic":
                        outs.append((s2, k, v))
                    else:
                        nxt.append(s2)
            states = nxt
        return [(s, None) for s in states]

    def op_Defer(self, f, st, env, ins, outs, where):
        c = ins["call"]
        args = [self.val(env, a) for a in c["args"]]
        if "invoke" in c:
            r = self.val(env, c["recv"])
            m = c["invoke"]

            def fv(E, s, a):
                return E.invoke(s, r, m, a)
        else:
            fv = self.val(env, c["fn"])
        k = ("defer", self.depth)
        st.notes[k] = st.notes.get(k, ()) + ((fv, args),)
        return [(st, None)]

    def op_Call(self, f, st, env, ins, outs, where):
        c = ins["call"]
        args = [self.val(env, a) for a in c["args"]]
        if "invoke" in c:
            rs = self.invoke(st, self.val(env, c["recv"]), c["invoke"], args, ins)
        else:
            fn = c["fn"]
            if fn["k"] == "builtin":
                return self.builtin(f, st, env, fn["n"], args, ins, outs, where)
            rs = self.call_value(st, self.val(env, fn), args, ins)
        out = []
        for s2, k, v in rs:
            if k == "panic":
                outs.append((s2, k, v))
            else:
                out.append((s2, v))
        return out

    def builtin(self, f, st, env, name, args, ins, outs, where):
        if name in ("len", "cap"):
            x = args[0]
            if isinstance(x, Rope):
                return [(st, x.n)]
            if isinstance(x, SliceV):
                if name == "cap":
                    if x.cap is None:
                        raise Unsupported("capacity of an appended slice")
                    return [(st, x.cap)]
                return [(st, x.n)]
            if isinstance(x, ArrV):
                return [(st, len(x.v))]
            if isinstance(x, Ptr):
                t = self.ty(ins["call"]["args"][0])
                if t.u.k == "map":
                    return [(st, 0 if x.oid is None else len(self.load1(st, x).entries))]
                if t.u.k == "ptr":
                    return [(st, t.elem.u.len)]
            raise Unsupported("len of %r" % (x,))
        if name == "append":
            s, t = args
            if isinstance(t, Rope):
                new = t
            else:
                et = self.ty(ins["call"]["args"][0]).elem
                new = self.content(st, t, et)
            return self.append(st, s, new)
        if name == "copy":
            d, s = args
            src = s if isinstance(s, Rope) else self.content(st, s)
            n = d.n
            m = src.n
            I = self.idom.lift
            if not (isinstance(n, int) and isinstance(m, int)):
                le = self.decide(st, I(m) <= I(n))
                if le is None:
                    r = []
                    for c in (I(m) <= I(n), I(m) > I(n)):
                        s2 = st.fork()
                        s2.pc.append(c)
                        r += self.builtin(f, s2, env, name, args, ins, outs, where)
                    return r
                k = m if le else n
            else:
                k = min(n, m)
            if isinstance(k, int) and k == 0:
                return [(st, 0)]
            if d.ptr is None:
                return [(st, 0)]
            part = self.sub(st, src, 0, k)
            self.slice_store(st, d, None, None)
            cur = self.seqval(st, d.ptr)
            self.set_seq(st, d.ptr, self.splice(st, cur, d.off, part))
            return [(st, k)]
        if name == "recover":
            return [(st, NILI)]
        if name in ("print", "println"):
            return [(st, None)]
        if name in ("min", "max"):
            ty = self.ty(ins)
            r = args[0]
            for y in args[1:]:
                c = self.int_cmp(st, "<" if name == "min" else ">", y, r, ty)
                r = (y if c else r) if isinstance(c, bool) else self.ite(c, y, r, ty)
            return [(st, r)]
        if name == "ssa:wrapnilchk":
            return [(st, args[0])]
        if name == "clear" and isinstance(args[0], SliceV) and isinstance(args[0].n, int):
            d = args[0]
            et = self.ty(ins["call"]["args"][0]).elem
            self.slice_store(st, d, None, None)
            cur = self.seqval(st, d.ptr)
            self.set_seq(st, d.ptr, self.splice(st, cur, d.off, Rope(et, [Lit([self.zero(et)] * d.n)])))
            return [(st, None)]
        raise Unsupported("builtin " + name)

    # ------------------------------------------------------------------ loops
    def enter_loop(self, f, st, env, header, prev, body, outs):
        """None: unroll; otherwise work items after the loop"""
        if not self.templates and (f.name, header) not in self.force_inv:
            return None
        env0 = self.phis(f, f.blocks[header], env, prev)
        # is the first test decided by the program?
        probe = self.peek(f, st, env0, header)
        if probe is False and f.blocks[header].succs[1] in body:
            probe = None            # another test follows
        self.probe_skipped = isinstance(probe, bool)
        if isinstance(probe, bool):
            return None
        saved = getattr(self, "entry_st", None)
        self.entry_st = st
        try:
            if self.period > 1:
                P, self.period = self.period, 1
                self.noweak = True
                try:
                    return self.loop_inv(f, st, env0, header, body, outs)
                except NoInvariant:
                    pass
                finally:
                    self.period = P
                    self.noweak = False
            return self.loop_inv(f, st, env0, header, body, outs)
        except NoInvariant as e:
            self.last_noinv = str(e)
            return None
        finally:
            self.entry_st = saved

    def peek(self, f, st, env, header, tests=None):
        blk = f.blocks[header]
        e = dict(env)
        s = st.fork()
        tmp = []
        try:
            for ins in blk.instrs:
                if ins["op"] == "Phi":
                    continue
                if ins["op"] == "If":
                    return pyb(self.val(e, ins["x"]))
                if ins["op"] in ("Jump", "Return"):
                    return None
                if ins["op"] == "BinOp" and tests is not None and ins.get("tok") in ("<", "<=", ">", ">=", "!=", "=="):
                    x, y = self.val(e, ins["x"]), self.val(e, ins["y"])
                    if all(isinstance(t, (int, z3.ArithRef)) and not isinstance(t, bool) for t in (x, y)):
                        tests.append((x, y))
                if ins["op"] == "Next":
                    it = self.load1(s, self.val(e, ins["x"]))
                    if isinstance(it, IterV) and not isinstance(it.rope.n, int):
                        return None
                r = self.instr(f, s, e, ins, tmp)
                if len(r) != 1:
                    return None
                s, v = r[0]
                if "name" in ins:
                    e[ins["name"]] = v
        except Unsupported:
            return None
        return None

    def body_once(self, f, st, env, header, body, outs):
        """one execution of the loop from its header; env already has the phis"""
        work = self.block(f, st, env, header, None, 0, outs)
        # the header itself may have forked in the middle of the block
        back, exits = [], []
        todo = list(work)
        first = []
        while todo:
            it = todo.pop()
            if it[4] != 0:
                todo.extend(self.block(f, it[0], it[1], it[2], it[3], it[4], outs))
            else:
                first.append(it)
        return self.region(f, first, body, header, outs)

    def leaf_type(self, st, v):
        """type of a variable in the heap, where it is known"""
        c = st.heap[v[1]]
        ty, x = c.ty, c.val
        for i in v[2]:
            if not isinstance(x, StructV) or x.ty is None:
                return None
            ty, x = x.ty.field_types()[i], x.f[i]
        return ty

    def leaves(self, a, b, path=()):
        """paths at which two versions of an object's value differ"""
        if a is b:
            return []
        if isinstance(a, StructV) and isinstance(b, StructV):
            r = []
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                r += self.leaves(x, y, path + (i,))
            return r
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and a == b:
            return []
        return [path]

    def loop_inv(self, f, st, env0, header, body, outs):
        blk = f.blocks[header]
        phis = [i["name"] for i in blk.instrs if i["op"] == "Phi"]
        ptys = {i["name"]: self.ty(i) for i in blk.instrs if i["op"] == "Phi"}
        P = self.period
        # first iteration, concretely from the entry state: what changes
        tmp = []
        saved, self.stores = self.stores, []
        try:
            back, exits = self.body_once(f, st.fork(), dict(env0), header, body, tmp)
        finally:
            stores, self.stores = dict(self.stores), saved
        if not back:
            raise NoInvariant("the loop is never repeated")
        vars_ = [("phi", p) for p in phis]
        changed = {}
        for s2, e2, pv in back:
            for oid, c in s2.heap.items():
                c0 = st.heap.get(oid)
                if c0 is None or c0.val is c.val:
                    continue
                for path in self.leaves(c0.val, c.val):
                    changed[(oid, path)] = 1
        # arrays of slices carried by phis are part of these
        slice_oids = set()
        for p in phis:
            v = env0[p]
            if isinstance(v, SliceV) and v.ptr is not None:
                slice_oids.add(v.ptr.oid)
        # slices held in changed fields of objects
        for (oid, path) in list(changed):
            v = self.get_path(st, st.heap[oid].val, path)[0][1]
            if isinstance(v, SliceV) and v.ptr is not None:
                slice_oids.add(v.ptr.oid)
        poison = set()
        for (oid, path) in changed:
            c0 = st.heap[oid]
            if not path and oid in slice_oids and c0.grow:
                poison.add(oid)
                continue
            vars_.append(("heap", oid, path))
        entry = {}
        for v in vars_:
            entry[v] = env0[v[1]] if v[0] == "phi" else self.get_path(st, st.heap[v[1]].val, v[2])[0][1]

        def after(v, s2, e2, pv):
            if v[0] == "phi":
                k = blk.preds.index(pv)
                ins = [i for i in blk.instrs if i.get("name") == v[1]][0]
                return self.val(e2, ins["edges"][k])
            return self.get_path(s2, self.cell(s2, v[1]).val, v[2])[0][1]
        k0 = Iter(self, 0, 0, P)
        k1 = k0.next()
        bounds = self.bound_candidates(st, env0, f, header)
        preds = self.pred_candidates(st, env0)
        Tls, after1, weak = {}, {}, {}
        for v in vars_:
            after1[v] = [(b[0], after(v, *b)) for b in back]
            Tls[v] = self.auto_templates(st, entry[v], after1[v]) + list(self.templates)
            Tls[v] += self.copy_templates(st, env0, entry[v], after1[v])
            if v[0] == "heap" and isinstance(entry[v], Rope) and not isinstance(entry[v].n, int):
                Tls[v] += [filled(T) for T in self.templates]
            vt = ptys[v[1]] if v[0] == "phi" else self.leaf_type(st, v)
            if not self.noweak and vt is not None and (self.isint(vt) or vt.u.name == "bool"):
                weak[v] = anything(vt)
        unknown = lambda E, s, entry, k: POISON

        def starts(v, T):
            t0 = T(self, st, entry[v], k0)
            return t0 is not None and self.wellsorted(t0, ptys[v[1]] if v[0] == "phi" else None) and self.teq(st, t0, entry[v])

        def attempt(combo, bs, ps):
            Ts = dict(zip(vars_, combo))
            while True:
                try:
                    r = self.try_inv(f, st, env0, header, body, Ts, entry, bs, after, poison, ps, ptys)
                except Unsupported as e:
                    if not any(T is unknown or T is weak.get(v) for v, T in Ts.items()):
                        raise
                    self.last_noinv = "%s: %s" % (f.name, e)
                    return None
                if isinstance(r, set):
                    bs = [b for i, b in enumerate(bs) if i not in r]
                    ps = [b for i, b in enumerate(ps) if ("p", i) not in r]
                    continue
                break
            if r is None:
                return None
            index = []
            for v, T in zip(vars_, combo):
                index.append("unknown" if T is unknown else "weak" if T is weak.get(v) else Tls[v].index(T) if T in Tls[v] else "auto")
            kept = {self.K(b) for b in bs}, {(self.K(x), id(q)) for x, q in ps}
            self.hints[hkey] = (index, len(bounds), len(preds), kept)
            res_exits, res_outs = r
            self.stats.loops.append("%s block %d: %d variables, bounds %d" % (f.name, header, len(vars_), len(bs)))
            outs.extend(res_outs)
            return res_exits
        # what worked on another path through the same loop
        hkey = (f.name, header, P, tuple(len(Tls[v]) for v in vars_))
        hint = self.hints.get(hkey)
        if hint is not None and "auto" not in hint[0]:
            index, nb, np, (kb, kp) = hint
            try:
                combo = [unknown if i == "unknown" else weak[v] if i == "weak" else Tls[v][i] for v, i in zip(vars_, index)]
                if all(starts(v, T) for v, T in zip(vars_, combo)):
                    # what was kept before, unless it cannot be told apart here (other terms on this path): then all again
                    bs = [b for b in bounds if self.K(b) in kb]
                    ps = [x for x in preds if (self.K(x[0]), id(x[1])) in kp]
                    if nb != len(bounds) or len({self.K(b) for b in bs}) != len(kb):
                        bs = bounds
                    if np != len(preds) or len({(self.K(x), id(q)) for x, q in ps}) != len(kp):
                        ps = preds
                    r = attempt(combo, bs, ps)
                    if r is not None:
                        return r
            except (Unsupported, KeyError):
                pass
        cands, autos = {}, {}
        must = False
        for v in vars_:
            ty = ptys[v[1]] if v[0] == "phi" else None
            cs = []
            for T in Tls[v]:
                try:
                    if not starts(v, T):
                        continue
                    ok = True
                    for s2, x in after1[v]:
                        t1 = T(self, s2, entry[v], k1)
                        if t1 is None or not self.wellsorted(t1, ty) or not self.teq(s2, t1, x):
                            ok = False
                            break
                    if ok:
                        cs.append(T)
                except Unsupported:
                    continue
            if P == 1 and (not cs or cs[0].__name__ != "const"):
                A = self.auto_seq(st, v, entry[v], after1[v], list(stores.values()))
                if A is not None:
                    autos[v] = A
                    if not cs:
                        must = True
                        cs = [A]
            if not cs and v in weak:
                cs = [weak[v]]
            if not cs and v[0] == "heap":
                # nothing is known about it at the head of the loop: it must be written before it is read
                cs = [unknown]
            if not cs:
                raise NoInvariant("no template for %s in %s (%.60s, then %.200s)" % (v, f.name, entry[v], [x for _, x in after1[v]]))
            cands[v] = cs
        # combinations, first come first
        import itertools
        combos = list(itertools.islice(itertools.product(*[cands[v] for v in vars_]), 64)) if not must else []
        if autos:
            combos.append(tuple(autos.get(v, cands[v][0]) for v in vars_))
        # last of all, numbers of which nothing is known but their type
        combos.append(tuple(weak.get(v, cands[v][0]) if cands[v][0].__name__ != "const" else cands[v][0] for v in vars_))
        for combo in combos:
            if autos and any(autos.get(v) is T for v, T in zip(vars_, combo)):
                self.learn(f, st, env0, header, body, dict(zip(vars_, combo)), entry, bounds, poison, ptys, after, autos)
            r = attempt(combo, list(bounds), list(preds))
            if r is not None:
                return r
        raise NoInvariant("no combination of templates is inductive in %s (%s)" % (f.name, getattr(self, "last_noinv", "")))

    def seq_of(self, st, x):
        """the sequence which a variable holds, or None"""
        try:
            if isinstance(x, SliceV):
                r = self.content(st, x) if x.ptr is not None else None
                return r if r is not None else Rope(None, [])
            if isinstance(x, Rope):
                return x
            if isinstance(x, (BuilderV, StructV)):
                return self.models["builder:content"](self, st, x)
        except Unsupported:
            pass
        return None

    def copy_templates(self, st, env, e, vals1):
        """the contents at the entry followed by the first k elements of a sequence in scope"""
        if isinstance(e, Rope) or not vals1:
            return []
        e0 = self.seq_of(st, e)
        x = self.seq_of(*vals1[0])
        if e0 is None or x is None or x.et is None or self.K(isub(x.n, e0.n)) != self.K(1) or self.isint(x.et):
            return []
        out, seen = [], set()
        for v in list(env.values()):
            if not isinstance(v, SliceV) or v.ptr is None or isinstance(v.n, int):
                continue
            try:
                r = self.content(st, v)
            except Unsupported:
                continue
            if r.et is not x.et or self.K(r) in seen:
                continue
            seen.add(self.K(r))

            def copied(E, s, entry, k, r=r):
                return SeqT(E.concat(e0, E.sub(s, r, 0, k.t)))
            out.append(copied)
        return out[:3]

    def auto_seq(self, st, v, e, vals1, stores):
        """a sequence that grows, or an array that is filled, by elements that are to be found out: see learn"""
        e0 = self.seq_of(st, e)
        if e0 is None or not vals1:
            return None
        xs = [self.seq_of(s2, x) for s2, x in vals1]
        if any(x is None or (x.et is not None and not self.isint(x.et)) for x in xs):
            return None
        et = xs[0].et
        d = {self.K(isub(x.n, e0.n)) for x in xs}
        if len(d) != 1 or et is None:
            return None
        c = isub(xs[0].n, e0.n)
        if not isinstance(c, int) or c < 0 or c > 8:
            return None
        if c:
            return AutoSeq(self, e0, et, [e0.n], c)
        if v[0] != "heap" or isinstance(e0.n, int) or not 0 < len(stores) <= 4:
            return None
        # in the order of their offsets
        offs = []
        for o in stores:
            k = 0
            while k < len(offs) and self.valid(st, self.idom.lift(offs[k]) < self.idom.lift(o)):
                k += 1
            offs.insert(k, o)
        return AutoSeq(self, e0, et, offs, 0)

    def learn(self, f, st, env0, header, body, Ts, entry, bounds, poison, ptys, after, autos):
        """how to find the elements which iteration j adds: by executing it"""
        cache = {}

        def run(j):
            key = self.K(j)
            if key in cache:
                return cache[key]
            cache[key] = None
            k = Iter(self, j, 0, 1)
            for A in autos.values():
                A.probing = True
            saved, self.entry_st = getattr(self, "entry_st", None), st
            try:
                s, env = self.at_iteration(st, env0, Ts, entry, k, [], [], poison, ptys)
                if s is None:
                    return None
                if not isinstance(j, int):
                    s.pc.append(j >= 0)
                npc = len(s.pc)
                back, exits = self.body_once(f, s, env, header, body, [])
                res = {}
                for v, A in autos.items():
                    vals = None
                    for b in back:
                        s2 = b[0]
                        r = self.seq_of(s2, after(v, *b))
                        if r is None:
                            return None
                        xs = [self.at(s2, r, i) for i in A.indices(k)]
                        if vals is None:
                            vals = xs
                        else:
                            cond = And(*[c for c in s2.pc[npc:]])
                            vals = [self.ite(cond, x, y, A.et) for x, y in zip(xs, vals)]
                    res[A.id] = vals
                cache[key] = res
                return res
            except Unsupported:
                return None
            finally:
                self.entry_st = saved
                for A in autos.values():
                    A.probing = False
        for A in autos.values():
            A.run = run

    def auto_templates(self, st, e, vals1):
        r = []

        def const(E, s, entry, k):
            return entry
        r.append(const)
        if isinstance(e, (int, z3.ExprRef)) and not isinstance(e, (bool, z3.BoolRef)) and vals1:
            d = None
            x = vals1[0][1]
            if isinstance(e, int) and isinstance(x, int):
                d = x - e
            elif isinstance(x, z3.ArithRef) or isinstance(e, z3.ArithRef):
                y = isub(x, e)
                d = y if isinstance(y, int) else None
            if d:
                def linear(E, s, entry, k):
                    return iadd(entry, isimp(k.t * d) if not isinstance(k.t, int) else k.t * d)
                r.append(linear)
        if isinstance(e, IterV):
            def it(E, s, entry, k):
                return IterV(entry.rope, iadd(entry.pos, k.t))
            r.append(it)
        if isinstance(e, SliceV) and vals1 and isinstance(vals1[0][1], SliceV):
            def tail(E, s, entry, k):
                return SliceV(entry.ptr, iadd(entry.off, k.t), isub(entry.n, k.t),
                              isub(entry.cap, k.t) if entry.cap is not None else None, entry.gen, entry.nilc)
            r.append(tail)
        if isinstance(e, Rope):
            def stail(E, s, entry, k):
                return E.sub(s, entry, k.t, entry.n)
            r.append(stail)
        return r

    def teq(self, st, t, x):
        """does the value x have the form which the template says?"""
        if t is POISON or isinstance(t, AnyT):
            return True
        if isinstance(t, z3.ExprRef) and isinstance(x, z3.ExprRef) and t.sort() != x.sort():
            return False
        if isinstance(t, SeqT):
            if isinstance(x, SliceV):
                return self.rope_eq(st, t.rope, self.content(st, x, t.rope.et))
            if isinstance(x, BuilderV):
                return self.rope_eq(st, t.rope, x.rope)
            if isinstance(x, Rope):
                return self.rope_eq(st, t.rope, x)
            if isinstance(x, StructV):
                b = self.models["builder:content"](self, st, x)
                return b is not None and self.rope_eq(st, t.rope, b)
            return False
        if isinstance(t, SliceV) and isinstance(x, SliceV):
            if t.ptr is None or x.ptr is None:
                return t.ptr is x.ptr
            return t.ptr.oid == x.ptr.oid and t.ptr.path == x.ptr.path and self.same_int(st, t.off, x.off) and \
                self.same_int(st, t.n, x.n)
        if isinstance(t, Ptr) and isinstance(x, Ptr):
            return t.oid == x.oid and t.path == x.path
        return self.val_eq(st, t, x)

    def wellsorted(self, t, ty):
        if ty is None or not isinstance(t, z3.ExprRef) or not self.isint(ty):
            return True
        if self.domof(ty).name == "bv":
            return z3.is_bv(t) and t.size() == intinfo(ty)[0]
        return z3.is_int(t)

    def bound_candidates(self, st, env, f, header):
        out, seen = [], set()

        def add(t):
            if isinstance(t, int):
                return
            k = self.K(t)
            if k not in seen:
                seen.add(k)
                out.append(t)
        # the distance to what a counter is compared with
        tests = []
        self.peek(f, st, env, header, tests)
        for x, y in tests[:2]:
            if not isinstance(isub(y, x), int):
                for t in (isub(y, x), isub(x, y)):
                    if self.valid(st, self.idom.lift(t) >= 0):
                        add(t)
                        break
                else:
                    d = isub(y, x)
                    add(z3.If(d >= 0, d, z3.IntVal(0)))
        for n, v in env.items():
            if isinstance(v, SliceV):
                add(v.n)
            elif isinstance(v, Rope):
                add(v.n)
            elif isinstance(v, Ptr) and v.oid in st.heap and isinstance(st.heap[v.oid].val, IterV):
                add(st.heap[v.oid].val.rope.n)
        for b in self.bounds:
            add(b(self, st) if callable(b) else b)
        for b in list(out):
            for v in env.values():
                if isinstance(v, SliceV) and not isinstance(v.n, int) and v.n is not b:
                    add(isimp(b - v.n))
        return out[:8]

    def pred_candidates(self, st, env):
        """(sequence, predicate): so far the predicate has held for every element visited"""
        if not self.preds:
            return []
        seqs, seen = [], set()
        for v in env.values():
            if isinstance(v, Ptr) and v.oid in st.heap and isinstance(st.heap[v.oid].val, IterV):
                it = st.heap[v.oid].val
                if isinstance(it.pos, int) and it.pos == 0:
                    v = it.rope
            if isinstance(v, SliceV) and v.ptr is not None:
                try:
                    v = self.content(st, v)
                except Unsupported:
                    continue
            if isinstance(v, Rope) and v.et is not None and self.isint(v.et) and not isinstance(v.n, int):
                k = self.K(v)
                if k not in seen:
                    seen.add(k)
                    seqs.append(v)
        return [(r, q) for r in seqs for q in self.preds]

    def forall_range(self, st, rope, hi, q):
        """assume q of the elements of rope with index below hi"""
        pos = 0
        I = self.idom.lift
        for g in rope.segs:
            if isinstance(g, Fn):
                def u(E, st2, j, g=g, pos=pos):
                    d = isub(j, g.off)
                    i = iadd(pos, d)
                    v = g.at(E, st2, j)
                    c = q(E, st2, v)
                    if c is True:
                        return None
                    return B(Implies(And(I(d) >= 0, I(d) < I(g.n), I(i) < I(hi)), c))
                st.univ[g.key] = st.univ.get(g.key, ()) + (u,)
            pos = iadd(pos, g.n)

    preds = ()
    force_inv = frozenset()     # loops to be cut by an invariant also where the unit has no templates
    stores = None
    noweak = False
    probe_skipped = False

    def at_iteration(self, st, env0, Ts, entry, k, bounds, preds, poison, ptys):
        """the state after k iterations, as the templates say"""
        I = self.idom.lift
        s = st.fork()
        env = dict(env0)
        for i, b in enumerate(bounds):
            s.pc.append(I(k.t) <= I(b))
        for rope, q in preds:
            self.forall_range(s, rope, k.t, q)
        for oid in poison:
            s.heap[oid] = s.heap[oid].with_(dirty=10 ** 9)
        for v, T in Ts.items():
            t = T(self, s, entry[v], k)
            if t is None or (v[0] == "phi" and not self.wellsorted(t, ptys[v[1]])):
                return None, None
            val = self.concretize(s, t, entry[v])
            if v[0] == "phi":
                env[v[1]] = val
            else:
                cell = s.heap[v[1]]
                s.heap[v[1]] = cell.with_(val=self.set_path(s, cell.val, v[2], val))
        return s, env

    def try_inv(self, f, st, env0, header, body, Ts, entry, bounds, after, poison, preds=(), ptys=None):
        P = self.period
        exits_all, outs_all = [], []
        bad = set()
        m = self.fresh_int("m" if P > 1 else "k", 0)
        I = self.idom.lift
        for i, b in enumerate(bounds):
            if not self.valid(st, 0 <= I(b)):
                bad.add(i)
        if bad:
            return bad
        for c in range(P):
            k = Iter(self, m, c, P)
            s, env = self.at_iteration(st, env0, Ts, entry, k, bounds, preds, poison, ptys)
            if s is None:
                return None
            if not self.feasible(s):
                continue
            heap0 = dict(s.heap)
            tmp = []
            back, exits = self.body_once(f, s, env, header, body, tmp)
            k1 = k.next()
            for b in back:
                s2 = b[0]
                for i, bd in enumerate(bounds):
                    if not self.valid(s2, I(k1.t) <= I(bd)):
                        bad.add(i)
                for i, (rope, q) in enumerate(preds):
                    if ("p", i) in bad:
                        continue
                    try:
                        if not self.valid(s2, And(I(k.t) >= 0, I(k.t) < I(rope.n))) or \
                                not self.valid(s2, q(self, s2, self.at(s2, rope, k.t))):
                            bad.add(("p", i))
                    except Unsupported:
                        bad.add(("p", i))
                if bad:
                    continue
                for v, T in Ts.items():
                    x = after(v, *b)
                    t = T(self, s2, entry[v], k1)
                    if t is None or not self.teq(s2, t, x):
                        self.last_noinv = "%s: not preserved: %s" % (f.name, v)
                        return None
                # nothing else may change
                for oid, cc in s2.heap.items():
                    c0 = heap0.get(oid)
                    if c0 is None or c0.val is cc.val:
                        continue
                    for path in self.leaves(c0.val, cc.val):
                        if ("heap", oid, path) in Ts:
                            continue
                        if cc.grow and not path and any(isinstance(x, SliceV) and x.ptr is not None and x.ptr.oid == oid
                                                        for x in self.slices_of(s2, [after(v, *b) for v in Ts])):
                            continue
                        if any(v[0] == "heap" and v[1] == oid and path[:len(v[2])] == v[2] for v in Ts):
                            continue
                        self.last_noinv = "%s: changes %s %s" % (f.name, oid, path)
                        return None
            if bad:
                return bad
            for s2, e2, b2, pv in exits:
                if P == 1 and not isinstance(k.t, int):
                    # the number of iterations, when it is one of the bounds
                    for bd in bounds:
                        if self.valid(s2, I(k.t) == I(bd)):
                            e2 = dict(e2)
                            kb = Iter(self, bd, 0, 1)
                            for v, T in Ts.items():
                                if v[0] == "phi" and isinstance(env.get(v[1]), z3.ArithRef) and e2.get(v[1]) is env[v[1]]:
                                    t = T(self, s2, entry[v], kb)
                                    if isinstance(t, (int, z3.ArithRef)):
                                        e2[v[1]] = t
                            break
                exits_all.append((s2, e2, b2, pv))
            outs_all.extend(tmp)
        self.stats.obligations += len(Ts) * 2
        self.stats.discharged += len(Ts) * 2
        return exits_all, outs_all

    def slices_of(self, st, vals):
        for v in vals:
            if isinstance(v, SliceV):
                yield v

    def concretize(self, st, t, entry):
        """a program value for what the template says"""
        if isinstance(t, SeqT):
            if isinstance(entry, SliceV):
                nl = False
                if entry.ptr is None or entry.nilc is not False:
                    nl = pyb(self.idom.lift(t.rope.n) == 0)
                r = self.new_slice(st, t.rope, nilc=nl)
                o = entry.ptr.oid if entry.ptr is not None else None
                if o in st.heap and not st.heap[o].grow and not (entry.cap is not None and self.same_int(st, entry.cap, entry.n)):
                    # appends may have been made in place: see append
                    kids = st.notes.get("kids", {})
                    for k in kids.get(o, ()):
                        st.heap[k] = st.heap[k].with_(dirty=10 ** 9)
                    st.notes["kids"] = {**kids, o: kids.get(o, ()) + (r.ptr.oid,)}
                    st.notes["spare"] = st.notes.get("spare", ()) + (o,)
                    st.notes["shared"] = st.notes.get("shared", frozenset()) | {r.ptr.oid}
                return r
            if isinstance(entry, (BuilderV, StructV)):
                return BuilderV(t.rope)
            return t.rope
        if isinstance(t, AnyT):
            return self.fresh_bool("any") if t.ty.u.name == "bool" else self.fresh_val(t.ty, "any")
        return t


def is_b2i(i):
    """index that is an unsigned bit vector read as a number"""
    return isinstance(i, z3.ExprRef) and z3.is_app(i) and i.decl().kind() == z3.Z3_OP_BV2INT


def idx_eq(E, j, k):
    if is_b2i(j):
        b = j.arg(0)
        if k >= (1 << b.size()):
            return False
        return pyb(b == z3.BitVecVal(k, b.size()))
    return pyb(E.idom.lift(j) == k)


class NoInvariant(Exception):
    pass


class _Poison:
    """value of a variable about which nothing is known"""

    def __repr__(self):
        return "unknown"


POISON = _Poison()


def poisoned(v):
    return v is POISON or (isinstance(v, StructV) and any(poisoned(x) for x in v.f))


class AnyT:
    """template value: any value of this type"""

    def __init__(self, ty):
        self.ty = ty


def anything(ty):
    return lambda E, s, entry, k: AnyT(ty)


def filled(T):
    """an array filled from its start: as the template says so far, as it was after that"""
    def F(E, s, entry, k):
        t = T(E, s, SliceV(None, 0, 0, 0), k)
        if not isinstance(t, SeqT) or (t.rope.et is not None and entry.et is not None and t.rope.et.str != entry.et.str):
            return None
        return SeqT(E.concat(t.rope, E.sub(s, entry, t.rope.n, entry.n)))
    return F


def ilift(v):
    return z3.IntVal(v) if isinstance(v, int) else v


class AutoSeq:
    """template: entry contents, with a number of elements added by each iteration at the end (step > 0), or one stored by each
    iteration at each of the offsets.  The elements are a function of the iteration's number, found by executing that iteration;
    that the loop computes this is proved like for every other template."""
    __name__ = "auto"

    def __init__(self, E, e0, et, offs, step):
        self.e0, self.et, self.offs, self.step = e0, et, offs, step
        self.run = None
        self.probing = False
        self.id = E.fresh_name("auto")

    def indices(self, k):
        if self.step:
            base = iadd(self.offs[0], isimp(ilift(k.t) * self.step))
            return [iadd(base, i) for i in range(self.step)]
        return [iadd(o, k.t) for o in self.offs]

    def region(self, E, i, n):
        sort = z3.IntSort() if E.domof(self.et).name != "bv" else z3.BitVecSort(intinfo(self.et)[0])

        def val(r, j):
            x = None
            if not self.probing and self.run is not None:
                x = self.run(j)
                x = x and x[self.id]
            if x is None:
                return z3.Function("%s_%d" % (self.id, r), z3.IntSort(), sort)(ilift(j))
            return x[r]

        def at(E2, st, j):
            if not self.step or self.step == 1:
                return val(i, j)
            if isinstance(j, int):
                return val(j % self.step, j // self.step)
            j = ilift(j)
            r = val(0, j / self.step)
            for q in range(1, self.step):
                r = E2.ite(j % self.step == q, val(q, j / self.step), r, self.et)
            return r
        return Fn((self.id, i, self.run is None or self.probing), 0, n, at)

    def __call__(self, E, s, entry, k):
        if self.step:
            n = self.step * k.t if isinstance(k.t, int) else isimp(k.t * self.step)
            return SeqT(Rope(self.et, list(self.e0.segs) + [self.region(E, 0, n)]))
        segs, pos = [], 0
        for i, o in enumerate(self.offs):
            segs += list(E.sub(s, self.e0, pos, o).segs) + [self.region(E, i, k.t)]
            pos = iadd(o, k.t)
        segs += list(E.sub(s, self.e0, pos, self.e0.n).segs)
        return SeqT(Rope(self.et, segs))


class SeqT:
    """template value: a sequence with these contents"""

    def __init__(self, rope):
        self.rope = rope


class SPtr(Ptr):
    __slots__ = ("sl",)


class Iter:
    """number of completed iterations, as P*m+c"""

    def __init__(self, E, m, c, P):
        self.E = E
        self.m = m
        self.c = c
        self.P = P
        if isinstance(m, int):
            self.t = P * m + c
        else:
            self.t = isimp(P * m + c)

    def next(self):
        if self.c + 1 == self.P:
            return Iter(self.E, iadd(self.m, 1), 0, self.P)
        return Iter(self.E, self.m, self.c + 1, self.P)
