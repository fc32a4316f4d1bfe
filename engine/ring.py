"""Exact integer arithmetic as polynomials over Z.

A value is a polynomial in symbols, equal to the machine value as a mathematical
integer, with an interval.  Symbols are
  inputs            with an interval
  quotients Q(P,k)  floor(P / 2^k), with an interval
  remainders R      P - 2^k Q(P,k), in [0, 2^k), kept by name with its definition
  names N           of polynomials that are multiplied, with their definition
Sums, differences and products are obligations not to leave the range of their
type.  The end of a proof expands the definitions: what has to vanish is a
polynomial identity (over Z, or modulo a prime), in which the quotients are
independent unknowns; the few quotients left over, and ranges, are decided by
linear arithmetic over the definitions (z3)."""
import z3
from .domains import *


class Poly:
    """immutable polynomial with integer coefficients; a monomial is a sorted tuple of (symbol, exponent)"""
    __slots__ = ("c", "_h")

    def __init__(self, c):
        self.c = c
        self._h = None

    @staticmethod
    def const(n):
        return Poly({(): n} if n else {})

    @staticmethod
    def sym(s):
        return Poly({((s, 1),): 1})

    def key(self):
        if self._h is None:
            self._h = frozenset(self.c.items())
        return self._h

    def __add__(self, o):
        if len(self.c) < len(o.c):
            self, o = o, self
        r = dict(self.c)
        for m, v in o.c.items():
            x = r.get(m, 0) + v
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -v for m, v in self.c.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        return Poly({m: v * k for m, v in self.c.items()}) if k else Poly({})

    def __mul__(self, o):
        if len(self.c) == 1 and () in self.c:
            return o.scale(self.c[()])
        if len(o.c) == 1 and () in o.c:
            return self.scale(o.c[()])
        r = {}
        for m, v in self.c.items():
            for n, w in o.c.items():
                k = mmul(m, n)
                x = r.get(k, 0) + v * w
                if x:
                    r[k] = x
                else:
                    r.pop(k, None)
        return Poly(r)

    def mod(self, p):
        return Poly({m: v % p for m, v in self.c.items() if v % p})

    @property
    def cst(self):
        return self.c.get((), 0)

    def isconst(self):
        return not self.c or (len(self.c) == 1 and () in self.c)

    def symbols(self):
        return {s for m in self.c for s, e in m}

    def __repr__(self):
        return " + ".join("%d%s" % (v, "".join("*%s^%d" % (s, e) if e > 1 else "*%s" % (s,) for s, e in m)) for m, v in list(self.c.items())[:12]) or "0"


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    if m[-1][0] < n[0][0]:
        return m + n
    if n[-1][0] < m[0][0]:
        return n + m
    d = dict(m)
    for s, e in n:
        d[s] = d.get(s, 0) + e
    return tuple(sorted((s, e) for s, e in d.items() if e))


class RV:
    """a value: polynomial and interval"""
    __slots__ = ("p", "lo", "hi")

    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi = p, lo, hi

    def __repr__(self):
        return "RV(%r in [%d,%d])" % (self.p, self.lo, self.hi)


def rng(w, signed):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)


def imul(a, b):
    v = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return min(v), max(v)


class RingDom:
    name = "ring"
    exact = True

    def __init__(self):
        self.iv = {}        # symbol -> interval
        self.defs = {}      # R and N symbols -> Poly
        self.order = []     # symbols in order of creation
        self.quots = {}     # (key of P, k) -> symbol
        self.rems = {}      # key of the non-constant part of P - 2^k Q -> (R symbol, constant)
        self.remof = {}     # Q symbol -> R symbol
        self.names = {}
        self.fresh_n = 0
        self.lemmas = []    # polynomials proved to be zero

    # -- symbols
    def new(self, base, lo, hi):
        self.fresh_n += 1
        s = "%s.%d" % (base, self.fresh_n)
        self.iv[s] = (lo, hi)
        self.order.append(s)
        return s

    def input(self, name, lo, hi):
        self.iv[name] = (lo, hi)
        self.order.append(name)
        return RV(Poly.sym(name), lo, hi)

    def fresh(self, E, name, w, signed):
        lo, hi = rng(w, signed)
        if name in self.iv:
            lo, hi = self.iv[name]
            return RV(Poly.sym(name), lo, hi)
        return self.input(name, lo, hi)

    def lift(self, v, w=None):
        if isinstance(v, RV):
            return v
        if isinstance(v, int):
            return RV(Poly.const(v), v, v)
        raise Unsupported("not a ring value: %r" % (v,))

    def interval(self, p):
        lo = hi = 0
        for m, v in p.c.items():
            a = (1, 1)
            for s, e in m:
                b = self.iv[s]
                if e == 2:
                    x = imul(b, b)
                    b = (0 if b[0] <= 0 <= b[1] else min(b[0] ** 2, b[1] ** 2), x[1])
                elif e > 2:
                    raise Unsupported("power in an interval")
                a = imul(a, b)
            a = imul(a, (v, v))
            lo += a[0]
            hi += a[1]
        return lo, hi

    def mk(self, p, lo, hi):
        if p.isconst():
            return p.cst
        k = self.lookup(p)
        if k is not None:
            s, c = k
            a, b = self.iv[s]
            p = Poly.sym(s) + Poly.const(c)
            lo, hi = max(lo, a + c), min(hi, b + c)
        if len(p.c) <= 2:
            a, b = self.interval(p)
            lo, hi = max(lo, a), min(hi, b)
        if lo == hi:
            return lo
        return RV(p, lo, hi)

    def lookup(self, p):
        c = p.cst
        q = p if not c else Poly({m: v for m, v in p.c.items() if m})
        r = self.rems.get(q.key())
        if r is None:
            return None
        return r[0], c + r[1]

    def name_of(self, v):
        """a value as a constant multiple of one symbol (or one symbol and a constant): for products"""
        if len(v.p.c) <= 1:
            return v
        k = v.p.key()
        if k not in self.names:
            s = self.new("N", v.lo, v.hi)
            self.defs[s] = v.p
            self.names[k] = s
        s = self.names[k]
        a, b = self.iv[s]
        self.iv[s] = (max(a, v.lo), min(b, v.hi))
        return RV(Poly.sym(s), *self.iv[s])

    # -- floor division by 2^k, exact
    def floor(self, v, k):
        """floor(v / 2^k) as a value"""
        v = self.lift(v)
        if k == 0:
            return v
        lo, hi = v.lo >> k, v.hi >> k
        if lo == hi:
            return lo
        p = self.pfloor(v.p, k, (v.lo, v.hi))
        d = v.p - p.scale(1 << k)
        nk = Poly({m: c for m, c in d.c.items() if m})
        if len(nk.c) > 1 and nk.key() not in self.rems:
            r = self.new("R", 0, (1 << k) - 1)
            self.defs[r] = d
            self.rems[nk.key()] = (r, -d.cst)
        return self.mk(p, lo, hi)

    def pfloor(self, p, k, iv=None):
        M = 1 << k
        # terms divisible by 2^k leave the floor exactly
        out, rest = {}, {}
        for m, c in p.c.items():
            if c % M == 0:
                out[m] = c // M
            elif not m:
                if c // M:
                    out[m] = c // M
                rest[m] = c % M
            else:
                rest[m] = c
        z = Poly(rest)
        if out and iv is not None:
            iv = None
        if not out and iv is not None:
            a, b = self.interval(z) if len(z.c) < 40 else iv
            iv = (max(iv[0], a), min(iv[1], b))
        if iv is None:
            iv = self.interval(z)
        o = Poly(out)
        if iv[0] >> k == iv[1] >> k:
            return o + Poly.const(iv[0] >> k)
        # a small part below 2^j does not matter
        for j in range(k - 1, 0, -1):
            J = 1 << j
            low, hi_ = {}, {}
            for m, c in z.c.items():
                if not m:
                    if c % J:
                        low[m] = c % J
                    if c // J:
                        hi_[m] = c // J
                elif c % J == 0:
                    hi_[m] = c // J
                else:
                    low[m] = c
            if not hi_:
                continue
            a, b = self.interval(Poly(low))
            if a >= 0 and b < J:
                if iv is not None:
                    return o + self.pfloor(Poly(hi_), k - j)
        # floor(floor(P/2^a) / 2^k) = floor(P / 2^(a+k))
        if len(z.c) == 1:
            (m, c), = z.c.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in self.remof:
                P, a = self.qdef[m[0][0]]
                return o + self.quot(P, a + k, (iv[0] << a, ((iv[1] + 1) << a) - 1))
        return o + self.quot(z, k, iv)

    qdef = None

    def quot(self, P, k, iv):
        if self.qdef is None:
            self.qdef = {}
        lo, hi = iv[0] >> k, iv[1] >> k
        if lo == hi:
            return Poly.const(lo)
        key = (P.key(), k)
        s = self.quots.get(key)
        if s is None:
            s = self.new("Q", lo, hi)
            r = self.new("R", 0, (1 << k) - 1)
            self.quots[key] = s
            self.qdef[s] = (P, k)
            self.remof[s] = r
            d = P - Poly.sym(s).scale(1 << k)
            self.defs[r] = d
            c = d.cst
            nk = Poly({m: v for m, v in d.c.items() if m}).key()
            self.rems.setdefault(nk, (r, -c))
        else:
            a, b = self.iv[s]
            self.iv[s] = (max(a, lo), min(b, hi))
        return Poly.sym(s)

    def low(self, v, k):
        """v mod 2^k"""
        v = self.lift(v)
        if v.lo >= 0 and v.hi < (1 << k):
            return v if v.lo != v.hi else v.lo
        # what a remainder was taken of, where it is the same modulo 2^k
        if len(v.p.c) <= 3 and any(s in self.defs for s in v.p.symbols()):
            p = self.unname(v.p)
            p = Poly({m: c % (1 << k) for m, c in p.c.items() if c % (1 << k)})
            if len(p.c) == 1 and v.lo < 0 and p.key() != v.p.key() and not any(s in self.defs for s in p.symbols()):
                return self.low(self.mk(p, *self.interval(p)), k)
        q = self.lift(self.floor(v, k))
        r = v.p - q.p.scale(1 << k)
        return self.mk(r, 0, (1 << k) - 1)

    # -- the interface of a domain
    def fit(self, E, st, p, lo, hi, w, signed, what, strict=True):
        v = self.mk(p, lo, hi)
        a, b = rng(w, signed)
        x = self.lift(v)
        if x.lo >= a and x.hi <= b:
            if strict:
                E.stats.obligations += 1
                E.stats.discharged += 1
                E.stats.by["interval"] = E.stats.by.get("interval", 0) + 1
            return v
        if strict and signed:
            E.stats.obligations += 1
            E.fail(st, "%s does not overflow" % what, "range [%d, %d] of a %d-bit number" % (x.lo, x.hi, w), None)
        return self.wrap(x, w, signed)

    def wrap(self, x, w, signed):
        a, b = rng(w, signed)
        if x.lo >= a and x.hi <= b:
            return x if x.lo != x.hi else x.lo
        if not signed:
            return self.low(x, w)
        off = 1 << (w - 1)
        y = self.lift(self.mk(x.p + Poly.const(off), x.lo + off, x.hi + off))
        z = self.lift(self.low(y, w))
        return self.mk(z.p - Poly.const(off), z.lo - off, z.hi - off)

    def where(self, E):
        return getattr(E, "where", "arithmetic")

    def binop(self, E, st, tok, x, y, w, signed, yw=None, ysigned=False):
        if tok in ("<<", ">>"):
            if not isinstance(y, int):
                raise Unsupported("ring domain: shift by an unknown")
            X = self.lift(x)
            if tok == "<<":
                if y >= w:
                    return 0
                return self.fit(E, st, X.p.scale(1 << y), X.lo << y, X.hi << y, w, signed, "<<", strict=False)
            return self.floor(X, y)
        X, Y = self.lift(x), self.lift(y)
        if tok == "+":
            return self.fit(E, st, X.p + Y.p, X.lo + Y.lo, X.hi + Y.hi, w, signed, "sum")
        if tok == "-":
            return self.fit(E, st, X.p - Y.p, X.lo - Y.hi, X.hi - Y.lo, w, signed, "difference")
        if tok == "*":
            lo, hi = imul((X.lo, X.hi), (Y.lo, Y.hi))
            if X.p.key() == Y.p.key():
                lo = 0 if X.lo <= 0 <= X.hi else lo
            if not isinstance(x, int) and not isinstance(y, int):
                X, Y = self.name_of(X), self.name_of(Y)
            return self.fit(E, st, X.p * Y.p, lo, hi, w, signed, "product")
        if tok == "&":
            if isinstance(x, int):
                x, y, X, Y = y, x, Y, X
            if isinstance(y, int) and y >= 0 and (y & (y + 1)) == 0:
                return self.low(X, y.bit_length())
            if isinstance(y, int) and y >= 0 and (-y & y) and ((y // (y & -y)) & (y // (y & -y) + 1)) == 0:
                # a run of ones from bit a up
                a = (y & -y).bit_length() - 1
                t = self.lift(self.low(X, y.bit_length()))
                u = self.lift(self.low(t, a))
                return self.mk(t.p - u.p, 0, y)
            if isinstance(y, int) and y == -1:
                return x
        if tok in ("|", "^", "+"):
            for a, b in ((X, Y), (Y, X)):
                if a.lo >= 0:
                    n = a.hi.bit_length()
                    for bp in (b.p, self.unname(b.p)):
                        if all(c % (1 << n) == 0 for c in bp.c.values()):
                            r = RV(a.p + bp, a.lo + b.lo, a.hi + b.hi)    # no carries: stays within the type
                            lo, hi = rng(w, signed)
                            return RV(r.p, max(lo, r.lo), min(hi, r.hi))
        raise Unsupported("ring domain: %r %s %r" % (x, tok, y))

    def unname(self, p):
        for s in list(p.symbols()):
            if s in self.defs and any(len(m) == 1 and m[0] == (s, 1) for m in p.c):
                p = subst(p, s, self.defs[s])
        return p

    def neg(self, E, st, x, w, signed):
        return self.fit(E, st, -x.p, -x.hi, -x.lo, w, signed, "negation")

    def compl(self, E, st, x, w, signed):
        raise Unsupported("ring domain: complement")

    def convert(self, E, st, x, w1, s1, w2, s2):
        return self.wrap(self.lift(x), w2, s2)

    def cmp(self, tok, x, y, w, signed):
        X, Y = self.lift(x), self.lift(y)
        lo, hi = X.lo - Y.hi, X.hi - Y.lo
        p = X.p - Y.p
        if p.isconst():
            lo = hi = p.cst
        if tok in ("==", "!="):
            if lo == hi == 0:
                return tok == "=="
            if lo > 0 or hi < 0:
                return tok == "!="
        elif tok == "<":
            if hi < 0:
                return True
            if lo >= 0:
                return False
        elif tok == "<=":
            if hi <= 0:
                return True
            if lo > 0:
                return False
        elif tok == ">":
            return self.cmp("<", y, x, w, signed)
        elif tok == ">=":
            return self.cmp("<=", y, x, w, signed)
        raise Unsupported("ring domain: comparison that depends on the input")

    def ite(self, c, a, b, w):
        if is_true(c):
            return a
        if is_false(c):
            return b
        raise Unsupported("ring domain: choice")

    def eq(self, a, b, w):
        return self.cmp("==", a, b, w, True)

    # -- ends of proofs
    def expand(self, p, mod=None):
        """replace the named symbols by their definitions, latest first"""
        pos = {s: i for i, s in enumerate(self.order)}
        while True:
            named = [s for s in p.symbols() if s in self.defs]
            if not named:
                return p.mod(mod) if mod else p
            s = max(named, key=lambda x: pos[x])
            p = subst(p, s, self.defs[s])
            if mod:
                p = p.mod(mod)

    def facts(self, goals, depth):
        """linear facts about the symbols of the goals, going back over at most depth definitions, latest first"""
        import heapq
        pos = {s: i for i, s in enumerate(self.order)}
        seen, todo, cons = set(), [], []
        mon = {}
        n = 0

        def var(m):
            if len(m) == 1 and m[0][1] == 1:
                s = m[0][0]
                if s not in mon:
                    mon[s] = z3.Real(s)
                    a, b = self.iv[s]
                    cons.append(mon[s] >= a)
                    cons.append(mon[s] <= b)
                    heapq.heappush(todo, (-pos[s], s))
                return mon[s]
            if m not in mon:
                mon[m] = z3.Real("M" + str(len(mon)))
                a, b = self.interval(Poly({m: 1}))
                cons.append(mon[m] >= a)
                cons.append(mon[m] <= b)
            return mon[m]

        def term(p):
            r = [z3.RealVal(p.cst)]
            for m, c in p.c.items():
                if m:
                    r.append(z3.RealVal(c) * var(m))
            return z3.Sum(r)
        gs = [term(g) for g in goals]
        for p in self.lemmas:
            cons.append(term(p) == 0)
        while todo and n < depth:
            _, s = heapq.heappop(todo)
            if s in self.remof:
                r = self.remof[s]
                if r not in seen:
                    seen.add(r)
                    n += 1
                    cons.append(var(((r, 1),)) == term(self.defs[r]))
            if s in self.defs and s not in seen:
                seen.add(s)
                n += 1
                cons.append(var(((s, 1),)) == term(self.defs[s]))
        small = [(-pos[s], s) for s in mon if isinstance(s, str) and s in self.remof and 0 < self.iv[s][1] - self.iv[s][0] <= 3]
        return gs, cons, [(mon[s], self.iv[s]) for _, s in sorted(small)]

    def lin(self, E, goal_polys, refute, timeout=8000):
        """prove a linear fact over the definitions by refuting every case of its negation over the rationals
        (the negation is over the integers: refute gives the cases); few-valued quotients are split"""
        import time
        for depth in self.DEPTHS:
            gs, cons, small = self.facts(goal_polys, depth)
            t0 = time.time()

            def refuted(extra, split):
                s = z3.SimpleSolver()
                s.set("timeout", timeout)
                s.add(*cons)
                s.add(*extra)
                r = s.check()
                E.stats.queries += 1
                E.stats.by["z3"] = E.stats.by.get("z3", 0) + 1
                if r == z3.unsat:
                    return True
                if not split:
                    return False
                v, (a, b) = split[0]
                return all(refuted(extra + [v == k], split[1:]) for k in range(a, b + 1))
            ok = all(refuted([c], small[:2]) for c in refute(*gs))
            E.stats.time += time.time() - t0
            if ok:
                return True
        return False

    DEPTHS = (6, 14, 30, 60, 120)

    def prove_zero(self, E, st, p, mod, name):
        """obligation: the polynomial vanishes (modulo mod)"""
        e = self.expand(p, mod)
        if mod:
            e = e.mod(mod)
        if e.c:
            e = self.leftover(E, e, mod)
        return E.oblige(st, not e.c, name, "remaining: %d terms: %r" % (len(e.c), e))

    def leftover(self, E, e, mod):
        """quotients left over: decide by linear arithmetic that they are zero, or equal to each other"""
        syms = sorted(s for s in e.symbols() if s in self.remof)
        if len(syms) > 12:
            return e
        for s in list(syms):
            if self.lin(E, [Poly.sym(s)], lambda x: [x >= 1, x <= -1]):
                self.lemmas.append(Poly.sym(s))
                e = subst(e, s, Poly({}))
                e = e.mod(mod) if mod else e
                syms.remove(s)
        for i, s in enumerate(syms):
            for t in syms[:i]:
                if s in e.symbols() and self.lin(E, [Poly.sym(s), Poly.sym(t)], lambda x, y: [x >= y + 1, x <= y - 1]):
                    self.lemmas.append(Poly.sym(s) - Poly.sym(t))
                    e = subst(e, s, Poly.sym(t))
                    e = e.mod(mod) if mod else e
        return e


def subst(p, s, d):
    out = {}
    byexp = {}
    for m, v in p.c.items():
        k = None
        for i, (t, e) in enumerate(m):
            if t == s:
                k = i
                break
        if k is None:
            out[m] = v
        else:
            byexp.setdefault(m[k][1], {})[m[:k] + m[k + 1:]] = v
    r = Poly(out)
    pw = None
    for e in sorted(byexp):
        if e > 4:
            raise Unsupported("power of a name")
        q = d
        for _ in range(e - 1):
            q = q * d
        r = r + Poly(byexp[e]) * q
    return r
