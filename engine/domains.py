"""Arithmetic domains.

A value of integer type is a Python int when it is concrete (always normalised
into the range of its type) or an object of the domain otherwise:
  BVDom    z3 bit vectors: exact machine arithmetic
  IntDom   z3 integers kept inside the range of their type: exact machine
           arithmetic, wrap-around written out where it cannot be excluded
  RingDom  polynomials over Z with intervals (see ring.py)
A boolean is a Python bool or a z3 Bool.
"""
import z3


class Unsupported(Exception):
    """The code left the subset which the verifier understands."""


class NoBound(Unsupported):
    """A loop does not end within the number of iterations that are executed one by one."""
    loop = None


def norm(v, w, signed):
    v &= (1 << w) - 1
    if signed and v >> (w - 1):
        v -= 1 << w
    return v


def is_true(b):
    return b is True or (not isinstance(b, bool) and z3.is_true(b))


def is_false(b):
    return b is False or (not isinstance(b, bool) and z3.is_false(b))


def B(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def pyb(b):
    """simplify a z3 Bool to a Python bool when it is constant"""
    if isinstance(b, bool):
        return b
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return b


def And(*a):
    r = []
    for x in a:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*a):
    r = []
    for x in a:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def conc(tok, x, y, w, signed):
    """concrete integer operation; both normalised"""
    if tok == "+":
        return norm(x + y, w, signed)
    if tok == "-":
        return norm(x - y, w, signed)
    if tok == "*":
        return norm(x * y, w, signed)
    if tok in ("/", "%"):
        if y == 0:
            raise ZeroDivisionError
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return norm(q, w, signed) if tok == "/" else norm(x - q * y, w, signed)
    if tok == "&":
        return norm(x & y, w, signed)
    if tok == "|":
        return norm(x | y, w, signed)
    if tok == "^":
        return norm(x ^ y, w, signed)
    if tok == "&^":
        return norm(x & ~y, w, signed)
    if tok == "<<":
        return norm(x << y, w, signed) if y < w else 0
    if tok == ">>":
        return x >> min(y, 300)
    raise Unsupported("binop " + tok)


CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


class BVDom:
    name = "bv"
    exact = True

    def lift(self, v, w):
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        return v

    def fresh(self, E, name, w, signed):
        return z3.BitVec(name, w)

    def func(self, name, argw, w, signed):
        f = z3.Function(name, *[z3.BitVecSort(a) for a in argw], z3.BitVecSort(w))

        def call(*args):
            return f(*[self.lift(a, aw) for a, aw in zip(args, argw)])
        call.decl = f
        return call

    def simp(self, r, signed=False):
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_signed_long() if signed else r.as_long()
        return r

    def binop(self, E, st, tok, x, y, w, signed, yw=None, ysigned=False):
        if tok in ("<<", ">>"):
            x = self.lift(x, w)
            if isinstance(y, int):
                if y < 0:
                    raise Unsupported("negative shift")
                if y >= w:
                    if tok == "<<" or not signed:
                        return 0
                    y = w - 1
                y = z3.BitVecVal(y, w)
            else:
                yw = y.size()
                if ysigned:
                    E.require(st, y >= 0, "shift amount not negative")
                if yw > w:
                    y = z3.If(z3.UGE(y, w), z3.BitVecVal(w, w), z3.Extract(w - 1, 0, y)) if w < (1 << w) else y
                elif yw < w:
                    y = z3.ZeroExt(w - yw, y)
            if tok == "<<":
                return self.simp(x << y, signed)
            return self.simp((x >> y) if signed else z3.LShR(x, y), signed)
        x = self.lift(x, w)
        y = self.lift(y, w)
        if tok == "+":
            r = x + y
        elif tok == "-":
            r = x - y
        elif tok == "*":
            r = x * y
        elif tok == "/":
            r = (x / y) if signed else z3.UDiv(x, y)
        elif tok == "%":
            r = z3.SRem(x, y) if signed else z3.URem(x, y)
        elif tok == "&":
            r = x & y
        elif tok == "|":
            r = x | y
        elif tok == "^":
            r = x ^ y
        elif tok == "&^":
            r = x & ~y
        else:
            raise Unsupported("binop " + tok)
        return self.simp(r, signed)

    def cmp(self, tok, x, y, w, signed):
        x = self.lift(x, w)
        y = self.lift(y, w)
        if tok == "==":
            r = x == y
        elif tok == "!=":
            r = x != y
        elif signed:
            r = CMP[tok](x, y)
        else:
            r = {"<": z3.ULT, "<=": z3.ULE, ">": z3.UGT, ">=": z3.UGE}[tok](x, y)
        return pyb(r)

    def neg(self, E, st, x, w, signed):
        return self.simp(-x, signed)

    def compl(self, E, st, x, w, signed):
        return self.simp(~x, signed)

    def convert(self, E, st, x, w1, s1, w2, s2):
        if w2 == w1:
            return x
        if w2 < w1:
            return self.simp(z3.Extract(w2 - 1, 0, x), s2)
        return self.simp(z3.SignExt(w2 - w1, x) if s1 else z3.ZeroExt(w2 - w1, x), s2)

    def ite(self, c, a, b, w):
        if is_true(c):
            return a
        if is_false(c):
            return b
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        return z3.If(c, self.lift(a, w), self.lift(b, w))

    def eq(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return pyb(self.lift(a, w) == self.lift(b, w))


class IntDom:
    name = "int"
    exact = True

    def lift(self, v, w=None):
        if isinstance(v, int):
            return z3.IntVal(v)
        return v

    def rng(self, w, signed):
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)

    def fresh(self, E, name, w, signed):
        v = z3.Int(name)
        lo, hi = self.rng(w, signed)
        E.axiom(z3.And(v >= lo, v <= hi))
        return v

    def func(self, name, argw, w, signed):
        f = z3.Function(name, *[z3.IntSort() for a in argw], z3.IntSort())
        lo, hi = self.rng(w, signed)

        def call(*args):
            t = f(*[self.lift(a) for a in args])
            self.E.axiom(z3.And(t >= lo, t <= hi))
            return t
        call.decl = f
        return call

    def simp(self, r, signed=False):
        r = z3.simplify(r)
        if z3.is_int_value(r):
            return r.as_long()
        return r

    def wrap(self, E, st, r, w, signed):
        r = self.simp(r)
        lo, hi = self.rng(w, signed)
        if isinstance(r, int):
            return norm(r, w, signed)
        if E.valid(st, z3.And(r >= lo, r <= hi)):
            return r
        m = 1 << w
        if E.valid(st, z3.And(r >= lo - m, r <= hi)):
            return z3.If(r < lo, r + m, r)
        # one wrap either way is enough for + and -; otherwise use mod
        if E.valid(st, z3.And(r >= lo - m, r <= hi + m)):
            return z3.If(r < lo, r + m, z3.If(r > hi, r - m, r))
        if signed:
            return (r - lo) % m + lo
        return r % m

    def binop(self, E, st, tok, x, y, w, signed, yw=None, ysigned=False):
        if tok == "<<" and isinstance(y, int):
            return self.wrap(E, st, self.lift(x) * (1 << y), w, signed)
        if tok == ">>" and isinstance(y, int):
            return self.simp(self.lift(x) / (1 << y))  # z3 Int '/' by a positive constant is floor
        if tok == "&" and isinstance(y, int) and y >= 0 and (y & (y + 1)) == 0:
            return self.simp(self.lift(x) % (y + 1))
        if tok == "&" and isinstance(x, int) and x >= 0 and (x & (x + 1)) == 0:
            return self.simp(self.lift(y) % (x + 1))
        X, Y = self.lift(x), self.lift(y)
        if tok == "+":
            return self.wrap(E, st, X + Y, w, signed)
        if tok == "-":
            return self.wrap(E, st, X - Y, w, signed)
        if tok == "*":
            if isinstance(x, int) or isinstance(y, int):
                return self.wrap(E, st, X * Y, w, signed)
            return self.wrap(E, st, E.product(X, Y), w, signed)
        if tok in ("/", "%") and isinstance(y, int) and y > 0 and not signed:
            return self.simp(X / Y if tok == "/" else X % Y)
        raise Unsupported("integer domain: " + tok)

    def cmp(self, tok, x, y, w, signed):
        return pyb(CMP[tok](self.lift(x), self.lift(y)))

    def neg(self, E, st, x, w, signed):
        return self.wrap(E, st, -x, w, signed)

    def compl(self, E, st, x, w, signed):
        raise Unsupported("integer domain: ^")

    def convert(self, E, st, x, w1, s1, w2, s2):
        lo1, hi1 = self.rng(w1, s1)
        lo2, hi2 = self.rng(w2, s2)
        if lo2 <= lo1 and hi1 <= hi2:
            return x
        return self.wrap(E, st, x, w2, s2)

    def ite(self, c, a, b, w):
        if is_true(c):
            return a
        if is_false(c):
            return b
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        return z3.If(c, self.lift(a), self.lift(b))

    def eq(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return pyb(self.lift(a) == self.lift(b))
