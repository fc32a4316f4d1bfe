"""Contracts of edwards25519: scalars modulo the group order, field elements, points."""
from .common import *
from engine.ring import Poly, RV, RingDom, subst
from . import bip32c

ED = "crypto/edwards25519."
P = 2 ** 255 - 19
L = 2 ** 252 + 27742317777372353535851937790883648493
EXP = [0, 26, 51, 77, 102, 128, 153, 179, 204, 230]    # weights of the limbs


def byte_syms(E, name, n, top=255):
    return [E.vdom.input("%s[%d]" % (name, i), 0, top if i == n - 1 else 255) for i in range(n)]


def arr_ptr(E, st, vals, pre=True):
    return Ptr(E.new(st, ArrV(E.u8, vals), None, pre=pre))


def le(vals):
    """little-endian number of bytes, as a polynomial"""
    r = Poly({})
    for i, v in enumerate(vals):
        r = r + (Poly.const(v) if isinstance(v, int) else v.p).scale(256 ** i)
    return r


def out_bytes(E, s, p):
    v = E.load1(s, p)
    return list(v.v) if isinstance(v, ArrV) else v.lits()


def bytes_ok(E, s, bs, name):
    d = E.vdom
    return E.oblige(s, all(d.lift(b).lo >= 0 and d.lift(b).hi <= 255 for b in bs), name + ": bytes")


def canonical(E, s, bs, m, name):
    """the number is below m"""
    d = E.vdom
    v = le(bs)
    E.oblige(s, d.lin(E, [v], lambda x: [x <= -1, x >= m]), name + ": canonical, below the modulus", "not provable")


# ------------------------------------------------------------------ C20: scalars
@unit("edwards.ScReduce", props=["C20", "C19"], provides=ED + "ScReduce", dom="ring", funcs=[ED + "ScReduce"])
def u_screduce(E):
    for alias in (False,):
        st = State()
        E.vdom.__init__()
        s64 = byte_syms(E, "s", 64)
        src = arr_ptr(E, st, s64)
        out = arr_ptr(E, st, [0] * 32)
        rs = rets(E, call(E, st, ED + "ScReduce", [out, src]), "ScReduce")
        E.oblige(None, len(rs) == 1, "ScReduce: one path")
        for s, _ in rs:
            no_writes(E, s, "ScReduce", allow=(out.oid,))
            bs = out_bytes(E, s, out)
            bytes_ok(E, s, bs, "ScReduce")
            E.vdom.prove_zero(E, s, le(bs) - le(s64), L, "ScReduce: congruent to the input modulo the group order")
            canonical(E, s, bs, L, "ScReduce")


@unit("edwards.ScMulAdd", props=["C20", "C19"], provides=ED + "ScMulAdd", dom="ring", funcs=[ED + "ScMulAdd"])
def u_scmuladd(E):
    """with every overlap of the result with an operand"""
    for alias in (None, 0, 1, 2):
        st = State()
        E.vdom.__init__()
        ops = [byte_syms(E, n, 32) for n in "abc"]
        ps = [arr_ptr(E, st, o) for o in ops]
        out = arr_ptr(E, st, [0] * 32) if alias is None else ps[alias]
        rs = rets(E, call(E, st, ED + "ScMulAdd", [out] + ps), "ScMulAdd")
        E.oblige(None, len(rs) == 1, "ScMulAdd: one path")
        for s, _ in rs:
            no_writes(E, s, "ScMulAdd", allow=(out.oid,))
            bs = out_bytes(E, s, out)
            bytes_ok(E, s, bs, "ScMulAdd")
            a, b, c = [le(o) for o in ops]
            E.vdom.prove_zero(E, s, le(bs) - (a * b + c), L, "ScMulAdd: congruent to ab + c modulo the group order")
            canonical(E, s, bs, L, "ScMulAdd")


@unit("edwards.ScMinimal", props=["C20"], funcs=[ED + "ScMinimal"])
def u_scminimal(E):
    st = State()
    b = E.sym_bytes("scalar", 32)
    E.inputs = {"scalar": b}
    p = Ptr(E.new(st, ArrV(E.u8, b.lits()), None, pre=True))
    rs = rets(E, call(E, st, ED + "ScMinimal", [p]), "ScMinimal")
    feasible_some(E, rs, "ScMinimal")
    n = bip32c.num(b.lits(), 256)
    for s, r in rs:
        no_writes(E, s, "ScMinimal")
        E.prove(s, B(r) == z3.ULT(n, z3.BitVecVal(L, 256)), "ScMinimal: true exactly for numbers below the group order")


# ------------------------------------------------------------------ C21: field elements
def bound(c):
    """limb bounds: c*2^25 for even, c*2^24 for odd limbs (c in hundredths)"""
    return [c * 2 ** (25 - i % 2) // 100 for i in range(10)]


TIGHT = bound(110)      # results of products
LOOSE = bound(330)      # operands of products: 1.65*2^26, 1.65*2^25


def i32(E):
    return E.prog.ty("int32")


def fe_input(E, st, name, bnd, pre=True):
    v = [E.vdom.input("%s%d" % (name, i), -bnd[i], bnd[i]) for i in range(10)]
    return Ptr(E.new(st, ArrV(i32(E), v), None, pre=pre)), v


def fe_poly(E, v):
    r = Poly({})
    for x, e in zip(v, EXP):
        r = r + E.vdom.lift(x).p.scale(1 << e)
    return r


def fe_out(E, s, p):
    v = E.load1(s, p)
    return list(v.v) if isinstance(v, ArrV) else v.lits()


def within(E, s, v, bnd, name):
    d = E.vdom
    iv = [(d.lift(x).lo, d.lift(x).hi) for x in v]
    bad = [(i, a) for i, a in enumerate(iv) if a[0] < -bnd[i] or a[1] > bnd[i]]
    return E.oblige(s, not bad, name + ": limbs within bounds", str(bad[:3]))


def fe_unit(E, fn, nargs, spec, inb, outb, exact=False):
    """a function of the form f(out, in...): every overlap of out and operands, and equal operands"""
    cases = {1: [(None, (0,)), (0, (0,))],
             2: [(None, (0, 1)), (0, (0, 1)), (1, (0, 1)), (None, (0, 0)), (0, (0, 0))]}[nargs]
    for alias, idx in cases:
        st = State()
        E.vdom.__init__()
        ins = [fe_input(E, st, "fg"[k], inb) for k in range(max(idx) + 1)]
        out = ins[alias][0] if alias is not None else Ptr(E.new(st, ArrV(i32(E), [0] * 10), None, pre=True))
        args = [out] + [ins[k][0] for k in idx]
        name = fn[len(ED):]
        rs = rets(E, call(E, st, fn, args), name)
        E.oblige(None, len(rs) == 1, name + ": one path")
        for s, _ in rs:
            no_writes(E, s, name, allow=(out.oid,))
            o = fe_out(E, s, out)
            want = spec(*[fe_poly(E, ins[k][1]) for k in idx])
            E.vdom.prove_zero(E, s, fe_poly(E, o) - want, None if exact else P, name + ": exact modulo 2^255-19")
            within(E, s, o, outb, name)


@unit("edwards.FeMul", props=["C21", "C18", "C19", "C28"], provides=ED + "FeMul", dom="ring", funcs=[ED + "FeMul", ED + "FeCombine"])
def u_femul(E):
    fe_unit(E, ED + "FeMul", 2, lambda f, g: f * g, LOOSE, TIGHT)


@unit("edwards.FeSquare", props=["C21", "C18", "C19", "C28"], provides=ED + "FeSquare", dom="ring", funcs=[ED + "FeSquare", ED + "feSquare"])
def u_fesq(E):
    fe_unit(E, ED + "FeSquare", 1, lambda f: f * f, LOOSE, TIGHT)


@unit("edwards.FeSquare2", props=["C21", "C18", "C19", "C28"], provides=ED + "FeSquare2", dom="ring", funcs=[ED + "FeSquare2", ED + "feSquare"])
def u_fesq2(E):
    fe_unit(E, ED + "FeSquare2", 1, lambda f: (f * f).scale(2), LOOSE, TIGHT)


BIG = bound(2 * 330)


@unit("edwards.FeAdd", props=["C21", "C18", "C19", "C28"], provides=ED + "FeAdd", dom="ring", funcs=[ED + "FeAdd"])
def u_feadd(E):
    fe_unit(E, ED + "FeAdd", 2, lambda f, g: f + g, LOOSE, BIG)


@unit("edwards.FeSub", props=["C21", "C18", "C19", "C28"], provides=ED + "FeSub", dom="ring", funcs=[ED + "FeSub"])
def u_fesub(E):
    fe_unit(E, ED + "FeSub", 2, lambda f, g: f - g, LOOSE, BIG)


@unit("edwards.FeNeg", props=["C21", "C18", "C19", "C28"], provides=ED + "FeNeg", dom="ring", funcs=[ED + "FeNeg"])
def u_feneg(E):
    fe_unit(E, ED + "FeNeg", 1, lambda f: -f, LOOSE, LOOSE)
    fe_unit(E, ED + "FeNeg", 1, lambda f: -f, TIGHT, TIGHT)


@unit("edwards.FeCopy", props=["C21", "C18", "C19", "C28"], provides=[ED + "FeCopy", ED + "FeZero", ED + "FeOne"], dom="ring",
      funcs=[ED + "FeCopy", ED + "FeZero", ED + "FeOne"])
def u_fecopy(E):
    fe_unit(E, ED + "FeCopy", 1, lambda f: f, LOOSE, LOOSE)
    for fn, c in (("FeZero", 0), ("FeOne", 1)):
        st = State()
        E.vdom.__init__()
        p, v = fe_input(E, st, "f", [2 ** 31 - 1] * 10)
        for s, _ in rets(E, call(E, st, ED + fn, [p]), fn):
            no_writes(E, s, fn, allow=(p.oid,))
            o = fe_out(E, s, p)
            E.vdom.prove_zero(E, s, fe_poly(E, o) - Poly.const(c), None, fn)
            within(E, s, o, [1] * 10, fn)


@unit("edwards.FeFromBytes", props=["C21", "C28"], provides=ED + "FeFromBytes", dom="ring", funcs=[ED + "FeFromBytes"])
def u_fefrom(E):
    st = State()
    b = byte_syms(E, "src", 32)
    src = arr_ptr(E, st, b)
    out = Ptr(E.new(st, ArrV(i32(E), [0] * 10), None, pre=True))
    for s, _ in rets(E, call(E, st, ED + "FeFromBytes", [out, src]), "FeFromBytes"):
        no_writes(E, s, "FeFromBytes", allow=(out.oid,))
        o = fe_out(E, s, out)
        top = E.vdom.lift(E.vdom.floor(b[31], 7))
        E.vdom.prove_zero(E, s, fe_poly(E, o) - (le(b) - top.p.scale(1 << 255)), P, "FeFromBytes: the low 255 bits of the bytes")
        within(E, s, o, TIGHT, "FeFromBytes")


@unit("edwards.FeToBytes", props=["C21", "C18", "C19", "C28"], provides=ED + "FeToBytes", dom="ring", funcs=[ED + "FeToBytes"])
def u_feto(E):
    """all operands within three times the documented bounds (sums and differences are encoded too)"""
    st = State()
    p, v = fe_input(E, st, "h", LOOSE)
    out = arr_ptr(E, st, [0] * 32)
    rs = rets(E, call(E, st, ED + "FeToBytes", [out, p]), "FeToBytes")
    for s, _ in rs:
        no_writes(E, s, "FeToBytes", allow=(out.oid, p.oid))
        bs = out_bytes(E, s, out)
        bytes_ok(E, s, bs, "FeToBytes")
        E.vdom.prove_zero(E, s, le(bs) - fe_poly(E, v), P, "FeToBytes: congruent modulo 2^255-19")
        canonical(E, s, bs, P, "FeToBytes")
        o = fe_out(E, s, p)
        E.vdom.prove_zero(E, s, fe_poly(E, o) - fe_poly(E, v), P, "FeToBytes: the operand keeps its value modulo 2^255-19")
        within(E, s, o, bound(200), "FeToBytes")


# ------------------------------------------------------------------ field elements as values
class FieldV:
    """a field element: polynomial modulo 2^255-19 and limb bounds"""
    __slots__ = ("p", "bnd")

    def __init__(self, p, bnd):
        self.p, self.bnd = p, tuple(bnd)

    def __repr__(self):
        return "Field(%r)" % (self.p,)


def red(E, p):
    """normal form: coefficients modulo the prime, powers of nonzero symbols modulo the prime minus 1"""
    nz = E.__dict__.get("nonzero_syms", ())
    r = {}
    for m, c in p.c.items():
        if any(e >= P - 1 and s in nz for s, e in m):
            m = tuple((s, e % (P - 1) if s in nz else e) for s, e in m)
            m = tuple(x for x in m if x[1])
        r[m] = (r.get(m, 0) + c) % P
    return Poly({m: c for m, c in r.items() if c})


def fe(E, st, p):
    v = E.load1(st, p)
    return fe_val(E, v)


def fe_val(E, v):
    if isinstance(v, FieldV):
        return v
    L_ = list(v.v) if isinstance(v, ArrV) else (v.lits() if isinstance(v, Rope) else None)
    if L_ is None or len(L_) != 10 or not all(isinstance(x, int) for x in L_):
        raise Unsupported("limbs of a field element")
    return FieldV(Poly.const(sum(x << e for x, e in zip(L_, EXP)) % P), [abs(x) for x in L_])


def need(E, st, f, bnd, what):
    return E.oblige(st, all(a <= b for a, b in zip(f.bnd, bnd)), what + ": operands within the bounds of the contract", str(f.bnd))


def put(E, st, p, poly, bnd):
    E.store(st, p, FieldV(red(E, poly), bnd))


@contract(ED + "FeMul")
def c_femul(E, st, a):
    f, g = fe(E, st, a[1]), fe(E, st, a[2])
    need(E, st, f, LOOSE, "FeMul")
    need(E, st, g, LOOSE, "FeMul")
    put(E, st, a[0], f.p * g.p, TIGHT)


@contract(ED + "FeSquare")
def c_fesq(E, st, a):
    f = fe(E, st, a[1])
    need(E, st, f, LOOSE, "FeSquare")
    put(E, st, a[0], f.p * f.p, TIGHT)


@contract(ED + "FeSquare2")
def c_fesq2(E, st, a):
    f = fe(E, st, a[1])
    need(E, st, f, LOOSE, "FeSquare2")
    put(E, st, a[0], (f.p * f.p).scale(2), TIGHT)


@contract(ED + "FeAdd")
def c_feadd(E, st, a):
    f, g = fe(E, st, a[1]), fe(E, st, a[2])
    need(E, st, f, LOOSE, "FeAdd")
    need(E, st, g, LOOSE, "FeAdd")
    put(E, st, a[0], f.p + g.p, [x + y for x, y in zip(f.bnd, g.bnd)])


@contract(ED + "FeSub")
def c_fesub(E, st, a):
    f, g = fe(E, st, a[1]), fe(E, st, a[2])
    need(E, st, f, LOOSE, "FeSub")
    need(E, st, g, LOOSE, "FeSub")
    put(E, st, a[0], f.p - g.p, [x + y for x, y in zip(f.bnd, g.bnd)])


@contract(ED + "FeNeg")
def c_feneg(E, st, a):
    f = fe(E, st, a[1])
    need(E, st, f, LOOSE, "FeNeg")
    put(E, st, a[0], -f.p, f.bnd)


@contract(ED + "FeCopy")
def c_fecopy(E, st, a):
    f = fe(E, st, a[1])
    put(E, st, a[0], f.p, f.bnd)


@contract(ED + "FeZero")
def c_fezero(E, st, a):
    put(E, st, a[0], Poly({}), [0] * 10)


@contract(ED + "FeOne")
def c_feone(E, st, a):
    put(E, st, a[0], Poly.const(1), [1] + [0] * 9)


@contract(ED + "FeCMove")
def c_fecmove(E, st, a):
    if not isinstance(a[2], int):
        raise Unsupported("conditional move on an unknown condition")
    E.oblige(st, a[2] in (0, 1), "FeCMove: the condition is 0 or 1")
    if a[2] == 1:
        g = fe(E, st, a[1])
        put(E, st, a[0], g.p, g.bnd)


def enc(E, p):
    """the canonical 32 bytes of a field element"""
    if p.isconst():
        return list((p.cst % P).to_bytes(32, "little"))
    memo = E.__dict__.setdefault("enc_memo", {})
    k = p.key()
    if k not in memo:
        n = "enc%d" % len(memo)
        if E.vdom.name == "ring":
            memo[k] = byte_syms(E, n, 32, top=127)
        else:
            memo[k] = E.sym_bytes(n, 32).lits()
            v = bip32c.num(memo[k], 256)
            E.axiom(z3.ULT(v, z3.BitVecVal(P, 256)))
            # nonzero multiples vanish together; the encoding of the negation
            c = pow(p.c[min(p.c)], P - 2, P)
            z = z3.Bool("zero%d" % E.__dict__.setdefault("enc_zero", {}).setdefault(red(E, p.scale(c)).key(), len(memo)))
            E.axiom((v == 0) == z)
            o = memo.get(red(E, -p).key())
            if o is not None:
                w = bip32c.num(o, 256)
                E.axiom(v == z3.If(w == 0, z3.BitVecVal(0, 256), z3.BitVecVal(P, 256) - w))
    return memo[k]


@contract(ED + "FeToBytes")
def c_feto(E, st, a):
    f = fe(E, st, a[1])
    need(E, st, f, LOOSE, "FeToBytes")
    E.store(st, a[1], FieldV(f.p, bound(200)))
    E.store(st, a[0], ArrV(E.u8, enc(E, f.p)))


@contract(ED + "FeIsNegative")
def c_feneg2(E, st, a):
    f = fe(E, st, a[0])
    need(E, st, f, LOOSE, "FeIsNegative")
    E.store(st, a[0], FieldV(f.p, bound(200)))
    return parity(E, f.p)


def parity(E, p):
    b = enc(E, p)[0]
    if isinstance(b, int) or E.vdom.name != "ring":
        return b & 1
    return E.vdom.low(b, 1)


@contract(ED + "FeInvert")
def c_feinv(E, st, a):
    z = fe(E, st, a[1])
    need(E, st, z, LOOSE, "FeInvert")
    if len(z.p.c) != 1:
        raise Unsupported("inverse of a sum")
    (m, c), = z.p.c.items()
    put(E, st, a[0], Poly({tuple((s, e * (P - 2)) for s, e in m): pow(c, P - 2, P)}), TIGHT)


def field_of(E, bs):
    """the field element that 32 bytes stand for, their top bit aside"""
    bs = list(bs[:31]) + [z3.simplify(bip32c.bv8(bs[31]) & 127)]
    m = E.__dict__.setdefault("field_memo", {})
    return S("y%d" % m.setdefault(tuple(E.K(b) for b in bs), len(m) + 1))


@contract(ED + "FeFromBytes")
def c_fefrom(E, st, a):
    put(E, st, a[0], field_of(E, out_bytes(E, st, a[1])), TIGHT)


@contract(ED + "FeIsNonZero")
def c_fenz(E, st, a):
    f = fe(E, st, a[0])
    need(E, st, f, LOOSE, "FeIsNonZero")
    E.store(st, a[0], FieldV(f.p, bound(200)))
    v = bip32c.num([bip32c.bv8(b) for b in enc(E, f.p)], 256)
    return z3.If(v == 0, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))


def power(E, p, e):
    """a power of a polynomial, by a name of the polynomial"""
    m = E.__dict__.setdefault("power_memo", {})
    return Poly({(("N%d" % m.setdefault(p.key(), len(m) + 1), e),): 1})


@contract(ED + "fePow22523")
def c_fepow(E, st, a):
    z = fe(E, st, a[1])
    need(E, st, z, LOOSE, "fePow22523")
    put(E, st, a[0], power(E, z.p, 2 ** 252 - 3), TIGHT)


def sym_fe(E, st, name, bnd, pre=True):
    return Ptr(E.new(st, FieldV(Poly.sym(name), bnd), None, pre=pre))


FE = [ED + x for x in ("FeMul", "FeSquare", "FeSquare2", "FeAdd", "FeSub", "FeNeg", "FeCopy", "FeZero", "FeOne")]


def pow_unit(E, fn, exponent):
    for alias in (False, True):
        st = State()
        z = sym_fe(E, st, "z", LOOSE)
        out = z if alias else Ptr(E.new(st, FieldV(Poly.const(0), LOOSE), None, pre=True))
        rs = rets(E, call(E, st, ED + fn, [out, z]), fn)
        E.oblige(None, len(rs) == 1, fn + ": one path")
        for s, _ in rs:
            no_writes(E, s, fn, allow=(out.oid,))
            r = fe(E, s, out)
            E.oblige(s, r.p.key() == Poly({(("z", exponent),): 1}).key(), "%s: the power %d" % (fn, exponent), repr(r.p))
            need(E, s, r, TIGHT, fn + " result")


@unit("edwards.FeInvert", props=["C21", "C18", "C19"], provides=ED + "FeInvert", dom="ring", relies=FE, funcs=[ED + "FeInvert"])
def u_feinv(E):
    """the power p-2, which is the inverse by Fermat's little theorem"""
    pow_unit(E, "FeInvert", P - 2)


@unit("edwards.fePow22523", props=["C21", "C28"], provides=ED + "fePow22523", dom="ring", relies=FE, funcs=[ED + "fePow22523"])
def u_fepow(E):
    pow_unit(E, "fePow22523", 2 ** 252 - 3)


@unit("edwards.FeIsNegative", props=["C21", "C18", "C19", "C28"], provides=ED + "FeIsNegative", dom="ring", relies=FE + [ED + "FeToBytes"],
      funcs=[ED + "FeIsNegative"])
def u_feisneg(E):
    st = State()
    f = sym_fe(E, st, "f", LOOSE)
    for s, r in rets(E, call(E, st, ED + "FeIsNegative", [f]), "FeIsNegative"):
        no_writes(E, s, "FeIsNegative", allow=(f.oid,))
        d = E.vdom
        E.vdom.prove_zero(E, s, d.lift(r).p - d.lift(parity(E, Poly.sym("f"))).p, None, "FeIsNegative: the lowest bit of the canonical encoding")
        E.oblige(s, fe(E, s, f).p.key() == Poly.sym("f").key(), "FeIsNegative: the operand keeps its value")


@unit("edwards.FeIsNonZero", props=["C21", "C28"], provides=ED + "FeIsNonZero", relies=[ED + "FeToBytes"], funcs=[ED + "FeIsNonZero"])
def u_fenz(E):
    st = State()
    f = sym_fe(E, st, "f", LOOSE)
    bs = enc(E, Poly.sym("f"))
    rs = rets(E, call(E, st, ED + "FeIsNonZero", [f]), "FeIsNonZero")
    for s, r in rs:
        no_writes(E, s, "FeIsNonZero", allow=(f.oid,))
        zero = z3.And(*[bip32c.bv8(b) == 0 for b in bs])
        r = z3.BitVecVal(r, 32) if isinstance(r, int) else r
        E.prove(s, r == z3.If(zero, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)), "FeIsNonZero: 0 exactly for zero, else 1")
        E.oblige(s, fe(E, s, f).p.key() == Poly.sym("f").key(), "FeIsNonZero: the operand keeps its value")


@unit("edwards.FeCMove", props=["C21", "C18", "C19"], provides=ED + "FeCMove", funcs=[ED + "FeCMove"])
def u_fecmove(E):
    for alias in (False, True):
        st = State()
        a, b = [z3.BitVec("f%d" % i, 32) for i in range(10)], [z3.BitVec("g%d" % i, 32) for i in range(10)]
        c = z3.BitVec("b", 32)
        st.pc.append(z3.Or(c == 0, c == 1))
        f = Ptr(E.new(st, ArrV(i32(E), a), None, pre=True))
        g = f if alias else Ptr(E.new(st, ArrV(i32(E), b), None, pre=True))
        for s, _ in rets(E, call(E, st, ED + "FeCMove", [f, g, c]), "FeCMove"):
            no_writes(E, s, "FeCMove", allow=(f.oid,))
            o = fe_out(E, s, f)
            for i in range(10):
                E.prove(s, o[i] == z3.If(c == 1, (a if alias else b)[i], a[i]), "FeCMove: moves exactly when the condition is 1 (limb %d)" % i)


# ------------------------------------------------------------------ C22: points
D = -121665 * pow(121666, P - 2, P) % P


def cpoly(n):
    return Poly.const(n % P)


def curve_red(E, p, pts):
    """normal form modulo the curve equations -x^2 + y^2 = 1 + d x^2 y^2 of the points"""
    di = pow(D, P - 2, P)
    p = red(E, p)
    for x, y in pts:
        while True:
            out, again = {}, Poly({})
            for m, c in p.c.items():
                d = dict(m)
                if d.get(x, 0) >= 2 and d.get(y, 0) >= 2:
                    d[x] -= 2
                    d[y] -= 2
                    base_ = Poly({tuple(sorted((s, e) for s, e in d.items() if e)): c * di})
                    again = again + base_ * Poly({((y, 2),): 1, ((x, 2),): -1, (): -1})
                else:
                    out[m] = c
            if not again.c:
                break
            p = red(E, Poly(out) + again)
    return p


def S(n):
    return Poly.sym(n)


def gty(kind):
    return ED + {"ext": "ExtendedGroupElement", "proj": "ProjectiveGroupElement", "comp": "CompletedGroupElement",
                 "cached": "CachedGroupElement", "pre": "PreComputedGroupElement"}[kind]


def gpoint(E, st, kind, n):
    """any point (x, y) of the curve in the given coordinates; the denominators are not zero"""
    x, y, z, t = [S(c + str(n)) for c in "xyzt"]
    E.__dict__.setdefault("nonzero_syms", set()).update(["z%s" % n, "t%s" % n])
    if kind == "ext":
        f = dict(X=(x * z, TIGHT), Y=(y * z, TIGHT), Z=(z, TIGHT), T=(x * y * z, TIGHT))
    elif kind == "proj":
        f = dict(X=(x * z, TIGHT), Y=(y * z, TIGHT), Z=(z, TIGHT))
    elif kind == "comp":
        f = dict(X=(x * z, LOOSE), Y=(y * t, LOOSE), Z=(z, LOOSE), T=(t, LOOSE))
    elif kind == "cached":
        w = bound(220)
        f = dict(yPlusX=((y + x) * z, w), yMinusX=((y - x) * z, w), Z=(z, TIGHT), T2d=((x * y * z).scale(2 * D), TIGHT))
    else:
        f = dict(yPlusX=(y + x, TIGHT), yMinusX=(y - x, TIGHT), xy2d=((x * y).scale(2 * D), TIGHT))
    v = struct(E, gty(kind), **{k: FieldV(red(E, p), b) for k, (p, b) in f.items()})
    return Ptr(E.new(st, v, E.prog.ty(gty(kind)), pre=True))


def gout(E, st, kind):
    ty = E.prog.ty(gty(kind))
    f = [FieldV(S("junk%d" % i), [2 ** 31 - 1] * 10) for i in range(len(ty.u.fields))]
    return Ptr(E.new(st, StructV(ty, f), ty, pre=True))


def unit_factor(E, p, f, pts):
    """p is f times a product of nonzero symbols and a nonzero number?"""
    p = curve_red(E, p, pts)
    if not p.c:
        return False
    m0 = min(p.c)
    m = tuple(x for x in m0 if x[0] in E.nonzero_syms)
    want = curve_red(E, f * Poly({m: 1}), pts)
    if not want.c.get(m0):
        return False
    k = p.c[m0] * pow(want.c[m0], P - 2, P)
    return bool(k % P) and red(E, want.scale(k)).key() == p.key()


def point_is(E, s, kind, ptr, nx, dx, ny, dy, pts, name):
    """the structure represents (nx/dx, ny/dy) and its denominators are nonzero multiples of dx, dy"""
    v = E.load1(s, ptr)
    g = {fd["name"]: fe_val(E, x) for fd, x in zip(v.ty.u.fields, v.f)}

    def zero(p, what):
        r = curve_red(E, p, pts)
        E.oblige(s, not r.c, "%s: %s" % (name, what), "remaining: %r" % r)
    if kind == "comp":
        zero(g["X"].p * dx - g["Z"].p * nx, "x coordinate")
        zero(g["Y"].p * dy - g["T"].p * ny, "y coordinate")
        E.oblige(s, unit_factor(E, g["Z"].p, dx, pts), name + ": denominator of x", repr(g["Z"].p))
        E.oblige(s, unit_factor(E, g["T"].p, dy, pts), name + ": denominator of y", repr(g["T"].p))
        b = LOOSE
    elif kind in ("proj", "ext"):
        zero(g["X"].p * dx - g["Z"].p * nx, "x coordinate")
        zero(g["Y"].p * dy - g["Z"].p * ny, "y coordinate")
        E.oblige(s, unit_factor(E, g["Z"].p, dx * dy, pts) or unit_factor(E, g["Z"].p, dx, pts), name + ": denominator", repr(g["Z"].p))
        if kind == "ext":
            zero(g["X"].p * g["Y"].p - g["Z"].p * g["T"].p, "auxiliary coordinate")
            zero(g["T"].p * dx * dy - g["Z"].p * nx * ny, "auxiliary coordinate is the product")
        b = TIGHT
    elif kind == "cached":
        i2 = pow(2, P - 2, P)
        zero((g["yPlusX"].p - g["yMinusX"].p).scale(i2) * dx - g["Z"].p * nx, "x coordinate")
        zero((g["yPlusX"].p + g["yMinusX"].p).scale(i2) * dy - g["Z"].p * ny, "y coordinate")
        zero(g["T2d"].p * dx * dy - (g["Z"].p * nx * ny).scale(2 * D), "auxiliary coordinate")
        E.oblige(s, unit_factor(E, g["Z"].p, dx, pts), name + ": denominator", repr(g["Z"].p))
        for k, bb in (("yPlusX", bound(220)), ("yMinusX", bound(220)), ("Z", TIGHT), ("T2d", TIGHT)):
            need(E, s, g[k], bb, name + " result " + k)
        return
    for k, f in g.items():
        need(E, s, f, b, name + " result " + k)


ONE = Poly.const(1)
PT1, PT2 = ("x1", "y1"), ("x2", "y2")


def ge_run(E, fn, recv_first, kinds, out, name):
    st = State()
    E.nonzero_syms = set()
    args = [gpoint(E, st, k, i + 1) for i, k in enumerate(kinds)]
    o = gout(E, st, out)
    a = args + [o] if recv_first else [o] + args
    rs = rets(E, call(E, st, fn, a), name)
    E.oblige(None, len(rs) == 1, name + ": one path")
    for s, _ in rs:
        no_writes(E, s, name, allow=(o.oid,))
        yield s, o


def meth(E, kind, m):
    fn = E.prog.methods.get(("*" + gty(kind), m))
    if fn is None:
        raise Unsupported("%s has no method %s" % (gty(kind), m))
    return fn


CURVE_FUNCS = ["geAdd", "geSub", "geMixedAdd", "geMixedSub"]


@unit("edwards.geAdd", props=["C22", "C18", "C19"], provides=[ED + x for x in CURVE_FUNCS], dom="ring", relies=FE,
      funcs=[ED + x for x in CURVE_FUNCS])
def u_geadd(E):
    E.oblige(None, pow(D, (P - 1) // 2, P) == P - 1 and pow(-1, (P - 1) // 2, P) == 1, "d is not a square and -1 is: the addition law is complete")
    x1, y1, x2, y2 = S("x1"), S("y1"), S("x2"), S("y2")
    for fn, k in (("geAdd", "cached"), ("geSub", "cached"), ("geMixedAdd", "pre"), ("geMixedSub", "pre")):
        if ED + fn not in E.prog.funcs:
            continue
        for s, o in ge_run(E, ED + fn, False, ["ext", k], "comp", fn):
            X2 = -x2 if "Sub" in fn else x2
            dxy = (x1 * X2 * y1 * y2).scale(D)
            point_is(E, s, "comp", o, x1 * y2 + y1 * X2, ONE + dxy, y1 * y2 + x1 * X2, ONE - dxy, [PT1, PT2], fn)


@unit("edwards.Double", props=["C22", "C18", "C19"], provides=["(*%sExtendedGroupElement).Double" % ED, "(*%sProjectiveGroupElement).Double" % ED],
      dom="ring", relies=FE, funcs=["(*%sExtendedGroupElement).Double" % ED, "(*%sProjectiveGroupElement).Double" % ED])
def u_gedbl(E):
    x, y = S("x1"), S("y1")
    for k in ("ext", "proj"):
        for s, o in ge_run(E, meth(E, k, "Double"), True, [k], "comp", k + ".Double"):
            dxy = (x * x * y * y).scale(D)
            point_is(E, s, "comp", o, (x * y).scale(2), ONE + dxy, y * y + x * x, ONE - dxy, [PT1], k + ".Double")


CONV = [("ext", "ToCached", "cached"), ("ext", "ToProjective", "proj"), ("comp", "ToProjective", "proj"), ("comp", "ToExtended", "ext")]


@unit("edwards.convert", props=["C22", "C18", "C19"], provides=["(*%s).%s" % (gty(a), m) for a, m, b in CONV], dom="ring", relies=FE,
      funcs=["(*%s).%s" % (gty(a), m) for a, m, b in CONV])
def u_geconv(E):
    for a, m, b in CONV:
        for s, o in ge_run(E, meth(E, a, m), True, [a], b, a + "." + m):
            point_is(E, s, b, o, S("x1"), ONE, S("y1"), ONE, [PT1], a + "." + m)


@unit("edwards.Zero", props=["C22", "C18", "C19"], provides=["(*%s).Zero" % gty(k) for k in ("ext", "proj", "pre")], dom="ring", relies=FE,
      funcs=["(*%s).Zero" % gty(k) for k in ("ext", "proj", "pre")])
def u_gezero(E):
    for k in ("ext", "proj", "pre"):
        st = State()
        o = gout(E, st, k)
        for s, _ in rets(E, call(E, st, meth(E, k, "Zero"), [o]), k + ".Zero"):
            no_writes(E, s, "Zero", allow=(o.oid,))
            g = [fe_val(E, x) for x in E.load1(s, o).f]
            E.oblige(s, [x.p.cst if x.p.isconst() else None for x in g] == {"ext": [0, 1, 1, 0], "proj": [0, 1, 1], "pre": [1, 1, 0]}[k],
                     k + ".Zero: the neutral element (0, 1)")
            for x in g:
                need(E, s, x, TIGHT, k + ".Zero result")


@unit("edwards.ToBytes", props=["C22", "C18", "C19"], provides=["(*%s).ToBytes" % gty(k) for k in ("ext", "proj")], dom="ring",
      relies=FE + [ED + "FeInvert", ED + "FeToBytes", ED + "FeIsNegative"], funcs=["(*%s).ToBytes" % gty(k) for k in ("ext", "proj")])
def u_getob(E):
    for k in ("ext", "proj"):
        st = State()
        E.nonzero_syms = set()
        p = gpoint(E, st, k, 1)
        out = arr_ptr(E, st, [0] * 32)
        for s, _ in rets(E, call(E, st, meth(E, k, "ToBytes"), [p, out]), "ToBytes"):
            no_writes(E, s, "ToBytes", allow=(out.oid,))
            bs = out_bytes(E, s, out)
            bytes_ok(E, s, bs, "ToBytes")
            want = le(enc(E, S("y1"))) + E.vdom.lift(parity(E, S("x1"))).p.scale(1 << 255)
            E.vdom.prove_zero(E, s, le(bs) - want, None, k + ".ToBytes: y with the parity of x in the top bit")


# ------------------------------------------------------------------ multiples of the base point
class GV:
    """a point of the curve, known as a multiple of the base point, in some coordinates"""
    __slots__ = ("kind", "k")

    def __init__(self, kind, k):
        self.kind, self.k = kind, k

    def __repr__(self):
        return "G(%s, %r)" % (self.kind, self.k)


def gv(E, st, p, kind):
    v = E.load1(st, p)
    if not isinstance(v, GV) or v.kind != kind:
        raise Unsupported("point of unknown value")
    return v.k


def gput(E, st, p, kind, k):
    E.store(st, p, GV(kind, k))


def g_contract(fn, kinds, out, f, recv_first):
    @contract(fn)
    def c(E, st, a):
        args, o = (a[:-1], a[-1]) if recv_first else (a[1:], a[0])
        gput(E, st, o, out, f(*[gv(E, st, p, k) for p, k in zip(args, kinds)]))


for _fn, _k, _sg in (("geAdd", "cached", 1), ("geSub", "cached", -1), ("geMixedAdd", "pre", 1), ("geMixedSub", "pre", -1)):
    g_contract(ED + _fn, ["ext", _k], "comp", lambda x, y, _sg=_sg: x + y.scale(_sg), False)
for _k in ("ext", "proj"):
    g_contract("(*%s).Double" % gty(_k), [_k], "comp", lambda x: x.scale(2), True)
for _a, _m, _b in CONV:
    g_contract("(*%s).%s" % (gty(_a), _m), [_a], _b, lambda x: x, True)
for _k in ("ext", "proj", "pre"):
    contract("(*%s).Zero" % gty(_k))(lambda E, st, a, _k=_k: gput(E, st, a[0], _k, Poly({})))


@contract(ED + "selectPoint")
def c_select(E, st, a):
    pos = a[1]
    if not isinstance(pos, int):
        raise Unsupported("unknown position")
    b = E.vdom.lift(a[2])
    E.oblige(st, 0 <= pos < 32, "selectPoint: position within the table")
    E.oblige(st, -8 <= b.lo and b.hi <= 8, "selectPoint: digit between -8 and 8", "[%d, %d]" % (b.lo, b.hi))
    gput(E, st, a[0], "pre", b.p.scale(256 ** pos))


GE = [ED + x for x in CURVE_FUNCS] + ["(*%s).Double" % gty(k) for k in ("ext", "proj")] + \
     ["(*%s).%s" % (gty(a), m) for a, m, b in CONV] + ["(*%s).Zero" % gty(k) for k in ("ext", "proj", "pre")]


@unit("edwards.GeScalarMultBase", props=["C18", "C19"], provides=ED + "GeScalarMultBase", dom="ring", relies=GE + [ED + "selectPoint"],
      funcs=[ED + "GeScalarMultBase"])
def u_smul(E):
    """every scalar below 2^255"""
    st = State()
    a = byte_syms(E, "a", 32, top=127)
    src = arr_ptr(E, st, a)
    ty = E.prog.ty(gty("ext"))
    h = gout(E, st, "ext")
    rs = rets(E, call(E, st, ED + "GeScalarMultBase", [h, src]), "GeScalarMultBase")
    E.oblige(None, len(rs) == 1, "GeScalarMultBase: one path")
    for s, _ in rs:
        no_writes(E, s, "GeScalarMultBase", allow=(h.oid,))
        E.vdom.prove_zero(E, s, gv(E, s, h, "ext") - le(a), None, "GeScalarMultBase: the base point times the scalar")


def ed_add(p, q):
    (x1, y1), (x2, y2) = p, q
    t = D * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + y1 * x2) * pow(1 + t, P - 2, P) % P, (y1 * y2 + x1 * x2) * pow(1 - t, P - 2, P) % P)


def base_point():
    """y = 4/5, x even"""
    y = 4 * pow(5, P - 2, P) % P
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * pow(2, (P - 1) // 4, P) % P
    assert (x * x - x2) % P == 0
    return (P - x if x % 2 else x), y


@unit("edwards.selectPoint", props=["C18", "C19"], provides=ED + "selectPoint", dom="ring", relies=FE + [ED + "FeCMove"], parts=8,
      funcs=[ED + "selectPoint", ED + "PreComputedGroupElementCMove", ED + "equal", ED + "negative"])
def u_select(E):
    """the whole table: 32 positions, digits -8..8"""
    B_ = base_point()
    for pos in range(32):
        mult = [(0, 1)]
        for i in range(8):
            mult.append(ed_add(mult[-1], B_))
        if E.part is None or pos % 8 == E.part:
            for b in range(-8, 9):
                st = State()
                o = gout(E, st, "pre")
                rs = rets(E, call(E, st, ED + "selectPoint", [o, pos, b]), "selectPoint")
                E.oblige(None, len(rs) == 1, "selectPoint: one path")
                x, y = mult[abs(b)]
                if b < 0:
                    x = P - x
                for s, _ in rs:
                    no_writes(E, s, "selectPoint", allow=(o.oid,))
                    g = [fe_val(E, v) for v in E.load1(s, o).f]
                    E.oblige(s, [f.p.cst if f.p.isconst() else None for f in g] == [(y + x) % P, (y - x) % P, 2 * D * x * y % P],
                             "selectPoint: digit %d times 256^%d times the base point" % (b, pos))
                    for f in g:
                        need(E, s, f, TIGHT, "selectPoint result")
        for i in range(8):
            B_ = ed_add(B_, B_)


# ------------------------------------------------------------------ C28: decoding points
@unit("edwards.FromBytes", props=["C28"], relies=FE + [ED + x for x in ("FeFromBytes", "FeToBytes", "FeIsNegative", "FeIsNonZero", "fePow22523")],
      funcs=["(*%s).FromBytes" % gty("ext")])
def u_gefrom(E):
    """All 32-byte strings.  With u = y^2-1, v = dy^2+1, N = uv^7 and X0 = uv^3 N^((p-5)/8): v X0^2 = u N^((p-1)/4), and if u/v is a square so
    is N, so that N^((p-1)/4) is 1 or -1 (or N = 0, and then u = 0, for v is never 0).  So v X0^2 is u or -u whenever a point exists."""
    E.oblige(None, P % 8 == 5 and pow(D, (P - 1) // 2, P) == P - 1 and pow(P - 1, (P - 1) // 2, P) == 1,
             "p = 5 modulo 8, d is not a square and -1 is: v is never zero")
    E.oblige(None, 2 * (2 ** 252 - 3) + 1 == (P - 1) // 4, "the exponent is (p-5)/8")
    st = State()
    b = E.sym_bytes("s", 32)
    E.inputs = {"s": b}
    src = arr_ptr(E, st, b.lits())
    o = gout(E, st, "ext")
    rs = rets(E, call(E, st, meth(E, "ext", "FromBytes"), [o, src]), "FromBytes")
    y = field_of(E, b.lits())
    u, v = red(E, y * y - ONE), red(E, (y * y).scale(D) + ONE)
    x0 = red(E, u * v * v * v * power(E, red(E, u * v * v * v * v * v * v * v), 2 ** 252 - 3))
    w = red(E, v * x0 * x0)

    def zero(p):
        p = red(E, p)
        return z3.BoolVal(p.cst == 0) if p.isconst() else bip32c.num(enc(E, p), 256) == 0
    yes = no = False
    for s, r in rs:
        no_writes(E, s, "FromBytes", allow=(o.oid,))
        for ok in (True, False):
            s2 = s.fork()
            s2.pc.append(B(r) if ok else Not(B(r)))
            if not E.feasible(s2):
                continue
            if not ok:
                no = True
                E.prove(s2, z3.And(Not(zero(w - u)), Not(zero(w + u))), "FromBytes: fails only if no point of the curve has this y")
                continue
            yes = True
            g = dict(zip("XYZT", [fe_val(E, f) for f in E.load1(s2, o).f]))
            E.oblige(s2, g["Y"].p.key() == y.key(), "FromBytes: y is the number of the low 255 bits", repr(g["Y"].p))
            E.oblige(s2, g["Z"].p.key() == ONE.key(), "FromBytes: the denominator is 1", repr(g["Z"].p))
            E.oblige(s2, red(E, g["T"].p - g["X"].p * y).key() == Poly({}).key(), "FromBytes: the auxiliary coordinate is the product")
            E.prove(s2, zero(g["X"].p * g["X"].p * v - u), "FromBytes: the point is on the curve")
            par = parity(E, g["X"].p)
            par = z3.BitVecVal(par, 8) if isinstance(par, int) else par
            E.prove(s2, z3.Or(zero(g["X"].p), par == z3.LShR(bip32c.bv8(b.lits()[31]), 7)), "FromBytes: the parity of x is the top bit")
            for k in "XYZT":
                need(E, s2, g[k], bound(200), "FromBytes result " + k)
    E.oblige(None, yes and no, "FromBytes: specification is not vacuous")
