"""internal/bech32: the bech32 codec.

Specification
  hrpx(h)      h>>5 for every byte, 0, h&31 for every byte
  cb85(d)      the bits of d in groups of five, the last one padded with zeros
  cb58(v)      the bits of the five-bit values v in bytes, incomplete last byte dropped
  PM(x)        the bech32 checksum automaton run over x from state 1
  text(h, d)   h ++ "1" ++ charset[cb85(d) ++ ck], ck the six values for which PM(hrpx(h) ++ cb85(d) ++ ck) = 1
"""
from .common import *

PK = "internal/bech32."
CHARSET = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l"
GEN = [0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3]


def bv(v, w):
    return z3.BitVecVal(v, w) if isinstance(v, int) else v


def step(chk, v):
    chk, v = bv(chk, 32), bv(v, 8)
    top = z3.LShR(chk, 25)
    r = ((chk & 0x1ffffff) << 5) ^ z3.ZeroExt(24, v)
    for i in range(5):
        r = r ^ z3.If(z3.Extract(i, i, top) == 1, z3.BitVecVal(GEN[i], 32), z3.BitVecVal(0, 32))
    return r


def fold_fn(E, key):
    memo = E.__dict__.setdefault("pmfold", {})
    if key not in memo:
        memo[key] = z3.Function(E.fresh_name("PM"), z3.BitVecSort(32), z3.IntSort(), z3.IntSort(), z3.BitVecSort(32))
    return memo[key]


def PM(E, st, rope, unfold=True):
    s = z3.BitVecVal(1, 32)
    for g in rope.segs:
        if isinstance(g, Lit):
            for v in g.v:
                s = step(s, v)
        else:
            f = fold_fn(E, g.key)
            I = E.idom.lift
            # the constant part of the length is unfolded
            c = lin(g.n)[1]
            c = c if 0 < c <= 16 else 0
            n0 = isub(g.n, c)
            t = f(s, I(g.off), I(n0))
            E.axiom(z3.Implies(I(n0) == 0, t == s))
            for i in range(c):
                t = step(t, E.fn_at(st, g, iadd(n0, i)))
            s = t
    return s


def hrpx(E, h):
    a = Fn(("hi5", E.K(h)), 0, h.n, lambda E2, st, j: sh(E2.at(st, h, j), 5))
    b = Fn(("lo5", E.K(h)), 0, h.n, lambda E2, st, j: lo(E2.at(st, h, j)))
    L = h.lits()
    if L is not None:
        return Rope(E.u8, [Lit([sh(v, 5) for v in L] + [0] + [lo(v) for v in L])])
    return Rope(E.u8, [a, Lit([0]), b])


def sh(v, k):
    return v >> k if isinstance(v, int) else z3.LShR(v, k)


def lo(v):
    return v & 31


def bits_at(E, st, rope, i):
    """byte i of the rope, 0 outside"""
    I = E.idom.lift
    n = rope.n
    c = pyb(And(I(i) >= 0, I(i) < I(n)))
    if c is False:
        return 0
    if c is True:
        return E.at(st, rope, i)
    d = E.decide(st, c)
    if d is False:
        return 0
    s2 = st
    if d is None:
        s2 = st.fork()
        s2.pc.append(c)
        v = E.at(s2, rope, i)
        for f in s2.pc[len(st.pc) + 1:]:
            st.pc.append(z3.Implies(c, f))
        return z3.If(c, bv(v, 8), z3.BitVecVal(0, 8))
    return E.at(st, rope, i)


def regroup(E, rope, frm, to):
    """sequence of `to`-bit groups of the bits of rope (frm bits each): at(j) for every j"""
    P = frm // _gcd(frm, to)      # groups per period (of P*to bits)
    Q = to // _gcd(frm, to)       # elements per period

    def group(E, st, m, t):
        bits = []
        for b in range(to):
            p = t * to + b
            v = bits_at(E, st, rope, iadd(isimp(m * Q) if not isinstance(m, int) else m * Q, p // frm))
            k = frm - 1 - p % frm
            if isinstance(v, int):
                bits.append(z3.BitVecVal(v >> k & 1, 1))
            else:
                bits.append(z3.Extract(k, k, v))
        r = z3.Concat(*bits) if len(bits) > 1 else bits[0]
        if to < 8:
            r = z3.Concat(z3.BitVecVal(0, 8 - to), r)
        return E.vdom.simp(r)

    def at(E, st, j):
        dm = divmod_c(j, P)
        if dm is not None:
            return group(E, st, dm[0], dm[1])
        qm = E.__dict__.setdefault("quot", {})
        kq = (P, E.K(j))
        if kq not in qm:
            qm[kq] = E.fresh_int("q")
            E.axiom(z3.And(qm[kq] * P <= j, j < qm[kq] * P + P))
        q = qm[kq]
        r = bv(group(E, st, q, P - 1), 8)
        for t in range(P - 1):
            r = z3.If(j == q * P + t, bv(group(E, st, q, t), 8), r)
        return r
    return Fn(("regroup", frm, to, E.K(rope)), 0, None, at)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def cb85(E, d):
    n = d.n
    g = regroup(E, d, 8, 5)
    if isinstance(n, int):
        g.n = (8 * n + 4) // 5
    else:
        dm = divmod_c(n, 5)
        if dm:
            g.n = iadd(isimp(dm[0] * 8), (8 * dm[1] + 4) // 5)
        else:
            g.n = isimp((8 * n + 4) / 5)
    return Rope(E.u8, [g])


def named(E, rope, P, width):
    """the same sequence with its elements named: their definition is only brought in at indices P*m+c"""
    g = rope.segs[0]
    f = z3.Function(E.fresh_name("elem"), z3.IntSort(), z3.BitVecSort(8))

    def at(E2, st, j):
        t = f(E2.idom.lift(j))
        E2.axiom(z3.ULT(t, 1 << width))
        if isinstance(j, int) or divmod_c(j, P) is not None:
            v = g.at(E2, st, j)
            I = E2.idom.lift
            fact = z3.Implies(z3.And(I(j) >= 0, I(j) < I(g.n)), t == bv(v, 8))
            st.pc.append(fact)
        return t
    return Rope(E.u8, [Fn(("named", g.key), 0, g.n, at)])


def cb58(E, v):
    n = v.n
    g = regroup(E, v, 5, 8)
    if isinstance(n, int):
        g.n = 5 * n // 8
    else:
        dm = divmod_c(n, 8)
        if dm:
            g.n = iadd(isimp(dm[0] * 5), 5 * dm[1] // 8)
        else:
            g.n = isimp((5 * n) / 8)
    return Rope(E.u8, [g])


# ---------------------------------------------------------------- templates
def acc_templates(rope, frm, to):
    """the accumulator, of any width: all bits read last, or those below a mask, or only those not written out yet"""
    return [acc_template(rope, frm, w, m) for m in (None, 12, 13, to) for w in (32, 64, 16)]


def acc_template(rope, frm, w, mask=None):
    """the accumulator holds the last bits read"""
    def T(E, st, entry, k):
        if isinstance(entry, (bool, z3.BoolRef)) or not isinstance(entry, (int, z3.ExprRef)):
            return None
        if z3.is_expr(entry) and not z3.is_bv(entry):
            return None
        r = z3.BitVecVal(0, w)
        for j in range(1, w // frm + 2):
            if frm * (j - 1) >= w:
                break
            v = bits_at(E, st, rope, isub(k.t, j))
            r = r | (z3.ZeroExt(w - 8, bv(v, 8)) << (frm * (j - 1)))
        if mask is not None:
            n = mask if mask > 8 else (frm * k.c) % mask
            r = r & ((1 << n) - 1)
        return E.vdom.simp(r)
    return T


def bits_template(frm, to):
    def T(E, st, entry, k):
        if isinstance(entry, int) and not isinstance(entry, bool):
            return (entry + frm * k.c) % to
        return None
    return T


def regroup_template(rope, frm, to):
    g = None

    def T(E, st, entry, k):
        nonlocal g
        if not isinstance(entry, (SliceV, BuilderV, Rope)):
            return None
        if g is None:
            g = regroup(E, rope, frm, to)
        m = k.m * (frm * k.P // to) if isinstance(k.m, int) else isimp(k.m * (frm * k.P // to))
        return SeqT(Rope(E.u8, [Fn(g.key, 0, iadd(m, frm * k.c // to), g.at)]))
    return T


def map_template(key, at):
    """entry contents followed by the first k elements of a sequence"""
    def T(E, st, entry, k):
        if isinstance(entry, SliceV):
            e = E.content(E.entry_st, entry) if entry.ptr is not None else Rope(E.u8, [])
        elif isinstance(entry, (BuilderV, StructV)):
            e = E.models["builder:content"](E, E.entry_st, entry)
            if e is None:
                return None
        elif isinstance(entry, Rope):
            e = entry
        else:
            return None
        kk = E.K(e) if False else key
        return SeqT(E.concat(e, Rope(E.u8, [Fn(kk, 0, k.t, at)])))
    return T


def fold_template(rope):
    def T(E, st, entry, k):
        if isinstance(entry, int) and entry == 1 or z3.is_bv(entry) and entry.size() == 32:
            s2 = st
            if isinstance(k.t, int) and k.t == 0:
                return 1
            return E.pmvalue[E.K(rope)] if E.same_int(st, k.t, rope.n) and E.K(rope) in E.__dict__.get("pmvalue", {}) \
                else PM(E, s2, E.sub(s2, rope, 0, k.t))
        return None
    return T


# ---------------------------------------------------------------- contracts
SIG_POLY = "func(values []byte) uint32"


@contract(PK + "polymod")
def c_polymod(E, st, args):
    x = E.content(st, args[0])
    for r in E.__dict__.get("rewrite", ()):
        if E.rope_eq(st, x, r):
            x = r
            if E.K(r) in E.__dict__.get("pmvalue", {}):
                return E.pmvalue[E.K(r)]
            break
    return E.vdom.simp(PM(E, st, x, False))


@contract(PK + "hrpExpand")
def c_hrpExpand(E, st, args):
    from engine.models import REG
    h = REG["strings.ToLower"](E, st, [args[0]], None)
    return E.new_slice(st, hrpx(E, h))


@unit("bech32.polymod", provides=PK + "polymod", funcs=[PK + "polymod"])
def u_polymod(E):
    st = State()
    n = sym_len(E, "n")
    v = sym_slice(E, st, "values", n)
    rope = E.content(st, v)
    E.inputs["values"] = rope
    E.templates = [fold_template(rope)]
    for s, r in rets(E, call(E, st, PK + "polymod", [v]), "polymod"):
        E.prove(s, bv(r, 32) == PM(E, s, rope, False), "polymod: result is PM(values)")
        no_writes(E, s, "polymod")


def lower_hrp(E, st, name="hrp"):
    """a prefix in lower case: printable ASCII without capital letters, not empty"""
    n = sym_len(E, name + "_len", 1)
    f = z3.Function(name, z3.IntSort(), z3.BitVecSort(8))

    def at(E2, s2, j):
        t = f(E2.idom.lift(j))
        E2.axiom(z3.And(z3.UGE(t, 33), z3.ULE(t, 126), z3.Or(z3.ULT(t, 65), z3.UGT(t, 90))))
        return t
    return Rope(E.u8, [Fn(("sym", name), 0, n, at)])


def ascii_str(E, name):
    n = sym_len(E, name + "_len")
    f = z3.Function(name, z3.IntSort(), z3.BitVecSort(8))

    def at(E2, s2, j):
        t = f(E2.idom.lift(j))
        E2.axiom(z3.ULT(t, 128))
        return t
    return Rope(E.u8, [Fn(("sym", name), 0, n, at)])


def hrp_templates(E, h):
    x = hrpx(E, h)
    out = []
    for g in x.segs:
        if isinstance(g, Fn):
            out.append(map_template(g.key, g.at))
    return out


@unit("bech32.hrpExpand", provides=PK + "hrpExpand", funcs=[PK + "hrpExpand"])
def u_hrp(E):
    st = State()
    s = sym_len(E, "h_len")
    h = E.sym_bytes("h", s)
    E.inputs["hrp"] = h
    lowr = E.models["strings.ToLower"](E, st, [h], None)
    E.templates = hrp_templates(E, lowr)
    for s, r in rets(E, call(E, st, PK + "hrpExpand", [h]), "hrpExpand"):
        prove_rope(E, s, E.content(s, r), hrpx(E, lowr), "hrpExpand: result is hrpx")


def ck_values(E, st, hx, vals):
    """the six checksum values"""
    m = PM(E, st, E.concat(hx, vals, Rope(E.u8, [Lit([0] * 6)])), False) ^ 1
    return [E.vdom.simp(z3.Extract(7, 0, z3.LShR(m, 5 * (5 - i))) & 31) for i in range(6)]


def charset_at(E, st, v):
    return E.vdom.simp(bv(E.at(st, Rope(E.u8, [Lit(list(CHARSET))]), z3.BV2Int(bv(v, 8))), 8))


def text(E, st, h, d, vals=None, ck=None):
    """specification of the encoded text of a lower-case prefix and data"""
    vals = vals or cb85(E, d)
    ck = ck or ck_values(E, st, hrpx(E, h), vals)
    g = vals.segs[0] if vals.segs else None
    segs = list(h.segs) + [Lit([ord("1")])]
    if g is not None:
        segs.append(Fn(("charset",) + (g.key,), 0, g.n, lambda E2, s2, j: charset_at(E2, s2, g.at(E2, s2, j))))
    segs.append(Lit([charset_at(E, st, c) for c in ck]))
    return Rope(E.u8, segs)


def enc_templates(E, st, h, d):
    vals = cb85(E, d)
    g = vals.segs[0]
    return acc_templates(d, 8, 5) + [bits_template(8, 5), regroup_template(d, 8, 5)] + hrp_templates(E, h) + \
        [map_template(("charset", g.key), lambda E2, s2, j: charset_at(E2, s2, g.at(E2, s2, j))),
         ]


def split_len(E, st, name, P):
    """states with length = P*m + c for each c, and the symbolic data"""
    for c in range(P):
        if E.part is not None and E.part != c:
            continue
        m = E.fresh_int("len_m", 0)
        s = st.fork()
        n = isimp(P * m + c)
        s.pc.append(n < MAXLEN)
        yield s, E.sym_bytes("%s%d" % (name, c), n), m, c


@unit("bech32.Encode", props=["C04", "C03"], provides=PK + "Encode", uses=[PK + "polymod", PK + "hrpExpand"],
      funcs=[PK + "Encode", PK + "convertBits", PK + "createChecksum"], parts=5)
def u_encode(E):
    for st, d, m, c in split_len(E, State(), "data", 5):
        h = lower_hrp(E, st)
        E.inputs = {"hrp": h, "data": d}
        sl = E.new_slice(st, d, pre=True)
        E.period = 5
        E.templates = enc_templates(E, st, h, d)
        E.rewrite = [E.concat(hrpx(E, h), cb85(E, d), Rope(E.u8, [Lit([0] * 6)]))]
        E.templates.append(fold_template(E.rewrite[0]))
        rs = rets(E, call(E, st, PK + "Encode", [h, sl]), "Encode")
        feasible_some(E, rs, "Encode")
        for s, (t, err) in rs:
            E.oblige(s, is_nil_err(err), "Encode: succeeds for every lower-case prefix")
            if is_nil_err(err):
                prove_rope(E, s, t, text(E, s, h, d), "Encode: result is the bech32 text")
            no_writes(E, s, "Encode")


@unit("bech32.Encode.total", props=["C04", "C03"], uses=[PK + "polymod", PK + "hrpExpand"], funcs=[PK + "Encode"], parts=5)
def u_encode_total(E):
    for st, d, m, c in split_len(E, State(), "data", 5):
        h = E.sym_bytes("anyhrp", sym_len(E, "anyhrp_len"))
        E.inputs = {"hrp": h, "data": d}
        sl = E.new_slice(st, d, pre=True)
        E.period = 5
        lw = E.models["strings.ToLower"](E, st, [h], None)
        E.templates = enc_templates(E, st, lw, d)
        rets(E, call(E, st, PK + "Encode", [h, sl]), "Encode of any prefix")


@unit("bech32.roundtrip", props=["C04", "C03"], provides=PK + "Decode", uses=[PK + "polymod", PK + "hrpExpand"],
      funcs=[PK + "Decode", PK + "convertBits", PK + "verifyChecksum"], parts=5)
def u_roundtrip(E):
    """Decode(text(h, d)) = (h, d, nil)"""
    for st, d, m, c in split_len(E, State(), "data", 5):
        h = lower_hrp(E, st)
        E.inputs = {"hrp": h, "data": d}
        vals = named(E, cb85(E, d), 8, 5) if not isinstance(cb85(E, d).n, int) else cb85(E, d)
        # any checksum with PM = 1; by the lemma in bech32.lemmas that of the text is one
        ck = [z3.BitVec(E.fresh_name("ck"), 8) for i in range(6)]
        for x in ck:
            E.axiom(z3.ULT(x, 32))
        t = text(E, st, h, d, vals, ck)
        allv = Rope(E.u8, list(vals.segs) + [Lit(ck)])
        E.period = 8
        E.templates = [map_template(("decoded", E.K(allv)), lambda E2, s2, j: E2.at(s2, allv, j)),
                       ] + acc_templates(vals, 5, 8) + [bits_template(5, 8), regroup_template(vals, 5, 8)]
        full = E.concat(hrpx(E, h), allv)
        E.rewrite = [full]
        # instance of the lemma proved in bech32.lemmas
        E.pmvalue = {E.K(full): 1}
        E.templates.append(fold_template(full))
        rs = rets(E, call(E, st, PK + "Decode", [t]), "Decode of encoded text")
        feasible_some(E, rs, "Decode of encoded text")
        for s, (h2, d2, err) in rs:
            E.oblige(s, is_nil_err(err), "Decode accepts the text of Encode")
            if is_nil_err(err):
                prove_rope(E, s, h2, h, "Decode(Encode(h, d)) gives back h")
                prove_rope(E, s, E.content(s, d2), d, "Decode(Encode(h, d)) gives back d")


def graphic(E, st, v):
    return And(u8cmp(E, ">=", v, 33), u8cmp(E, "<=", v, 126))


def in_charset(E, st, v):
    return Or(*[u8cmp(E, "==", v, b) for b in CHARSET])


def dec_value(v):
    r = z3.BitVecVal(0, 8)
    for k in range(31, -1, -1):
        r = z3.If(v == CHARSET[k], z3.BitVecVal(k, 8), r)
    return r


@unit("bech32.Decode", props=["C04", "C03"], uses=[PK + "polymod", PK + "hrpExpand"],
      funcs=[PK + "Decode", PK + "convertBits", PK + "verifyChecksum"], parts=10)
def u_decode(E):
    """Decode of any text: it succeeds only for text(hrp, data), in uniform case.
    The cases are: no '1'; fewer than six characters after the last '1'; 6+8m+c characters after it."""
    for part in range(10):
        if E.part is not None and E.part != part:
            continue
        st = State()
        if part == 8:
            s = E.sym_bytes("s", sym_len(E, "s_len"))
            E.forall_range(st, s, s.n, lambda E2, s2, v: u8cmp(E2, "!=", v, 49))
            E.inputs = {"s": s}
            for s2, (h2, d2, err) in rets(E, call(E, st, PK + "Decode", [s]), "Decode of text without separator"):
                E.oblige(s2, is_err(err), "Decode: rejects text without separator")
            continue
        H = E.sym_bytes("H", sym_len(E, "H_len"))
        if part == 9:
            n = sym_len(E, "T_len")
            st.pc.append(n < 6)
        else:
            m = E.fresh_int("m", 0)
            n = isimp(8 * m + (part + 6))
            st.pc.append(n < MAXLEN)
        T = E.sym_bytes("T", n)
        E.forall_range(st, T, n, lambda E2, s2, v: u8cmp(E2, "!=", v, 49))
        s = E.concat(H, Rope(E.u8, [Lit([49])]), T)
        E.inputs = {"s": s}
        E.preds = [graphic, in_charset]
        if part == 9:
            for s2, (h2, d2, err) in rets(E, call(E, st, PK + "Decode", [s]), "Decode of short text"):
                E.oblige(s2, is_err(err), "Decode: rejects text with fewer than six characters after the separator")
            continue
        f = z3.Function(E.fresh_name("val"), z3.IntSort(), z3.BitVecSort(8))
        from engine.models import lower1, mapped

        def at(E2, s2, j):
            t = f(E2.idom.lift(j))
            if isinstance(j, int) or divmod_c(j, 8) is None:
                v = lower1(E2, E2.at(s2, T, j))
                E2.axiom(t == dec_value(bv(v, 8)))
            E2.axiom(z3.ULT(t, 32))
            return t
        V = Rope(E.u8, [Fn(("val",), 0, n, at)])
        N = isub(n, 6)
        VN = E.sub(st, V, 0, N)
        E.period = 8
        g = H.segs[0]
        lowH = Rope(E.u8, [Fn(("lower", g.key), g.off, g.n, lambda E2, s2, j: lower1(E2, mapped(E2, s2, g, j)))])
        E.rewrite = [E.concat(hrpx(E, lowH), V)]
        E.templates = [map_template(("val",), at)] + acc_templates(VN, 5, 8) + [bits_template(5, 8), regroup_template(VN, 5, 8)]
        rs = rets(E, call(E, st, PK + "Decode", [s]), "Decode")
        good = [(s2, v) for s2, v in rs if is_nil_err(v[2])]
        ok_residue = (5 * part) % 8 < 5
        if ok_residue:
            feasible_some(E, good, "Decode")
        for s2, (h2, d2, err) in rs:
            if not is_nil_err(err):
                E.oblige(s2, is_err(err), "Decode: an error is returned")
                continue
            E.prove(s2, E.idom.lift(H.n) >= 1, "Decode: the prefix is not empty")
            prove_rope(E, s2, h2, H, "Decode: the prefix is what stands before the separator")
            # characters and case
            s3 = s2.fork()
            i, j = E.fresh_int("i", 0), E.fresh_int("j", 0)
            s3.pc += [i < E.idom.lift(s.n), j < E.idom.lift(s.n)]
            a, b = bv(E.at(s3, s, i), 8), bv(E.at(s3, s, j), 8)
            E.prove(s3, B(graphic(E, s3, a)), "Decode: only graphic characters are accepted")
            E.models["strings.ToLower"](E, s3, [s], None)
            E.models["strings.ToUpper"](E, s3, [s], None)
            up = z3.And(z3.UGE(a, 65), z3.ULE(a, 90))
            lw = z3.And(z3.UGE(b, 97), z3.ULE(b, 122))
            for nm in s3.notes.get("eq", ()):
                for r in nm:
                    try:
                        E.at(s3, r, i)
                        E.at(s3, r, j)
                    except Unsupported:
                        pass
            E.prove(s3, z3.Not(z3.And(up, lw)), "Decode: the case of accepted text is uniform")
            # alphabet
            s3 = s2.fork()
            k = E.fresh_int("k", 0)
            s3.pc.append(k < E.idom.lift(n))
            c = bv(E.at(s3, T, k), 8)
            E.at(s3, E.models["strings.ToLower"](E, s3, [T], None), k)
            lc = lower1(E, c)
            E.prove(s3, B(in_charset(E, s3, lc)), "Decode: only characters of the alphabet are accepted")
            # checksum
            E.prove(s2, PM(E, s2, E.rewrite[0]) == 1, "Decode: the checksum of accepted text is valid")
            # data
            d = E.content(s2, d2)
            back = cb85(E, d)
            E.oblige(s2, E.same_int(s2, back.n, N), "Decode: the number of bytes is that of the characters")
            for t in range(8):
                s3 = s2.fork()
                q = E.fresh_int("q", 0)
                j = isimp(8 * q + t)
                s3.pc.append(j < E.idom.lift(N))
                if not E.feasible(s3):
                    continue
                x, y = E.at(s3, VN, j), E.at(s3, back, j)
                E.prove(s3, B(E.num_eq(x, y)), "Decode: the characters are the bits of the bytes, padded with zeros (%d)" % t)


@unit("bech32.lemmas", props=["C04"], funcs=[])
def u_lemmas(E):
    st = State()
    s = z3.BitVec("s", 32)
    m = s
    for i in range(6):
        m = step(m, 0)
    m = m ^ 1
    r = s
    for i in range(6):
        r = step(r, z3.Extract(7, 0, z3.LShR(m, 5 * (5 - i))) & 31)
    st.pc.append(z3.ULT(s, 1 << 30))
    E.prove(st, r == 1, "lemma: the checksum computed with six zeros makes PM equal to 1")
    s1, s2 = z3.BitVecs("s1 s2", 32)
    v, w = z3.BitVecs("v w", 8)
    st = State()
    st.pc += [z3.ULT(s1, 1 << 30), z3.ULT(s2, 1 << 30), z3.ULT(v, 32), z3.ULT(w, 32)]
    E.prove(st, z3.Implies(step(s1, v) == step(s2, v), s1 == s2), "lemma: a step of PM is injective in the state")
    E.prove(st, z3.Implies(step(s1, v) == step(s1, w), v == w), "lemma: a step of PM is injective in the value")
    E.prove(st, z3.ULT(step(s1, v), 1 << 30), "lemma: states stay below 2^30")
    E.prove(st, z3.ULT(step(z3.BitVecVal(1, 32), v), 1 << 30), "lemma: the first state is below 2^30")
