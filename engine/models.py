"""Assumed contracts of functions outside of the repository (standard library and dependencies).
Everything here is trusted; ASSUMED lists it for the evidence."""
import z3
from .domains import *
from .values import *
from .ssa import intinfo

ASSUMED = {}


def model(*names, doc=""):
    def deco(f):
        for n in names:
            REG[n] = f
            ASSUMED[n] = doc or (f.__doc__ or "").strip()
        return f
    return deco


REG = {}


def install(E):
    from . import cbor, hashes, world
    E.world = {}
    E.models.update(REG)
    cbor.install_invokes(E)
    hashes.install_invokes(E)
    world.install_invokes(E)


@model("errors.New", "fmt.Errorf", doc="returns a non-nil error")
def _err(E, st, args, ins):
    return E.error()


@model("log.Println", "log.Printf", "log.Print", "fmt.Println", "fmt.Printf", doc="writes to a log only")
def _log(E, st, args, ins):
    return None


@model("log.Fatalf", "log.Fatal", "log.Fatalln", "os.Exit", doc="does not return (treated as a panic)")
def _fatal(E, st, args, ins):
    return [(st, "panic", "log.Fatal")]


# ----------------------------------------------------------------- strings
def cond_all(E, st, rope, pred):
    """is pred provable for every byte?"""
    for s in rope.segs:
        if isinstance(s, Lit):
            for v in s.v:
                if not E.valid(st, pred(v)):
                    return False
        else:
            s2 = st.fork()
            k = E.fresh_int("a", 0)
            s2.pc.append(k < E.idom.lift(s.n))
            if not E.feasible(s2):
                continue
            if not E.valid(s2, pred(E.fn_at(s2, s, k))):
                return False
    return True


def u8cmp(E, tok, v, c):
    return E.int_cmp(None, tok, v, c, E.u8)


def is_ascii(E):
    return lambda v: u8cmp(E, "<", v, 0x80)


def is_between(E, v, a, b):
    return And(u8cmp(E, ">=", v, a), u8cmp(E, "<=", v, b))


def lower1(E, v):
    if isinstance(v, int):
        return v + 32 if 65 <= v <= 90 else v
    return E.ite(is_between(E, v, 65, 90), E.vdom.binop(E, None, "+", v, 32, 8, False), v, E.u8) \
        if E.vdom.name == "bv" else E.ite(is_between(E, v, 65, 90), v + 32, v, E.u8)


def upper1(E, v):
    if isinstance(v, int):
        return v - 32 if 97 <= v <= 122 else v
    return E.ite(is_between(E, v, 97, 122), E.vdom.binop(E, None, "-", v, 32, 8, False), v, E.u8) \
        if E.vdom.name == "bv" else E.ite(is_between(E, v, 97, 122), v - 32, v, E.u8)


def case_model(which, f1, lo, hi):
    def m(E, st, args, ins):
        s = args[0]
        c = s.concrete()
        if c is not None and all(b < 128 for b in c):
            return Rope(E.u8, [Lit([f1(E, b) for b in c])])
        key = (which, E.K(s))
        memo = E.__dict__.setdefault("case_memo", {})
        if cond_all(E, st, s, is_ascii(E)):
            if key in memo:
                st.pc.append(memo[key][1])
            segs = []
            for g in s.segs:
                one = Rope(E.u8, [g])
                if cond_all(E, st, one, lambda v: Not(is_between(E, v, lo, hi))):
                    segs.append(g)
                elif isinstance(g, Lit):
                    segs.append(Lit([f1(E, v) for v in g.v]))
                else:
                    segs.append(Fn((which, g.key), g.off, g.n, lambda E2, s2, j, g=g: f1(E2, mapped(E2, s2, g, j))))
            return Rope(E.u8, segs)
        if key not in memo:
            n = E.fresh_int(which + "len", 0, 1 << 42)
            asc = E.fresh_bool("ascii")
            E.axiom(z3.Implies(asc, n == E.idom.lift(s.n)))
            f = E.vdom.func(E.fresh_name(which), [64], 8, False) if E.vdom.name != "bv" else None
            if f is None:
                zf = z3.Function(E.fresh_name(which), z3.IntSort(), z3.BitVecSort(8))

                def at0(E2, s2, j):
                    return zf(E2.idom.lift(j))
            else:
                def at0(E2, s2, j):
                    return f(j)

            def at(E2, s2, j):
                t = at0(E2, s2, j)
                I = E2.idom.lift
                if s2.notes.get("inst", 0) <= 1:
                    s2.notes["inst"] = s2.notes.get("inst", 0) + 1
                    try:
                        v = E2.at(s2, s, j)
                        E2.axiom(z3.Implies(z3.And(asc, I(j) >= 0, I(j) < I(n)), B(E2.num_eq(t, f1(E2, v)))))
                    except Unsupported:
                        pass
                    finally:
                        s2.notes["inst"] -= 1
                return t
            E.keep.append(s)
            memo[key] = (Rope(E.u8, [Fn(key, 0, n, at)]), asc)
        return memo[key][0]
    return m


def mapped(E, st, g, j):
    """element of segment g at absolute index j (of g's underlying sequence)"""
    v = g.at(E, st, j)
    for u in st.univ.get(g.key, ()):
        f = u(E, st, j)
        if f is not None and f is not True and not any(c.get_id() == f.get_id() for c in st.pc):
            st.pc.append(f)
    return v


REG["strings.ToLower"] = case_model("lower", lower1, 65, 90)
REG["strings.ToUpper"] = case_model("upper", upper1, 97, 122)
ASSUMED["strings.ToLower"] = "maps A-Z to a-z bytewise on ASCII text; a deterministic function otherwise"
ASSUMED["strings.ToUpper"] = "maps a-z to A-Z bytewise on ASCII text; a deterministic function otherwise"


@model("strings.HasPrefix", doc="compares the first bytes")
def _hasprefix(E, st, args, ins):
    s, p = args
    c = p.concrete()
    if c is None:
        raise Unsupported("strings.HasPrefix with an unknown prefix")
    if isinstance(s.n, int):
        if s.n < len(c):
            return False
        return pyb(And(*[u8cmp(E, "==", E.at(st, s, k), b) for k, b in enumerate(c)]))
    ok = E.idom.lift(s.n) >= len(c)
    if not E.feasible(st, ok):
        return False
    s2 = st.fork()
    s2.pc.append(ok)
    r = ok
    for k, b in enumerate(c):
        r = And(r, u8cmp(E, "==", E.at(s2, s, k), b))
    return pyb(r)


@model("strings.LastIndex", "strings.LastIndexByte", doc="index of the last occurrence of a byte, or -1")
def _lastindex(E, st, args, ins):
    s, p = args
    c = p.concrete() if isinstance(p, Rope) else bytes([p])
    if c is None or len(c) != 1:
        raise Unsupported("strings.LastIndex")
    ch = c[0]
    I = E.idom.lift
    # the last literal segment that has the byte, with nothing provably after it
    pos = s.n
    for i in range(len(s.segs) - 1, -1, -1):
        g = s.segs[i]
        start = isub(pos, g.n)
        if isinstance(g, Lit) and all(isinstance(v, int) for v in g.v):
            if ch in g.v:
                k = len(g.v) - 1 - g.v[::-1].index(ch)
                return iadd(start, k)
        elif not cond_all(E, st, Rope(E.u8, [g]), lambda v: u8cmp(E, "!=", v, ch)):
            break
        pos = start
    else:
        return -1
    # unknown
    out = []
    s1 = st.fork()
    p1 = E.fresh_int("lastindex", 0)
    s1.pc.append(p1 < I(s.n))
    if E.feasible(s1):
        s1.pc.append(B(u8cmp(E, "==", E.at(s1, s, p1), ch)))
        pos = 0
        for g in s.segs:
            if isinstance(g, Fn):
                def u(E2, st2, j, g=g, pos=pos):
                    k = isub(j, g.off)
                    return B(Implies(And(I(iadd(pos, k)) > p1, I(k) >= 0, I(k) < I(g.n)), u8cmp(E2, "!=", g.at(E2, st2, j), ch)))
                s1.univ[g.key] = s1.univ.get(g.key, ()) + (u,)
            pos = iadd(pos, g.n)
        out.append((s1, p1))
    s2 = st.fork()
    for g in s.segs:
        if isinstance(g, Fn):
            def u2(E2, st2, j, g=g):
                k = isub(j, g.off)
                return B(Implies(And(I(k) >= 0, I(k) < I(g.n)), u8cmp(E2, "!=", g.at(E2, st2, j), ch)))
            s2.univ[g.key] = s2.univ.get(g.key, ()) + (u2,)
    out.append((s2, -1))
    return out


@model("strings.IndexRune", "strings.IndexByte", doc="index of the first occurrence of a character, or -1")
def _indexrune(E, st, args, ins):
    s, c = args
    t = s.concrete()
    if t is None or any(b >= 128 for b in t) or len(t) > 200:
        raise Unsupported("strings.IndexRune in an unknown text")
    if isinstance(c, int):
        return t.index(bytes([c])) if 0 <= c < 128 and bytes([c]) in t else -1
    if not z3.is_bv(c):
        raise Unsupported("strings.IndexRune")
    W = c.size()
    found = z3.Or(*[c == b for b in sorted(set(t))])
    r = z3.BitVecVal(0, 8)
    for k in range(len(t) - 1, -1, -1):
        r = z3.If(c == z3.BitVecVal(t[k], W), z3.BitVecVal(k, 8), r)
    out = []
    s1 = st.fork()
    if E.feasible(s1, found):
        s1.pc.append(found)
        out.append((s1, E.bv2int(r, False)))
    s2 = st.fork()
    if E.feasible(s2, z3.Not(found)):
        s2.pc.append(z3.Not(found))
        out.append((s2, -1))
    return out


# strings.Builder and bytes.Buffer
def bget(E, st, p):
    v = E.load1(st, p)
    if isinstance(v, BuilderV):
        return v.rope
    if isinstance(v, StructV):
        return Rope(E.u8, [])
    raise Unsupported("builder")


REG["builder:content"] = lambda E, st, x: Rope(E.u8, []) if isinstance(x, StructV) and x.ty.str in ("strings.Builder", "bytes.Buffer") else (
    x.rope if isinstance(x, BuilderV) else None)


def badd(E, st, p, r):
    E.store(st, p, BuilderV(E.concat(bget(E, st, p), r)))


@model("(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", doc="appends the text")
def _ws(E, st, args, ins):
    badd(E, st, args[0], args[1])
    return (args[1].n, NILI)


@model("(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", doc="appends the byte")
def _wb(E, st, args, ins):
    badd(E, st, args[0], Rope(E.u8, [Lit([args[1]])]))
    return NILI


@model("(*strings.Builder).WriteRune", doc="appends the character")
def _wr(E, st, args, ins):
    c = args[1]
    if isinstance(c, int) and 0 <= c < 128:
        badd(E, st, args[0], Rope(E.u8, [Lit([c])]))
        return (1, NILI)
    rt = E.prog.ty("int32") if "int32" in E.prog.bystr else E.prog.ty("rune")
    if E.valid(st, And(E.int_cmp(st, ">=", c, 0, rt), E.int_cmp(st, "<", c, 128, rt))):
        badd(E, st, args[0], Rope(E.u8, [Lit([E.conv_int(st, c, rt, E.u8)])]))
        return (1, NILI)
    raise Unsupported("WriteRune")


@model("(*strings.Builder).Write", "(*bytes.Buffer).Write", doc="appends the bytes")
def _wbs(E, st, args, ins):
    r = E.content(st, args[1])
    badd(E, st, args[0], r)
    return (r.n, NILI)


@model("(*strings.Builder).String", "(*bytes.Buffer).String", doc="the text written so far")
def _bs(E, st, args, ins):
    return bget(E, st, args[0])


@model("(*strings.Builder).Len", "(*bytes.Buffer).Len", doc="the length written so far")
def _bl(E, st, args, ins):
    return bget(E, st, args[0]).n


@model("(*strings.Builder).Grow", "(*bytes.Buffer).Grow", doc="reserves space only")
def _bg(E, st, args, ins):
    return None


@model("(*bytes.Buffer).Bytes", doc="the bytes written so far")
def _bb(E, st, args, ins):
    return E.new_slice(st, bget(E, st, args[0]))


@model("bytes.Equal", doc="equality of contents")
def _beq(E, st, args, ins):
    r = E.rope_test(st, E.content(st, args[0]), E.content(st, args[1]))
    return r


# ----------------------------------------------------------------- codecs
def opaque_fn(E, name, key, n):
    if E.vdom.name == "bv":
        zf = z3.Function(E.fresh_name(name), z3.IntSort(), z3.BitVecSort(8))

        def at(E2, s2, j):
            return zf(E2.idom.lift(j))
    else:
        zf = z3.Function(E.fresh_name(name), z3.IntSort(), z3.IntSort())

        def at(E2, s2, j):
            t = zf(E2.idom.lift(j))
            E2.axiom(z3.And(t >= 0, t <= 255))
            return t
    return Fn(key, 0, n, at)


def memo_rope(E, st, name, rope, n):
    """deterministic function from sequences to sequences; equal arguments give the same result"""
    memo = E.__dict__.setdefault("rope_memo", {}).setdefault(name, [])
    for r, res in memo:
        if E.K(r) == E.K(rope) or E.rope_eq(st, r, rope):
            return res
    res = Rope(E.u8, [opaque_fn(E, name, (name, E.fresh_name("r")), n)])
    E.keep.append(rope)
    memo.append((rope, res))
    return res


@model("encoding/hex.EncodeToString", doc="a deterministic function of the bytes, twice their length, inverted by DecodeString")
def _hexenc(E, st, args, ins):
    r = E.content(st, args[0])
    n = r.n * 2 if isinstance(r.n, int) else isimp(r.n * 2)
    return memo_rope(E, st, "hex", r, n)


@model("encoding/hex.DecodeString", doc="fails, or gives the bytes of the hex text; inverse of EncodeToString")
def _hexdec(E, st, args, ins):
    s = args[0]
    for r, res in E.__dict__.get("rope_memo", {}).get("hex", ()):
        if E.rope_eq(st, res, s):
            return (E.new_slice(st, r), NILI)
    c = s.concrete()
    if c is not None:
        try:
            b = bytes.fromhex(c.decode())
            if b" " not in c:
                return (E.new_slice(st, Rope(E.u8, [Lit(list(b))])), NILI)
        except Exception:
            pass
    if isinstance(s.n, int):
        n = s.n // 2
    else:
        n = E.fresh_int("unhexlen", 0)
        E.axiom(z3.And(2 * n <= s.n, s.n <= 2 * n + 1))
    res = memo_rope(E, st, "unhex", s, n)
    s1, s2 = st.fork(), st.fork()
    m = E.fresh_int("partial", 0)
    part = E.sym_bytes(E.fresh_name("part"), m)
    ok = E.__dict__.setdefault("unhex_ok", {}).setdefault(E.K(res), E.fresh_bool("hexok"))
    s1.pc.append(ok)
    s2.pc.append(z3.Not(ok))
    return [x for x in ((s1, (E.new_slice(s1, res), NILI)), (s2, (E.new_slice(s2, part), E.error()))) if E.feasible(x[0])]


@model("github.com/btcsuite/btcutil/base58.Encode", doc="a deterministic function of the bytes, inverted by Decode")
def _b58e(E, st, args, ins):
    r = E.content(st, args[0])
    n = E.fresh_int("b58len", 0)
    return memo_rope(E, st, "b58", r, n)


@model("github.com/btcsuite/btcutil/base58.Decode", doc="total; inverse of Encode on its results")
def _b58d(E, st, args, ins):
    s = args[0]
    for r, res in E.__dict__.get("rope_memo", {}).get("b58", ()):
        if E.rope_eq(st, res, s):
            return E.new_slice(st, r)
    n = E.fresh_int("unb58len", 0)
    return E.new_slice(st, memo_rope(E, st, "unb58", s, n))


# ----------------------------------------------------------------- reflect
@model("reflect.ValueOf", doc="wraps the value")
def _valueof(E, st, args, ins):
    return OpaqueV("reflect.Value", E.fresh_name("rv"), False, args[0])


@model("(reflect.Value).Len", doc="length of the wrapped slice")
def _rlen(E, st, args, ins):
    v = args[0].data.v
    if isinstance(v, SliceV):
        return v.n
    if isinstance(v, Rope):
        return v.n
    raise Unsupported("reflect Len")


@model("reflect.Swapper", doc="returns a function that swaps two elements of the slice")
def _swapper(E, st, args, ins):
    s = args[0].v
    if not isinstance(s, SliceV):
        raise Unsupported("reflect.Swapper")

    def swap(E2, st2, a):
        i, j = a
        if not (isinstance(i, int) and isinstance(j, int) and isinstance(s.n, int)):
            raise Unsupported("swap of unknown elements")
        if not (0 <= i < s.n and 0 <= j < s.n):
            return [(st2, "panic", "reflect: slice index out of range")]
        E2.slice_store(st2, s, None, None)
        cur = E2.seqval(st2, s.ptr)
        x, y = E2.at(st2, cur, s.off + i), E2.at(st2, cur, s.off + j)
        cur = E2.update(st2, E2.update(st2, cur, s.off + i, y), s.off + j, x)
        E2.set_seq(st2, s.ptr, cur)
        return [(st2, "ret", None)]
    return swap


@model("encoding/binary.init", "errors.init", doc="initialisation of the standard library")
def _init(E, st, args, ins):
    return ()
