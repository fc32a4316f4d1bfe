"""Assumed contract of github.com/fxamacker/cbor/v2: encoding and decoding driven by the Go types and struct tags of
the current source, on symbolic values.

An encoding is a sequence of heads (a function of major type and argument), raw bytes and, for lists of unknown length,
a segment standing for the concatenation of the encodings of the elements.  Maps inside values of unknown type are
encoded in a fixed order only by an encoder that sorts."""
import z3
from .domains import *
from .values import *
from .ssa import intinfo
from .models import model, REG, ASSUMED, opaque_fn

PKG = "github.com/fxamacker/cbor/v2"


def head_bytes(major, v):
    m = major << 5
    if v < 24:
        return [m | v]
    for k, n in ((24, 1), (25, 2), (26, 4), (27, 8)):
        if v < 1 << (8 * n):
            return [m | k] + list(v.to_bytes(n, "big"))
    raise Unsupported("cbor head")


def head_len(E, v):
    """length of the head, of an Int term"""
    return z3.If(v < 24, z3.IntVal(1), z3.If(v < 256, z3.IntVal(2), z3.If(v < 65536, z3.IntVal(3), z3.If(v < 1 << 32, z3.IntVal(5), z3.IntVal(9)))))


def as_int(E, v):
    if isinstance(v, int):
        return v
    if z3.is_bv(v):
        v = z3.simplify(v)
        while z3.is_app(v) and (v.decl().kind() == z3.Z3_OP_ZERO_EXT or
                                (v.decl().kind() == z3.Z3_OP_CONCAT and v.num_args() == 2 and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() == 0)):
            v = v.arg(v.num_args() - 1)
        if z3.is_bv_value(v):
            return v.as_long()
        return E.bv2int(v, False)
    if hasattr(v, "as_index"):
        raise Unsupported("cbor head of a ring value")
    return v


def head(E, st, major, v):
    """segments of the head with argument v (Int, BV or Python int)"""
    if isinstance(v, int):
        return [Lit(head_bytes(major, v))]
    v = as_int(E, v)
    c = v if isinstance(v, int) else isimp(v)
    if isinstance(c, int):
        return [Lit(head_bytes(major, c))]
    v = c
    key = ("cborhead", major, E.K(v))
    tab = E.__dict__.setdefault("cborheads", {})
    if key not in tab:
        n = z3.Int(E.fresh_name("hl"))
        E.axiom(n == head_len(E, v), owner=n)
        E.axiom(z3.And(n >= 1, n <= 9), owner=n)
        tab[key] = (major, v, n)
    n = tab[key][2]
    s = z3.BitVecSort(8) if E.vdom.name == "bv" else z3.IntSort()
    f = z3.Function("cborhead", z3.IntSort(), z3.IntSort(), z3.IntSort(), s)

    def at(E2, s2, j):
        t = f(z3.IntVal(major), v, E2.idom.lift(j))
        if E2.vdom.name != "bv":
            E2.axiom(z3.And(t >= 0, t <= 255))
        return t
    return [Fn(key, 0, n, at)]


def enc_bytes(E, st, rope):
    return Rope(E.u8, head(E, st, 2, rope.n) + list(rope.segs))


def enc_uint(E, st, v):
    return Rope(E.u8, head(E, st, 0, v))


def raw(E, *b):
    return Rope(E.u8, [Lit(list(b))])


def tagopts(fd):
    """(name, options) of the cbor tag of a struct field, json's as a fallback"""
    import re
    tag = fd.get("tag") or ""
    m = re.search(r'cbor:"([^"]*)"', tag)
    t = m.group(1) if m else None
    if t is None:
        m = re.search(r'json:"([^"]*)"', tag)
        t = m.group(1) if m else ""
    p = t.split(",")
    return p[0], p[1:]


def fields(E, ty):
    """the encoded fields of a struct type: [(index, name, type, options)], toarray?"""
    out, toarray = [], False
    for i, (fd, ft) in enumerate(zip(ty.u.fields, ty.field_types())):
        n, o = tagopts(fd)
        if fd["name"] == "_":
            if "toarray" in o:
                toarray = True
            continue
        if n == "-" or not fd.get("exp", True):
            continue
        if fd.get("emb"):
            raise Unsupported("cbor of an embedded field")
        out.append((i, n or fd["name"], ft, o))
    return out, toarray


def implements(E, tystr, method):
    return E.prog.methods.get((tystr, method))


def is_empty(E, st, ty, v):
    """condition of omitempty"""
    if implements(E, "*" + ty.str, "MarshalCBOR") or implements(E, ty.str, "MarshalCBOR"):
        return False
    u = ty.u
    if isinstance(v, SliceV):
        return pyb(E.idom.lift(v.n) == 0) if not isinstance(v.n, int) else v.n == 0
    if isinstance(v, Rope):
        return pyb(E.idom.lift(v.n) == 0) if not isinstance(v.n, int) else v.n == 0
    if u.k == "basic" and intinfo(ty):
        return E.int_cmp(st, "==", v, 0, ty)
    if isinstance(v, (bool, z3.BoolRef)):
        return Not(v)
    if isinstance(v, Ptr):
        return v.oid is None
    if isinstance(v, NilIface):
        return True
    if isinstance(v, IfaceV):
        return False
    if isinstance(v, OpaqueV):
        return v.isnil
    raise Unsupported("omitempty of " + ty.str)


def split(E, st, c):
    """[(state, bool)] for a condition"""
    c = pyb(c)
    if isinstance(c, bool):
        return [(st, c)]
    out = []
    s1 = st.fork()
    if E.feasible(s1, c):
        s1.pc.append(B(c))
        out.append((s1, True))
    s2 = st.fork()
    if E.feasible(s2, Not(c)):
        s2.pc.append(B(Not(c)))
        out.append((s2, False))
    return out


def enc(E, st, ty, v, sort):
    """-> [(state, kind, Rope or error)], kind ok, err or panic"""
    u = ty.u
    if u.k == "ptr":
        if not isinstance(v, Ptr):
            raise Unsupported("cbor of %r" % (v,))
        if v.oid is None:
            return [(st, "ok", raw(E, 0xf6))]
        fn = implements(E, ty.str, "MarshalCBOR")
        if fn:
            return marshaler(E, st, fn, v)
        return enc(E, st, ty.elem, E.load1(st, v), sort)
    if ty.str == PKG + ".Tag":
        outs = []
        num, content = v.f
        # the tag without number and content is encoded as null
        for s, k, r in enc(E, st, ty.field_types()[1], content, sort):
            if k == "ok":
                if isinstance(num, int) and num == 0:
                    raise Unsupported("cbor tag 0")
                r = Rope(E.u8, head(E, s, 6, num) + list(r.segs))
            outs.append((s, k, r))
        return outs
    fn = implements(E, "*" + ty.str, "MarshalCBOR") if ty.k == "named" else None
    if fn and u.k != "iface":
        p = Ptr(E.new(st, v, ty))
        return marshaler(E, st, fn, p)
    if implements(E, ty.str, "MarshalBinary") or implements(E, "*" + ty.str, "MarshalBinary"):
        raise Unsupported("BinaryMarshaler")
    if u.k == "iface":
        if isinstance(v, NilIface):
            return [(st, "ok", raw(E, 0xf6))]
        if isinstance(v, IfaceV):
            return enc(E, st, v.ty, v.v, sort)
        if isinstance(v, OpaqueV):
            outs = []
            for s, isnil in split(E, st, v.isnil):
                if isnil:
                    outs.append((s, "ok", raw(E, 0xf6)))
                    continue
                m = E.invokes.get((v.kind, "MarshalCBOR"))
                if m is not None:
                    for s2, k2, r2 in E.norm_outs(s, m(E, s, v, [])):
                        outs += marshal_result(E, s2, k2, r2)
                    continue
                outs += opaque(E, s, v, sort)
            return outs
        raise Unsupported("cbor of %r" % (v,))
    if u.k == "basic":
        if intinfo(ty):
            w, sg = intinfo(ty)
            if sg:
                if isinstance(v, int) and v >= 0:
                    return [(st, "ok", enc_uint(E, st, v))]
                raise Unsupported("cbor of a signed integer")
            return [(st, "ok", enc_uint(E, st, v))]
        if u.name in ("bool", "untyped bool"):
            if isinstance(v, bool):
                return [(st, "ok", raw(E, 0xf5 if v else 0xf4))]
            return [(s, "ok", raw(E, 0xf5 if b else 0xf4)) for s, b in split(E, st, v)]
        if u.name == "string":
            return [(st, "ok", Rope(E.u8, head(E, st, 3, v.n) + list(v.segs)))]
        raise Unsupported("cbor of " + ty.str)
    if u.k in ("slice", "array"):
        et = ty.elem
        if u.k == "slice":
            outs = []
            for s, isnil in split(E, st, v.nilc):
                if isnil:
                    outs.append((s, "ok", raw(E, 0xf6)))
                else:
                    outs += enc_list(E, s, et, E.content(s, v, et), sort)
            return outs
        return enc_list(E, st, et, Rope(et, [Lit(v.v)]) if isinstance(v, ArrV) else v, sort)
    if u.k == "struct":
        fs, toarray = fields(E, ty)
        if toarray:
            cur = [(st, "ok", Rope(E.u8, head(E, st, 4, len(fs))))]
            for i, n, ft, o in fs:
                cur = seq(E, cur, lambda s, i=i, ft=ft: enc(E, s, ft, v.f[i], sort))
            return cur
        cur = [(st, "ok", (0, Rope(E.u8, [])))]
        keys = []
        for i, n, ft, o in fs:
            if "keyasint" in o:
                k = int(n)
                hd = head_bytes(0, k) if k >= 0 else head_bytes(1, -1 - k)
            else:
                hd = head_bytes(3, len(n)) + list(n.encode())
            keys.append((hd, i, ft, o))
        if sort:
            keys.sort(key=lambda x: (len(x[0]), x[0]))
        for hd, i, ft, o in keys:
            nxt = []
            for s, k, r in cur:
                if k != "ok":
                    nxt.append((s, k, r))
                    continue
                alts = split(E, s, is_empty(E, s, ft, v.f[i])) if "omitempty" in o else [(s, False)]
                for s2, empty in alts:
                    if empty:
                        nxt.append((s2, "ok", r))
                        continue
                    for s3, k3, r3 in enc(E, s2, ft, v.f[i], sort):
                        if k3 == "ok":
                            r3 = (r[0] + 1, Rope(E.u8, list(r[1].segs) + [Lit(hd)] + list(r3.segs)))
                        nxt.append((s3, k3, r3))
            cur = nxt
        return [(s, k, Rope(E.u8, head(E, s, 5, r[0]) + list(r[1].segs)) if k == "ok" else r) for s, k, r in cur]
    raise Unsupported("cbor of " + ty.str)


def seq(E, cur, f):
    out = []
    for s, k, r in cur:
        if k != "ok":
            out.append((s, k, r))
            continue
        for s2, k2, r2 in f(s):
            out.append((s2, k2, Rope(E.u8, list(r.segs) + list(r2.segs)) if k2 == "ok" else r2))
    return out


def marshaler(E, st, fn, p):
    outs = []
    for s, k, v in E.call_named(st, fn, [p]):
        outs += marshal_result(E, s, k, v)
    return outs


def marshal_result(E, s, k, v):
    if k == "panic":
        return [(s, "panic", v)]
    b, err = v
    if isinstance(err, NilIface):
        return [(s, "ok", E.content(s, b))]
    if isinstance(err, OpaqueV) and err.isnil is not False:
        out = []
        for s2, isnil in split(E, s, err.isnil):
            out.append((s2, "ok", E.content(s2, b)) if isnil else (s2, "err", err))
        return out
    return [(s, "err", err)]


def opaque(E, st, v, sort):
    """value of unknown dynamic type (transaction metadata)"""
    tab = E.__dict__.setdefault("cboropaque", {})
    if v.key not in tab:
        n = z3.Int("enclen_%s" % (v.key,))
        E.axiom(z3.And(n >= 1, n < 1 << 40))
        bad = z3.Bool("unencodable_%s" % (v.key,))
        tab[v.key] = (n, bad)
    n, bad = tab[v.key]
    out = []
    for s, b in split(E, st, bad):
        if b:
            out.append((s, "err", E.error()))
        else:
            key = ("cboropaque", v.key, "sorted" if sort else E.fresh_name("order"))
            memo = E.__dict__.setdefault("cboropaqueseg", {})
            if key not in memo:
                memo[key] = opaque_fn(E, "enc", key, n)
            out.append((s, "ok", Rope(E.u8, [memo[key]])))
    return out


LJ = z3.Int("list!j")


def enc_list(E, st, et, content, sort):
    if E.isint(et) and intinfo(et)[0] == 8:
        return [(st, "ok", enc_bytes(E, st, content))]
    cur = [(st, "ok", Rope(E.u8, head(E, st, 4, content.n)))]
    for g in content.segs:
        if isinstance(g, Lit):
            for x in g.v:
                cur = seq(E, cur, lambda s, x=x: enc(E, s, et, x, sort))
        else:
            cur = seq(E, cur, lambda s, g=g: list_seg(E, s, et, g, sort))
    return cur


def list_seg(E, st, et, g, sort, elem=None):
    """encodings of the elements of a segment of unknown length: the encoding of its arbitrary element, for all of them"""
    s2 = st.fork()
    s2.pc.append(z3.And(LJ >= E.idom.lift(g.off), LJ < E.idom.lift(g.off) + E.idom.lift(g.n)))
    if not E.feasible(s2):
        return [(st, "ok", Rope(E.u8, []))]
    if elem is None:
        rs = enc(E, s2, et, E.fn_at(s2, Fn(g.key, 0, g.n, g.at), LJ), sort)
        outs = []
        for s, k, r in rs:
            if k == "panic":
                outs.append((s, k, r))
            elif k == "err":
                outs.append((s, k, r))
        oks = [r for s, k, r in rs if k == "ok"]
        if len(oks) != 1:
            raise Unsupported("elements of a list are encoded in different ways")
        r = oks[0]
    else:
        outs = []
        r = elem(s2)
    return outs + [(st, "ok", Rope(E.u8, [list_fn(E, g, r)]))]


def list_fn(E, g, r):
    """segment for the concatenation of r[LJ := off .. off+n-1]"""
    key = ("cborlist", g.key, E.K(g.off), E.K(g.n), E.K(r))
    tab = E.__dict__.setdefault("cborlists", {})
    if key not in tab:
        if isinstance(r.n, int):
            n = isimp(E.idom.lift(g.n) * r.n)
        else:
            n = z3.Int(E.fresh_name("listlen"))
            E.axiom(z3.And(n >= E.idom.lift(g.n), n < 1 << 40))
        tab[key] = opaque_fn(E, "list", key, n)
    return tab[key]


def do_marshal(E, st, v, sort):
    """v: interface{} value"""
    out = []
    for s, k, r in enc(E, st, ANY, v, sort):
        if k == "ok":
            out.append((s, "ret", (E.new_slice(s, r), NILI)))
        elif k == "err":
            out.append((s, "ret", (SliceV(None, 0, 0, 0, 0, True), E.error())))
        else:
            out.append((s, "panic", r))
    return out


class _Any:
    str = "interface{}"
    k = "iface"
    name = None

    @property
    def u(self):
        return self


ANY = _Any()


@model(PKG + ".Marshal", doc="CBOR encoding determined by the Go types, struct tags and MarshalCBOR methods; the order of the "
       "entries of maps is not fixed")
def _marshal(E, st, args, ins):
    return do_marshal(E, st, args[0], False)


@model("(" + PKG + ".EncOptions).EncMode", doc="an encoder; it fixes the order of map entries when Sort is set")
def _encmode(E, st, args, ins):
    o = args[0]
    srt = None
    for fd, x in zip(o.ty.u.fields, o.f):
        if fd["name"] == "Sort":
            srt = x
        elif not (isinstance(x, int) and x == 0):
            raise Unsupported("cbor encoder option " + fd["name"])
    if not isinstance(srt, int):
        raise Unsupported("cbor encoder options")
    return (OpaqueV("cborenc", "enc%d" % srt, False, srt != 0), NILI)


def install_invokes(E):
    E.invokes[("cborenc", "Marshal")] = lambda E2, st, recv, args: do_marshal(E2, st, args[0], recv.data)


ASSUMED["cborenc.Marshal"] = "as Marshal, with a fixed order of map entries when sorting is set"
ASSUMED[PKG + ".Tag"] = ""


# ----------------------------------------------------------------- decoding
class NoParse(Exception):
    pass


def parse_head(E, segs, majors):
    """segments -> (major, argument, rest); concrete heads or heads written by the encoder"""
    if not segs:
        raise NoParse
    g = segs[0]
    if isinstance(g, Fn):
        h = E.__dict__.get("cborheads", {}).get(g.key)
        if h is None or not (isinstance(g.off, int) and g.off == 0) or not (g.n is h[2] or E.K(g.n) == E.K(h[2])):
            raise NoParse
        return h[0], h[1], segs[1:]
    b = g.v[0]
    if not isinstance(b, int):
        raise NoParse
    mj, a = b >> 5, b & 31
    n = {24: 1, 25: 2, 26: 4, 27: 8}.get(a, 0)
    if a > 27 or len(g.v) < 1 + n or not all(isinstance(x, int) for x in g.v[1:1 + n]):
        raise NoParse
    v = a if not n else int.from_bytes(bytes(g.v[1:1 + n]), "big")
    rest = ([Lit(g.v[1 + n:])] if len(g.v) > 1 + n else []) + segs[1:]
    return mj, v, rest


def take(E, st, segs, n):
    r = Rope(E.u8, segs)
    try:
        if isinstance(n, int) and isinstance(r.n, int):
            if n > r.n:
                raise NoParse
        return E.sub(st, r, 0, n), list(E.sub(st, r, n, r.n).segs)
    except Unsupported:
        raise NoParse


def dec(E, st, ty, segs):
    """value of type ty read from the segments -> (value, rest).  Raises NoParse where the decoder's answer is not known"""
    u = ty.u
    if ty.str == PKG + ".Tag":
        mj, num, rest = parse_head(E, segs, (6,))
        if mj != 6:
            raise NoParse
        c, rest = dec(E, st, ty.field_types()[1], rest)
        return StructV(ty, [num if isinstance(num, int) else from_int(E, num, 64), c]), rest
    if u.k == "iface":
        mj, n, rest = parse_head(E, segs, ())
        if mj == 2:
            r, rest = take(E, st, rest, n)
            return IfaceV(E.prog.ty("[]byte") if "[]byte" in E.prog.bystr else E.prog.ty("[]uint8"), E.new_slice(st, r)), rest
        raise NoParse
    if u.k == "basic" and intinfo(ty):
        mj, n, rest = parse_head(E, segs, (0,))
        w, sg = intinfo(ty)
        if mj != 0 or sg:
            raise NoParse
        if isinstance(n, int):
            if n >= 1 << w:
                raise NoParse
            return n, rest
        if not E.valid(st, n < (1 << w)):
            raise NoParse
        return from_int(E, n, w), rest
    if u.k == "slice" and E.isint(ty.elem) and intinfo(ty.elem)[0] == 8:
        mj, n, rest = parse_head(E, segs, (2,))
        if mj != 2:
            raise NoParse
        r, rest = take(E, st, rest, n)
        return E.new_slice(st, r), rest
    if u.k == "struct":
        fs, toarray = fields(E, ty)
        v = list(E.zero(ty).f)
        mj, n, rest = parse_head(E, segs, (4, 5))
        if toarray:
            if mj != 4 or n != len(fs):
                raise NoParse
            for i, nm, ft, o in fs:
                v[i], rest = dec(E, st, ft, rest)
            return StructV(ty, v), rest
        if mj != 5 or not isinstance(n, int):
            raise NoParse
        seen = set()
        for _ in range(n):
            kj, k, rest = parse_head(E, rest, (0,))
            if kj != 0 or not isinstance(k, int):
                raise NoParse
            m = [x for x in fs if "keyasint" in x[3] and int(x[1]) == k]
            if not m or k in seen:
                raise NoParse
            seen.add(k)
            v[m[0][0]], rest = dec(E, st, m[0][2], rest)
        return StructV(ty, v), rest
    raise NoParse


def from_int(E, n, w):
    if E.vdom.name == "bv":
        if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_BV2INT:
            b = n.arg(0)
            if b.size() == w:
                return b
            return z3.ZeroExt(w - b.size(), b) if b.size() < w else z3.Extract(w - 1, 0, b)
        raise NoParse
    return n


def havoc(E, st, ty, name):
    """any value the decoder may give a location of this type"""
    u = ty.u
    if u.k == "basic" and intinfo(ty):
        return E.fresh_val(ty, name)
    if u.k == "basic" and u.name == "bool":
        return E.fresh_bool(name)
    if u.k == "basic" and u.name == "string":
        return E.sym_bytes(E.fresh_name(name), E.fresh_int("len", 0, 1 << 40))
    if u.k == "slice" and E.isint(ty.elem):
        n = E.fresh_int("len", 0, 1 << 40)
        s = E.new_slice(st, E.sym_bytes(E.fresh_name(name), n, ty.elem))
        s.nilc = z3.And(E.fresh_bool("nil"), n == 0)
        return s
    if u.k == "struct":
        return StructV(ty, [havoc(E, st, ft, name + "." + fd["name"]) for fd, ft in zip(u.fields or [], ty.field_types())])
    if u.k == "iface":
        return OpaqueV("any", E.fresh_name(name), E.fresh_bool("nil"))
    if u.k == "array" and E.isint(ty.elem):
        return ArrV(ty.elem, [E.fresh_val(ty.elem, name) for i in range(u.len)])
    if u.k == "ptr":
        raise Unsupported("decoding into a pointer")
    raise Unsupported("decoding into " + ty.str)


def _assert_any(E, st, x, at):
    """type assertion on a decoded value of unknown type: nil, the asserted type, or another one"""
    known = st.notes.get("anytype", {})
    if x.key in known:
        t, v = known[x.key]
        return [(st, v, t == at.str)]
    s1, s2 = st.fork(), st.fork()
    s1.pc.append(B(Not(x.isnil)))
    v = havoc(E, s1, at, "asserted")
    s1.notes["anytype"] = {**known, x.key: (at.str, v)}
    return [(s1, v, True), (s2, None, False)] if E.feasible(s1) else [(s2, None, False)]


REG["assert:any"] = _assert_any


@model(PKG + ".Unmarshal", doc="fails, or fills the target according to its Go type; inverse of Marshal on its results; calls "
       "UnmarshalCBOR of the target with the first data item if the target has that method; ignores what follows the first item")
def _unmarshal(E, st, args, ins):
    data = E.content(st, args[0])
    tgt = args[1]
    if not isinstance(tgt, IfaceV) or tgt.ty.u.k != "ptr" or tgt.v.oid is None:
        raise Unsupported("cbor.Unmarshal target")
    ty = tgt.ty.elem
    fn = implements(E, tgt.ty.str, "UnmarshalCBOR")
    ours = bool(data.segs) and (isinstance(data.segs[0], Fn) and data.segs[0].key in E.__dict__.get("cborheads", {})
                                or isinstance(data.segs[0], Lit) and isinstance(data.segs[0].v[0], int))
    if fn:
        # the first data item only is given to the method: what follows it is ignored
        item = first_item(E, st, list(data.segs)) if ours else None
        outs = []
        if item is None:
            s1 = st.fork()
            outs.append((s1, "ret", E.error()))
            n = E.fresh_int("itemlen", 1)
            st.pc.append(n <= E.idom.lift(data.n))
            if not E.feasible(st):
                return outs
            item = E.sub(st, data, 0, n)
        sl = E.new_slice(st, item, pre=False)
        outs += E.call_named(st, fn, [tgt.v, sl])
        return outs
    if ours:
        s1 = st.fork()
        try:
            v, rest = dec(E, s1, ty, list(data.segs))
            E.store(s1, tgt.v, v)
            return [(s1, "ret", NILI)]
        except NoParse:
            pass
    s1, s2 = st.fork(), st.fork()
    E.store(s1, tgt.v, havoc(E, s1, ty, "decoded"))
    E.store(s2, tgt.v, havoc(E, s2, ty, "partial"))
    return [(s1, "ret", NILI), (s2, "ret", E.error())]


def first_item(E, st, segs):
    """the first complete data item, when the structure of the bytes is known"""
    def item(segs):
        mj, n, rest = parse_head(E, segs, ())
        if mj == 0 or mj == 1 or mj == 7:
            return rest
        if mj in (2, 3):
            return take(E, st, rest, n)[1]
        if mj == 6:
            return item(rest)
        if not isinstance(n, int):
            raise NoParse
        for _ in range(n * (2 if mj == 5 else 1)):
            rest = item(rest)
        return rest
    try:
        rest = item(segs)
        whole = Rope(E.u8, segs)
        return E.sub(st, whole, 0, isub(whole.n, Rope(E.u8, rest).n)) if rest else whole
    except (NoParse, Unsupported):
        return None
