"""Contracts of address: layout of Shelley addresses, variable-length numbers, decoding and text forms."""
from .common import *
from . import bech32 as B32
from engine import cbor
from engine.hashes import word

A = "address."
P64 = 10   # groups of a 64-bit number


def t64(v):
    return z3.BitVecVal(v, 64) if isinstance(v, int) else v


# ------------------------------------------------------------------ variable-length numbers
def vn_len(E, v):
    """number of base-128 groups of a 64-bit number"""
    if isinstance(v, int):
        n = 1
        while v >= 128:
            v >>= 7
            n += 1
        return n
    tab = E.__dict__.setdefault("vnlen", {})
    k = E.K(v)
    if k not in tab:
        n = z3.Int(E.fresh_name("vnlen"))
        r = z3.IntVal(1)
        for i in range(1, P64):
            r = z3.If(z3.UGE(v, z3.BitVecVal(1 << (7 * i), 64)), z3.IntVal(i + 1), r)
        E.axiom(n == r)
        E.axiom(z3.And(n >= 1, n <= P64))
        E.__dict__.setdefault("lendefs", set()).add(n.get_id())
        E.keep.append(n)
        tab[k] = n
    return tab[k]


def vn_group(v, g):
    x = z3.Extract(7, 0, z3.LShR(t64(v), 7 * g)) & 0x7f
    return x | 0x80 if g else x


def VN(E, v):
    """specification: minimal big-endian base 128, continuation bit on all but the last"""
    n = vn_len(E, v)
    if isinstance(v, int):
        return Rope(E.u8, [Lit([((v >> (7 * g)) & 0x7f) | (0x80 if g else 0) for g in range(n - 1, -1, -1)])])

    def at(E2, st, j):
        g = isub(isub(n, 1), j)
        r = z3.BitVecVal(0, 8)
        for i in range(P64):
            r = z3.If(E2.idom.lift(g) == i, vn_group(v, i), r)
        return r
    return Rope(E.u8, [Fn(("VN", E.K(v)), 0, n, at)])


@contract(A + "VariableNatEncode")
def c_vne(E, st, args):
    return E.new_slice(st, VN(E, args[0]))


@contract(A + "VariableNatDecode")
def c_vnd(E, st, args):
    raw = E.content(st, args[0])
    # the encoding of a number, followed by anything
    if raw.segs and isinstance(raw.segs[0], Fn) and raw.segs[0].key[0] == "VN":
        g = raw.segs[0]
        for v in E.__dict__.get("vnvals", ()):
            if ("VN", E.K(v)) == g.key and isinstance(g.off, int) and g.off == 0 and E.K(g.n) == E.K(vn_len(E, v)):
                return (v, g.n, NILI)
    if raw.segs and isinstance(raw.segs[0], Lit) and isinstance(raw.segs[0].v[0], int) and raw.segs[0].v[0] < 128:
        return (raw.segs[0].v[0], 1, NILI)
    s1, s2 = st.fork(), st.fork()
    v = z3.BitVec(E.fresh_name("natval"), 64)
    n = vn_len(E, v)
    out = [(s2, (0, 0, E.error()))]
    s1.pc.append(n <= E.idom.lift(raw.n))
    if E.feasible(s1):
        E.note_equal(s1, E.sub(s1, raw, 0, n), VN(E, v))
        out.append((s1, (v, n, NILI)))
    return out


@unit("address.VariableNatEncode", props=["C05", "C01"], provides=A + "VariableNatEncode",
      funcs=[A + "VariableNatEncode", A + "reverseAny"])
def u_vne(E):
    st = State()
    v = z3.BitVec("num", 64)
    E.inputs = {"num": v}
    rs = rets(E, call(E, st, A + "VariableNatEncode", [v]), "VariableNatEncode")
    feasible_some(E, rs, "VariableNatEncode")
    for s, r in rs:
        prove_rope(E, s, E.content(s, r), VN(E, v), "VariableNatEncode: minimal big-endian base 128")
        no_writes(E, s, "VariableNatEncode")


@unit("address.VariableNatDecode", props=["C05", "C02"], provides=A + "VariableNatDecode", funcs=[A + "VariableNatDecode"])
def u_vnd(E):
    """any input: an error, or a number whose encoding is the part that was read"""
    st = State()
    n = sym_len(E, "raw_len")
    raw = E.sym_bytes("raw", n)
    E.inputs = {"raw": raw}
    sl = E.new_slice(st, raw, pre=True)
    rs = rets(E, call(E, st, A + "VariableNatDecode", [sl]), "VariableNatDecode")
    feasible_some(E, [x for x in rs if is_nil_err(x[1][2])], "VariableNatDecode")
    for s, (v, k, err) in rs:
        no_writes(E, s, "VariableNatDecode")
        if is_nil_err(err):
            E.prove(s, E.idom.lift(k) <= n, "VariableNatDecode: reads no more than it is given")
            prove_rope(E, s, E.sub(s, raw, 0, k), VN(E, v), "VariableNatDecode: what was read is the encoding of the number")
        else:
            E.oblige(s, is_err(err), "VariableNatDecode: error otherwise")


@unit("address.VariableNatDecode.complete", props=["C05", "C03"], provides=A + "VariableNatDecode", funcs=[A + "VariableNatDecode"])
def u_vndc(E):
    """the encoding of every number, followed by any bytes"""
    for k in range(1, P64 + 1):
        st = State()
        v = z3.BitVec("num", 64)
        st.pc.append(z3.UGE(v, 1 << (7 * (k - 1))) if k > 1 else z3.BoolVal(True))
        if k < P64:
            st.pc.append(z3.ULT(v, 1 << (7 * k)))
        rest = E.sym_bytes("rest", sym_len(E, "rest_len"))
        raw = Rope(E.u8, [Lit([vn_group(v, g) for g in range(k - 1, -1, -1)])] + list(rest.segs))
        E.inputs = {"num": v, "raw": raw}
        sl = E.new_slice(st, raw, pre=True)
        rs = rets(E, call(E, st, A + "VariableNatDecode", [sl]), "VariableNatDecode")
        feasible_some(E, rs, "VariableNatDecode of an encoding")
        for s, (w, m, err) in rs:
            E.oblige(s, is_nil_err(err), "VariableNatDecode: accepts the encoding of every number")
            if is_nil_err(err):
                prove_val(E, s, w, v, "VariableNatDecode: gives back the number")
                prove_val(E, s, m, k, "VariableNatDecode: gives the length of the encoding")


# ------------------------------------------------------------------ addresses
def credential(E, st, name):
    """any credential of 28 bytes"""
    k = z3.BitVec(name + "_kind", 8)
    E.axiom(z3.ULE(k, 1))
    pay = E.sym_bytes(name + "_hash", 28)
    E.inputs[name + "_kind"] = k
    E.inputs[name + "_hash"] = pay
    return struct(E, A + "StakeCredential", Kind=k, Payload=sym_slice(E, st, name + "_hash", 28, content=pay, spare=True)), k, pay


def netinfo(E, known=False):
    i = z3.BitVec("network_id", 8)
    m = z3.BitVec("magic", 32)
    if known:
        E.axiom(z3.Or(z3.And(i == 0, m == 1097911063), z3.And(i == 1, m == 764824073)))
    E.inputs["network_id"] = i
    E.inputs["magic"] = m
    return struct(E, "network.NetworkInfo", NetworkId=i, ProtocolMagic=m), i


def header(ty, i, k, k2=None):
    h = z3.BitVecVal(ty << 4, 8) | (i & 15) | (k << 4)
    if k2 is not None:
        h = h | (k2 << 5)
    return h


KINDS = ["base", "enterprise", "pointer", "reward"]
TYPE = {"base": A + "BaseAddress", "enterprise": A + "EnterpriseAddress", "pointer": A + "PointerAddress", "reward": A + "RewardAddress"}


def make(E, st, kind, known=False):
    """any address of the kind: (pointer to it, its specified bytes, network id)"""
    net, i = netinfo(E, known)
    if kind == "base":
        p, k, h = credential(E, st, "payment")
        s, k2, h2 = credential(E, st, "stake")
        v = struct(E, TYPE[kind], Network=net, Payment=p, Stake=s)
        b = Rope(E.u8, [Lit([header(0, i, k, k2)])] + list(h.segs) + list(h2.segs))
    elif kind == "enterprise":
        p, k, h = credential(E, st, "payment")
        v = struct(E, TYPE[kind], Network=net, Payment=p)
        b = Rope(E.u8, [Lit([header(6, i, k)])] + list(h.segs))
    elif kind == "reward":
        p, k, h = credential(E, st, "stake")
        v = struct(E, TYPE[kind], Network=net, Stake=p)
        b = Rope(E.u8, [Lit([header(14, i, k)])] + list(h.segs))
    else:
        p, k, h = credential(E, st, "payment")
        ns = [z3.BitVec(x, 64) for x in ("slot", "txindex", "certindex")]
        E.vnvals = ns
        for x in ns:
            E.inputs[x.decl().name()] = x
        v = struct(E, TYPE[kind], Network=net, Payment=p, Stake=struct(E, A + "StakePointer", Slot=ns[0], TxIndex=ns[1], CertIndex=ns[2]))
        b = Rope(E.u8, [Lit([header(4, i, k)])] + list(h.segs) + [s for x in ns for s in VN(E, x).segs])
    return Ptr(E.new(st, v, E.prog.ty(TYPE[kind]), pre=True)), b, i, v


def kinds(E):
    for n, k in enumerate(KINDS):
        if E.part is None or E.part == n:
            yield k


def method(E, kind, m):
    fn = E.prog.methods.get(("*" + TYPE[kind], m))
    if fn is None:
        raise Unsupported("%s has no method %s" % (TYPE[kind], m))
    return fn


@unit("address.Bytes", props=["C01", "C02", "C07", "C03"], uses=[A + "VariableNatEncode"], parts=4,
      funcs=["(*%s).Bytes" % t for t in TYPE.values()])
def u_bytes(E):
    for kind in kinds(E):
        st = State()
        p, b, i, v = make(E, st, kind)
        rs = rets(E, call(E, st, method(E, kind, "Bytes"), [p]), kind + " Bytes")
        feasible_some(E, rs, kind + " Bytes")
        for s, r in rs:
            prove_rope(E, s, E.content(s, r), b, kind + " address: bytes are header, credentials and pointer in CIP-19 layout")
            no_writes(E, s, kind + " Bytes")


@unit("address.constructors", props=["C01"], uses=[A + "VariableNatEncode"],
      funcs=[A + "New" + x for x in ("BaseAddress", "EnterpriseAddress", "PointerAddress", "RewardAddress", "KeyStakeCredential",
                                     "ScriptStakeCredential", "Pointer")])
def u_new(E):
    for kind in KINDS:
        st = State()
        p, b, i, v = make(E, st, kind)

        def at(name, ty):
            return Ptr(E.new(st, fld(E, v, name), E.prog.ty(ty), pre=True))
        net, C = "network.NetworkInfo", A + "StakeCredential"
        if kind == "base":
            args = [at("Network", net), at("Payment", C), at("Stake", C)]
        elif kind == "pointer":
            args = [fld(E, v, "Network"), fld(E, v, "Payment"), fld(E, v, "Stake")]
        else:
            args = [at("Network", net), at("Payment" if kind == "enterprise" else "Stake", C)]
        fn = A + "New" + TYPE[kind][len(A):]
        for s, q in rets(E, call(E, st, fn, args), fn):
            for s2, r in rets(E, E.call_named(s, method(E, kind, "Bytes"), [q]), fn):
                prove_rope(E, s2, E.content(s2, r), b, fn + ": the address has the given network, credentials and pointer")
            prove_val(E, s, fld(E, E.load1(s, q), "Network"), fld(E, v, "Network"), fn + ": keeps the network")
            no_writes(E, s, fn)
    for n, fn in enumerate(("NewKeyStakeCredential", "NewScriptStakeCredential")):
        st = State()
        h = E.sym_bytes("hash", 28)
        sl = E.new_slice(st, h, pre=True)
        for s, q in rets(E, call(E, st, A + fn, [sl]), fn):
            c = E.load1(s, q)
            prove_val(E, s, fld(E, c, "Kind"), n, fn + ": kind")
            prove_rope(E, s, E.content(s, fld(E, c, "Payload")), h, fn + ": payload")
    st = State()
    ns = [z3.BitVec(x, 64) for x in ("slot", "txindex", "certindex")]
    for s, q in rets(E, call(E, st, A + "NewPointer", ns), "NewPointer"):
        c = E.load1(s, q)
        for x, f in zip(ns, ("Slot", "TxIndex", "CertIndex")):
            prove_val(E, s, fld(E, c, f), x, "NewPointer: " + f)


@unit("address.convert", props=["C01"], funcs=["(*%sBaseAddress).ToEnterprise" % A, "(*%sBaseAddress).ToReward" % A])
def u_convert(E):
    for m, kind, ty, src in (("ToEnterprise", "enterprise", 6, "payment"), ("ToReward", "reward", 14, "stake")):
        st = State()
        p, b, i, v = make(E, st, "base")
        for s, q in rets(E, call(E, st, method(E, "base", m), [p]), m):
            a = E.load1(s, q)
            prove_val(E, s, fld(E, a, "Network"), fld(E, v, "Network"), m + ": keeps the network")
            want = Rope(E.u8, [Lit([header(ty, i, E.inputs[src + "_kind"])])] + list(E.inputs[src + "_hash"].segs))
            for s2, r in rets(E, E.call_named(s, method(E, kind, "Bytes"), [q]), m):
                prove_rope(E, s2, E.content(s2, r), want, m + ": keeps the %s credential" % src)
            no_writes(E, s, m)


# ------------------------------------------------------------------ decoding
def check_shelley(E, s, addr, data, what):
    """the decoded address has the type, network and credentials that the bytes encode, and encodes to them"""
    ty = addr.ty.str[1:]
    kind = [k for k in KINDS if TYPE[k] == ty][0]
    v = E.load1(s, addr.v)
    h = E.at(s, data, 0)
    h = B32.bv(h, 8)
    t = z3.LShR(h, 4)
    E.prove(s, {"base": z3.ULE(t, 3), "pointer": z3.Or(t == 4, t == 5), "enterprise": z3.Or(t == 6, t == 7),
                "reward": z3.Or(t == 14, t == 15)}[kind], what + ": the type is the one in the header")
    net = fld(E, v, "Network")
    i, m = B32.bv(fld(E, net, "NetworkId"), 8), fld(E, net, "ProtocolMagic")
    m = z3.BitVecVal(m, 32) if isinstance(m, int) else m
    E.prove(s, i == (h & 15), what + ": the network id is the one in the header")
    E.prove(s, z3.Or(z3.And(i == 0, m == 1097911063), z3.And(i == 1, m == 764824073)), what + ": the network is a known one")
    creds = {"base": [("Payment", 4, 1), ("Stake", 5, 29)], "reward": [("Stake", 4, 1)]}.get(kind, [("Payment", 4, 1)])
    for f, bit, pos in creds:
        c = fld(E, v, f)
        k = B32.bv(fld(E, c, "Kind"), 8)
        E.prove(s, k == (z3.LShR(h, bit) & 1), "%s: kind of the %s credential" % (what, f))
        prove_rope(E, s, E.content(s, fld(E, c, "Payload")), E.sub(s, data, pos, pos + 28), "%s: hash of the %s credential" % (what, f))
    for s2, r in rets(E, E.call_named(s.fork(), method(E, kind, "Bytes"), [addr.v]), what + ": Bytes of the decoded address"):
        prove_rope(E, s2, E.content(s2, r), data, what + ": encoding the address gives exactly the input")


def is_shelley(x):
    return isinstance(x, IfaceV) and x.ty.str[1:] in TYPE.values()


@unit("address.NewAddressFromBytes", props=["C02"], uses=[A + "VariableNatEncode", A + "VariableNatDecode"],
      funcs=[A + "NewAddressFromBytes", A + "readAddrCred", "(*%sByronAddress).UnmarshalCBOR" % A], parts=5)
def u_frombytes(E):
    for part in range(5):
        if E.part is not None and E.part != part:
            continue
        st = State()
        n = sym_len(E, "data_len")
        data = E.sym_bytes("data", n)
        E.inputs = {"data": data}
        h = z3.Function("data", z3.IntSort(), z3.BitVecSort(8))(0)
        t = z3.LShR(h, 4)
        st.pc.append([n == 0, z3.And(n > 0, z3.ULE(t, 3)), z3.And(n > 0, z3.Or(t == 4, t == 5)),
                      z3.And(n > 0, t >= 6, z3.ULT(t, 8)), z3.And(n > 0, z3.UGE(t, 8))][part])
        sl = E.new_slice(st, data, pre=True)
        rs = rets(E, call(E, st, A + "NewAddressFromBytes", [sl]), "NewAddressFromBytes")
        feasible_some(E, rs, "NewAddressFromBytes")
        for s, (addr, err) in rs:
            no_writes(E, s, "NewAddressFromBytes")
            if is_nil_err(err):
                E.oblige(s, isinstance(addr, IfaceV), "NewAddressFromBytes: success gives an address")
                if is_shelley(addr):
                    check_shelley(E, s, addr, data, "NewAddressFromBytes")
                else:
                    E.prove(s, t == 8, "NewAddressFromBytes: the type is the one in the header")
            elif isinstance(err, OpaqueV) and err.isnil is not False:
                raise Unsupported("error that may be nil")


@unit("address.NewAddressFromHex", props=["C02"], uses=[A + "VariableNatEncode", A + "VariableNatDecode"], funcs=[A + "NewAddressFromHex"])
def u_fromhex(E):
    st = State()
    n = sym_len(E, "hex_len")
    txt = E.sym_bytes("hex", n)
    E.inputs = {"hex": txt}
    rs = rets(E, call(E, st, A + "NewAddressFromHex", [txt]), "NewAddressFromHex")
    feasible_some(E, rs, "NewAddressFromHex")
    for s, (addr, err) in rs:
        if is_nil_err(err):
            E.oblige(s, isinstance(addr, IfaceV), "NewAddressFromHex: success gives an address")
            if is_shelley(addr):
                data = [r for x, r in E.rope_memo["unhex"] if E.rope_eq(s, x, txt)][0]
                check_shelley(E, s, addr, data, "NewAddressFromHex")


# ------------------------------------------------------------------ text form
PK = "internal/bech32."


def btext(E, st, h, d):
    """the bech32 text (opaque): equal prefixes and data give equal texts.  Its exact form is the contract of
    bech32.Encode, verified in bech32.Encode"""
    memo = E.__dict__.setdefault("btexts", [])
    for h2, d2, t in memo:
        if E.K(h) == E.K(h2) and (E.K(d) == E.K(d2) or E.rope_eq(st, d, d2)):
            return t
    n = E.fresh_int("textlen", 0)
    E.axiom(n < MAXLEN)
    t = Rope(E.u8, list(h.segs) + [Lit([49]), opaque_fn(E, "b32", ("btext", E.fresh_name("t")), n)])
    memo.append((h, d, t))
    return t


@contract(PK + "Encode")
def c_encode(E, st, args):
    h, d = args
    c = h.concrete()
    if c is None or not all(33 <= x < 127 and not 65 <= x <= 90 for x in c):
        raise Unsupported("bech32.Encode of an unknown prefix")
    return (btext(E, st, h, E.content(st, d)), NILI)


@contract(PK + "Decode")
def c_decode(E, st, args):
    s = args[0]
    for h, d, t in E.__dict__.get("btexts", []):
        if E.K(t) == E.K(s) or E.rope_eq(st, t, s):
            return (h, E.new_slice(st, d), NILI)
    s1, s2 = st.fork(), st.fork()
    n = E.fresh_int("declen", 0, MAXLEN)
    h = E.sym_bytes(E.fresh_name("hrp"), E.fresh_int("hrplen", 0, MAXLEN))
    return [(s1, (h, E.new_slice(s1, E.sym_bytes(E.fresh_name("decoded"), n)), NILI)),
            (s2, (Rope(E.u8, []), SliceV(None, 0, 0, 0, 0, True), E.error()))]


USES = [A + "VariableNatEncode", A + "VariableNatDecode", PK + "Encode", PK + "Decode"]


def prefixes(kind):
    return (b"stake_test", b"stake") if kind == "reward" else (b"addr_test", b"addr")


@unit("address.String", props=["C03"], uses=USES, funcs=["(*%s).String" % t for t in TYPE.values()] + ["(*%s).Prefix" % t for t in TYPE.values()],
      parts=4)
def u_string(E):
    """the text is the bech32 of the bytes with the right prefix, and parsing it gives an equal address"""
    for kind in kinds(E):
        for net in (0, 1):
            st = State()
            p, b, i, v = make(E, st, kind, known=True)
            st.pc.append(i == net)
            h = E.string(prefixes(kind)[net])
            rs = rets(E, call(E, st, method(E, kind, "String"), [p]), kind + " String")
            feasible_some(E, rs, kind + " String")
            for s, t in rs:
                want = btext(E, s, h, b)
                prove_rope(E, s, t, want, kind + " address: text is the bech32 of the bytes with prefix " + prefixes(kind)[net].decode())
                no_writes(E, s, kind + " String")
                s0 = s.fork()
                for s2, (addr, err) in rets(E, call(E, s0, A + "NewAddress", [want]), kind + ": NewAddress of the text"):
                    E.oblige(s2, is_nil_err(err), kind + ": NewAddress accepts the text of every address")
                    if not is_nil_err(err):
                        continue
                    ok = isinstance(addr, IfaceV) and addr.ty.str == "*" + TYPE[kind]
                    E.oblige(s2, ok, kind + ": NewAddress gives an address of the same kind")
                    if ok:
                        prove_val(E, s2, E.load1(s2, addr.v), v, kind + ": NewAddress gives back an equal address")


def byron_string(E, st, addr):
    return E.call_named(st, "(*%sByronAddress).String" % A, [addr.v])


@unit("address.NewAddress", props=["C03"], uses=USES, funcs=[A + "NewAddress"])
def u_newaddress(E):
    """any text: an error, or an address whose text is exactly the input"""
    st = State()
    n = sym_len(E, "raw_len")
    raw = E.sym_bytes("raw", n)
    E.inputs = {"raw": raw}
    rs = rets(E, call(E, st, A + "NewAddress", [raw]), "NewAddress")
    feasible_some(E, [x for x in rs if is_nil_err(x[1][1])], "NewAddress")
    for s, (addr, err) in rs:
        if is_nil_err(err):
            E.oblige(s, isinstance(addr, IfaceV), "NewAddress: success gives an address")
            if isinstance(addr, IfaceV):
                for s2, t in rets(E, E.invoke(s, addr, "String", []), "NewAddress: String of the address"):
                    prove_rope(E, s2, t, raw, "NewAddress: the address prints as the text it was read from")
