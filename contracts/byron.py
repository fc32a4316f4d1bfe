"""Contracts of Byron addresses, and of addresses in transaction outputs."""
from .common import *
from . import address as AD
from engine import cbor
from engine.hashes import word

A = "address."
BY = A + "ByronAddress"


def spec(E, st, hash_, payload, net, tag, has):
    """specified encoding: [24(bytes .cbor [hash, {1: payload, 2: network}, type]), crc32]; has: which attributes are present"""
    segs = list(cbor.enc_bytes(E, st, hash_).segs)
    n = sum(has)
    attrs = [Lit([0xa0 | n])]
    if has[0]:
        attrs += [Lit([1])] + list(cbor.enc_bytes(E, st, payload).segs)
    if has[1]:
        attrs += [Lit([2])] + list(cbor.enc_bytes(E, st, net).segs)
    raw = Rope(E.u8, [Lit([0x83])] + segs + attrs + cbor.head(E, st, 0, tag))
    crc = word(E, st, "crc32", raw, 32)
    return Rope(E.u8, [Lit([0x82, 0xd8, 0x18])] + list(cbor.enc_bytes(E, st, raw).segs) + cbor.head(E, st, 0, crc)), raw


def byron(E, st, has, hn=28, tag=0):
    h = E.sym_bytes("hash", hn)
    ropes = []
    sl = []
    for name, b in zip(("payload", "netattr"), has):
        if b:
            n = sym_len(E, name + "_len", 1)
            r = E.sym_bytes(name, n)
            sl.append(E.new_slice(st, r, pre=True))
        else:
            r = Rope(E.u8, [])
            sl.append(SliceV(None, 0, 0, 0, 0, True))
        ropes.append(r)
    v = struct(E, BY, Hash=E.new_slice(st, h, pre=True), Attributes=struct(E, BY + "Attributes", Payload=sl[0], Network=sl[1]), Tag=tag)
    E.inputs = {"hash": h, "payload": ropes[0], "netattr": ropes[1]}
    return Ptr(E.new(st, v, E.prog.ty(BY), pre=True)), h, ropes, v


CASES = [(a, b) for a in (False, True) for b in (False, True)]


def bm(m):
    return "(*%s).%s" % (BY, m)


@unit("byron.encode", props=["C06", "C07"], funcs=[bm("MarshalCBOR"), bm("Bytes"), bm("String"), bm("NetworkInfo")])
def u_encode(E):
    for has in CASES:
        for tag in (0, z3.BitVec("tag", 64)):
            st = State()
            hn = 28 if isinstance(tag, int) else sym_len(E, "hash_len")
            p, h, (pay, net), v = byron(E, st, has, hn, tag)
            want, raw = spec(E, st, h, pay, net, tag, has)
            for m in ("MarshalCBOR", "Bytes"):
                rs = rets(E, call(E, st.fork(), bm(m), [p]), "Byron " + m)
                feasible_some(E, rs, "Byron " + m)
                for s, r in rs:
                    if m == "MarshalCBOR":
                        E.oblige(s, is_nil_err(r[1]), "Byron MarshalCBOR: succeeds")
                        r = r[0]
                    prove_rope(E, s, E.content(s, r), want, "Byron %s: tagged payload and its CRC-32" % m)
                    no_writes(E, s, "Byron " + m)
            for s, t in rets(E, call(E, st.fork(), bm("String"), [p]), "Byron String"):
                b58 = E.models["github.com/btcsuite/btcutil/base58.Encode"](E, s, [E.new_slice(s, want)], None)
                prove_rope(E, s, t, b58, "Byron String: base58 of the bytes")
            for s, q in rets(E, call(E, st.fork(), bm("NetworkInfo"), [p]), "Byron NetworkInfo"):
                i = E.load1(s, q)
                want_id = (0, 1097911063) if has[1] else (1, 764824073)
                for f, x in zip(("NetworkId", "ProtocolMagic"), want_id):
                    prove_val(E, s, fld(E, i, f), x, "Byron NetworkInfo: mainnet exactly when there is no network attribute")


@unit("byron.network.empty", props=["C06"], funcs=[bm("NetworkInfo")])
def u_network(E):
    """present but empty attribute: no network attribute is encoded"""
    st = State()
    p, h, r, v = byron(E, st, (False, False))
    v2 = struct(E, BY, Hash=fld(E, v, "Hash"), Attributes=struct(E, BY + "Attributes", Network=E.new_slice(st, Rope(E.u8, []), pre=True)))
    q = Ptr(E.new(st, v2, E.prog.ty(BY), pre=True))
    for s, n in rets(E, call(E, st, bm("NetworkInfo"), [q]), "Byron NetworkInfo"):
        prove_val(E, s, fld(E, E.load1(s, n), "NetworkId"), 1, "Byron NetworkInfo: mainnet when there is no network attribute")


@unit("byron.decode", props=["C06", "C02"], funcs=[bm("UnmarshalCBOR")])
def u_decode(E):
    """any bytes: an error, or an address that encodes to exactly these bytes, with a hash of 28 bytes and type zero.
    By byron.encode its encoding is the tagged payload with its CRC-32, so the input was that."""
    st = State()
    n = sym_len(E, "data_len")
    data = E.sym_bytes("data", n)
    E.inputs = {"data": data}
    sl = E.new_slice(st, data, pre=True)
    old = struct(E, BY)
    p = Ptr(E.new(st, old, E.prog.ty(BY)))
    rs = rets(E, call(E, st, bm("UnmarshalCBOR"), [p, sl]), "Byron UnmarshalCBOR")
    ok = [(s, e) for s, e in rs if is_nil_err(e)]
    feasible_some(E, ok, "Byron UnmarshalCBOR")
    for s, e in rs:
        no_writes(E, s, "Byron UnmarshalCBOR")
        if not is_nil_err(e):
            E.oblige(s, is_err(e), "Byron UnmarshalCBOR: error")
    for s, e in ok:
        v = E.load1(s, p)
        hl = fld(E, v, "Hash").n
        E.prove(s, E.idom.lift(hl) == 28, "Byron UnmarshalCBOR: the hash has 28 bytes")
        tg = fld(E, v, "Tag")
        prove_val(E, s, tg, 0, "Byron UnmarshalCBOR: the type is zero")
        for s2, r in rets(E, E.call_named(s.fork(), bm("MarshalCBOR"), [p]), "Byron UnmarshalCBOR: encode again"):
            E.oblige(s2, is_nil_err(r[1]), "Byron UnmarshalCBOR: the address can be encoded")
            if is_nil_err(r[1]):
                prove_rope(E, s2, E.content(s2, r[0]), data, "Byron UnmarshalCBOR: the address encodes to the bytes it was read from")


@unit("byron.roundtrip", props=["C06"], funcs=[bm("UnmarshalCBOR"), A + "NewAddressFromBytes"])
def u_roundtrip(E):
    """the encoding of every Byron address is accepted and gives the same fields"""
    for has in CASES:
        for fn in (bm("UnmarshalCBOR"), A + "NewAddressFromBytes"):
            st = State()
            p, h, (pay, net), v = byron(E, st, has)
            enc, raw = spec(E, st, h, pay, net, 0, has)
            sl = E.new_slice(st, enc, pre=True)
            q = Ptr(E.new(st, struct(E, BY), E.prog.ty(BY)))
            rs = rets(E, call(E, st, fn, [q, sl] if fn == bm("UnmarshalCBOR") else [sl]), "Byron decode")
            feasible_some(E, rs, "Byron decode")
            for s, e in rs:
                if fn != bm("UnmarshalCBOR"):
                    addr, e = e
                    q = addr.v if isinstance(addr, IfaceV) else None
                E.oblige(s, is_nil_err(e), "Byron: the encoding of an address is accepted by " + fn)
                if not is_nil_err(e):
                    continue
                d = E.load1(s, q)
                prove_rope(E, s, E.content(s, fld(E, d, "Hash")), h, "Byron decode: hash")
                at = fld(E, d, "Attributes")
                prove_rope(E, s, E.content(s, fld(E, at, "Payload")), pay, "Byron decode: derivation path attribute")
                prove_rope(E, s, E.content(s, fld(E, at, "Network")), net, "Byron decode: network attribute")
                prove_val(E, s, fld(E, d, "Tag"), 0, "Byron decode: type")


@unit("byron.reject", props=["C06"], funcs=[bm("UnmarshalCBOR")])
def u_reject(E):
    """inputs that are well-formed but wrong in one way"""
    st0 = State()
    h = E.sym_bytes("hash", 28)
    E.inputs = {"hash": h}
    raw = Rope(E.u8, [Lit([0x83])] + list(cbor.enc_bytes(E, st0, h).segs) + [Lit([0xa0, 0])])
    crc = word(E, st0, "crc32", raw, 32)
    other = z3.BitVec("checksum", 32)
    tag = z3.BitVec("tagnumber", 64)

    def attempt(segs, pc, what):
        st = State()
        st.pc = [pc]
        sl = E.new_slice(st, Rope(E.u8, segs), pre=True)
        q = Ptr(E.new(st, struct(E, BY), E.prog.ty(BY)))
        for s, e in rets(E, call(E, st, bm("UnmarshalCBOR"), [q, sl]), "Byron decode"):
            E.oblige(s, is_err(e), "Byron: rejects " + what)
    body = list(cbor.enc_bytes(E, st0, raw).segs)
    attempt([Lit([0x82, 0xd8, 0x18])] + body + cbor.head(E, st0, 0, other), other != crc, "a wrong checksum")
    attempt([Lit([0x82])] + cbor.head(E, st0, 6, tag) + body + cbor.head(E, st0, 0, crc), tag != 24, "another tag")


# ------------------------------------------------------------------ addresses in outputs
TO = "tx.TxOutput"


def kinds5(E):
    for n, k in enumerate(AD.KINDS + ["byron"]):
        if E.part is None or E.part == n:
            yield k


@unit("tx.TxOutput.address", props=["C07", "C08"], uses=[A + "VariableNatEncode"], parts=5,
      funcs=["(*tx.TxOutput).MarshalCBOR", "tx.NewTxOutput"])
def u_output(E):
    for kind in kinds5(E):
        for has in (CASES if kind == "byron" else [None]):
            st = State()
            amt = z3.BitVec("amount", 64)
            if kind == "byron":
                p, h, (pay, net), v = byron(E, st, has)
                b, raw = spec(E, st, h, pay, net, 0, has)
                T = BY
            else:
                p, b, i, v = AD.make(E, st, kind)
                T = AD.TYPE[kind]
            E.inputs["amount"] = amt
            addr = IfaceV(E.prog.ty("*" + T), p)
            want = Rope(E.u8, [Lit([0x82])] + list(cbor.enc_bytes(E, st, b).segs) + cbor.head(E, st, 0, amt))
            for s, o in rets(E, call(E, st.fork(), "tx.NewTxOutput", [addr, amt]), "NewTxOutput"):
                rs = rets(E, call(E, s, E.prog.methods[("*" + TO, "MarshalCBOR")], [o]), "TxOutput.MarshalCBOR")
                feasible_some(E, rs, kind + " output")
                for s2, (r, err) in rs:
                    E.oblige(s2, is_nil_err(err), kind + " output: succeeds")
                    if is_nil_err(err):
                        prove_rope(E, s2, E.content(s2, r), want, kind + " output: byte string of the raw address and the amount")
                    no_writes(E, s2, kind + " output")
                # as the library encodes it inside a transaction
                for s2, k, r in cbor.enc(E, s.fork(), E.prog.ty("*" + TO), o, True):
                    E.oblige(s2, k == "ok", kind + " output: encoded without error")
                    if k == "ok":
                        prove_rope(E, s2, r, want, kind + " output in a transaction: byte string of the raw address and the amount")
            if kind != "byron":
                for s, (r, err) in rets(E, call(E, st.fork(), AD.method(E, kind, "MarshalCBOR"), [p]), kind + " MarshalCBOR"):
                    E.oblige(s, is_nil_err(err), kind + " MarshalCBOR: succeeds")
                    if is_nil_err(err):
                        prove_rope(E, s, E.content(s, r), cbor.enc_bytes(E, s, b), kind + " MarshalCBOR: byte string of the raw bytes")
                    no_writes(E, s, kind + " MarshalCBOR")
