"""Contracts of tx and fees: structure, hash, fees, change, signing."""
from .common import *
from engine import cbor
from engine.hashes import digest
from engine.values import iadd, isub, isimp

T = "tx."
U64 = 1 << 64
I = z3.IntSort()


def ilift(v):
    return z3.IntVal(v) if isinstance(v, int) else v


# ------------------------------------------------------------------ symbolic lists
def lazy_list(E, st, name, ety, n, spare=True, nilc=False):
    """slice of n pointers to the objects which E.lazy[name] describes"""
    def at(E2, s2, j):
        return E2.lazy_ptr(name, j)
    r = Rope(E.prog.ty(ety), [Fn(("list", name), 0, n, at)])
    cap = r.n
    if spare:
        cap = E.fresh_int(name + "_cap")
        E.axiom(cap >= ilift(n))
    s = E.new_slice(st, r, pre=True, cap=cap)
    s.cap = cap
    s.nilc = nilc
    return s


def fn1(E, name, j, lo, hi):
    f = z3.Function(name, I, I)
    t = f(ilift(j))
    E.axiom(z3.And(t >= lo, t <= hi))
    return t


def seq_at(E, name, j, n):
    """sequence of n bytes belonging to element j of a list"""
    f = z3.Function(name, I, I, I)
    jj = ilift(j)

    def at(E2, s2, i):
        t = f(jj, ilift(i))
        E2.axiom(z3.And(t >= 0, t <= 255))
        return t
    return Rope(E.u8, [Fn((name, E.K(jj)), 0, n, at)])


def lazy_slice(E, name, j, n):
    p = E.lazy_ptr(name, j)
    return SliceV(p, 0, n, n)


def setup(E):
    """the objects in the lists of an arbitrary transaction"""
    def hashlen(E2, j):
        return fn1(E2, "in_hashlen", j, 0, MAXLEN)

    def inp(E2, st, j):
        return struct(E2, T + "TxInput", TxHash=lazy_slice(E2, "in.hash", j, hashlen(E2, j)),
                      Index=fn1(E2, "in_index", j, 0, 65535), Amount=amount(E2, "in", j))

    def out(E2, st, j):
        return struct(E2, T + "TxOutput", Address=address(E2, ("out", E2.K(ilift(j))), j), Amount=amount(E2, "out", j))

    def wit(E2, st, j):
        return struct(E2, T + "VKeyWitness", VKey=lazy_slice(E2, "wit.key", j, 32), Signature=lazy_slice(E2, "wit.sig", j, 64))

    E.lazy.update({"in": inp, "out": out, "wit": wit,
                   "in.hash": lambda E2, st, j: seq_at(E2, "in_hash", j, hashlen(E2, j)),
                   "wit.key": lambda E2, st, j: seq_at(E2, "wit_key", j, 32),
                   "wit.sig": lambda E2, st, j: seq_at(E2, "wit_sig", j, 64)})
    E.invokes[("addr", "Bytes")] = addr_bytes
    E.invokes[("addr", "MarshalCBOR")] = addr_marshal
    E.assumed.append("addresses in outputs: Bytes() gives the address's raw bytes and changes nothing (contracts of the address package, "
                     "discharged by C01, C06 and C07)")


def amount(E, name, j):
    return fn1(E, name + "_amount", j, 0, U64 - 1)


def address(E, key, j=None):
    return OpaqueV("addr", key, False, j)


def addr_content(E, a):
    if a.data is not None and a.key[0] == "out":
        return seq_at(E, "out_addr", a.data, fn1(E, "out_addrlen", a.data, 1, 1 << 20))
    tab = E.__dict__.setdefault("addrs", {})
    if a.key not in tab:
        n = z3.Int("addrlen_%s" % (a.key,))
        E.axiom(z3.And(n >= 1, n <= 1 << 20))
        tab[a.key] = E.sym_bytes("addr_%s" % (a.key,), n)
    return tab[a.key]


def addr_bytes(E, st, a, args):
    return E.new_slice(st, addr_content(E, a))


def addr_marshal(E, st, a, args):
    return (E.new_slice(st, cbor.enc_bytes(E, st, addr_content(E, a))), NILI)


class TX:
    pass


def any_tx(E, st, witnesses=True, name=""):
    """an arbitrary transaction"""
    if "in" not in E.lazy:
        setup(E)
    t = TX()
    t.ni, t.no = sym_len(E, "inputs"), sym_len(E, "outputs")
    t.nw = sym_len(E, "witnesses") if witnesses else 0
    t.fee = E.vdom.fresh(E, "fee", 64, False)
    t.ttl = E.vdom.fresh(E, "ttl", 32, False)
    t.auxn = sym_len(E, "auxlen")
    t.valid = z3.Bool("valid")
    t.meta = OpaqueV("any", "metadata", z3.Bool("no_metadata"))
    t.ins = lazy_list(E, st, "in", "*tx.TxInput", t.ni)
    t.outs = lazy_list(E, st, "out", "*tx.TxOutput", t.no)
    t.keys = lazy_list(E, st, "wit", "*tx.VKeyWitness", t.nw, nilc=z3.And(z3.Bool("keys_nil"), ilift(t.nw) == 0))
    t.body = Ptr(E.new(st, struct(E, T + "TxBody", Inputs=t.ins, Outputs=t.outs, Fee=t.fee, TTL=t.ttl,
                                  AuxiliaryDataHash=sym_slice(E, st, "oldaux", t.auxn)), E.prog.ty(T + "TxBody"), pre=True))
    t.witness = Ptr(E.new(st, struct(E, T + "Witness", Keys=t.keys), E.prog.ty(T + "Witness"), pre=True))
    t.tx = Ptr(E.new(st, struct(E, T + "Tx", Body=t.body, Witness=t.witness, Valid=t.valid, Metadata=t.meta), E.prog.ty(T + "Tx"), pre=True))
    E.inputs = {"inputs": t.ni, "outputs": t.no, "witnesses": t.nw, "fee": t.fee, "ttl": t.ttl, "valid": t.valid, "no_metadata": t.meta.isnil}
    return t


# ------------------------------------------------------------------ specification of the encoding
def lit(E, *b):
    return Rope(E.u8, [Lit(list(b))])


def cat(E, *rs):
    return Rope(E.u8, [g for r in rs for g in r.segs])


def spec_input(E, s, h, ix):
    return cat(E, lit(E, 0x82), cbor.enc_bytes(E, s, h), cbor.enc_uint(E, s, ix))


def spec_output(E, s, a, am):
    return cat(E, lit(E, 0x82), cbor.enc_bytes(E, s, a), cbor.enc_uint(E, s, am))


def spec_witness(E, s, k, g):
    return cat(E, lit(E, 0x82), cbor.enc_bytes(E, s, k), cbor.enc_bytes(E, s, g))


def spec_list(E, st, items):
    """items: [("in"|"out"|"wit"|..., n) | Rope of one element]; array of their encodings"""
    n = 0
    segs = []
    for it in items:
        if isinstance(it, Rope):
            n = iadd(n, 1)
            segs += it.segs
            continue
        name, k, elem = it
        n = iadd(n, k)

        def at(E2, s2, j, name=name):
            return E2.lazy_ptr(name, j)
        g = Fn(("list", name), 0, k, at)
        for s, kind, r in cbor.list_seg(E, st, None, g, False, elem=lambda s2, elem=elem: elem(E, s2, cbor.LJ)):
            segs += r.segs
    return Rope(E.u8, cbor.head(E, st, 4, n) + segs)


def e_in(E, s, j):
    v = E.lazy["in"](E, s, j)
    return spec_input(E, s, E.content(s, fld(E, v, "TxHash")), fld(E, v, "Index"))


def e_out(E, s, j):
    v = E.lazy["out"](E, s, j)
    return spec_output(E, s, addr_content(E, fld(E, v, "Address")), fld(E, v, "Amount"))


def e_wit(E, s, j):
    return spec_witness(E, s, seq_at(E, "wit_key", j, 32), seq_at(E, "wit_sig", j, 64))


def spec_body(E, s, ins, outs, fee, ttl, meta):
    """[(state, Rope)] by cases of ttl and metadata; meta: Rope of the metadata's encoding, or None"""
    res = []
    for s1, nottl in cbor.split(E, s, E.idom.lift(ttl) == 0 if not isinstance(ttl, int) else ttl == 0):
        es = [lit(E, 0), spec_list(E, s1, ins), lit(E, 1), spec_list(E, s1, outs), lit(E, 2), cbor.enc_uint(E, s1, fee)]
        n = 3
        if not nottl:
            es += [lit(E, 3), cbor.enc_uint(E, s1, ttl)]
            n += 1
        if meta is not None:
            es += [lit(E, 7), cbor.enc_bytes(E, s1, Rope(E.u8, [Lit(digest(E, s1, "blake2b256", meta, 32))]))]
            n += 1
        res.append((s1, cat(E, lit(E, 0xa0 + n), *es)))
    return res


def spec_wits(E, s, wits):
    out = []
    n = 0
    for w in wits:
        n = iadd(n, 1 if isinstance(w, Rope) else w[1])
    c = n == 0 if isinstance(n, int) else ilift(n) == 0
    for s1, none in cbor.split(E, s, c):
        out.append((s1, lit(E, 0xa0) if none else cat(E, lit(E, 0xa1, 0), spec_list(E, s1, wits))))
    return out


def meta_rope(E, s, meta):
    """[(state, Rope or None, encodable)]"""
    out = []
    for s1, isnil in cbor.split(E, s, meta.isnil):
        if isnil:
            out.append((s1, None, True))
            continue
        for s2, k, r in cbor.opaque(E, s1, meta, True):
            out.append((s2, r if k == "ok" else None, k == "ok"))
    return out


def spec_tx(E, s, ins, outs, fee, ttl, wits, valid, meta):
    """[(state, body Rope, tx Rope)], tx None when the metadata cannot be encoded"""
    res = []
    for s1, m, ok in meta_rope(E, s, meta):
        if not ok:
            res.append((s1, None, None))
            continue
        for s2, b in spec_body(E, s1, ins, outs, fee, ttl, m):
            for s3, w in spec_wits(E, s2, wits):
                for s4, v in cbor.split(E, s3, valid):
                    res.append((s4, b, cat(E, lit(E, 0x84), b, w, lit(E, 0xf5 if v else 0xf4), m if m is not None else lit(E, 0xf6))))
    return res


def std(t):
    return ([("in", t.ni, e_in)], [("out", t.no, e_out)], t.fee, t.ttl, [("wit", t.nw, e_wit)], t.valid, t.meta)


def aux_field(E):
    for i, fd in enumerate(E.prog.ty(T + "TxBody").u.fields):
        if fd["name"] == "AuxiliaryDataHash":
            return i


def frame(E, s, t, what, allow=("aux",)):
    """only the metadata hash of the body may change"""
    w = [x for x in s.notes.get("writes", ()) if not (x[0] == t.body.oid and x[1][:1] == (aux_field(E),))]
    return E.oblige(s, not w, what + ": changes nothing but the metadata hash", "writes to %s" % (w,))


def bytes_of(E, s, fn, args, what):
    """[(state, Rope or None)] for a function giving ([]byte, error)"""
    out = []
    for s2, (b, err) in rets(E, E.call_named(s, fn, args), what):
        if is_nil_err(err):
            out.append((s2, E.content(s2, b)))
        else:
            E.oblige(s2, is_err(err), what + ": error otherwise")
            out.append((s2, None))
    return out


# ------------------------------------------------------------------ C08: structure
@unit("tx.Bytes", props=["C08", "C10"], dom="int", funcs=["(*tx.Tx).Bytes", "(*tx.Tx).CalculateAuxiliaryDataHash", "(*tx.TxInput).MarshalCBOR",
                                                  "(*tx.TxOutput).MarshalCBOR"])
def u_bytes(E):
    st = State()
    t = any_tx(E, st)
    outs = call(E, st, "(*tx.Tx).Bytes", [t.tx])
    ok = 0
    for s, (b, err) in rets(E, outs, "Tx.Bytes"):
        frame(E, s, t, "Tx.Bytes")
        for s2, body, want in spec_tx(E, s, *std(t)):
            if want is None:
                E.oblige(s2, is_err(err), "Tx.Bytes: metadata that cannot be encoded gives an error")
                continue
            if not E.oblige(s2, is_nil_err(err), "Tx.Bytes: succeeds when the metadata can be encoded"):
                continue
            ok += 1
            prove_rope(E, s2, E.content(s2, b), want, "Tx.Bytes: array of body, witness set, validity and metadata with exactly the content")
            aux = fld(E, E.load1(s2, t.body), "AuxiliaryDataHash")
            check_aux(E, s2, t, aux, "Tx.Bytes")
    E.oblige(None, ok > 0, "Tx.Bytes: specification is not vacuous")


def check_aux(E, s, t, aux, what):
    for s3, m, mok in meta_rope(E, s, t.meta):
        if not mok:
            continue
        if m is None:
            E.prove(s3, ilift(aux.n) == 0, what + ": no metadata hash when there is no metadata")
        else:
            prove_rope(E, s3, E.content(s3, aux), Rope(E.u8, [Lit(digest(E, s3, "blake2b256", m, 32))]),
                       what + ": the metadata hash is the digest of the metadata as serialized")


@unit("tx.Hash", props=["C09", "C10"], dom="int", funcs=["(*tx.Tx).Hash", "(*tx.Tx).CalculateAuxiliaryDataHash"])
def u_hash(E):
    st = State()
    t = any_tx(E, st)
    ok = 0
    for s, (h, err) in rets(E, call(E, st, "(*tx.Tx).Hash", [t.tx]), "Tx.Hash"):
        frame(E, s, t, "Tx.Hash")
        for s2, body, want in spec_tx(E, s, *std(t)):
            if want is None:
                E.oblige(s2, is_err(err), "Tx.Hash: metadata that cannot be encoded gives an error")
                continue
            if not E.oblige(s2, is_nil_err(err), "Tx.Hash: succeeds when the metadata can be encoded"):
                continue
            ok += 1
            prove_rope(E, s2, Rope(E.u8, [Lit(h.v)]), Rope(E.u8, [Lit(digest(E, s2, "blake2b256", body, 32))]),
                       "Tx.Hash: Blake2b-256 of the body as serialized")
            check_aux(E, s2, t, fld(E, E.load1(s2, t.body), "AuxiliaryDataHash"), "Tx.Hash")
    E.oblige(None, ok > 0, "Tx.Hash: specification is not vacuous")


def lfee(E, st):
    a, b = E.vdom.fresh(E, "per_byte", 64, False), E.vdom.fresh(E, "fixed", 64, False)
    return a, b


def linear(E, a, b, n):
    return b + E.product(a, ilift(n))


@unit("tx.Fee", props=["C11", "C10", "C09"], dom="int", funcs=["(*tx.Tx).Fee", "fees.NewLinearFee"])
def u_fee(E):
    st = State()
    t = any_tx(E, st)
    a, b = lfee(E, st)
    E.inputs.update({"per_byte": a, "fixed": b})
    ok = 0
    for s0, lf in rets(E, call(E, st, "fees.NewLinearFee", [a, b]), "NewLinearFee"):
        v = E.load1(s0, lf)
        prove_val(E, s0, fld(E, v, "TxFeePerByte"), a, "NewLinearFee: per-byte fee")
        prove_val(E, s0, fld(E, v, "TxFeeFixed"), b, "NewLinearFee: fixed fee")
        for s1, body, want in spec_tx(E, s0.fork(), *std(t)):
            if want is not None:
                p = linear(E, a, b, want.n)
                s1.pc.append(p < U64)
            for s, (fee, err) in rets(E, call(E, s1.fork(), "(*tx.Tx).Fee", [t.tx, lf]), "Tx.Fee"):
                frame(E, s, t, "Tx.Fee")
                if want is None:
                    E.oblige(s, is_err(err), "Tx.Fee: metadata that cannot be encoded gives an error")
                    continue
                if not E.oblige(s, is_nil_err(err), "Tx.Fee: succeeds when the metadata can be encoded"):
                    continue
                ok += 1
                E.prove(s, ilift(fee) == p, "Tx.Fee: fixed part plus per-byte part times the serialized size")
                check_aux(E, s, t, fld(E, E.load1(s, t.body), "AuxiliaryDataHash"), "Tx.Fee")
    E.oblige(None, ok > 0, "Tx.Fee: specification is not vacuous")


@unit("tx.repeat", props=["C09"], dom="int", funcs=["(*tx.Tx).Hash", "(*tx.Tx).Bytes", "(*tx.Tx).Fee"])
def u_repeat(E):
    """one operation after another: with the frame conditions of each this covers every order and number of calls"""
    st = State()
    t = any_tx(E, st)
    a, b = lfee(E, st)
    lf = Ptr(E.new(st, struct(E, "fees.LinearFee", TxFeePerByte=a, TxFeeFixed=b), pre=True))
    ops = {"Hash": [t.tx], "Bytes": [t.tx], "Fee": [t.tx, lf]}
    for first, a1 in ops.items():
        for s, r1 in rets(E, E.call_named(st.fork(), "(*tx.Tx)." + first, a1), first):
            if not is_nil_err(r1[1]):
                continue
            for second in ("Hash", "Bytes"):
                for s2, r2 in rets(E, E.call_named(s.fork(), "(*tx.Tx)." + second, ops[second]), second):
                    if not E.oblige(s2, is_nil_err(r2[1]), "%s after %s succeeds" % (second, first)):
                        continue
                    for s3, body, want in spec_tx(E, s2, *std(t)):
                        if want is None:
                            E.oblige(s3, False, "cannot be")
                        elif second == "Hash":
                            prove_rope(E, s3, Rope(E.u8, [Lit(r2[0].v)]), Rope(E.u8, [Lit(digest(E, s3, "blake2b256", body, 32))]),
                                       "Hash after %s: the digest of the body" % first)
                        else:
                            prove_rope(E, s3, E.content(s3, r2[0]), want, "Bytes after %s: the same bytes" % first)
                    frame(E, s2, t, "%s after %s" % (second, first))


# ------------------------------------------------------------------ C08: how the content gets there
def fidx(E, tname, f):
    for i, fd in enumerate(E.prog.ty(tname).u.fields):
        if fd["name"] == f:
            return i
    raise Unsupported("type %s has no field %s" % (tname, f))


def only(E, s, what, allowed):
    """frame: writes only to the given (object, first field) places"""
    w = [x for x in s.notes.get("writes", ()) if not any(x[0] == o and (f is None or x[1][:1] == (f,)) for o, f in allowed)]
    return E.oblige(s, not w, what + ": changes nothing else", "writes to %s" % (w,))


def protocol(E):
    v = {}
    pv = struct(E, "protocol.ProtocolVersion", Major=E.vdom.fresh(E, "major", 8, False), Minor=E.vdom.fresh(E, "minor", 8, False))
    for f in ("TxFeePerByte", "TxFeeFixed", "MaxTxSize", "MinUTXOValue"):
        v[f] = E.vdom.fresh(E, f, 64, False)
        E.inputs[f] = v[f]
    return struct(E, "protocol.Protocol", ProtocolVersion=pv, **v), v["TxFeePerByte"], v["TxFeeFixed"]


def key_bytes(E, name, j):
    return seq_at(E, name + "_bytes", j, 96)


def key_list(E, st, name, n, pre=True):
    def at(E2, s2, j):
        return SliceV(E2.lazy_ptr(name, j), 0, 96, 96)
    E.lazy[name] = lambda E2, s2, j: key_bytes(E2, name, j)
    r = Rope(E.prog.ty("bip32.XPrv"), [Fn(("list", name), 0, n, at)])
    cap = E.fresh_int(name + "_cap")
    E.axiom(cap >= ilift(n))
    s = E.new_slice(st, r, pre=pre, cap=cap)
    s.cap = cap
    s.nilc = z3.And(z3.Bool(name + "_nil"), ilift(n) == 0)
    return s


def any_builder(E, st):
    t = any_tx(E, st)
    t.nx = sym_len(E, "keys")
    t.xprvs = key_list(E, st, "xprv", t.nx)
    t.protocol, t.a, t.b = protocol(E)
    E.inputs["keys"] = t.nx
    t.builder = Ptr(E.new(st, struct(E, T + "TxBuilder", tx=t.tx, xprvs=t.xprvs, protocol=t.protocol), E.prog.ty(T + "TxBuilder"), pre=True))
    return t


def given_list(E, st, name, ety):
    """list given by the caller, with capacity to spare"""
    n = sym_len(E, name + "_n")
    E.inputs[name] = n
    base = {"newin": "in", "newout": "out"}[name]
    if base == "in":
        E.lazy[name] = lambda E2, s2, j: struct(E2, T + "TxInput", TxHash=lazy_slice(E2, "newin.hash", j, 32),
                                                Index=fn1(E2, "newin_index", j, 0, 65535), Amount=amount(E2, "newin", j))
        E.lazy["newin.hash"] = lambda E2, s2, j: seq_at(E2, "newin_hash", j, 32)
    else:
        E.lazy[name] = lambda E2, s2, j: struct(E2, T + "TxOutput", Address=address(E2, ("newout", E2.K(ilift(j)))), Amount=amount(E2, "newout", j))
    return lazy_list(E, st, name, ety, n), n


def untouched(E, s, sl, before, what):
    """the caller's slice is as it was, including what lies in its spare capacity"""
    E.oblige(s, sl.ptr.oid not in s.notes.get("spare", ()) and not any(x[0] == sl.ptr.oid for x in s.notes.get("writes", ())),
             what + ": the caller's slice is not written to")
    prove_rope(E, s, E.content(s, sl), before, what + ": the caller's slice is unchanged")


@unit("tx.add", props=["C08", "C15"], dom="int", funcs=["(*tx.Tx).AddInputs", "(*tx.Tx).AddOutputs", "(*tx.TxBuilder).AddInputs",
                                                "(*tx.TxBuilder).AddOutputs"])
def u_add(E):
    for fld_, name, ety, m in (("Inputs", "newin", "*tx.TxInput", "AddInputs"), ("Outputs", "newout", "*tx.TxOutput", "AddOutputs")):
        for recv in ("Tx", "TxBuilder"):
            st = State()
            t = any_builder(E, st)
            g, n = given_list(E, st, name, ety)
            before = E.content(st, g)
            old = E.content(st, t.ins if fld_ == "Inputs" else t.outs)
            fn = "(*tx.%s).%s" % (recv, m)
            rs = rets(E, call(E, st, fn, [t.tx if recv == "Tx" else t.builder, g]), fn)
            feasible_some(E, rs, fn)
            for s, r in rs:
                body = E.load1(s, t.body)
                prove_rope(E, s, E.content(s, fld(E, body, fld_)), E.concat(old, before), fn + ": appends in the order given")
                only(E, s, fn, [(t.body.oid, fidx(E, T + "TxBody", fld_))])
                untouched(E, s, g, before, fn)
                if recv == "Tx":
                    E.oblige(s, is_nil_err(r), fn + ": no error")


@unit("tx.new", props=["C08", "C15"], dom="int", funcs=["tx.NewTx", "tx.NewTxBody", "tx.NewTxInput", "tx.NewTxOutput", "tx.NewTxBuilder",
                                                "tx.NewTXWitness", "tx.NewVKeyWitness", "(*tx.TxBuilder).SetTTL", "(*tx.Tx).SetFee",
                                                "(*tx.TxBuilder).Tx"])
def u_new(E):
    setup(E)

    def empty_tx(s, p, what):
        v = E.load1(s, p)
        b, w = E.load1(s, fld(E, v, "Body")), E.load1(s, fld(E, v, "Witness"))
        for f in ("Inputs", "Outputs"):
            x = fld(E, b, f)
            E.oblige(s, x.n == 0 and x.nilc is False, what + ": no %s, not null" % f.lower())
        E.oblige(s, fld(E, b, "Fee") == 0 and fld(E, b, "TTL") == 0 and fld(E, b, "AuxiliaryDataHash").n == 0, what + ": empty body")
        E.oblige(s, fld(E, w, "Keys").n == 0, what + ": no witnesses")
        E.oblige(s, fld(E, v, "Valid") is True, what + ": valid")
        E.oblige(s, isinstance(fld(E, v, "Metadata"), NilIface), what + ": no metadata")
    for s, p in rets(E, call(E, State(), "tx.NewTx", []), "NewTx"):
        empty_tx(s, p, "NewTx")
    # inputs and outputs
    st = State()
    n = sym_len(E, "txhash_len")
    raw = E.sym_bytes("txhash", n)
    hx = E.models["encoding/hex.EncodeToString"](E, st, [E.new_slice(st, raw, pre=True)], None)
    ix, am = E.vdom.fresh(E, "index", 16, False), E.vdom.fresh(E, "amount", 64, False)
    for s, p in rets(E, call(E, st, "tx.NewTxInput", [hx, ix, am]), "NewTxInput"):
        v = E.load1(s, p)
        prove_rope(E, s, E.content(s, fld(E, v, "TxHash")), raw, "NewTxInput: the hash given in hex")
        prove_val(E, s, fld(E, v, "Index"), ix, "NewTxInput: index")
        prove_val(E, s, fld(E, v, "Amount"), am, "NewTxInput: amount")
    st = State()
    a = address(E, "given")
    for s, p in rets(E, call(E, st, "tx.NewTxOutput", [a, am]), "NewTxOutput"):
        v = E.load1(s, p)
        prove_val(E, s, fld(E, v, "Address"), a, "NewTxOutput: address")
        prove_val(E, s, fld(E, v, "Amount"), am, "NewTxOutput: amount")
    # witnesses
    st = State()
    k, g = E.sym_bytes("vkey", 32), E.sym_bytes("signature", 64)
    for s, p in rets(E, call(E, st, "tx.NewVKeyWitness", [E.new_slice(st, k, pre=True), E.new_slice(st, g, pre=True)]), "NewVKeyWitness"):
        v = E.load1(s, p)
        prove_rope(E, s, E.content(s, fld(E, v, "VKey")), k, "NewVKeyWitness: key")
        prove_rope(E, s, E.content(s, fld(E, v, "Signature")), g, "NewVKeyWitness: signature")
    st = State()
    m = sym_len(E, "given_wits")
    ws = lazy_list(E, st, "wit", "*tx.VKeyWitness", m)
    for s, p in rets(E, call(E, st, "tx.NewTXWitness", [ws]), "NewTXWitness"):
        prove_rope(E, s, E.content(s, fld(E, E.load1(s, p), "Keys")), E.content(s, ws), "NewTXWitness: exactly the given witnesses")
        no_writes(E, s, "NewTXWitness")
    # builder
    st = State()
    pr, _, _ = protocol(E)
    nk = sym_len(E, "given_keys")
    ks = key_list(E, st, "given", nk)
    before = E.content(st, ks)
    nrs = rets(E, call(E, st, "tx.NewTxBuilder", [pr, ks]), "NewTxBuilder")
    feasible_some(E, nrs, "NewTxBuilder")
    for s, p in nrs:
        v = E.load1(s, p)
        for s1, q in rets(E, call(E, s.fork(), "(*tx.TxBuilder).Tx", [p]), "TxBuilder.Tx"):
            empty_tx(s1, q, "NewTxBuilder")
        untouched(E, s, ks, before, "NewTxBuilder")
        # a key added later does not reach the slice of the caller, nor does one in that slice reach the builder
        nk2 = SliceV(E.lazy_ptr("given", z3.Int("other")), 0, 96, 96)
        for s1, _ in rets(E, call(E, s.fork(), "(*tx.TxBuilder).Sign", [p, nk2]), "TxBuilder.Sign"):
            untouched(E, s1, ks, before, "TxBuilder.Sign")
            xs = [x for x, fd in zip(E.load1(s1, p).f, v.ty.u.fields) if isinstance(x, SliceV)]
            E.oblige(s1, bool(xs) and all(x.ptr is None or x.ptr.oid != ks.ptr.oid for x in xs), "NewTxBuilder: keeps its own copy of the keys")
    # setters
    st = State()
    t = any_builder(E, st)
    ttl = E.vdom.fresh(E, "newttl", 32, False)
    for s, _ in rets(E, call(E, st.fork(), "(*tx.TxBuilder).SetTTL", [t.builder, ttl]), "SetTTL"):
        prove_val(E, s, fld(E, E.load1(s, t.body), "TTL"), ttl, "SetTTL: time to live")
        only(E, s, "SetTTL", [(t.body.oid, fidx(E, T + "TxBody", "TTL"))])
    for s, _ in rets(E, call(E, st.fork(), "(*tx.Tx).SetFee", [t.tx, am]), "SetFee"):
        prove_val(E, s, fld(E, E.load1(s, t.body), "Fee"), am, "SetFee: fee")
        only(E, s, "SetFee", [(t.body.oid, fidx(E, T + "TxBody", "Fee"))])
    for s, q in rets(E, call(E, st.fork(), "(*tx.TxBuilder).Tx", [t.builder]), "TxBuilder.Tx"):
        prove_val(E, s, q, t.tx, "TxBuilder.Tx: the transaction")
        no_writes(E, s, "TxBuilder.Tx")


@unit("tx.Hex", props=["C08"], dom="int", funcs=["(*tx.Tx).Hex", "(*tx.TxBody).Bytes", "(*tx.TxBody).Hex"])
def u_hex(E):
    for hexf, bytf, which in (("(*tx.Tx).Hex", "(*tx.Tx).Bytes", "tx"), ("(*tx.TxBody).Hex", "(*tx.TxBody).Bytes", "body")):
        st = State()
        t = any_tx(E, st)
        arg = t.tx if which == "tx" else t.body
        for s, b in bytes_of(E, st.fork(), bytf, [arg], bytf):
            for s2, (h, err) in rets(E, E.call_named(s.fork(), hexf, [arg]), hexf):
                if b is None:
                    continue
                if E.oblige(s2, is_nil_err(err), hexf + ": succeeds when the bytes do"):
                    want = E.models["encoding/hex.EncodeToString"](E, s2, [E.new_slice(s2, b)], None)
                    prove_rope(E, s2, h, want, hexf + ": hex of the bytes")
        for s2, (h, err) in rets(E, call(E, st.fork(), hexf, [arg]), hexf):
            frame(E, s2, t, hexf)
    # body alone, without metadata hash
    st = State()
    t = any_tx(E, st)
    st.pc.append(ilift(t.auxn) == 0)
    st.pc.append(z3.Bool("no_metadata"))
    for s, b in bytes_of(E, st, "(*tx.TxBody).Bytes", [t.body], "TxBody.Bytes"):
        if E.oblige(s, b is not None, "TxBody.Bytes: succeeds"):
            i, o, f, l, _, _, _ = std(t)
            for s2, want in spec_body(E, s, i, o, f, l, None):
                prove_rope(E, s2, b, want, "TxBody.Bytes: the body map")


# ------------------------------------------------------------------ totals
def SUM(E, name, n, j):
    """sum of the amounts of the first j of the n elements of a list; amounts are not negative"""
    f = z3.Function(name + "_sum", I, I)
    j = ilift(j)
    t = f(j)
    E.axiom(f(z3.IntVal(0)) == 0)
    E.axiom(t >= 0)
    E.axiom(z3.Implies(z3.And(j >= 0, j < ilift(n)), z3.And(f(isimp_(j + 1)) == t + amount(E, name, j), f(isimp_(j + 1)) <= f(ilift(n)))))
    E.axiom(z3.Implies(z3.And(j >= 0, j <= ilift(n)), t <= f(ilift(n))))
    return t


def isimp_(t):
    return ilift(isimp(t))


def sum_templates(E, t):
    """loop invariants: an accumulator holds the sum of the amounts seen so far; the dummy witnesses added so far; the fee passes"""
    def acc(name, n):
        def T_(E2, s, entry, k):
            if isinstance(entry, (bool, z3.BoolRef)) or not isinstance(entry, (int, z3.ArithRef)):
                return None
            return isimp(ilift(entry) + SUM(E2, name, n, k.t))
        return T_
    E.templates += [acc("in", t.ni), acc("out", t.no)]
    def dummies(E2, s, entry, k):
        if not isinstance(entry, SliceV):
            return None
        et = E2.prog.ty("*tx.VKeyWitness")
        old = E2.content(E2.entry_st, entry, et)
        if old.segs and old.et is not None and getattr(old.et, "str", "") != et.str:
            return None

        def at(E3, s3, j):
            return E3.lazy_ptr("dummy", j)
        return SeqT(Rope(et, list(old.segs) + [Fn(("list", "dummy"), 0, k.t, at)]))
    E.lazy["dummy"] = lambda E2, s2, j: struct(E2, T + "VKeyWitness", VKey=lazy_slice(E2, "dummy.key", j, 32),
                                               Signature=lazy_slice(E2, "dummy.sig", j, 64))
    E.lazy["dummy.key"] = lambda E2, s2, j: Rope(E2.u8, [Lit([0] * 32)])
    E.lazy["dummy.sig"] = lambda E2, s2, j: Rope(E2.u8, [Lit([0] * 64)])
    E.templates.append(dummies)

    def passes(shift):
        """the fee of pass k: X(0) = 0, X(k+1) = linear fee of the size with the fee X(k) in the body"""
        def T_(E2, s, entry, k):
            if isinstance(entry, (bool, z3.BoolRef)) or not isinstance(entry, (int, z3.ArithRef)):
                return None
            X = z3.Function("fee_pass", I, I)
            if shift == 0:
                if not (isinstance(entry, int) and entry == 0):
                    return None
            else:
                base = fee_base(E2, E2.entry_st, t, entry)
                if base is None:
                    return None
                for j in {E2.K(k.t): k.t}.values():
                    x, x1 = X(ilift(j)), X(isimp_(ilift(j) + 1))
                    E2.axiom(z3.And(x >= 0, x < U64))
                    hl = 1 if isinstance(j, int) and j == 0 else cbor.head(E2, s, 0, x)[0].n
                    E2.axiom(x1 == t.b + E2.product(t.a, ilift(isimp(ilift(base) + hl))))
                    E2.axiom(z3.And(x1 >= 0, x1 < U64))
            E2.axiom(X(z3.IntVal(0)) == 0)
            return 0 if shift == 0 and isinstance(k.t, int) and k.t == 0 else X(isimp_(ilift(k.t) + shift))
        return T_
    E.templates += [passes(0), passes(1)]


def fee_base(E, st, t, e0):
    """the size without the fee's head, when e0 is the linear fee of a transaction with fee 0"""
    tab = E.__dict__.setdefault("feebase", {})
    k = E.K(e0)
    if k not in tab:
        tab[k] = None
        for (x, y), p in reversed(list(E.__dict__.get("products", {}).values())):
            other = y if z3.eq(x, t.a) else x if z3.eq(y, t.a) else None
            if other is not None and z3.is_true(z3.simplify(ilift(e0) == t.b + p)):
                tab[k] = isimp(other - 1)
                break
    return tab[k]


CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def bech32_valid(s):
    """reference check of a literal address in the source"""
    if s != s.lower() or "1" not in s:
        return False
    h, d = s.rsplit("1", 1)
    if len(d) < 6 or any(c not in CH for c in d):
        return False
    c = 1
    for v in [ord(x) >> 5 for x in h] + [0] + [ord(x) & 31 for x in h] + [CH.index(x) for x in d]:
        b = c >> 25
        c = (c & 0x1ffffff) << 5 ^ v
        for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
            c ^= g if (b >> i) & 1 else 0
    if c != 1:
        return False
    bits = "".join(format(CH.index(x), "05b") for x in d[:-6])
    raw = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) // 8 * 8, 8))
    return len(raw) == 57 and raw[0] >> 4 <= 3 and raw[0] & 15 <= 1 and set(bits[len(raw) * 8:]) <= {"0"}


def parse_address(E, st, args, ins=None):
    """contract of address.NewAddress (C03): an address, or an error; an address for the text of a base address"""
    c = args[0].concrete()
    if c is not None and bech32_valid(c.decode("utf-8", "replace")):
        return (address(E, "literal"), NILI)
    s1, s2 = st.fork(), st.fork()
    return [(s1, (address(E, E.fresh_name("parsed")), NILI)), (s2, (NILI, E.error()))]


def fee_fits(E, t):
    """precondition: the linear fee of every serialized size stays below 2^64"""
    prod = E.product

    def product(X, Y):
        p = prod(X, Y)
        for z in (X, Y):
            if z3.eq(ilift(z), t.a):
                E.axiom(t.b + p < U64)
        return p
    E.product = product
    E.axiom(t.b < U64)


def change_setup(E):
    st = State()
    E.soft = 1500
    t = any_builder(E, st)
    sum_templates(E, t)
    E.bounds = [t.nx + 1]
    fee_fits(E, t)
    E.models["address.NewAddress"] = parse_address
    E.assumed.append("address.NewAddress by its contract (C03)")
    t.si, t.so = SUM(E, "in", t.ni, t.ni), SUM(E, "out", t.no, t.no)
    st.pc += [t.si < U64, t.so < U64]
    E.inputs.update({"total_in": t.si, "total_out": t.so})
    return st, t


@unit("tx.AddChangeIfNeeded", props=["C12", "C13"], dom="int", parts=8,
      funcs=["(*tx.TxBuilder).AddChangeIfNeeded", "(tx.TxBuilder).minFee", "(tx.TxBuilder).getTotalInputOutputs", "(*tx.Tx).Fee", "tx.NewTXWitness"])
def u_change(E):
    for p in range(8):
        if E.part is not None and E.part != p:
            continue
        E.templates = []
        st, t = change_setup(E)
        st.pc.append(z3.Bool("no_metadata") if p & 1 else z3.Not(z3.Bool("no_metadata")))
        st.pc.append(t.ttl == 0 if p & 2 else t.ttl > 0)
        st.pc.append(t.nw == 0 if p & 4 else t.nw > 0)
        addr = address(E, "change")
        rs = rets(E, call(E, st, "(*tx.TxBuilder).AddChangeIfNeeded", [t.builder, addr]), "AddChangeIfNeeded")
        feasible_some(E, rs, "AddChangeIfNeeded")
        old = E.content(st, t.outs)
        what = "AddChangeIfNeeded"
        for s, _ in rs:
            if not E.feasible(s):
                continue
            body = E.load1(s, t.body)
            fee = ilift(fld(E, body, "Fee"))
            only(E, s, what, [(t.body.oid, fidx(E, T + "TxBody", "Fee")), (t.body.oid, fidx(E, T + "TxBody", "Outputs"))])
            prove_rope(E, s, E.content(s, fld(E, body, "Inputs")), E.content(s, t.ins), what + ": inputs unchanged")
            outs = E.content(s, fld(E, body, "Outputs"))
            items = [("out", t.no, e_out)]
            for s2, covers in cbor.split(E, s, t.si > t.so + fee):
                if not covers:
                    prove_rope(E, s2, outs, old, what + ": no output is added when there is no change")
                    continue
                if not E.oblige(s2, E.same_int(s2, outs.n, iadd(old.n, 1)), what + ": one output is added when there is change"):
                    continue
                prove_rope(E, s2, E.sub(s2, outs, 0, old.n), old, what + ": the outputs before are unchanged")
                ch = E.load1(s2, E.at(s2, outs, old.n))
                prove_val(E, s2, fld(E, ch, "Address"), addr, what + ": change goes to the given address")
                E.prove(s2, t.si == t.so + ilift(fld(E, ch, "Amount")) + fee, what + ": inputs equal outputs plus change plus fee")
                items = items + [spec_output(E, s2, addr_content(E, addr), fld(E, ch, "Amount"))]
            # the transaction built and signed afterwards
            nf = sym_len(E, "signers")
            for s2, covers in cbor.split(E, s, t.si > t.so + fee):
                s2 = s2.fork()
                s2.pc.append(z3.Or(nf <= 1, nf <= t.nx))
                for s3, b, full in spec_tx(E, s2, [("in", t.ni, e_in)], items if covers else items[:1], fld(E, body, "Fee"), t.ttl,
                                           [("wit", nf, e_wit)], t.valid, t.meta):
                    if full is None:
                        continue
                    E.prove(s3, t.b + E.product(t.a, ilift(full.n)) <= fee, what + ": the fee covers the final signed transaction")


@unit("tx.MinFee", props=["C15", "C12"], dom="int", parts=8, funcs=["(tx.TxBuilder).MinFee", "(tx.TxBuilder).minFee"])
def u_minfee(E):
    for p in range(8):
        if E.part is not None and E.part != p:
            continue
        E.templates = []
        st, t = change_setup(E)
        st.pc.append(z3.Bool("no_metadata") if p & 1 else z3.Not(z3.Bool("no_metadata")))
        st.pc.append(t.ttl == 0 if p & 2 else t.ttl > 0)
        st.pc.append(t.nw == 0 if p & 4 else t.nw > 0)
        fn = E.prog.methods.get(("tx.TxBuilder", "MinFee"))
        recv = E.load1(st, t.builder)
        if fn is None:
            fn, recv = E.prog.methods.get(("*tx.TxBuilder", "MinFee")), t.builder
        if fn is None:
            raise Unsupported("no method MinFee")
        rs = rets(E, call(E, st, fn, [recv]), "MinFee")
        feasible_some(E, rs, "MinFee")
        for s, fee in rs:
            no_writes(E, s, "MinFee")
            for sl, nm in ((t.ins, "inputs"), (t.outs, "outputs"), (t.keys, "witnesses"), (t.xprvs, "keys")):
                prove_rope(E, s, E.content(s, sl), E.content(st, sl), "MinFee: %s unchanged" % nm)
            # the estimate covers the transaction as it is with a witness for each key
            nf = sym_len(E, "signers")
            s2 = s.fork()
            s2.pc.append(z3.Or(nf <= 1, nf <= t.nx))
            s2.pc.append(t.fee <= ilift(fee))
            for s3, b, full in spec_tx(E, s2, [("in", t.ni, e_in)], [("out", t.no, e_out)], t.fee, t.ttl, [("wit", nf, e_wit)], t.valid, t.meta):
                if full is not None:
                    E.prove(s3, t.b + E.product(t.a, ilift(full.n)) <= ilift(fee), "MinFee: covers the transaction with its witnesses")


# ------------------------------------------------------------------ C14: signing
def c_public(E, st, args, ins=None):
    k = E.content(st, args[0])
    return E.new_slice(st, Rope(E.u8, [Lit(digest(E, st, "pubkey", E.sub(st, k, 0, 64), 32) + digest(E, st, "chaincode", k, 32))]))


def c_sign(E, st, args, ins=None):
    k = E.content(st, E.load1(st, args[0]))
    return ArrV(E.u8, signature(E, st, k, E.content(st, args[1])))


def signature(E, st, k, msg):
    return digest(E, st, "sign", E.concat(k, msg), 64)


@unit("tx.Build", props=["C14", "C15"], dom="int", funcs=["(*tx.TxBuilder).Build", "(*tx.TxBuilder).Sign", "tx.NewTXWitness", "tx.NewVKeyWitness"])
def u_build(E):
    E.models["(bip32.XPrv).Public"] = c_public
    E.models["(*bip32.XPrv).Sign"] = c_sign
    E.assumed.append("bip32 XPrv.Public and XPrv.Sign by their contracts (C18, C19): functions of the key and of the message")
    st = State()
    t = any_builder(E, st)
    what = "Build"

    def templ(hashes):
        def signed(E2, s, entry, k):
            if not isinstance(entry, SliceV) or entry.n != 0:
                return None
            return SeqT(Rope(E2.prog.ty("*tx.VKeyWitness"), [Fn(("list", "signed"), 0, k.t, lambda E3, s3, j: E3.lazy_ptr("signed", j))]))
        return signed
    E.lazy["signed"] = lambda E2, s2, j: struct(E2, T + "VKeyWitness", VKey=lazy_slice(E2, "signed.key", j, 32),
                                                Signature=lazy_slice(E2, "signed.sig", j, 64))
    E.lazy["signed.key"] = lambda E2, s2, j: Rope(E2.u8, [Lit(digest(E2, s2, "pubkey", E2.sub(s2, key_bytes(E2, "xprv", j), 0, 64), 32))])
    ok = 0
    # specification of the hash first: the loop invariant speaks about it
    for s0, bodyr, full in spec_tx(E, st.fork(), *std(t)):
        if full is not None:
            h = Rope(E.u8, [Lit(digest(E, s0, "blake2b256", bodyr, 32))])
            E.lazy["signed.sig"] = lambda E2, s2, j, h=h: Rope(E2.u8, [Lit(signature(E2, s2, key_bytes(E2, "xprv", j), h))])
        E.templates = [templ(None)]
        runs = [(s0.fork(), 1)]
        for run_, nth in runs:
            for s, (tx, err) in rets(E, call(E, run_, "(*tx.TxBuilder).Build", [t.builder]), what):
                w = "%s (call %d)" % (what, nth)
                if full is None:
                    E.oblige(s, is_err(err), w + ": metadata that cannot be encoded gives an error")
                    continue
                if not E.oblige(s, is_nil_err(err), w + ": succeeds"):
                    continue
                ok += 1
                only(E, s, w, [(t.body.oid, aux_field(E)), (t.tx.oid, fidx(E, T + "Tx", "Witness"))])
                prove_val(E, s, fld(E, tx, "Body"), t.body, w + ": returns the builder's body")
                prove_val(E, s, fld(E, tx, "Valid"), t.valid, w + ": validity unchanged")
                prove_val(E, s, fld(E, tx, "Metadata"), t.meta, w + ": metadata unchanged")
                keys = E.content(s, fld(E, E.load1(s, fld(E, tx, "Witness")), "Keys"))
                want = Rope(E.prog.ty("*tx.VKeyWitness"), [Fn(("list", "signed"), 0, t.nx, lambda E3, s3, j: E3.lazy_ptr("signed", j))])
                prove_rope(E, s, keys, want, w + ": one witness per key in order: its public key and its signature of the transaction's hash")
                copy = Ptr(E.new(s, tx))
                for s2, (h2, err2) in rets(E, E.call_named(s.fork(), "(*tx.Tx).Hash", [copy]), "Hash of the built transaction") \
                        if nth == 1 else []:
                    if E.oblige(s2, is_nil_err(err2), w + ": the built transaction has a hash"):
                        prove_rope(E, s2, Rope(E.u8, [Lit(h2.v)]), h, w + ": the hash signed is the one of the transaction returned")
                if nth == 1:
                    runs.append((s.fork(), 2))
    E.oblige(None, ok > 0, "Build: specification is not vacuous")
    # a key registered later is the last one
    st = State()
    t = any_builder(E, st)
    k = SliceV(E.lazy_ptr("xprv", z3.Int("newkey")), 0, 96, 96)
    old = E.content(st, t.xprvs)
    for s, _ in rets(E, call(E, st, "(*tx.TxBuilder).Sign", [t.builder, k]), "TxBuilder.Sign"):
        v = E.load1(s, t.builder)
        new = E.content(s, fld(E, v, "xprvs"))
        prove_rope(E, s, new, E.concat(old, Rope(old.et, [Lit([k])])), "TxBuilder.Sign: registers the key after the others")
        only(E, s, "TxBuilder.Sign", [(t.builder.oid, fidx(E, T + "TxBuilder", "xprvs"))])
