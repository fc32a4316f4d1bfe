"""Contracts of bip32 and crypto: root keys, child keys, public keys, signatures, hashes and identifiers."""
from .common import *
from engine.hashes import digest, digestN, pbkdf2

BP = "bip32."
ED = "crypto/edwards25519."


def lit(E, v):
    return Rope(E.u8, [Lit(v)])


def bv8(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


def clamp(b):
    """specification: lowest three bits of the first byte 0, highest three of byte 31 are 010"""
    b = [bv8(x) for x in b]
    b[0] = b[0] & 0xf8
    b[31] = (b[31] & 0x1f) | 0x40
    return b


def method(E, ty, name):
    fn = E.prog.methods.get((ty, name))
    if fn is None:
        raise Unsupported("%s has no method %s" % (ty, name))
    return fn


# ------------------------------------------------------------------ C16
@unit("bip32.NewXPrv", props=["C16"], funcs=[BP + "NewXPrv"])
def u_new(E):
    st = State()
    n = sym_len(E, "seed_len")
    seed = E.sym_bytes("seed", n)
    E.inputs = {"seed": seed}
    sl = sym_slice(E, st, "seed", n, content=seed, spare=True)
    rs = rets(E, call(E, st, BP + "NewXPrv", [sl]), "NewXPrv")
    feasible_some(E, [x for x in rs if is_nil_err(x[1][1])], "NewXPrv")
    feasible_some(E, [x for x in rs if not is_nil_err(x[1][1])], "NewXPrv error")
    for s, (k, err) in rs:
        no_writes(E, s, "NewXPrv")
        if is_nil_err(err):
            E.prove(s, n == 32, "NewXPrv: accepts 32 bytes only")
            w = clamp(digest(E, s, "sha512", seed, 64)) + [bv8(x) for x in digest(E, s, "sha256", E.concat(lit(E, [1]), seed), 32)]
            prove_rope(E, s, E.content(s, k), lit(E, w), "NewXPrv: clamped SHA-512 of the seed, then SHA-256 of 1 and the seed")
        else:
            E.oblige(s, is_err(err), "NewXPrv: error")
            E.prove(s, n != 32, "NewXPrv: accepts every seed of 32 bytes")


@unit("bip32.FromBip39Entropy", props=["C16"], funcs=[BP + "FromBip39Entropy", BP + "NormalizeBytesForce3rd"])
def u_entropy(E):
    st = State()
    ent = E.sym_bytes("entropy", sym_len(E, "entropy_len"))
    pw = E.sym_bytes("password", sym_len(E, "password_len"))
    E.inputs = {"entropy": ent, "password": pw}
    a = sym_slice(E, st, "entropy", ent.n, content=ent, spare=True)
    b = sym_slice(E, st, "password", pw.n, content=pw, spare=True)
    rs = rets(E, call(E, st, BP + "FromBip39Entropy", [a, b]), "FromBip39Entropy")
    feasible_some(E, rs, "FromBip39Entropy")
    for s, k in rs:
        no_writes(E, s, "FromBip39Entropy")
        prove_rope(E, s, E.content(s, k), lit(E, clamp(pbkdf2(E, s, "sha512", 4096, pw, ent, 96))),
                   "FromBip39Entropy: clamped PBKDF2-HMAC-SHA512, 4096 rounds, passphrase as password, entropy as salt, 96 bytes")


# ------------------------------------------------------------------ the curve, by contract (see edwards)
def scalar_of(E, st, p):
    return E.seqval(st, p)


@contract(ED + "GeScalarMultBase")
def c_smul(E, st, args):
    """h is the base point times the scalar, a little-endian number below 2^255"""
    a = scalar_of(E, st, args[1])
    top = a.lits()[31]
    E.prove(st, z3.ULT(bv8(top), 128), "GeScalarMultBase: the scalar is below 2^255")
    E.store(st, args[0], OpaqueV("point", ("B*", E.K(a)), False, a))
    return None


@contract("(*" + ED + "ExtendedGroupElement).ToBytes")
def c_tobytes(E, st, args):
    v = E.load1(st, args[0])
    if not isinstance(v, OpaqueV):
        raise Unsupported("encoding of an unknown point")
    E.store(st, args[1], ArrV(E.u8, digest(E, st, "encode-base-point-multiple", v.data, 32)))
    return None


def reduced(E, st, res):
    """a number below the group order has its three highest bits clear"""
    E.axiom(z3.ULT(bv8(res[31]), 32))
    return res


@contract(ED + "ScReduce")
def c_red(E, st, args):
    E.store(st, args[0], ArrV(E.u8, reduced(E, st, digest(E, st, "mod-L", scalar_of(E, st, args[1]), 32))))
    return None


@contract(ED + "ScMulAdd")
def c_muladd(E, st, args):
    r = [scalar_of(E, st, p) for p in args[1:]]
    E.store(st, args[0], ArrV(E.u8, reduced(E, st, muladd(E, st, *r))))
    return None


def muladd(E, st, a, b, c):
    """ab + c mod L; the product is commutative"""
    memo = E.__dict__.setdefault("muladd_memo", [])
    for x, y, z, res in memo:
        if E.rope_eq(st, z, c) and ((E.rope_eq(st, x, a) and E.rope_eq(st, y, b)) or (E.rope_eq(st, x, b) and E.rope_eq(st, y, a))):
            return res
    res = digestN(E, st, "muladd-mod-L", [a, b, c], 32)
    memo.append((a, b, c, res))
    return res


CURVE = [ED + "GeScalarMultBase", "(*" + ED + "ExtendedGroupElement).ToBytes", ED + "ScReduce", ED + "ScMulAdd"]


def pub(E, st, a):
    return digest(E, st, "encode-base-point-multiple", a, 32)


def key(E, st):
    k = E.sym_bytes("key", 96)
    E.inputs = {"key": k}
    E.axiom(z3.ULT(k.lits()[31], 128))     # scalar below 2^255
    return sym_slice(E, st, "key", 96, content=k, spare=True), k


# ------------------------------------------------------------------ C17
def num(bs, w):
    """little-endian bytes as a number of w bits"""
    x = z3.Concat(*[bv8(b) for b in reversed(bs)]) if len(bs) > 1 else bv8(bs[0])
    return z3.ZeroExt(w - x.size(), x) if w > x.size() else x


@contract(BP + "MakePublicKey")
def c_mkpub(E, st, args):
    a = E.sub(st, E.content(st, args[0]), 0, 32)
    E.prove(st, z3.ULT(bv8(a.lits()[31]), 128), "MakePublicKey: the scalar is below 2^255")
    return ArrV(E.u8, pub(E, st, a))


@unit("bip32.MakePublicKey", props=["C18"], provides=BP + "MakePublicKey", relies=CURVE, funcs=[BP + "MakePublicKey"])
def u_mkpub(E):
    for n in (32, 64, 96):
        st = State()
        sl, k = key(E, st)
        s2 = SliceV(sl.ptr, 0, n, sl.cap)
        rs = rets(E, call(E, st, BP + "MakePublicKey", [s2]), "MakePublicKey")
        feasible_some(E, rs, "MakePublicKey")
        for s, r in rs:
            no_writes(E, s, "MakePublicKey")
            prove_rope(E, s, lit(E, r.v), lit(E, pub(E, s, E.sub(s, k, 0, 32))), "MakePublicKey: encodes the base point times the left half")


def sum_unit(E, fname, shift, ny):
    st = State()
    x, y = E.sym_bytes("x", 32), E.sym_bytes("y", 32)
    E.inputs = {"x": x, "y": y}
    a, b = sym_slice(E, st, "x", 32, content=x, spare=True), sym_slice(E, st, "y", 32, content=y, spare=True)
    rs = rets(E, call(E, st, fname, [a, b]), fname)
    feasible_some(E, rs, fname)
    for s, r in rs:
        no_writes(E, s, fname)
        out = E.content(s, r)
        E.oblige(s, E.same_int(s, out.n, 32), fname + ": gives 32 bytes")
        prove_sum(E, s, out.lits(), x.lits(), y.lits()[:ny], shift, fname + ": the sum modulo 2^256")


def prove_sum(E, s, out, x, y, shift, name):
    spec = num(x, 256) + (num(y, 256) << shift)
    o = [bv8(b) for b in out]
    for i in range(len(o)):    # byte by byte: the solver names the one that differs
        E.prove(s, o[i] == z3.Extract(8 * i + 7, 8 * i, spec), "%s (byte %d)" % (name, i))


def sum_contract(ny, shift):
    def c(E, st, args):
        x, y = [E.content(st, a).lits() for a in args]
        spec = num(x[:32], 256) + (num(y[:ny], 256) << shift)
        return E.new_slice(st, lit(E, [z3.Extract(8 * i + 7, 8 * i, spec) for i in range(32)]))
    return c


contract(BP + "add28mul8")(sum_contract(28, 3))
contract(BP + "add256bits")(sum_contract(32, 0))


@unit("bip32.add28mul8", props=["C17"], provides=BP + "add28mul8", funcs=[BP + "add28mul8"])
def u_add28(E):
    sum_unit(E, BP + "add28mul8", 3, 28)


@unit("bip32.add256bits", props=["C17"], provides=BP + "add256bits", funcs=[BP + "add256bits"])
def u_add256(E):
    sum_unit(E, BP + "add256bits", 0, 32)


@unit("bip32.Derive", props=["C17"], uses=[BP + "MakePublicKey", BP + "add28mul8", BP + "add256bits"], relies=CURVE,
      funcs=["(%sXPrv).Derive" % BP])
def u_derive(E):
    st = State()
    sl, k = key(E, st)
    i = z3.BitVec("index", 32)
    E.inputs["index"] = i
    kb = k.lits()
    rs = rets(E, call(E, st, method(E, BP + "XPrv", "Derive"), [sl, i]), "Derive")
    feasible_some(E, rs, "Derive")
    idx = [z3.Extract(8 * j + 7, 8 * j, i) for j in range(4)]
    seen = set()
    for s, r in rs:
        no_writes(E, s, "Derive")
        out = E.content(s, r)
        E.oblige(s, E.same_int(s, out.n, 96), "Derive: gives 96 bytes")
        for hard in (True, False):
            s2 = s.fork()
            s2.pc.append(z3.UGE(i, 1 << 31) if hard else z3.ULT(i, 1 << 31))
            if not E.feasible(s2):
                continue
            seen.add(hard)
            cc = lit(E, kb[64:])
            body = kb[:64] if hard else pub(E, s2, lit(E, kb[:32]))
            z = digestN(E, s2, "hmac-sha512", [cc, lit(E, [0 if hard else 2] + list(body) + idx)], 64)
            c = digestN(E, s2, "hmac-sha512", [cc, lit(E, [1 if hard else 3] + list(body) + idx)], 64)
            o = out.lits()
            w = "Derive, %s index: " % ("hardened" if hard else "plain")
            prove_sum(E, s2, o[:32], kb[:32], z[:28], 3, w + "left half")
            prove_sum(E, s2, o[32:64], kb[32:64], z[32:], 0, w + "right half")
            prove_rope(E, s2, lit(E, o[64:]), lit(E, c[32:]), w + "chain code")
            s3 = s2.fork()
            s3.pc.append(kb[0] & 7 == 0)
            E.prove(s3, bv8(o[0]) & 7 == 0, w + "a multiple of 8 stays one")
    E.oblige(None, seen == {True, False}, "Derive: both kinds of index are covered")


# ------------------------------------------------------------------ C18
@unit("bip32.Public", props=["C18"], uses=[BP + "MakePublicKey"], relies=CURVE,
      funcs=["(%sXPrv).Public" % BP, "(%sXPub).PublicKey" % BP, "(%sXPub).ChainCode" % BP, "(%sXPrv).ChainCode" % BP])
def u_public(E):
    st = State()
    sl, k = key(E, st)
    kb = k.lits()
    rs = rets(E, call(E, st, method(E, BP + "XPrv", "Public"), [sl]), "Public")
    feasible_some(E, rs, "Public")
    for s, r in rs:
        no_writes(E, s, "Public")
        want = pub(E, s, lit(E, kb[:32]))
        prove_rope(E, s, E.content(s, r), lit(E, list(want) + kb[64:]), "Public: public key, then chain code")
        for m, w in (("PublicKey", want), ("ChainCode", kb[64:])):
            for s2, r2 in rets(E, call(E, s.fork(), method(E, BP + "XPub", m), [r]), m):
                no_writes(E, s2, m)
                prove_rope(E, s2, E.content(s2, r2), lit(E, w), "XPub.%s" % m)
    for s2, r2 in rets(E, call(E, st.fork(), method(E, BP + "XPrv", "ChainCode"), [sl]), "ChainCode"):
        prove_rope(E, s2, E.content(s2, r2), lit(E, kb[64:]), "XPrv.ChainCode")


# ------------------------------------------------------------------ C19
@unit("bip32.Sign", props=["C19"], uses=[BP + "MakePublicKey"], relies=CURVE, funcs=["(*%sXPrv).Sign" % BP])
def u_sign(E):
    st = State()
    sl, k = key(E, st)
    kb = k.lits()
    msg = E.sym_bytes("message", sym_len(E, "message_len"))
    E.inputs["message"] = msg
    ms = sym_slice(E, st, "message", msg.n, content=msg, spare=True)
    p = Ptr(E.new(st, sl, E.prog.ty(BP + "XPrv"), pre=True))
    fn = method(E, "*" + BP + "XPrv", "Sign") if ("*" + BP + "XPrv", "Sign") in E.prog.methods else method(E, BP + "XPrv", "Sign")
    f = E.prog.funcs[fn]
    recv = p if fn.startswith("(*") else sl
    rs = rets(E, call(E, st, fn, [recv, ms]), "Sign")
    feasible_some(E, rs, "Sign")
    for s, r in rs:
        no_writes(E, s, "Sign")
        A = pub(E, s, lit(E, kb[:32]))
        nonce = digest(E, s, "mod-L", lit(E, digest(E, s, "sha512", E.concat(lit(E, kb[32:64]), msg), 64)), 32)
        R = pub(E, s, lit(E, nonce))
        h = digest(E, s, "mod-L", lit(E, digest(E, s, "sha512", E.concat(lit(E, list(R) + list(A)), msg), 64)), 32)
        S = muladd(E, s, lit(E, h), lit(E, kb[:32]), lit(E, nonce))
        v = E.content(s, r) if isinstance(r, SliceV) else lit(E, r.v)
        prove_rope(E, s, E.sub(s, v, 0, 32), lit(E, R), "Sign: R encodes the nonce times the base point")
        prove_rope(E, s, v, lit(E, list(R) + list(S)), "Sign: S = nonce + SHA-512(R, A, message) * scalar, modulo L")


# ------------------------------------------------------------------ C23
@unit("crypto.Blake2b", props=["C23"], funcs=["crypto.Blake2b224", "crypto.Blake2b256", "(bip32.PublicKey).Hash"])
def u_blake(E):
    data = E.sym_bytes("data", sym_len(E, "data_len"))
    E.inputs = {"data": data}
    for fn, name, n in (("crypto.Blake2b224", "blake2b224", 28), ("crypto.Blake2b256", "blake2b256", 32),
                        (method(E, BP + "PublicKey", "Hash"), "blake2b224", 28)):
        st = State()
        sl = sym_slice(E, st, "data", data.n, content=data, spare=True)
        rs = rets(E, call(E, st, fn, [sl]), fn)
        feasible_some(E, rs, fn)
        for s, r in rs:
            no_writes(E, s, fn)
            prove_rope(E, s, lit(E, r.v), lit(E, digest(E, s, name, data, n)), fn + ": digest of exactly the bytes given")


IDS = {"Ed25519KeyHash": 28, "ScriptHash": 28, "TransactionHash": 32, "GenesisDelegateHash": 28, "GenesisHash": 28, "MetadataHash": 32,
       "VRFKeyHash": 32, "BlockHash": 32, "VRFVKey": 32, "KESVKey": 32}


@unit("crypto.FromBytes", props=["C23"], funcs=["crypto.%sFromBytes" % x for x in IDS])
def u_ids(E):
    data = E.sym_bytes("data", sym_len(E, "data_len"))
    E.inputs = {"data": data}
    for t, n in IDS.items():
        fn = "crypto.%sFromBytes" % t
        st = State()
        sl = sym_slice(E, st, "data", data.n, content=data, spare=True)
        rs = rets(E, call(E, st, fn, [sl]), fn)
        feasible_some(E, [x for x in rs if is_nil_err(x[1][1])], fn)
        for s, (v, err) in rs:
            no_writes(E, s, fn)
            if is_nil_err(err):
                E.prove(s, data.n == n, fn + ": accepts the length of the identifier only")
                prove_rope(E, s, lit(E, v.v), data, fn + ": the bytes given")
            else:
                E.oblige(s, is_err(err), fn + ": error")
                E.prove(s, data.n != n, fn + ": accepts every value of that length")
