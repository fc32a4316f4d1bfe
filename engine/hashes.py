"""Assumed contracts of hash functions: deterministic functions of the bytes given, of fixed output size."""
import z3
from .domains import *
from .values import *
from .models import model, REG, ASSUMED


def digest(E, st, name, rope, n):
    """the n bytes of the digest of the contents; the same for provably equal contents"""
    memo = E.__dict__.setdefault("digest_memo", {}).setdefault((name, n), [])
    for r, res in memo:
        if E.K(r) == E.K(rope):
            return res
    for r, res in memo:
        if E.rope_eq(st, r, rope):
            return res
    tag = E.fresh_name(name)
    res = [E.vdom.fresh(E, "%s[%d]" % (tag, i), 8, False) for i in range(n)]
    E.keep.append(rope)
    memo.append((rope, res))
    return res


def word(E, st, name, rope, w):
    memo = E.__dict__.setdefault("word_memo", {}).setdefault((name, w), [])
    for r, res in memo:
        if E.K(r) == E.K(rope):
            return res
    for r, res in memo:
        if E.rope_eq(st, r, rope):
            return res
    res = E.vdom.fresh(E, E.fresh_name(name), w, False)
    E.keep.append(rope)
    memo.append((rope, res))
    return res


@model("hash/crc32.ChecksumIEEE", doc="a deterministic function of the bytes")
def _crc(E, st, args, ins):
    return word(E, st, "crc32", E.content(st, args[0]), 32)


REG["global:hash/crc32.IEEETable"] = lambda E, st: Ptr(("std", "crc32.IEEETable"))


def ieee(t):
    if not (isinstance(t, Ptr) and t.oid == ("std", "crc32.IEEETable")):
        raise Unsupported("CRC-32 with another table than the IEEE one")


@model("hash/crc32.MakeTable", doc="the table of the IEEE polynomial is IEEETable")
def _crctab(E, st, args, ins):
    if args[0] != 0xedb88320:
        raise Unsupported("CRC-32 with another polynomial than the IEEE one")
    return Ptr(("std", "crc32.IEEETable"))


@model("hash/crc32.Checksum", doc="with the IEEE table, the same function as ChecksumIEEE")
def _crc2(E, st, args, ins):
    ieee(args[1])
    return word(E, st, "crc32", E.content(st, args[0]), 32)


@model("hash/crc32.Update", doc="from 0 and with the IEEE table, the same function as ChecksumIEEE")
def _crc3(E, st, args, ins):
    ieee(args[1])
    if args[0] != 0:
        raise Unsupported("CRC-32 continued from a given value")
    return word(E, st, "crc32", E.content(st, args[2]), 32)


@model("hash/crc32.NewIEEE", doc="the checksum is a deterministic function of the bytes written, the one of ChecksumIEEE")
def _crc4(E, st, args, ins):
    return new_hash(E, st, "crc32", 4)


@model("golang.org/x/crypto/blake2b.Sum256", doc="Blake2b-256 of the bytes: a deterministic function of 32 bytes")
def _b256(E, st, args, ins):
    return ArrV(E.u8, digest(E, st, "blake2b256", E.content(st, args[0]), 32))


def digestN(E, st, name, ropes, n):
    """as digest, of several separate inputs"""
    memo = E.__dict__.setdefault("digestN_memo", {}).setdefault((name, n, len(ropes)), [])
    for rs, res in memo:
        if all(E.K(a) == E.K(b) for a, b in zip(rs, ropes)):
            return res
    for rs, res in memo:
        if all(E.rope_eq(st, a, b) for a, b in zip(rs, ropes)):
            return res
    tag = E.fresh_name(name)
    res = [E.vdom.fresh(E, "%s[%d]" % (tag, i), 8, False) for i in range(n)]
    E.keep.append(list(ropes))
    memo.append((list(ropes), res))
    return res


# hash.Hash: what was written so far is kept in a heap cell; data = (name, size, cell, key)
def new_hash(E, st, name, size, key=None):
    oid = E.new(st, BuilderV(Rope(E.u8, [])))
    return OpaqueV("hash", ("hash", oid), False, (name, size, oid, key))


def h_sum32(E, st, h, args):
    if h.data[0] != "crc32":
        raise Unsupported("Sum32 of %s" % h.data[0])
    return word(E, st, "crc32", st.heap[h.data[2]].val.rope, 32)


def hash_sum(E, st, h):
    name, size, oid, key = h.data
    w = st.heap[oid].val.rope
    if name == "crc32":
        raise Unsupported("Sum of crc32")
    return digest(E, st, name, w, size) if key is None else digestN(E, st, "hmac-" + name, [key, w], size)


def h_write(E, st, h, args):
    oid = h.data[2]
    r = E.content(st, args[0])
    st.heap[oid] = st.heap[oid].with_(val=BuilderV(E.concat(st.heap[oid].val.rope, r)))
    return (r.n, NILI)


def h_reset(E, st, h, args):
    oid = h.data[2]
    st.heap[oid] = st.heap[oid].with_(val=BuilderV(Rope(E.u8, [])))
    return None


def h_sum(E, st, h, args):
    r = Rope(E.u8, [Lit(hash_sum(E, st, h))])
    pre = args[0]
    if isinstance(pre, SliceV) and isinstance(pre.n, int) and pre.n == 0 and (pre.ptr is None or pre.ptr.oid is None):
        return E.new_slice(st, r)
    return E.append(st, pre, r)


def install_invokes(E):
    I = E.invokes
    I[("hash", "Write")] = h_write
    I[("hash", "Sum")] = h_sum
    I[("hash", "Sum32")] = h_sum32
    I[("hash", "Reset")] = h_reset
    I[("hash", "Size")] = lambda E2, st, h, args: h.data[1]


for _m in ("Write", "Sum", "Sum32", "Reset", "Size"):
    ASSUMED["hash." + _m] = "the digest is a deterministic function of the bytes written (and of the key)"


@model("crypto/sha512.New", doc="SHA-512 of the bytes written: a deterministic function of 64 bytes")
def _sha512(E, st, args, ins):
    return new_hash(E, st, "sha512", 64)


@model("crypto/sha256.New", doc="SHA-256 of the bytes written: a deterministic function of 32 bytes")
def _sha256(E, st, args, ins):
    return new_hash(E, st, "sha256", 32)


@model("crypto/sha512.Sum512", doc="SHA-512 of the bytes: a deterministic function of 64 bytes")
def _sum512(E, st, args, ins):
    return ArrV(E.u8, digest(E, st, "sha512", E.content(st, args[0]), 64))


@model("crypto/sha256.Sum256", doc="SHA-256 of the bytes: a deterministic function of 32 bytes")
def _sum256(E, st, args, ins):
    return ArrV(E.u8, digest(E, st, "sha256", E.content(st, args[0]), 32))


def hash_of(E, f):
    n = getattr(f, "name", None)
    t = {"crypto/sha512.New": ("sha512", 64), "crypto/sha256.New": ("sha256", 32)}
    if n not in t:
        raise Unsupported("hash constructor %s" % (n,))
    return t[n]


@model("crypto/hmac.New", doc="HMAC: a deterministic function of key and bytes written")
def _hmac(E, st, args, ins):
    name, size = hash_of(E, args[0])
    return new_hash(E, st, name, size, E.content(st, args[1]))


@model("golang.org/x/crypto/pbkdf2.Key", doc="a deterministic function of password, salt, rounds, length and hash; new slice")
def _pbkdf2(E, st, args, ins):
    name, size = hash_of(E, args[4])
    if not isinstance(args[2], int) or not isinstance(args[3], int) or args[3] <= 0 or args[2] <= 0:
        raise Unsupported("pbkdf2 with symbolic rounds or length")
    return E.new_slice(st, Rope(E.u8, [Lit(pbkdf2(E, st, name, args[2], E.content(st, args[0]), E.content(st, args[1]), args[3]))]))


def pbkdf2(E, st, name, it, pw, salt, n):
    """the first n bytes of an infinite stream"""
    blk = {"sha512": 64, "sha256": 32}[name]
    out = []
    for i in range((n + blk - 1) // blk):
        out += digestN(E, st, "pbkdf2-%s-%d-block%d" % (name, it, i), [pw, salt], blk)
    return out[:n]


def blake(E, st, size, key):
    if not isinstance(size, int):
        raise Unsupported("blake2b with symbolic size")
    if not (isinstance(key, SliceV) and isinstance(key.n, int) and key.n == 0):
        raise Unsupported("blake2b with a key")
    if size < 1 or size > 64:
        return (NILI, E.error())
    return (new_hash(E, st, "blake2b%d" % (8 * size), size), NILI)


@model("golang.org/x/crypto/blake2b.New", doc="unkeyed Blake2b of the bytes written; an error for sizes outside 1..64 only")
def _b2(E, st, args, ins):
    return blake(E, st, args[0], args[1])


@model("golang.org/x/crypto/blake2b.New256", doc="as New with size 32")
def _b2256(E, st, args, ins):
    return blake(E, st, 32, args[0])


@model("golang.org/x/crypto/blake2b.New512", doc="as New with size 64")
def _b2512(E, st, args, ins):
    return blake(E, st, 64, args[0])


@model("golang.org/x/crypto/blake2b.Sum512", doc="Blake2b-512 of the bytes: a deterministic function of 64 bytes")
def _b512(E, st, args, ins):
    return ArrV(E.u8, digest(E, st, "blake2b512", E.content(st, args[0]), 64))


REG["global:encoding/binary.LittleEndian"] = lambda E, st: E.zero(E.prog.ty("encoding/binary.littleEndian"))
REG["global:encoding/binary.BigEndian"] = lambda E, st: E.zero(E.prog.ty("encoding/binary.bigEndian"))
