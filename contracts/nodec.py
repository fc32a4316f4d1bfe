"""Contracts of node and protocol: which network is asked, what is sent, what the answers become."""
from .common import *
from engine import world
from engine.world import events, faults, decimal, named_bytes, field_index, BF
from engine import cbor
from engine.values import iadd, isub, isimp
from .txc import ilift, fn1, seq_at, lazy_slice, U64

TESTNET = "https://cardano-testnet.blockfrost.io/api/v0"
MAINNET = "https://cardano-mainnet.blockfrost.io/api/v0"
CLI = "(*node.cardanoCli)."
BFN = "(*node.blockfrostNode)."


class N:
    pass


def net(E, st):
    n = N()
    n.id, n.magic = E.vdom.fresh(E, "network_id", 8, False), E.vdom.fresh(E, "magic", 32, False)
    E.inputs = {"network_id": n.id, "magic": n.magic}
    E.axiom(n.id <= 1)
    n.net = Ptr(E.new(st, struct(E, "network.NetworkInfo", NetworkId=n.id, ProtocolMagic=n.magic), E.prog.ty("network.NetworkInfo"), pre=True))
    return n


def invoke(E, s, recv, m, args, what):
    E.stats.funcs.add("%s.%s" % (recv.ty.str, m))
    return rets(E, E.invoke(s, recv, m, args), what)


def cli_nodes(E):
    """[(state, node description)] for every way to make one"""
    for given in (False, True):
        st = State()
        n = net(E, st)
        n.path = E.string("cardano-cli")
        paths = SliceV(None, 0, 0, 0, 0, True)
        if given:
            k = sym_len(E, "path_len", 1)
            n.path = E.sym_bytes("path", k)
            paths = E.new_slice(st, Rope(E.prog.ty("string"), [Lit([n.path])]), pre=True)
        rs = rets(E, call(E, st, "node.NewCardanoCliNode", [n.net, paths]), "NewCardanoCliNode")
        feasible_some(E, rs, "NewCardanoCliNode")
        for s, v in rs:
            n.node = v
            yield s, n


def bf_nodes(E):
    st = State()
    n = net(E, st)
    n.project = E.sym_bytes("project", sym_len(E, "project_len"))
    rs = rets(E, call(E, st, "node.NewBlockfrostClient", [n.project, n.net]), "NewBlockfrostClient")
    feasible_some(E, rs, "NewBlockfrostClient")
    for s, v in rs:
        n.node = v
        yield s, n


def by_net(E, s, n):
    """[(state, is it a test network)]"""
    return cbor.split(E, s, n.id == 0)


def texts(E, *rs):
    return [E.string(r) if isinstance(r, str) else r for r in rs]


def prove_argv(E, s, n, ev, args, what, exact=True):
    """the command's arguments: the given ones, then the flag of the network"""
    _, path, rest, files = ev
    prove_rope(E, s, path, n.path, what + ": the configured command is run")
    got = rest.lits()
    for s2, test in by_net(E, s, n):
        want = texts(E, *args) + (texts(E, "--testnet-magic", decimal(E, s2, n.magic)) if test else texts(E, "--mainnet"))
        if not E.oblige(s2, got is not None and len(got) == len(want), what + ": arguments, then one network flag",
                        "%s arguments instead of %d" % (got and len(got), len(want))):
            continue
        for i, (a, b) in enumerate(zip(got, want)):
            if b is not None:
                prove_rope(E, s2, a, b, "%s: argument %d" % (what, i))


def prove_server(E, s, n, server, what, suffix=""):
    for s2, test in by_net(E, s, n):
        prove_rope(E, s2, server, E.string((TESTNET if test else MAINNET) + suffix), what + ": server of the %s network" % ("test" if test else "main"))


def once(E, s, kind, what):
    es = events(s)
    if E.oblige(s, len(es) == 1 and es[0][0] == kind, what + ": asks once", "asks %s" % ([e[0] for e in es],)):
        return es[0]


def check_err(E, s, err, what, owed=None, malformed=None):
    """error exactly when something failed -> True when the call succeeded; malformed: when a text is rightly refused as a number"""
    f = [x for x in faults(s) if owed is None or x in owed]
    if f:
        if malformed is not None and all(x == "number" for x in f):
            E.prove(s, malformed, what + ": a number that is well-formed and fits is not refused")
        E.oblige(s, is_err(err), "%s: an error when the %s fails" % (what, f[0]), "returns no error")
        return False
    if is_nil_err(err):
        return True
    E.oblige(s, bool(faults(s)), what + ": no error when nothing fails", "returns an error")
    return False


# ------------------------------------------------------------------ C24 and C27: networks, tip, parameters
@unit("network.infos", props=["C24"], dom="int", funcs=["network.TestNet", "network.MainNet"])
def u_nets(E):
    for fn, i, m in (("network.TestNet", 0, 1097911063), ("network.MainNet", 1, 764824073)):
        for s, p in rets(E, call(E, State(), fn, []), fn):
            v = E.load1(s, p)
            prove_val(E, s, fld(E, v, "NetworkId"), i, fn + ": network id")
            prove_val(E, s, fld(E, v, "ProtocolMagic"), m, fn + ": protocol magic")


PARAMS = [("TxFeePerByte", ("txFeePerByte",)), ("TxFeeFixed", ("txFeeFixed",)), ("MaxTxSize", ("maxTxSize",)), ("MinUTXOValue", ("minUTxOValue",))]
TIP = [("Slot", ("slot",)), ("Epoch", ("epoch",)), ("Block", ("block",))]


def from_json(E, s, v, doc, fields, what):
    for f, path in fields:
        p, x = world.jvalue(E, doc, path, 64, False)
        prove_val(E, s, fld(E, v, f), z3.If(p, x, z3.IntVal(0)), "%s: %s is the document's %s" % (what, f, ".".join(path)))


def params_from_json(E, s, v, doc, what):
    from_json(E, s, v, doc, PARAMS, what)
    from_json(E, s, fld(E, v, "ProtocolVersion"), doc, [("Major", ("protocolVersion", "major")), ("Minor", ("protocolVersion", "minor"))], what)


def cli_query(E, m, args, judge):
    ok = 0
    for s0, n in cli_nodes(E):
        for s, (v, err) in invoke(E, s0.fork(), n.node, m, [], "cardano-cli " + m):
            what = "cardano-cli " + m
            no_writes(E, s, what)
            ev = once(E, s, "exec", what)
            if ev:
                prove_argv(E, s, n, ev, args, what)
            if check_err(E, s, err, what):
                ok += 1
                judge(s, v, named_bytes(E, "stdout0"), what)
    E.oblige(None, ok > 0, m + ": specification is not vacuous")


@unit("node.cli.ProtocolParameters", props=["C24", "C27"], dom="int", funcs=["node.NewCardanoCliNode", CLI + "ProtocolParameters", CLI + "execCommand"])
def u_cli_params(E):
    cli_query(E, "ProtocolParameters", ["query", "protocol-parameters"], lambda s, v, doc, w: params_from_json(E, s, v, doc, w))


@unit("node.cli.QueryTip", props=["C24", "C27"], dom="int", funcs=["node.NewCardanoCliNode", CLI + "QueryTip", CLI + "execCommand"])
def u_cli_tip(E):
    cli_query(E, "QueryTip", ["query", "tip"], lambda s, v, doc, w: from_json(E, s, v, doc, TIP, w))


@unit("protocol.LoadProtocol", props=["C27"], dom="int", funcs=["protocol.LoadProtocol"])
def u_load(E):
    st = State()
    name = E.sym_bytes("file", sym_len(E, "file_len"))
    ok = 0
    for s, (p, err) in rets(E, call(E, st, "protocol.LoadProtocol", [name]), "LoadProtocol"):
        no_writes(E, s, "LoadProtocol")
        ev = once(E, s, "readfile", "LoadProtocol")
        if ev:
            prove_rope(E, s, ev[1], name, "LoadProtocol: reads the file given")
        if check_err(E, s, err, "LoadProtocol"):
            ok += 1
            doc = world.memo_rope(E, s, "contents", name, named_bytes(E, "contents").n)
            params_from_json(E, s, E.load1(s, p), doc, "LoadProtocol")
    E.oblige(None, ok > 0, "LoadProtocol: specification is not vacuous")


def bf_struct(E, tname, **kw):
    """an answer: the named fields, and arbitrary others"""
    ty = E.prog.ty(BF + tname)
    f = []
    for fd, ft in zip(ty.u.fields, ty.field_types()):
        if fd["name"] in kw:
            f.append(kw.pop(fd["name"]))
        elif E.isint(ft):
            w, sg = intinfo(ft)
            f.append(E.vdom.fresh(E, E.fresh_name("other_" + fd["name"]), w, sg))
        elif ft.u.k == "basic" and ft.u.name == "string":
            f.append(named_bytes(E, "other_" + fd["name"]))
        else:
            f.append(E.zero(ft))
    if kw:
        raise Unsupported("type %s has no field %s" % (tname, list(kw)))
    return StructV(ty, f)


def bf_query(E, m, asked, judge, malformed=None):
    ok = 0
    for s0, n in bf_nodes(E):
        for s, (v, err) in invoke(E, s0.fork(), n.node, m, [], "Blockfrost " + m):
            what = "Blockfrost " + m
            no_writes(E, s, what)
            ev = once(E, s, "blockfrost", what)
            if ev and E.oblige(s, ev[1] == asked, what + ": asks for the %s" % asked):
                prove_server(E, s, n, ev[2][0], what)
                prove_rope(E, s, ev[2][1], n.project, what + ": the project given")
            if check_err(E, s, err, what, malformed=malformed):
                ok += 1
                judge(s, v, what)
    E.oblige(None, ok > 0, m + ": specification is not vacuous")


def nonneg(E, name, hi=(1 << 63) - 1):
    v = z3.Int(name)
    E.axiom(z3.And(v >= 0, v <= hi))
    E.inputs = dict(getattr(E, "inputs", None) or {}, **{name: v})
    return v


@unit("node.bf.ProtocolParameters", props=["C24", "C27"], dom="int", funcs=["node.NewBlockfrostClient", BFN + "ProtocolParameters"])
def u_bf_params(E):
    src = {"MinFeeA": nonneg(E, "MinFeeA"), "MinFeeB": nonneg(E, "MinFeeB"), "MaxTxSize": nonneg(E, "MaxTxSize"),
           "ProtocolMajorVer": nonneg(E, "ProtocolMajorVer", 255), "ProtocolMinorVer": nonneg(E, "ProtocolMinorVer", 255)}
    text = named_bytes(E, "min_utxo")
    E.world["parameters"] = lambda E2, s: bf_struct(E2, "EpochParameters", MinUtxo=text, **src)

    def judge(s, v, what):
        for f, k in (("TxFeePerByte", "MinFeeA"), ("TxFeeFixed", "MinFeeB"), ("MaxTxSize", "MaxTxSize")):
            prove_val(E, s, fld(E, v, f), src[k], "%s: %s is %s" % (what, f, k))
        for f, k in (("Major", "ProtocolMajorVer"), ("Minor", "ProtocolMinorVer")):
            prove_val(E, s, fld(E, fld(E, v, "ProtocolVersion"), f), src[k], "%s: version %s is %s" % (what, f, k))
        d, sg, x = world.number(E, text)
        E.prove(s, z3.And(d, x < U64), what + ": accepts a minimum UTXO value that is a number without sign only")
        prove_val(E, s, fld(E, v, "MinUTXOValue"), x, what + ": MinUTXOValue is MinUtxo")
    d, sg, x = world.number(E, text)
    bf_query(E, "ProtocolParameters", "parameters", judge, malformed=z3.Not(z3.And(d, x < U64)))


@unit("node.bf.QueryTip", props=["C24", "C27"], dom="int", funcs=["node.NewBlockfrostClient", BFN + "QueryTip"])
def u_bf_tip(E):
    src = {"Slot": nonneg(E, "Slot"), "Epoch": nonneg(E, "Epoch"), "Height": nonneg(E, "Height")}
    E.world["block"] = lambda E2, s: bf_struct(E2, "Block", **src)

    def judge(s, v, what):
        for f, k in (("Slot", "Slot"), ("Epoch", "Epoch"), ("Block", "Height")):
            prove_val(E, s, fld(E, v, f), src[k], "%s: %s is %s" % (what, f, k))
    bf_query(E, "QueryTip", "tip", judge)


# ------------------------------------------------------------------ C26: submission
def sub_setup(E, st):
    """a transaction by its serialization: the contract of Tx.Bytes (C08)"""
    E.lazy["txbody"] = lambda E2, s2, j: (_ for _ in ()).throw(Unsupported("contents of the transaction"))
    body, wit = Ptr(("lazy", "txbody", "b")), Ptr(("lazy", "txbody", "w"))
    v = struct(E, "tx.Tx", Body=body, Witness=wit, Valid=z3.Bool("valid"), Metadata=OpaqueV("any", "metadata", z3.Bool("no_metadata")))
    text = named_bytes(E, "serialized")

    def tx_bytes(E2, s, args, ins=None):
        t = E2.load1(s, args[0])
        E2.oblige(s, isinstance(t, StructV) and E2.val_eq(s, t, v), "SubmitTx: serializes the transaction given")
        return world.both(E2, s, "serialization", lambda q: (E2.new_slice(q, text), NILI), lambda q: (SliceV(None, 0, 0, 0, 0, True), E2.error()))
    E.models["(*tx.Tx).Bytes"] = tx_bytes
    E.assumed.append("tx.Tx.Bytes by its contract (C08): the serialization of the transaction, or an error")
    return v, text


OWED = ("serialization", "transport", "answer", "command", "request", "tempfile", "marshal", "write")


@unit("node.cli.SubmitTx", props=["C24", "C26"], dom="int", funcs=["node.NewCardanoCliNode", CLI + "SubmitTx", CLI + "execCommand", "(*tx.Tx).Hex"])
def u_cli_submit(E):
    ok = 0
    what = "cardano-cli SubmitTx"
    for s0, n in cli_nodes(E):
        v, text = sub_setup(E, s0)
        for s, (h, err) in invoke(E, s0.fork(), n.node, "SubmitTx", [v], what):
            no_writes(E, s, what)
            es = events(s)
            E.oblige(s, all(e[0] == "exec" for e in es) and len(es) <= 1, what + ": runs the command at most once")
            good = check_err(E, s, err, what, OWED)
            if good and not E.oblige(s, len(es) == 1, what + ": runs the command"):
                continue
            if not es:
                continue
            rest = es[0][2].lits()
            prove_argv(E, s, n, es[0], ["transaction", "submit", "--tx-file", None], what)
            if rest is None or len(rest) < 4:
                continue
            fs = [c for nm, c in es[0][3].values() if E.K(nm) == E.K(rest[3])]
            if not E.oblige(s, len(fs) == 1, what + ": the file given to the command is the one written"):
                continue
            d = E.__dict__.get("jsondocs", {}).get(E.K(fs[0]))
            if not E.oblige(s, isinstance(d, dict) and isinstance(d.get("cborHex"), Rope), what + ": the file is a document with the field cborHex"):
                continue
            ok += 1
            want = E.models["encoding/hex.EncodeToString"](E, s, [E.new_slice(s, text)], None)
            prove_rope(E, s, d["cborHex"], want, what + ": cborHex is the hex of the whole serialized transaction")
    E.oblige(None, ok > 0, what + ": specification is not vacuous")


@unit("node.bf.SubmitTx", props=["C24", "C26"], dom="int", funcs=["node.NewBlockfrostClient", BFN + "SubmitTx", BFN + "getNetwork"])
def u_bf_submit(E):
    ok = 0
    what = "Blockfrost SubmitTx"
    for s0, n in bf_nodes(E):
        v, text = sub_setup(E, s0)
        for s, (h, err) in invoke(E, s0.fork(), n.node, "SubmitTx", [v], what):
            no_writes(E, s, what)
            es = events(s)
            E.oblige(s, all(e[0] == "http" for e in es) and len(es) <= 1, what + ": sends at most one request")
            for e in es:
                E.oblige(s, e[1].concrete() == b"POST", what + ": method POST")
                prove_server(E, s, n, e[2], what, "/tx/submit")
                prove_rope(E, s, e[3], text, what + ": the body is the whole serialized transaction")
                for k, w in (("project_id", n.project), ("content-type", E.string("application/cbor"))):
                    x = e[4].get(k, ())
                    if E.oblige(s, len(x) == 1, what + ": one header " + k):
                        prove_rope(E, s, x[0], w, what + ": header " + k)
            if any(x in OWED for x in faults(s)):
                E.oblige(s, is_err(err), "%s: an error when the %s fails" % (what, faults(s)[0]), "returns no error")
                continue
            code = s.notes.get("status", ())
            if not E.oblige(s, len(code) == 1 and len(es) == 1, what + ": the request is sent"):
                continue
            for s2, good in cbor.split(E, s, code[0] == 200):
                if good:
                    ok += 1
                    E.oblige(s2, is_nil_err(err), what + ": no error for status 200")
                else:
                    E.oblige(s2, is_err(err), what + ": an error for every other status")
    E.oblige(None, ok > 0, what + ": specification is not vacuous")


# ------------------------------------------------------------------ C25: UTXOs
def hextext(E, name, j):
    """hex text of the transaction hash of element j"""
    raw, text = seq_at(E, name, j, 32), seq_at(E, name + "_hex", j, 64)
    memo = E.__dict__.setdefault("rope_memo", {}).setdefault("hex", [])
    if not any(E.K(r) == E.K(text) for _, r in memo):
        memo.append((raw, text))
    return raw, text


def numtext(E, name, j, good=None):
    """text of a number of element j; good: it is one below that bound"""
    jj = ilift(j)
    f = {k: z3.Function("%s_%s" % (name, k), z3.IntSort(), z3.BoolSort() if k != "value" else z3.IntSort()) for k in ("dec", "sgn", "value")}
    d, sg, v = f["dec"](jj), f["sgn"](jj), f["value"](jj)
    E.axiom(z3.Implies(d, z3.And(sg, v >= 0)))
    if good:
        E.axiom(z3.And(d, v < good))
    r = seq_at(E, name + "_text", j, fn1(E, name + "_textlen", j, 1, 1 << 30))
    E.__dict__.setdefault("numtext", {})[r.segs[0].key] = (d, sg, v)
    E.__dict__.setdefault("fieldtext", {})[r.segs[0].key] = j
    return r, d, v


def txin(E, hash_, ix, am):
    def at(E2, s2, j):
        E2.lazy["utxo.hash"] = lambda E3, s3, i: seq_at(E3, hash_, i, 32)
        return struct(E2, "tx.TxInput", TxHash=lazy_slice(E2, "utxo.hash", j, 32), Index=ix(E2, j), Amount=am(E2, j))
    return at


def listed(E, at, shift=0):
    """loop invariant: the first k UTXOs are in the list"""
    def T_(E2, s, entry, k):
        if not isinstance(entry, SliceV) or not (isinstance(entry.n, int) and entry.n == 0):
            return None
        return SeqT(Rope(E2.prog.ty("tx.TxInput"), [Fn(("list", "utxo"), shift, k.t, at)]))
    return T_


def val_of(E, name, j):
    return z3.Function(name + "_value", z3.IntSort(), z3.IntSort())(ilift(j))


def cli_table(E, good, bad=None):
    """the table cardano-cli prints: two lines of header, the UTXOs, an empty last line after the final newline"""
    nl = sym_len(E, "lines", 3)
    nf = z3.Function("nfields", z3.IntSort(), z3.IntSort())
    E.inputs["lines"] = nl
    at = txin(E, "line_hash", lambda E2, j: val_of(E2, "line_ix", j), lambda E2, j: val_of(E2, "line_am", j))

    def line(E2, st, j):
        jj = ilift(j)
        n = fn1(E2, "line_len", j, 0, 1 << 30)
        E2.axiom(z3.Implies(jj == nl - 1, n == 0))
        E2.axiom(nf(jj) >= 0)
        E2.axiom(z3.Implies(n == 0, nf(jj) == 0))
        row = z3.And(jj >= 2, jj < nl - 1)
        if good:
            E2.axiom(z3.Implies(row, z3.And(nf(jj) >= 3, n > 0)))
        r = seq_at(E2, "line", j, n)
        E2.__dict__.setdefault("linetext", {})[r.segs[0].key] = j
        return r

    def fields(E2, st, j):
        jj = ilift(j)

        def at_(E3, s3, i):
            i = isimp(i) if not isinstance(i, int) else i
            if not isinstance(i, int):
                raise Unsupported("field of unknown number")
            if i == 0:
                r = hextext(E3, "line_hash", j)[1]
                E3.__dict__.setdefault("fieldtext", {})[r.segs[0].key] = j
                return r
            if i in (1, 2):
                name = ("line_ix", "line_am")[i - 1]
                r, d, v = numtext(E3, name, j)
                if good:
                    E3.axiom(z3.Implies(z3.And(jj >= 2, jj < nl - 1), z3.And(d, v < (65536, U64)[i - 1])))
                return r
            r = seq_at(E3, "line_field%d" % i, j, fn1(E3, "line_field%d_len" % i, j, 1, 1 << 30))
            E3.__dict__.setdefault("fieldtext", {})[r.segs[0].key] = j
            return r
        return Rope(E2.prog.ty("string"), [Fn(("fields", E2.K(jj)), 0, nf(jj), at_)])

    E.world["table"] = {"text": named_bytes(E, "stdout0"), "fields": fields,
                        "lines": lambda E2, st: Rope(E2.prog.ty("string"), [Fn(("lines",), 0, nl, lambda E3, s3, j: line(E3, s3, j))])}
    E.templates = [listed(E, at, 2)]
    return nl, nf, at


def bad_row(E, st, nl, nf):
    """one row that is malformed"""
    b = z3.Int("bad_row")
    E.inputs["bad_row"] = b
    _, d1, v1 = numtext(E, "line_ix", b)
    _, d2, v2 = numtext(E, "line_am", b)
    st.pc.append(z3.And(b >= 2, b < nl - 1))
    st.pc.append(z3.Or(nf(b) < 3, z3.Not(z3.And(d1, v1 < 65536)), z3.Not(z3.And(d2, v2 < U64))))
    E.bounds = [isimp(b - 2)]
    return b


def cli_utxos(E, good):
    ok = 0
    what = "cardano-cli UTXOs" + ("" if good else " (malformed row)")
    for s0, n in cli_nodes(E):
        nl, nf, at = cli_table(E, good)
        if not good:
            bad_row(E, s0, nl, nf)
        a = OpaqueV("addrtext", "a")
        for s, (l, err) in invoke(E, s0.fork(), n.node, "UTXOs", [a], what):
            if not E.feasible(s):
                continue
            no_writes(E, s, what)
            ev = once(E, s, "exec", what)
            if ev:
                prove_argv(E, s, n, ev, ["query", "utxo", "--address", named_bytes(E, "address_a")], what)
            if not good:
                ok += 1
                E.oblige(s, is_err(err), what + ": gives an error", "returns no error")
            elif check_err(E, s, err, what, malformed=z3.BoolVal(False)):
                ok += 1
                want = Rope(E.prog.ty("tx.TxInput"), [Fn(("list", "utxo"), 2, isub(nl, 3), at)])
                prove_rope(E, s, E.content(s, l, E.prog.ty("tx.TxInput")), want, what + ": one input per row, in order: hash, index, amount")
    E.oblige(None, ok > 0, what + ": specification is not vacuous")


@unit("node.cli.UTXOs", props=["C24", "C25"], dom="int", funcs=["node.NewCardanoCliNode", CLI + "UTXOs", CLI + "execCommand", "tx.NewTxInput"])
def u_cli_utxos(E):
    cli_utxos(E, True)


@unit("node.cli.UTXOs.malformed", props=["C25"], dom="int", funcs=[CLI + "UTXOs"])
def u_cli_utxos_bad(E):
    cli_utxos(E, False)


@unit("node.cli.UTXOs.short", props=["C25"], dom="int", funcs=[CLI + "UTXOs"])
def u_cli_utxos_short(E):
    """any output at all: never a panic"""
    for s0, n in cli_nodes(E):
        cli_table(E, False)
        nl = sym_len(E, "anylines", 1)
        t = E.world["table"]
        one = t["lines"](E, s0).segs[0]
        t["lines"] = lambda E2, st: Rope(E2.prog.ty("string"), [Fn(("lines",), 0, nl, one.at)])
        E.bounds = []
        rs = invoke(E, s0.fork(), n.node, "UTXOs", [OpaqueV("addrtext", "a")], "cardano-cli UTXOs, any output")
        feasible_some(E, rs, "cardano-cli UTXOs, any output")


def bf_list(E, good):
    """UTXOs as Blockfrost reports them: amounts are (unit, quantity) pairs, of which one is lovelace"""
    n = sym_len(E, "utxos")
    E.inputs["utxos"] = n
    AA = E.prog.ty(BF + "AddressAmount")

    def pos(E2, j):
        m, p = fn1(E2, "amounts", j, 1, 1 << 30), fn1(E2, "lovelace_at", j, 0, 1 << 30)
        E2.axiom(p < m)
        return m, p

    def other(E2, st, j, i):
        f = z3.Function("unit_char", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
        ln = z3.Function("unit_len", z3.IntSort(), z3.IntSort(), z3.IntSort())(ilift(j), ilift(i))
        E2.axiom(z3.And(ln >= 0, ln < 1 << 30))

        def at(E3, s3, k):
            t = f(ilift(j), ilift(i), ilift(k))
            E3.axiom(z3.And(t >= 0, t <= 255))
            return t
        # not the text "lovelace"
        E2.axiom(z3.Not(z3.And(ln == 8, *[f(ilift(j), ilift(i), z3.IntVal(k)) == c for k, c in enumerate(b"lovelace")])))
        u = Rope(E2.u8, [Fn(("unit", E2.K(ilift(j)), E2.K(ilift(i))), 0, ln, at)])
        q = named_bytes(E2, "quantity_%s_%s" % (E2.K(ilift(j)), E2.K(ilift(i))))
        return struct(E2, BF + "AddressAmount", Unit=u, Quantity=q)

    def love(E2, j):
        q, d, v = numtext(E2, "lovelace", j, U64 if good else None)
        return struct(E2, BF + "AddressAmount", Unit=E2.string("lovelace"), Quantity=q)

    def amounts(E2, st, j):
        m, p = pos(E2, j)
        return Rope(AA, [Fn(("amounts", E2.K(ilift(j))), 0, p, lambda E3, s3, i: other(E3, s3, j, i)), Lit([love(E2, j)]),
                         Fn(("amounts", E2.K(ilift(j))), iadd(p, 1), isub(isub(m, p), 1), lambda E3, s3, i: other(E3, s3, j, i))])
    E.lazy["amounts"] = amounts

    def utxo(E2, s2, j):
        m, p = pos(E2, j)
        ix = z3.Function("output_index", z3.IntSort(), z3.IntSort())(ilift(j))
        E2.axiom(z3.And(ix >= 0, ix < 65536) if good else z3.And(ix >= -(1 << 63), ix < 1 << 63))
        am = SliceV(E2.lazy_ptr("amounts", j), 0, m, m)
        return bf_struct(E2, "AddressUTXO", TxHash=hextext(E2, "utxo_hash", j)[1], OutputIndex=ix, Amount=am)

    def utxos(E2, st):
        return E2.new_slice(st, Rope(E2.prog.ty(BF + "AddressUTXO"), [Fn(("list", "reported"), 0, n, utxo)]), pre=True)
    E.world["utxos"] = utxos
    ixf = lambda E2, j: z3.Function("output_index", z3.IntSort(), z3.IntSort())(ilift(j))
    at = txin(E, "utxo_hash", ixf, lambda E2, j: val_of(E2, "lovelace", j))

    def acc(E2, s, entry, k):
        """the amount seen so far: that of lovelace once its entry was visited"""
        if isinstance(entry, (bool, z3.BoolRef)) or not isinstance(entry, int) or entry != 0:
            return None
        j = current(E2, s)
        if j is None:
            return None
        m, p = pos(E2, j)
        numtext(E2, "lovelace", j)
        return z3.If(ilift(k.t) > p, val_of(E2, "lovelace", j), z3.IntVal(0))

    def current(E2, s):
        ks = [kk for (name, kk) in E2.__dict__.get("lazyj", {}) if name == "amounts"]
        return E2.lazyj[("amounts", ks[-1])] if ks else None
    E.templates = [listed(E, at), acc]

    def bound(E2, s):
        """entries visited: not beyond lovelace when its quantity is malformed"""
        j = current(E2, s)
        if j is None:
            return z3.IntVal(1 << 40)
        m, p = pos(E2, j)
        _, d, v = numtext(E2, "lovelace", j)
        return z3.If(z3.And(d, v < U64), m, p)

    def found(E2, s):
        """entries visited by a loop that stops at lovelace"""
        j = current(E2, s)
        return z3.IntVal(1 << 40) if j is None else pos(E2, j)[1]
    E.bounds = [found] if good else [found, bound]
    return n, at


def bf_utxos(E, good):
    ok = 0
    what = "Blockfrost UTXOs" + ("" if good else " (malformed UTXO)")
    for s0, nd in bf_nodes(E):
        n, at = bf_list(E, good)
        if not good:
            b = z3.Int("bad_utxo")
            E.inputs["bad_utxo"] = b
            _, d, v = numtext(E, "lovelace", b)
            ix = z3.Function("output_index", z3.IntSort(), z3.IntSort())(b)
            s0.pc.append(z3.And(b >= 0, b < n))
            s0.pc.append(z3.Or(z3.Not(z3.And(d, v < U64)), ix < 0, ix > 65535))
            E.bounds = [b] + E.bounds
        for s, (l, err) in invoke(E, s0.fork(), nd.node, "UTXOs", [OpaqueV("addrtext", "a")], what):
            if not E.feasible(s):
                continue
            no_writes(E, s, what)
            ev = once(E, s, "blockfrost", what)
            if ev and E.oblige(s, ev[1] == "utxos", what + ": asks for UTXOs"):
                prove_server(E, s, nd, ev[2][0], what)
                prove_rope(E, s, ev[2][1], nd.project, what + ": the project given")
                prove_rope(E, s, ev[3], named_bytes(E, "address_a"), what + ": asks for the address given")
            if not good:
                ok += 1
                E.oblige(s, is_err(err), what + ": gives an error", "returns no error")
            elif check_err(E, s, err, what, malformed=z3.BoolVal(False)):
                ok += 1
                want = Rope(E.prog.ty("tx.TxInput"), [Fn(("list", "utxo"), 0, n, at)])
                prove_rope(E, s, E.content(s, l, E.prog.ty("tx.TxInput")), want, what + ": one input per UTXO, in order: hash, index, amount")
    E.oblige(None, ok > 0, what + ": specification is not vacuous")


@unit("node.bf.UTXOs", props=["C24", "C25"], dom="int", funcs=["node.NewBlockfrostClient", BFN + "UTXOs", "tx.NewTxInput"])
def u_bf_utxos(E):
    bf_utxos(E, True)


@unit("node.bf.UTXOs.malformed", props=["C25"], dom="int", funcs=[BFN + "UTXOs"])
def u_bf_utxos_bad(E):
    bf_utxos(E, False)
