"""Assumed contracts of the world outside: commands, files, HTTP, the Blockfrost client, JSON, text and numbers.

Ghost state (State.notes): "events", a tuple of what was asked of the outside in order; "faults", what failed;
"files", the contents of the files made by the program.  A fault makes the function under contract owe an error."""
import z3
from .domains import *
from .values import *
from .ssa import intinfo
from .models import model, REG, ASSUMED, u8cmp, memo_rope, opaque_fn
from .values import iadd, isub, isimp

BF = "github.com/blockfrost/blockfrost-go."


def event(st, *e):
    st.notes["events"] = st.notes.get("events", ()) + (e,)


def events(st, kind=None):
    return [e for e in st.notes.get("events", ()) if kind is None or e[0] == kind]


def fault(st, what):
    st.notes["faults"] = st.notes.get("faults", ()) + (what,)


def faults(st):
    return st.notes.get("faults", ())


def both(E, st, what, good, bad):
    """succeeds, or fails with a note of the fault"""
    s1, s2 = st, st.fork()
    fault(s2, what)
    return [(s1, good(s1)), (s2, bad(s2))]


def ilift(v):
    return z3.IntVal(v) if isinstance(v, int) else v


def fresh_bytes(E, name):
    n = E.fresh_int(name + "_len", 0, 1 << 40)
    return Rope(E.u8, [opaque_fn(E, name, (name, E.fresh_name("r")), n)])


def named_bytes(E, name):
    """the same at every use"""
    tab = E.__dict__.setdefault("named_ropes", {})
    if name not in tab:
        tab[name] = fresh_bytes(E, name)
    return tab[name]


def field_index(ty, name):
    for i, fd in enumerate(ty.u.fields):
        if fd["name"] == name:
            return i
    raise Unsupported("type %s has no field %s" % (ty.str, name))


def elem_ty(E, name):
    t = E.prog.bystr.get(name)
    if t is None:
        raise Unsupported("type %s is not known" % name)
    return E.prog.ty(name)


def strings_of(E, st, sl):
    """the texts in a slice: Rope of texts"""
    return E.content(st, sl, E.prog.ty("string"))


# ------------------------------------------------------------------ commands
@model("os/exec.Command", doc="a command with this name and these arguments, not run yet")
def _command(E, st, args, ins):
    ty = elem_ty(E, "os/exec.Cmd")
    v = E.zero(ty)
    oid = E.new(st, v, ty)
    name, rest = args[0], strings_of(E, st, args[1])
    st.notes["cmds"] = dict(st.notes.get("cmds", {}), **{oid: (name, rest)})
    return Ptr(oid)


@model("os/exec.CommandContext", doc="as exec.Command; the context never ends")
def _commandctx(E, st, args, ins):
    return _command(E, st, args[1:], ins)


def cmd_of(E, st, p):
    c = st.notes.get("cmds", {}).get(p.oid)
    if c is None or p.path:
        raise Unsupported("unknown command")
    v = E.load1(st, p)
    for f in ("Path", "Args", "Env", "Dir", "Stdin"):
        x = v.f[field_index(v.ty, f)]
        if not (isinstance(x, NilIface) or (isinstance(x, SliceV) and x.ptr is None) or (isinstance(x, Rope) and x.n == 0)):
            raise Unsupported("command with a changed %s" % f)
    return c, v


def start(E, st, p):
    (name, rest), v = cmd_of(E, st, p)
    n = len(events(st, "exec"))
    event(st, "exec", name, rest, dict(st.notes.get("files", {})))
    return v, named_bytes(E, "stdout%d" % n)


@model("(*os/exec.Cmd).Run", doc="runs the command with the given arguments; fails, or succeeds with its output written to Stdout; "
       "a failing command may have written anything")
def _run(E, st, args, ins):
    v, text = start(E, st, args[0])
    out = v.f[field_index(v.ty, "Stdout")]

    def put(s, r):
        if isinstance(out, NilIface):
            return
        if isinstance(out, IfaceV) and out.ty.str in ("*bytes.Buffer", "*strings.Builder"):
            from .models import badd
            badd(E, s, out.v, r)
            return
        raise Unsupported("output of the command goes to %r" % (out,))

    def good(s):
        put(s, text)
        return NILI

    def bad(s):
        put(s, fresh_bytes(E, "partial_output"))
        return E.error()
    return both(E, st, "command", good, bad)


@model("(*os/exec.Cmd).Output", doc="as Run, and returns the output; a failing command may have written anything")
def _output(E, st, args, ins):
    v, text = start(E, st, args[0])
    return both(E, st, "command", lambda s: (E.new_slice(s, text), NILI),
                lambda s: (E.new_slice(s, fresh_bytes(E, "partial_output")), E.error()))


# ------------------------------------------------------------------ files
def new_file(E, st):
    name = named_bytes(E, E.fresh_name("filename"))
    oid = E.new(st, BuilderV(Rope(E.u8, [])))
    st.notes["files"] = dict(st.notes.get("files", {}), **{oid: (name, Rope(E.u8, []))})
    return OpaqueV("file", oid, False, (name, oid))


def file_put(E, st, oid, r):
    fs = dict(st.notes.get("files", {}))
    if oid in fs:
        fs[oid] = (fs[oid][0], E.concat(fs[oid][1], r))
    st.notes["files"] = fs


@model("io/ioutil.TempFile", "os.CreateTemp", doc="fails, or makes a new empty file with a name of its own")
def _tempfile(E, st, args, ins):
    return both(E, st, "tempfile", lambda s: (new_file(E, s), NILI), lambda s: (NIL, E.error()))


@model("os.TempDir", doc="name of the directory for temporary files")
def _tempdir(E, st, args, ins):
    return named_bytes(E, "tempdir")


@model("(*os.File).Name", doc="name of the file")
def _fname(E, st, args, ins):
    if not isinstance(args[0], OpaqueV):
        return [(st, "panic", "method of a nil file")]
    return args[0].data[0]


@model("(*os.File).Write", "(*os.File).WriteString", doc="appends everything to the file, or fails")
def _fwrite(E, st, args, ins):
    f = args[0]
    if not isinstance(f, OpaqueV) or f.kind != "file":
        raise Unsupported("write to an unknown file")
    r = args[1] if isinstance(args[1], Rope) else E.content(st, args[1])

    def good(s):
        file_put(E, s, f.data[1], r)
        return (r.n, NILI)

    def bad(s):
        file_put(E, s, f.data[1], fresh_bytes(E, "partial_write"))
        return (E.fresh_int("written", 0), E.error())
    return both(E, st, "write", good, bad)


@model("(*os.File).Close", "(*os.File).Sync", doc="fails, or succeeds; the contents stay")
def _fclose(E, st, args, ins):
    return both(E, st, "close", lambda s: NILI, lambda s: E.error())


@model("os.Remove", doc="removes the file, or fails")
def _remove(E, st, args, ins):
    fs = dict(st.notes.get("files", {}))
    for oid, (n, c) in list(fs.items()):
        if E.K(n) == E.K(args[0]):
            fs.pop(oid)
    st.notes["files"] = fs
    s2 = st.fork()
    return [(st, NILI), (s2, E.error())]


@model("io/ioutil.WriteFile", "os.WriteFile", doc="fails, or the file has exactly these contents")
def _writefile(E, st, args, ins):
    r = E.content(st, args[1])

    def put(s, r):
        fs = dict(s.notes.get("files", {}))
        for oid, (n, c) in list(fs.items()):
            if E.K(n) == E.K(args[0]):
                fs[oid] = (n, r)
                break
        else:
            fs[E.new(s, BuilderV(r))] = (args[0], r)
        s.notes["files"] = fs

    def good(s):
        put(s, r)
        return NILI

    def bad(s):
        put(s, fresh_bytes(E, "partial_write"))
        return E.error()
    return both(E, st, "write", good, bad)


@model("io/ioutil.ReadFile", "os.ReadFile", doc="fails, or gives the contents of the file of that name")
def _readfile(E, st, args, ins):
    event(st, "readfile", args[0])

    def good(s):
        return (E.new_slice(s, memo_rope(E, s, "contents", args[0], named_bytes(E, "contents").n)), NILI)
    return both(E, st, "readfile", good, lambda s: (SliceV(None, 0, 0, 0, 0, True), E.error()))


# ------------------------------------------------------------------ HTTP
def reader_content(E, st, r):
    if isinstance(r, NilIface):
        return Rope(E.u8, [])
    if isinstance(r, OpaqueV) and r.kind == "reader":
        return r.data
    if isinstance(r, IfaceV):
        if isinstance(r.v, OpaqueV) and r.v.kind == "reader":
            return r.v.data
        if r.ty.str in ("*bytes.Buffer", "*strings.Builder"):
            from .models import bget
            return bget(E, st, r.v)
    raise Unsupported("unknown reader %r" % (r,))


@model("bytes.NewReader", doc="reads exactly these bytes")
def _breader(E, st, args, ins):
    return OpaqueV("reader", E.fresh_name("reader"), False, E.content(st, args[0]))


@model("strings.NewReader", doc="reads exactly this text")
def _sreader(E, st, args, ins):
    return OpaqueV("reader", E.fresh_name("reader"), False, args[0])


@model("bytes.NewBuffer", doc="a buffer with these contents")
def _newbuffer(E, st, args, ins):
    r = E.content(st, args[0]) if isinstance(args[0], SliceV) and args[0].ptr is not None else Rope(E.u8, [])
    return Ptr(E.new(st, BuilderV(r), elem_ty(E, "bytes.Buffer") if "bytes.Buffer" in E.prog.bystr else None))


@model("bytes.NewBufferString", doc="a buffer with this text")
def _newbufferstr(E, st, args, ins):
    return Ptr(E.new(st, BuilderV(args[0])))


@model("context.TODO", "context.Background", doc="a context that never ends")
def _ctx(E, st, args, ins):
    return OpaqueV("context", "background")


@model("net/http.NewRequestWithContext", doc="a request with this method, address and body; fails only for a method or address that is malformed")
def _newrequest(E, st, args, ins):
    return newreq(E, st, args[1], args[2], args[3])


@model("net/http.NewRequest", doc="a request with this method, address and body; fails only for a method or address that is malformed")
def _newrequest2(E, st, args, ins):
    return newreq(E, st, args[0], args[1], args[2])


def newreq(E, st, method, url, body):
    ty = elem_ty(E, "net/http.Request")

    def good(s):
        v = E.zero(ty)
        oid = "req%s" % E.fresh_name("")
        f = list(v.f)
        f[field_index(ty, "Header")] = OpaqueV("header", oid)
        o = E.new(s, StructV(ty, f), ty)
        s.notes["reqs"] = dict(s.notes.get("reqs", {}), **{o: (method, url, reader_content(E, s, body), oid)})
        return (Ptr(o), NILI)
    return both(E, st, "request", good, lambda s: (NIL, E.error()))


def header_put(E, st, h, k, v, add):
    if not isinstance(h, OpaqueV) or h.kind != "header":
        raise Unsupported("unknown header")
    key = k.concrete()
    if key is None:
        raise Unsupported("header with an unknown name")
    hs = dict(st.notes.get(("header", h.key), {}))
    lk = key.decode().lower()
    hs[lk] = (hs.get(lk, ()) if add else ()) + (v,)
    st.notes[("header", h.key)] = hs


@model("(net/http.Header).Add", doc="adds the header")
def _hadd(E, st, args, ins):
    header_put(E, st, args[0], args[1], args[2], True)


@model("(net/http.Header).Set", doc="sets the header")
def _hset(E, st, args, ins):
    header_put(E, st, args[0], args[1], args[2], False)


@model("(*net/http.Client).Do", doc="sends the request once; fails, or gives the server's answer: any status, any body")
def _do(E, st, args, ins):
    p = args[1]
    if isinstance(p, Ptr) and p.oid is None:
        return [(st, "panic", "nil request")]
    r = st.notes.get("reqs", {}).get(p.oid)
    if r is None:
        raise Unsupported("unknown request")
    v = E.load1(st, p)
    for f in ("Method", "URL", "Body", "Host"):
        x = v.f[field_index(v.ty, f)]
        if not (isinstance(x, NilIface) or (isinstance(x, Ptr) and x.oid is None) or (isinstance(x, Rope) and x.n == 0)):
            raise Unsupported("request with a changed %s" % f)
    method, url, body, h = r
    event(st, "http", method, url, body, dict(st.notes.get(("header", h), {})))
    ty = elem_ty(E, "net/http.Response")
    k = len(events(st, "http"))

    def good(s):
        x = E.zero(ty)
        f = list(x.f)
        code = z3.Int("status%d" % k)
        E.axiom(z3.And(code >= 100, code <= 999))
        f[field_index(ty, "StatusCode")] = code
        f[field_index(ty, "Status")] = named_bytes(E, "statustext%d" % k)
        f[field_index(ty, "Body")] = OpaqueV("httpbody", k)
        s.notes["status"] = s.notes.get("status", ()) + (code,)
        return (Ptr(E.new(s, StructV(ty, f), ty)), NILI)
    return both(E, st, "transport", good, lambda s: (NIL, E.error()))


REG["global:net/http.DefaultClient"] = lambda E, st: Ptr(E.new(st, E.zero(elem_ty(E, "net/http.Client")), elem_ty(E, "net/http.Client"), pre=True))


@model("io/ioutil.ReadAll", "io.ReadAll", doc="fails, or gives everything")
def _readall(E, st, args, ins):
    r = args[0]
    if isinstance(r, OpaqueV) and r.kind == "httpbody":
        return both(E, st, "answer", lambda s: (E.new_slice(s, named_bytes(E, "answer%d" % r.key)), NILI),
                    lambda s: (E.new_slice(s, fresh_bytes(E, "partial_answer")), E.error()))
    c = reader_content(E, st, r)
    return (E.new_slice(st, c), NILI)


def install_invokes(E):
    E.invokes[("httpbody", "Close")] = lambda E2, st, r, args: [(st, NILI), (st.fork(), E2.error())]
    E.invokes[("bfclient", "AddressUTXOs")] = bf_utxos
    E.invokes[("bfclient", "LatestEpochParameters")] = bf_params
    E.invokes[("bfclient", "BlockLatest")] = bf_block
    E.invokes[("addrtext", "String")] = lambda E2, st, a, args: named_bytes(E2, "address_%s" % a.key)
    E.invokes[("error", "Error")] = lambda E2, st, a, args: named_bytes(E2, "errortext_%s" % (a.key,))


# ------------------------------------------------------------------ Blockfrost
@model(BF + "NewAPIClient", doc="a client for exactly the given server and project; an empty server means mainnet")
def _newclient(E, st, args, ins):
    o = args[0]
    d = {fd["name"]: v for fd, v in zip(o.ty.u.fields, o.f)}
    return OpaqueV("bfclient", E.fresh_name("client"), False, (d["Server"], d["ProjectID"]))


def bf_utxos(E, st, c, args):
    event(st, "blockfrost", "utxos", c.data, args[1])
    q = args[2]
    for x in q.f:
        if not (isinstance(x, int) and x == 0 or isinstance(x, Rope) and x.n == 0):
            raise Unsupported("UTXOs asked with query parameters")
    return both(E, st, "backend", lambda s: (E.world["utxos"](E, s), NILI),
                lambda s: (SliceV(None, 0, 0, 0, 0, True), E.error()))


def bf_params(E, st, c, args):
    event(st, "blockfrost", "parameters", c.data)
    z = E.zero(E.prog.ty(BF + "EpochParameters"))
    return both(E, st, "backend", lambda s: (E.world["parameters"](E, s), NILI), lambda s: (z, E.error()))


def bf_block(E, st, c, args):
    event(st, "blockfrost", "tip", c.data)
    z = E.zero(E.prog.ty(BF + "Block"))
    return both(E, st, "backend", lambda s: (E.world["block"](E, s), NILI), lambda s: (z, E.error()))


for _m, _d in (("AddressUTXOs", "the first page of the address's UTXOs as the server reports them"),
               ("LatestEpochParameters", "the parameters of the current epoch as the server reports them"),
               ("BlockLatest", "the latest block as the server reports it")):
    ASSUMED["bfclient." + _m] = "one request to the client's server: fails, or gives " + _d
ASSUMED["httpbody.Close"] = "closes the answer"


# ------------------------------------------------------------------ numbers in text
def number(E, rope):
    """(is it a decimal number without sign, is it a decimal number with or without sign, its value) of a text"""
    c = rope.concrete()
    if c is not None:
        t = c.decode("latin1")
        dig = t.isascii() and t.isdigit()
        sg = dig or (len(t) > 1 and t[0] in "+-" and t[1:].isascii() and t[1:].isdigit())
        return dig, sg, int(t) if sg else 0
    if len(rope.segs) == 1 and isinstance(rope.segs[0], Fn):
        k = E.__dict__.get("numtext", {}).get(rope.segs[0].key)
        if k is not None and E.same_int(None, rope.segs[0].off, 0):
            return k
    tab = E.__dict__.setdefault("num_memo", {})
    k = E.K(rope)
    if k not in tab:
        d, s, v = E.fresh_bool("isdecimal"), E.fresh_bool("issigned"), E.fresh_int("numvalue")
        E.axiom(z3.Implies(d, z3.And(s, v >= 0)))
        tab[k] = (d, s, v)
        E.keep.append(rope)
    return tab[k]


def parse(E, st, rope, ok, v, ty, what):
    s1, s2 = st.fork(), st.fork()
    out = []
    s1.pc.append(B(ok))
    if E.feasible(s1):
        out.append((s1, (E.vdom.of_int(v) if hasattr(E.vdom, "of_int") else v, NILI)))
    s2.pc.append(B(Not(ok)))
    if E.feasible(s2):
        fault(s2, "number")
        out.append((s2, (E.vdom.fresh(E, E.fresh_name("unparsed"), 64, what != "u"), E.error())))
    return out


@model("strconv.ParseUint", doc="base 10: the value of a text of decimal digits, when it fits; an error otherwise")
def _parseuint(E, st, args, ins):
    if args[1] != 10 or not isinstance(args[2], int):
        raise Unsupported("ParseUint with another base")
    bits = args[2] or 64
    d, s, v = number(E, args[0])
    return parse(E, st, args[0], And(d, ilift(v) < (1 << bits)), v, None, "u")


@model("strconv.ParseInt", doc="base 10: the value of a text of decimal digits with or without sign, when it fits; an error otherwise")
def _parseint(E, st, args, ins):
    if args[1] != 10 or not isinstance(args[2], int):
        raise Unsupported("ParseInt with another base")
    bits = args[2] or 64
    d, s, v = number(E, args[0])
    return parse(E, st, args[0], And(s, ilift(v) < (1 << bits - 1), ilift(v) >= -(1 << bits - 1)), v, None, "s")


@model("strconv.Atoi", doc="as ParseInt with base 10 and 64 bits")
def _atoi(E, st, args, ins):
    return _parseint(E, st, [args[0], 10, 64], ins)


def decimal(E, st, v):
    """the decimal digits of a number: a function of its value"""
    if isinstance(v, int):
        return Rope(E.u8, [Lit(list(str(v).encode()))])
    tab = E.__dict__.setdefault("decimals", [])
    for x, r in tab:
        if x.sort() == v.sort() and (z3.eq(x, v) or E.valid(st, x == v)):
            return r
    key = ("decimal", E.fresh_name("d"))
    n = E.fresh_int("digits", 1, 21)
    r = Rope(E.u8, [opaque_fn(E, "decimal", key, n)])
    tab.append((v, r))
    return r


@model("strconv.Itoa", doc="decimal digits")
def _itoa(E, st, args, ins):
    return decimal(E, st, args[0])


@model("strconv.FormatUint", "strconv.FormatInt", doc="base 10: decimal digits")
def _formatuint(E, st, args, ins):
    if args[1] != 10:
        raise Unsupported("number in another base")
    return decimal(E, st, args[0])


def text_of(E, st, x, verb):
    if isinstance(x, IfaceV):
        v = x.v
        if isinstance(v, Rope) and verb in "sv":
            return v
        if E.isint(x.ty) and verb in "dv" and isinstance(v, (int, z3.ExprRef)):
            return decimal(E, st, v)
        if verb in "sv" and isinstance(v, SliceV) and verb == "s":
            return E.content(st, v)
    raise Unsupported("fmt: %%%s of %r" % (verb, x))


@model("fmt.Sprintf", "fmt.Sprint", doc="%s, %d, %v of texts and numbers: the text itself, decimal digits")
def _sprintf(E, st, args, ins):
    if len(args) == 1:
        parts = [text_of(E, st, x, "v") for x in E.content(st, args[0]).lits() or ()]
        if len(parts) != 1:
            raise Unsupported("fmt.Sprint")
        return parts[0]
    f = args[0].concrete()
    if f is None:
        raise Unsupported("unknown format")
    xs = list(E.content(st, args[1]).lits() or ()) if args[1].ptr is not None else []
    out, i, f = [], 0, f.decode("latin1")
    while i < len(f):
        if f[i] != "%":
            j = f.find("%", i)
            j = len(f) if j < 0 else j
            out.append(E.string(f[i:j].encode("latin1")))
            i = j
            continue
        v = f[i + 1:i + 2]
        i += 2
        if v == "%":
            out.append(E.string("%"))
        elif v in ("s", "d", "v") and xs:
            out.append(text_of(E, st, xs.pop(0), v))
        else:
            raise Unsupported("format %r" % f)
    if xs:
        raise Unsupported("format %r" % f)
    return E.concat(*out) if out else E.string("")


# ------------------------------------------------------------------ lines and fields of a table
def table(E, rope):
    """the lines of the output: E.world["table"] describes them"""
    t = E.world.get("table")
    if t is None or not E.rope_eq(State(), rope, t["text"]):
        raise Unsupported("lines of an unknown text")
    return t


@model("strings.Split", doc="the lines of the text: separated by newlines, of which there is one less than lines")
def _split(E, st, args, ins):
    if args[1].concrete() != b"\n":
        raise Unsupported("strings.Split with another separator")
    t = table(E, args[0])
    return E.new_slice(st, t["lines"](E, st))


@model("strings.Fields", doc="the parts of the line between white space, each of them not empty and without white space")
def _fields(E, st, args, ins):
    r = args[0]
    if len(r.segs) == 1 and isinstance(r.segs[0], Fn):
        key = r.segs[0].key
        if key in E.__dict__.get("fieldtext", {}):
            return E.new_slice(st, Rope(E.prog.ty("string"), [Lit([r])]))
        j = E.__dict__.get("linetext", {}).get(key)
        if j is not None:
            return E.new_slice(st, E.world["table"]["fields"](E, st, j))
    raise Unsupported("fields of an unknown text")


# ------------------------------------------------------------------ JSON
def json_fields(ty):
    """[(index, name, type)] of a struct, as encoding/json sees it"""
    out = []
    for i, (fd, ft) in enumerate(zip(ty.u.fields, ty.field_types())):
        tag = fd.get("tag") or ""
        name = fd["name"]
        k = tag.find('json:"')
        if not name[:1].isupper():
            continue
        if k >= 0:
            t = tag[k + 6:tag.find('"', k + 6)]
            if t == "-":
                continue
            parts = t.split(",")
            if "string" in parts[1:]:
                raise Unsupported("JSON tag " + tag)
            name = parts[0] or name
        elif fd.get("emb"):
            raise Unsupported("embedded field in JSON")
        out.append((i, name, ft))
    return out


def jvalue(E, doc, path, w, signed):
    """(present, value) of the number at a path of the document; names are compared without regard to case"""
    key = (E.K(doc),) + tuple(x.lower() for x in path)
    tab = E.__dict__.setdefault("jvalues", {})
    if key not in tab:
        n = "json_" + "_".join(key[1:])
        tab[key] = (z3.Bool(E.fresh_name(n + "_present")), z3.Int(E.fresh_name(n)))
        E.keep.append(doc)
    return tab[key]


def jdecode(E, st, doc, ty, old, path):
    """value after decoding, and the conditions under which that succeeds"""
    u = ty.u
    if u.k == "struct":
        f, cs = list(old.f), []
        for i, name, ft in json_fields(ty):
            f[i], c = jdecode(E, st, doc, ft, f[i], path + (name,))
            cs += c
        return StructV(old.ty, f), cs
    if intinfo(ty):
        w, sg = intinfo(ty)
        p, v = jvalue(E, doc, path, w, sg)
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
        return z3.If(p, v, ilift(old)), [z3.Implies(p, z3.And(v >= lo, v <= hi))]
    raise Unsupported("JSON decoding into %s" % ty.str)


def jscramble(E, ty, old):
    if ty.u.k == "struct":
        f = list(old.f)
        for i, name, ft in json_fields(ty):
            f[i] = jscramble(E, ft, f[i])
        return StructV(old.ty, f)
    if intinfo(ty):
        w, sg = intinfo(ty)
        return E.vdom.fresh(E, E.fresh_name("partial"), w, sg)
    raise Unsupported("JSON decoding into %s" % ty.str)


@model("encoding/json.Unmarshal", doc="fails for an empty text; fails, or sets each field to the number of that name in the document, when it is there and "
       "fits; after a failure the fields are arbitrary")
def _unmarshal(E, st, args, ins):
    if E.vdom.name != "int":
        raise Unsupported("JSON outside of the integer domain")
    r = E.content(st, args[0])
    x = args[1]
    if not isinstance(x, IfaceV) or not isinstance(x.v, Ptr) or x.ty.u.k != "ptr" or x.v.oid is None:
        raise Unsupported("JSON decoding into %r" % (x,))
    ty = x.ty.elem
    old = E.load1(st, x.v)
    out = []
    s1, s2 = st, st.fork()
    s1.pc.append(ilift(r.n) > 0)
    if E.feasible(s1):
        v, cs = jdecode(E, s1, r, ty, old, ())
        s1.pc += cs
        E.store(s1, x.v, v)
        if E.feasible(s1):
            out.append((s1, NILI))
    fault(s2, "json")
    E.store(s2, x.v, jscramble(E, ty, old))
    out.append((s2, E.error()))
    return out


def jencode(E, st, v, ty):
    if ty.u.k == "struct":
        return {name: jencode(E, st, v.f[i], ft) for i, name, ft in json_fields(ty)}
    if ty.u.k == "ptr" and isinstance(v, Ptr) and v.oid is not None:
        return jencode(E, st, E.load1(st, v), ty.elem)
    if ty.u.k == "basic" and ty.u.name == "string":
        return v
    if intinfo(ty) or isinstance(v, (bool, z3.BoolRef)):
        return v
    if ty.u.k == "map" and isinstance(v, Ptr) and v.oid is not None:
        m = E.load1(st, v)
        if isinstance(m, MapV):
            d = {}
            for k, x in m.entries:
                c = k.concrete() if isinstance(k, Rope) else None
                if c is None:
                    raise Unsupported("JSON of a map with unknown names")
                d[c.decode("latin1")] = x.v if isinstance(x, IfaceV) else x
            return d
    raise Unsupported("JSON of %s" % ty.str)


@model("encoding/json.Marshal", "encoding/json.MarshalIndent", doc="fails, or gives a document with exactly the fields of the value")
def _marshal(E, st, args, ins):
    x = args[0]
    if not isinstance(x, IfaceV):
        raise Unsupported("JSON of an unknown value")
    d = jencode(E, st, x.v, x.ty)
    r = fresh_bytes(E, "json")
    E.__dict__.setdefault("jsondocs", {})[E.K(r)] = d
    E.keep.append(r)
    return both(E, st, "marshal", lambda s: (E.new_slice(s, r), NILI), lambda s: (SliceV(None, 0, 0, 0, 0, True), E.error()))


for _f in ("os.Stdout", "os.Stderr", "os.Stdin"):
    REG["global:" + _f] = lambda E, st, f=_f: Ptr(("std", f))
