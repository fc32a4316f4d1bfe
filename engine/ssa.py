"""Loads the SSA dump made by gossa from the current source of /repo."""
import json


class Ty:
    __slots__ = ("id", "k", "name", "pkg", "str", "under_id", "elem_id", "len", "fields", "key_id", "params", "results",
                 "variadic", "methods", "elems", "prog", "_u")

    def __init__(self, prog, j):
        self.prog = prog
        self.id = j["id"]
        self.k = j["k"]
        self.str = j["str"]
        self.name = j.get("name")
        self.pkg = j.get("pkg")
        self.under_id = j.get("under")
        self.elem_id = j.get("elem")
        self.key_id = j.get("key")
        self.len = j.get("len")
        self.fields = j.get("fields")
        self.params = j.get("params") or []
        self.results = j.get("results") or []
        self.variadic = j.get("variadic")
        self.methods = j.get("methods") or []
        self.elems = j.get("elems") or []
        self._u = None

    @property
    def u(self):
        if self._u is None:
            t = self
            while t.k == "named":
                t = self.prog.types[t.under_id]
            self._u = t
        return self._u

    @property
    def elem(self):
        return self.prog.types[self.u.elem_id]

    @property
    def key(self):
        return self.prog.types[self.u.key_id]

    def field_types(self):
        return [self.prog.types[f["type"]] for f in (self.u.fields or [])]

    def __repr__(self):
        return self.str


INTS = {"int": (64, True), "int8": (8, True), "int16": (16, True), "int32": (32, True), "int64": (64, True),
        "uint": (64, False), "uint8": (8, False), "uint16": (16, False), "uint32": (32, False), "uint64": (64, False),
        "uintptr": (64, False), "byte": (8, False), "rune": (32, True),
        "untyped int": (64, True), "untyped rune": (32, True)}


def intinfo(t):
    u = t.u
    if u.k == "basic":
        return INTS.get(u.name)
    return None


class Block:
    __slots__ = ("i", "succs", "preds", "instrs", "comment")

    def __init__(self, j):
        self.i = j["i"]
        self.succs = j["succs"]
        self.preds = j["preds"]
        self.instrs = j["instrs"]
        self.comment = j.get("comment", "")


class Func:
    def __init__(self, prog, j):
        self.prog = prog
        self.name = j["name"]
        self.pkg = j.get("pkg")
        self.file = j.get("file")
        self.line = j.get("line")
        self.params = j.get("params") or []
        self.freevars = j.get("freevars") or []
        self.external = j.get("external", False)
        self.sig = prog.types[j["t"]]
        self.recv = j.get("recv")
        self.resnames = j.get("resnames")
        self.blocks = [Block(b) for b in j.get("blocks", [])]
        self._loops = None

    def loops(self):
        """natural loops: {header: set(blocks)}, in source (block index) order"""
        if self._loops is None:
            self._loops = find_loops(self)
        return self._loops


def find_loops(f):
    n = len(f.blocks)
    if n == 0:
        return {}
    dom = [set(range(n)) for _ in range(n)]
    dom[0] = {0}
    changed = True
    reach = set()
    st = [0]
    while st:
        b = st.pop()
        if b in reach:
            continue
        reach.add(b)
        st.extend(f.blocks[b].succs)
    while changed:
        changed = False
        for b in range(1, n):
            if b not in reach:
                continue
            ps = [p for p in f.blocks[b].preds if p in reach]
            nd = set.intersection(*[dom[p] for p in ps]) if ps else set()
            nd = nd | {b}
            if nd != dom[b]:
                dom[b] = nd
                changed = True
    loops = {}
    for b in reach:
        for s in f.blocks[b].succs:
            if s in dom[b]:
                body = {s}
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in f.blocks[x].preds if p in reach)
                loops.setdefault(s, set()).update(body)
    return dict(sorted(loops.items()))


class Program:
    def __init__(self, path):
        j = json.loads(open(path).read().replace("github.com/fivebinaries/go-cardano-serialization/", ""))
        self.types = []
        for t in j["types"]:
            self.types.append(Ty(self, t))
        self.bystr = {}
        for t in self.types:
            self.bystr.setdefault(t.str, t)
        self.funcs = {}
        for n, f in j["funcs"].items():
            self.funcs[n] = Func(self, f)
        self.globals = {g["name"]: self.types[g["t"]] for g in j["globals"]}
        self.methods = {}
        for m in j["methods"]:
            self.methods[(self.types[m["type"]].str, m["name"])] = m["fn"]
        self.packages = j["packages"]

    def ty(self, s):
        return self.bystr[s]


def _written_globals(self):
    """package variables that are assigned (directly) outside of the initialisation"""
    if getattr(self, "_wg", None) is not None:
        return self._wg
    w = set()
    for n, f in self.funcs.items():
        if n.endswith(".init") or ".init#" in n:
            continue
        derived = {}
        for b in f.blocks:
            for i in b.instrs:
                op = i["op"]
                if op in ("FieldAddr", "IndexAddr", "Slice", "UnOp") and i.get("x"):
                    x = i["x"]
                    g = x["n"] if x["k"] == "global" else derived.get(x["n"]) if x["k"] == "reg" else None
                    if g and (op != "UnOp" or i.get("tok") == "*"):
                        derived[i["name"]] = g
                elif op == "Store":
                    a = i["addr"]
                    g = a["n"] if a["k"] == "global" else derived.get(a["n"]) if a["k"] == "reg" else None
                    if g:
                        w.add(g)
                elif op == "MapUpdate":
                    a = i["x"]
                    g = derived.get(a["n"]) if a["k"] == "reg" else None
                    if g:
                        w.add(g)
    self._wg = {g for g in w if g in self.globals}
    return self._wg


Program.written_globals = _written_globals
