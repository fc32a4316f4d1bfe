"""Values of the symbolic interpreter."""
import z3
from .domains import Unsupported


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return isimp(a + b)


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return isimp(a - b)


def isimp(r):
    if isinstance(r, int):
        return r
    r = z3.simplify(r, som=True)
    if z3.is_int_value(r):
        return r.as_long()
    return r


class Ptr:
    """address of a location: heap object and path into its value; oid None is nil"""
    __slots__ = ("oid", "path")

    def __init__(self, oid, path=()):
        self.oid = oid
        self.path = path

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.oid, self.path)


NIL = Ptr(None)


class SliceV:
    __slots__ = ("ptr", "off", "n", "cap", "gen", "nilc")

    def __init__(self, ptr, off, n, cap, gen=0, nilc=False):
        self.ptr = ptr
        self.off = off
        self.n = n
        self.cap = cap
        self.gen = gen
        self.nilc = nilc

    def __repr__(self):
        return "Slice(%s,%s,%s)" % (self.ptr, self.off, self.n)


class StructV:
    __slots__ = ("ty", "f")

    def __init__(self, ty, f):
        self.ty = ty
        self.f = tuple(f)

    def __repr__(self):
        return "Struct%s" % (self.f,)


class ArrV:
    """array of fixed size, or backing array of concrete length"""
    __slots__ = ("et", "v")

    def __init__(self, et, v):
        self.et = et
        self.v = tuple(v)

    def __repr__(self):
        return "Arr%s" % (self.v,)


class Lit:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    @property
    def n(self):
        return len(self.v)

    def __repr__(self):
        return "Lit%s" % (self.v,)


class Fn:
    """n elements of an infinite sequence known by key, from index off on;
    at(E, st, j) is the element at absolute index j"""
    __slots__ = ("key", "off", "n", "at")

    def __init__(self, key, off, n, at):
        self.key = key
        self.off = off
        self.n = n
        self.at = at

    def __repr__(self):
        return "Fn(%s,%s,%s)" % (self.key, self.off, self.n)


class Rope:
    """immutable sequence: strings, and contents of backing arrays"""
    __slots__ = ("et", "segs", "_n")

    def __init__(self, et, segs):
        out = []
        for s in segs:
            if isinstance(s.n, int) and s.n == 0:
                continue
            if isinstance(s, Lit) and out and isinstance(out[-1], Lit):
                out[-1] = Lit(out[-1].v + s.v)
            else:
                out.append(s)
        self.et = et
        self.segs = tuple(out)
        self._n = None

    @property
    def n(self):
        if self._n is None:
            t = 0
            for s in self.segs:
                t = iadd(t, s.n)
            self._n = t
        return self._n

    def __repr__(self):
        return "Rope%s" % (self.segs,)

    def concrete(self):
        """the Python bytes when everything is concrete, else None"""
        r = []
        for s in self.segs:
            if not isinstance(s, Lit):
                return None
            for x in s.v:
                if not isinstance(x, int):
                    return None
                r.append(x)
        return bytes(x & 255 for x in r)

    def lits(self):
        """list of elements when the length is concrete, else None"""
        r = []
        for s in self.segs:
            if not isinstance(s, Lit):
                return None
            r.extend(s.v)
        return r


class IfaceV:
    """non-nil interface value with known dynamic type"""
    __slots__ = ("ty", "v")

    def __init__(self, ty, v):
        self.ty = ty
        self.v = v

    def __repr__(self):
        return "Iface(%s,%s)" % (self.ty, self.v)


class NilIface:
    def __repr__(self):
        return "nil"


NILI = NilIface()


class OpaqueV:
    """value of which only the identity is known: kind names the set of models
    that apply to it; isnil is a bool (or z3 Bool) for interfaces and pointers"""
    __slots__ = ("kind", "key", "isnil", "data")

    def __init__(self, kind, key, isnil=False, data=None):
        self.kind = kind
        self.key = key
        self.isnil = isnil
        self.data = data

    def __repr__(self):
        return "Opaque(%s,%s)" % (self.kind, self.key)


class FuncV:
    __slots__ = ("name", "bind")

    def __init__(self, name, bind=()):
        self.name = name
        self.bind = tuple(bind)


class MapV:
    """entries in order of insertion; keys concrete or symbolic"""
    __slots__ = ("entries",)

    def __init__(self, entries=()):
        self.entries = tuple(entries)


class BuilderV:
    """strings.Builder / bytes.Buffer content"""
    __slots__ = ("rope",)

    def __init__(self, rope):
        self.rope = rope


class IterV:
    __slots__ = ("rope", "pos")

    def __init__(self, rope, pos):
        self.rope = rope
        self.pos = pos


class Cell:
    __slots__ = ("val", "ty", "pre", "gen", "dirty", "grow")

    def __init__(self, val, ty=None, pre=False, gen=0, dirty=-1, grow=False):
        self.val = val
        self.ty = ty
        self.pre = pre      # existed before the function under contract was called
        self.gen = gen      # number of appends that may have moved the contents
        self.dirty = dirty  # slices of an older generation than this may see stale contents
        self.grow = grow

    def with_(self, **kw):
        c = Cell(self.val, self.ty, self.pre, self.gen, self.dirty, self.grow)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class State:
    __slots__ = ("pc", "heap", "univ", "notes", "pend", "trace")

    def __init__(self):
        self.pc = []
        self.heap = {}
        self.univ = {}    # key of sequence -> list of fn(E, st, j) -> fact about element j
        self.notes = {}   # ghost state of models
        self.pend = []
        self.trace = ()

    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.heap = dict(self.heap)
        s.univ = dict(self.univ)
        s.notes = dict(self.notes)
        s.trace = self.trace
        return s
