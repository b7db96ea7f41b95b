"""Symbolic state, values, lvalues."""
import itertools
import z3
from .ctypes_ import T, BOOL, STR, DBL, VOID, I32, U32, I64, U64, U8, I8, Unsupported

class Ctr:
    """Name counter; reset at each re-execution so that equal prefixes give equal terms."""
    n = 0


def mark():
    Ctr.n += 1
    return Ctr.n


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, mark()), sort)


class V:
    """An SMT-valued C++ value."""
    __slots__ = ('e', 't')

    def __init__(self, e, t):
        self.e, self.t = e, t

    def __repr__(self):
        return 'V(%s:%s)' % (self.e, self.t)


class LV:
    """lvalue: root ('local',key) | ('heap',field,ref) | ('glob',name); path of ('f',i)/('idx',e)/('key',e)."""
    __slots__ = ('root', 'path', 't')

    def __init__(self, root, path, t):
        self.root, self.path, self.t = root, path, t

    def __repr__(self):
        return 'LV(%s%s)' % (self.root, self.path)


class Obj:
    """A class object designated as an lvalue (ref term, static class)."""
    __slots__ = ('e', 'cls')

    def __init__(self, e, cls):
        self.e, self.cls = e, cls


class PtrLV:
    """Pointer to a non-class lvalue; null is a z3 Bool (may be False)."""
    __slots__ = ('lv', 'null')

    def __init__(self, lv, null=None):
        self.lv, self.null = lv, null if null is not None else z3.BoolVal(False)


class It:
    """Iterator at position idx; en = (len, arr, value) enumeration for set/map."""
    __slots__ = ('kind', 'lv', 'idx', 'en', 't', 'rev')

    def __init__(self, kind, lv, idx, en, t, rev=False):
        self.kind, self.lv, self.idx, self.en, self.t, self.rev = kind, lv, idx, en, t, rev


class KeyIt:
    """Result of find(): designates key unless isend."""
    __slots__ = ('kind', 'lv', 'key', 'isend', 't')

    def __init__(self, kind, lv, key, isend, t):
        self.kind, self.lv, self.key, self.isend, self.t = kind, lv, key, isend, t


class CStr:
    """char pointer into an immutable string."""
    __slots__ = ('e', 'off', 'null', 'buf')

    def __init__(self, e, off=None, null=None, buf=None):
        self.e = e
        self.buf = buf          # identity of a private copy
        self.off = z3.IntVal(0) if off is None else off
        self.null = z3.BoolVal(False) if null is None else null


class Lam:
    __slots__ = ('node', 'frame', 'caps')

    def __init__(self, node, frame, caps):
        self.node, self.frame, self.caps = node, frame, caps


class FnRef:
    __slots__ = ('name', 'func', 'cls')

    def __init__(self, name, func=None, cls=None):
        self.name, self.func, self.cls = name, func, cls


class Ref:
    """A C++ reference variable bound to an lvalue/object."""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class ME:
    """Element of a map designated by key: .first / .second."""
    __slots__ = ('lv', 'key', 't')

    def __init__(self, lv, key, t):
        self.lv, self.key, self.t = lv, key, t


class PyFn:
    """A callable implemented by the models."""
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Undef:
    """Uninitialised local."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Opaque:
    """Value of a library type that is not modelled."""
    __slots__ = ('what', 'data')

    def __init__(self, what, data=None):
        self.what, self.data = what, data


VOIDV = Opaque('void')


class State:
    __slots__ = ('pc', 'pcset', 'store', 'heap', 'trace', 'hwm', 'notes', 'ranged', 'frame', 'facts', 'ghost')

    def __init__(self):
        self.pc = []
        self.pcset = set()
        self.store = {}
        self.heap = {}
        self.trace = None
        self.hwm = None
        self.notes = []
        self.ranged = set()
        self.frame = None
        self.facts = set()
        self.ghost = {}

    def copy(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.store = dict(self.store)
        s.heap = dict(self.heap)
        s.trace = self.trace
        s.hwm = self.hwm
        s.notes = list(self.notes)
        s.ranged = set(self.ranged)
        s.frame = self.frame
        s.facts = set(self.facts)
        s.ghost = dict(self.ghost)
        return s

    def assume(self, e, fact=False):
        if z3.is_true(e):
            return self
        if z3.is_and(e):
            for c in e.children():
                self.assume(c, fact)
            return self
        i = e.get_id()
        if i in self.pcset:
            return self
        self.pcset.add(i)
        self.pc.append(e)
        if fact:
            self.facts.add(i)
        return self

    def note(self, s):
        self.notes.append(s)
