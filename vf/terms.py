"""Terms: the JSON form of Python values that the TLA+ specification uses.

See spec/HPTerms.tla for the list of tags.
"""
import datetime
import math
import uuid

import numpy as np
import properties

FRESH_LIMIT = 2 ** 31


class MyList(list):
    """a user's list subclass"""


class MySet(set):
    """a user's set subclass"""


class MyTuple(tuple):
    """a user's tuple subclass"""


class MyDict(dict):
    """a user's dict subclass"""


CONT = {c.__name__: c for c in (list, set, tuple, dict, MyList, MySet, MyTuple, MyDict)}
BASE_TAG = ((list, 'l'), (tuple, 't'), (set, 'S'), (dict, 'd'))


def flt(v):
    """term of a float"""
    v = float(v)
    if math.isnan(v):
        return ['nan']
    if math.isinf(v):
        return ['inf', 1 if v > 0 else -1]
    if abs(v) < 2000000:
        n = int(round(v * 1024))
        e = (v - n / 1024.0) * 1e10
        r = int(round(e))
        if abs(r) <= 10000 and abs(e - r) < 1e-2 * max(1, abs(v)):
            return ['f', n, r]
    return ['fx', repr(v)]


def unflt(t):
    if t[0] == 'nan':
        return float('nan')
    if t[0] == 'inf':
        return float('inf') * t[1]
    if t[0] == 'fx':
        return float(t[1])
    return t[1] / 1024.0 + t[2] * 1e-10


def container_label(v):
    """class label of a container: own name, or obs:<base> if it observes mutations"""
    cls = type(v)
    if cls.__name__ in CONT and CONT[cls.__name__] is cls:
        return cls.__name__
    for base in cls.__mro__[1:]:
        if base.__name__ in CONT and CONT[base.__name__] is base:
            return 'obs:' + base.__name__
    return 'other:' + cls.__name__


class Codec(object):
    """encodes values to terms; objects get handles in the order they are seen"""

    def __init__(self):
        self.objs = {}      # handle -> object
        self.ids = {}       # id -> handle
        self.others = {}    # label -> object
        self.classes = {}   # class id -> class

    # -- handles
    def handle(self, obj):
        if obj is None:
            return ''
        key = id(obj)
        if key not in self.ids:
            h = 'h%d' % (len(self.objs) + 1)
            self.ids[key] = h
            self.objs[h] = obj
        return self.ids[key]

    def is_obj(self, v):
        if isinstance(v, properties.HasProperties):
            return True
        try:
            import traitlets
        except ImportError:
            return False
        return isinstance(v, traitlets.HasTraits)

    # -- encode
    def enc(self, v):
        if v is None:
            return ['none']
        if v is properties.undefined:
            return ['undef']
        if isinstance(v, bool):
            return ['b', v]
        if isinstance(v, np.generic):
            if isinstance(v, np.bool_):
                return ['npb', bool(v)]
            if isinstance(v, np.integer):
                return ['npi', int(v)]
            if isinstance(v, np.floating):
                t = flt(v)
                return ['npf'] + t[1:] if t[0] == 'f' else t
            if isinstance(v, np.complexfloating):
                return ['c', flt(v.real), flt(v.imag)]
            if isinstance(v, np.str_):
                return ['s', str(v)]
            return ['o', type(v).__name__]
        if isinstance(v, int):
            if abs(v) < FRESH_LIMIT:
                return ['i', int(v)]
            return ['I', 1 if v > 0 else -1, str(abs(v))] if len(hex(v)) < 4000 else ['o', 'hugeint']
        if isinstance(v, float):
            return flt(v)
        if isinstance(v, complex):
            return ['c', flt(v.real), flt(v.imag)]
        if isinstance(v, str):
            return ['s', v]
        if isinstance(v, bytes):
            return ['by', v.decode('latin-1')]
        if isinstance(v, np.ndarray):
            return ['a', type(v).__name__, v.dtype.kind, list(v.shape), [self.elem(x) for x in np.asarray(v).ravel().tolist()]]
        for base, tag in BASE_TAG:
            if isinstance(v, base):
                if tag == 'd':
                    return ['d', container_label(v), [[self.enc(k), self.enc(x)] for k, x in list(v.items())]]
                return [tag, container_label(v), [self.enc(x) for x in list(v)]]
        if self.is_obj(v):
            return ['h', self.handle(v)]
        if isinstance(v, datetime.datetime):
            return ['dt', [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]]
        if isinstance(v, uuid.UUID):
            return ['uuid', str(v)]
        for lab, o in self.others.items():
            if o is v:
                return ['o', lab]
        if isinstance(v, type):
            return ['o', 'class:' + v.__name__]
        return ['o', 'type:' + type(v).__name__]

    def elem(self, x):
        return self.enc(x)

    # -- decode
    def dec(self, t):
        k = t[0]
        if k == 'none':
            return None
        if k == 'undef':
            return properties.undefined
        if k == 'b' or k == 's':
            return t[1]
        if k == 'i':
            return t[1]
        if k == 'I':
            return t[1] * int(t[2])
        if k in ('f', 'nan', 'inf', 'fx'):
            return unflt(t)
        if k == 'c':
            return complex(unflt(t[1]), unflt(t[2]))
        if k == 'by':
            return t[1].encode('latin-1')
        if k in ('l', 't', 'S'):
            return CONT[t[1]]([self.dec(x) for x in t[2]])
        if k == 'd':
            out = CONT[t[1]]()
            for a, b in t[2]:
                out[self.dec(a)] = self.dec(b)
            return out
        if k == 'h':
            return self.objs[t[1]]
        if k == 'dt':
            return datetime.datetime(*t[1])
        if k == 'uuid':
            return uuid.UUID(t[1])
        if k == 'npi':
            return np.int64(t[1])
        if k == 'npf':
            return np.float64(unflt(['f'] + t[1:]))
        if k == 'npb':
            return np.bool_(t[1])
        if k == 'a':
            kind = {'i': int, 'u': np.uint8, 'f': float, 'b': bool, 'c': complex}.get(t[2])
            items = [self.dec(x) for x in t[4]]
            if kind is None:
                return np.array(items).reshape(t[3])
            arr = np.array(items, dtype=kind).reshape(t[3])
            return wrap_array(arr, t[1])
        if k == 'o':
            if t[1] not in self.others:
                self.others[t[1]] = object()
            return self.others[t[1]]
        raise ValueError('cannot decode {}'.format(t))


def wrap_array(arr, name):
    if name == 'ndarray':
        return arr
    import vectormath
    return getattr(vectormath, name)(arr)


# -- shorthands for building terms
def N():
    return ['none']


def B(v):
    return ['b', bool(v)]


def I(n):
    return ['i', n]


def F(v):
    return flt(v)


def S(v):
    return ['s', v]


def L(*xs, **kw):
    return ['l', kw.get('cls', 'list'), list(xs)]


def TU(*xs, **kw):
    return ['t', kw.get('cls', 'tuple'), list(xs)]


def SE(*xs, **kw):
    return ['S', kw.get('cls', 'set'), list(xs)]


def D(*ps, **kw):
    return ['d', kw.get('cls', 'dict'), [list(p) for p in ps]]


def H(h):
    return ['h', h]


def DT(*xs):
    return ['dt', list(xs) + [0] * (7 - len(xs))]


UND = ['undef']
