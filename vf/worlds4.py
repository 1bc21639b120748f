"""Harness for declarations (see mini.py)."""
import copy
import re

import properties
from properties.basic import DynamicProperty
from properties.extras import HasUID, Pointer
try:
    from properties.extras.web import URL
except ImportError:
    from properties.extras import URL

from .hp import HarnessError
from .mini import NONE, UNDEF, World


class P0(properties.HasProperties):
    _REGISTRY = {}


class U0(HasUID):
    _REGISTRY = {}
    _INSTANCES = {}


CLASSES = {'P0': P0, 'U0': U0, 'int': int, 'float': float, 'bool': bool, 'complex': complex}


def one():
    return 1


def lst():
    return [1]


def ser(value, **kwargs):
    return value


def functions():
    def get1():
        def n(self):
            return None
        return n

    def get2():
        def n(self, value):
            return None
        return n

    def get0():
        def n():
            return None
        return n

    def oth1():
        def m(self):
            return None
        return m

    def oth2():
        def m(self, value):
            return None
        return m
    return {'one': one, 'lst': lst, 'ser': ser, 'get1': get1(), 'get2': get2(), 'get0': get0(), 'oth1': oth1(), 'oth2': oth2()}


ALWAYS = ['default', 'serializer', 'deserializer', 'doc']
CONT = ['prop', 'min_length', 'max_length', 'coerce']
TEXT = ['strip', 'change_case', 'unicode', 'regex']
OWN = {
    'Boolean': ['cast'], 'Complex': ['cast'], 'Integer': ['cast', 'min', 'max'], 'Float': ['cast', 'min', 'max'],
    'String': TEXT, 'URL': TEXT + ['remove_parameters', 'remove_fragment'],
    'StringChoice': ['choices', 'case_sensitive', 'descriptions'], 'Array': ['shape', 'dtype', 'coerce'],
    'Vector2': ['length', 'coerce'], 'Vector3': ['length', 'coerce'], 'Vector2Array': ['length', 'coerce', 'shape'], 'Vector3Array': ['length', 'coerce', 'shape'],
    'List': CONT + ['observe_mutations'], 'Set': CONT + ['observe_mutations'], 'Tuple': CONT,
    'Dictionary': ['key_prop', 'value_prop', 'coerce', 'observe_mutations'],
    'Instance': ['instance_class', 'auto_create'], 'Pointer': ['instance_class', 'auto_create', 'load', 'uid_prop'],
    'Union': ['props', 'strict_instances'], 'File': ['mode', 'valid_modes'], 'ImagePNG': ['mode', 'valid_modes', 'filename'],
    'Renamed': ['new_name', 'warn'],
}
GETTABLE = ('GettableProperty', 'Uuid', 'Renamed')


def type_of(name):
    return {'Pointer': Pointer, 'URL': URL}.get(name) or getattr(properties, name)


def snapshot(v):
    """a comparable picture of an object that was passed"""
    if isinstance(v, (list, tuple)):
        return type(v), [snapshot(x) for x in v], id(v)
    if isinstance(v, set):
        return type(v), sorted(map(repr, v)), id(v)
    if isinstance(v, dict):
        return type(v), [(snapshot(a), snapshot(b)) for a, b in v.items()], id(v)
    if isinstance(v, properties.GettableProperty):
        return type(v), id(v)
    return type(v), repr(v)


class DeclWorld(World):
    """spec/Decl.tla"""

    module = 'DeclRun'

    def start(self):
        self.objs = {}       # declared properties
        self.given = {}      # the arguments of each
        self.classes = {}
        self.fns = functions()
        self.passed = []     # every object passed, with its picture

    def close(self):
        World.close(self)

    # ---------------------------------------------------------------- values
    def dec(self, t):
        k, v = t[0], t[1] if len(t) > 1 else None
        if k == 'none':
            return None
        if k == 'undef':
            return properties.undefined
        if k in ('i', 'b', 's'):
            return v
        if k == 'f':
            return float(v)
        if k == 'l':
            return [self.dec(x) for x in v]
        if k == 't':
            return tuple(self.dec(x) for x in v)
        if k == 'S':
            return set(self.dec(x) for x in v)
        if k == 'd':
            return dict((self.dec(a), self.dec(b)) for a, b in v)
        if k == 'p':
            return self.objs[v]
        if k == 'c':
            return CLASSES[v]
        if k == 'fn':
            return self.fns[v]
        if k == 're':
            return re.compile(v)
        raise HarnessError(t)

    def enc(self, v):
        if v is None:
            return NONE
        if v is properties.undefined:
            return UNDEF
        if isinstance(v, bool):
            return ['b', v]
        if isinstance(v, int):
            return ['i', v]
        if isinstance(v, float):
            return ['f', int(v)] if v == int(v) else ['x', repr(v)]
        if isinstance(v, str):
            return ['s', v]
        if isinstance(v, list):
            return ['l', [self.enc(x) for x in v]]
        if isinstance(v, tuple):
            return ['t', [self.enc(x) for x in v]]
        if isinstance(v, (set, frozenset)):
            return ['S', sorted((self.enc(x) for x in v), key=repr)]
        if isinstance(v, dict):
            return ['d', [[self.enc(a), self.enc(b)] for a, b in v.items()]]
        if isinstance(v, properties.GettableProperty):
            for x, p in self.objs.items():
                if p is v:
                    return ['p', x]
            if type(v) is properties.Property:
                return ['p0']
            if type(v) is properties.Instance:
                return ['pi', self.enc(v.instance_class)[1]]
            return ['x', type(v).__name__]
        for n, c in CLASSES.items():
            if c is v:
                return ['c', n]
        for n, f in self.fns.items():
            if f is v:
                return ['fn', n]
        if hasattr(v, 'pattern'):
            return ['re', v.pattern]
        if getattr(v, '__module__', '') == 'uuid':
            return ['uuid4']
        if callable(v):
            return ['fn', 'ser']          # a wrapped serializer
        return ['x', type(v).__name__]

    def arg(self, t):
        v = self.dec(t)
        self.passed.append((v, snapshot(v)))
        return v

    # ------------------------------------------------------------ projection
    def project(self):
        out = {}
        for x, p in self.objs.items():
            c = type(p).__name__
            if isinstance(p, DynamicProperty):
                names = ['doc', 'prop', 'func', 'set_func', 'del_func']
            else:
                names = ALWAYS + OWN.get(c, []) + ([] if c in GETTABLE else ['required'])
            out[x] = {'cls': c, 'name': p.name, 'meta': {k: self.enc(v) for k, v in p.meta.items()}, 'terms': self.terms(x, p),
                      'set': {n: self.enc(getattr(p, n)) for n in names}}
        for v, s in self.passed:
            if snapshot(v) != s:
                self.argsame = False
        return out

    def terms(self, x, p):
        t = p.terms
        args, kw = self.given[x]
        if isinstance(p, DynamicProperty):
            return t.cls is DynamicProperty and t.name == p.name and t.meta == p.meta and t.kwargs.get('prop') is kw['prop']
        return (t.cls is type(p) and t.name == p.name and t.meta == p.meta and isinstance(t.args, tuple) and len(t.args) == len(args) and
                all(a is b for a, b in zip(t.args, args)) and list(t.kwargs) == list(kw) and all(t.kwargs[n] is kw[n] for n in kw))

    # ------------------------------------------------------------ operations
    def op_decl(self, e):
        args = tuple(self.arg(t) for t in e['args'])
        kw = dict((n, self.arg(t)) for n, t in e['kw'])
        p = type_of(e['cls'])(*args, **kw)
        self.objs[e['x']], self.given[e['x']] = p, (args, kw)
        return ['p', e['x']]

    def op_put(self, e):
        setattr(self.objs[e['x']], e['n'], self.arg(e['v']))

    def op_tag(self, e):
        tags = {'': [dict((k, self.dec(v)) for k, v in e['d'])] if e['d'] else [], 'two': [{}, {}], 'bad': [3]}[e['bad']]
        self.passed += [(t, snapshot(t)) for t in tags]
        return self.enc(self.objs[e['x']].tag(*tags, **dict((k, self.dec(v)) for k, v in e['kw'])))

    def op_class(self, e):
        body = dict((n, self.objs[x]) for n, x in e['attrs'])
        body['_REGISTRY'] = {}
        self.classes[e['c']] = type(properties.HasProperties)(e['c'], (properties.HasProperties,), body)

    def op_use(self, e):
        cls = self.classes[e['c']]
        for _ in range(2):
            o = cls()
            for n in cls._props:
                if isinstance(cls._props[n], (DynamicProperty, properties.Renamed)):
                    continue
                v = getattr(o, n)
                if type(cls._props[n]).__name__ in ('Property', 'GettableProperty', 'Union'):
                    continue                       # these keep the very object
                if isinstance(v, list):
                    if v:
                        del v[:]
                    else:
                        list.append(v, 1)          # past any observer of mutations
                elif isinstance(v, set):
                    v.clear()
                elif isinstance(v, dict):
                    v.clear()

    def op_dyn(self, e):
        p = self.objs[e['x']]
        q = p(self.arg(e['fn']))
        self.objs[e['y']], self.given[e['y']] = q, ((), {'prop': p})
        return ['p', e['y']]

    def op_access(self, e):
        p = self.objs[e['x']]
        return self.enc((p.setter if e['n'] == 'set_func' else p.deleter)(self.arg(e['fn'])))

    def op_validate(self, e):
        self.objs[e['x']].validate(None, self.arg(e['v']))
        return NONE
