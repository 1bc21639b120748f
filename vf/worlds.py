"""Harnesses for the small worlds (see mini.py)."""
import copy
import json
import re

import properties
from properties.extras import HasUID, Pointer

from .hp import HarnessError
from .mini import NONE, UNDEF, World

UUID = re.compile(r'^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$')


class UidWorld(World):
    """objects with unique ids: spec/Uid.tla"""

    module = 'UidRun'

    def start(self):
        class Box(properties.HasProperties):
            _REGISTRY = {}
            num = properties.Integer('', default=0, max=50)

        class B(HasUID):
            _REGISTRY = {}
            _INSTANCES = {}

        Box2 = type(properties.HasProperties)(str('Box'), (Box,), {
            '__module__': 'm', '__doc__': '', 'inn': properties.Instance('', B, required=False)})

        class N(B):
            val = properties.Integer('', max=50)
            nxt = properties.Instance('', B, required=False)
            kids = properties.List('', properties.Instance('', B), default=list)
            map = properties.Dictionary('', key_prop=properties.String(''), value_prop=properties.Instance('', B), default=dict)
            box = properties.Instance('', Box2, required=False)
            ptr = Pointer('', B, required=False)

        class M(N):
            tag = properties.String('', default='t')

        class Q(HasUID):
            _REGISTRY = {}
            _INSTANCES = {}
            val = properties.Integer('', max=50)

        self.classes = {'B': B, 'N': N, 'M': M, 'Q': Q, 'Box': Box2}
        self.objs = {}        # name -> object
        self.alias = {}       # random id -> its name
        self.slots = {}

    # -- encoding
    def cname(self, obj):
        for n, c in self.classes.items():
            if type(obj) is c:
                return n
        return '?' + type(obj).__name__

    def name(self, obj):
        for n, o in self.objs.items():
            if o is obj:
                return n
        return '?'

    def text(self, u):
        return self.alias.get(u, u)

    def back(self, u):
        for k, v in self.alias.items():
            if v == u:
                return k
        return u

    def enc(self, v):
        if v is None:
            return NONE
        if isinstance(v, bool):
            return ['b', v]
        if isinstance(v, int):
            return ['i', v]
        if isinstance(v, str):
            return ['s', self.text(v)]
        if isinstance(v, (list, tuple)):
            return ['l', [self.enc(x) for x in v]]
        if isinstance(v, dict):
            return ['d', [[self.enc(k), self.enc(x)] for k, x in v.items()]]
        if isinstance(v, properties.HasProperties):
            return ['h', self.name(v)]
        return ['x', repr(type(v))]

    def dec(self, t):
        k = t[0]
        if k == 'none':
            return None
        if k == 'undef':
            return properties.undefined
        if k in ('i', 'b'):
            return t[1]
        if k == 's':
            return self.back(t[1])
        if k == 'h':
            return self.objs[t[1]]
        if k == 'l':
            return [self.dec(x) for x in t[1]]
        if k == 'd':
            return dict((self.dec(a), self.dec(b)) for a, b in t[1])
        if k == 'kw':
            return {'uid': t[1]}
        raise HarnessError(t)

    def jenc(self, n, v):
        """a serialized property value"""
        if n == 'box' and isinstance(v, dict):
            return ['obj', {('class' if a == '__class__' else a): (self.enc(b) if a == '__class__' else self.jenc(a, b)) for a, b in v.items()}]
        return self.enc(v)

    def flat(self, d):
        return ['flat', self.text(d['__root__']),
                {self.text(u): {('class' if n == '__class__' else n): self.jenc(n, v) for n, v in ent.items()}
                 for u, ent in d.items() if u != '__root__'}]

    def adopt(self, obj, name, pre):
        """give names to new objects reachable from obj"""
        seen = set()

        def walk(v, owner):
            if isinstance(v, (list, tuple, set)):
                for x in v:
                    walk(x, owner)
            elif isinstance(v, dict):
                for x in v.values():
                    walk(x, owner)
            elif isinstance(v, properties.HasProperties) and id(v) not in seen:
                seen.add(id(v))
                n = self.name(v)
                if n == '?':
                    n = owner if owner is not None and v is obj else (
                        pre + self.text(v.uid) if isinstance(v, HasUID) else owner + '.box')
                    while n in self.objs:
                        n += "'"
                    self.objs[n] = v
                    if isinstance(v, HasUID) and UUID.match(v.uid or ''):
                        self.alias.setdefault(v.uid, 'auto:' + n)
                for p in v._props:
                    walk(v._get(p), n)
        walk(obj, name)

    def project(self):
        out = {}
        for n, o in self.objs.items():
            vals = {}
            for p in o._props:
                v = o._get(p)
                if v is not None:
                    vals[p] = self.enc(v)
            out[n] = {'c': self.cname(o), 'v': vals}
        reg = {}
        for R, c in (('R1', 'B'), ('R2', 'Q')):
            reg[R] = {self.text(u): self.name(o) for u, o in self.classes[c]._INSTANCES.items()
                      if not UUID.match(u) or u in self.alias}
        return {'objs': out, 'reg': reg}

    # -- operations
    def op_new(self, e):
        args = [(n, self.dec(t)) for n, t in e['kw']]
        obj = self.classes[e['c']](**dict(args))
        self.adopt(obj, e['x'], '')
        return ['h', self.name(obj)]

    def op_set(self, e):
        v = self.dec(e['v'])
        before = copy.copy(v) if isinstance(v, (list, dict)) else v
        try:
            setattr(self.objs[e['h']], e['n'], v)
        finally:
            if isinstance(v, (list, dict)):
                self.same(before, v)
        self.adopt(self.objs[e['h']], None, e['pre'])

    def op_load(self, e):
        return self.enc(self.classes[e['c']].load(self.back(e['u'])))

    def op_ser(self, e):
        obj = self.objs[e['h']]
        d = obj.serialize(include_class=e['ic']) if not e['ic'] else obj.serialize()
        self.slots[e['s']] = json.loads(json.dumps(d))
        return self.flat(d)

    def op_deser(self, e):
        d = self.slots[e['s']]
        before = copy.deepcopy(d)
        kw = {'root': None if e['root'] == 'none' else self.back(e['root'])} if e['root'] else {}
        try:
            obj = self.classes[e['c']].deserialize(d, trusted=e['tr'], strict=e['strict'], assert_valid=e['av'], **kw)
        finally:
            self.same(before, d)
        self.adopt(obj, None, e['pre'])
        return ['h', self.name(obj)]

    def op_edit(self, e):
        d = self.slots[e['s']]
        how = e['how']
        n = '__class__' if e.get('n') == 'class' else e.get('n')
        if how == 'drop':
            del d[self.back(e['u'])]
        elif how == 'put':
            d[self.back(e['u'])][n] = self.dec(e['v'])
        elif how == 'cut':
            d[self.back(e['u'])].pop(n, None)
        elif how == 'root':
            d['__root__'] = self.back(e['u'])
        elif how == 'retag':
            m = {self.back(a): b for a, b in e['m'].items()}

            def walk(v, key=None):
                if isinstance(v, str):
                    return v if key == '__class__' else m.get(v, v)
                if isinstance(v, list):
                    return [walk(x) for x in v]
                if isinstance(v, dict):
                    return {a: walk(b, a) for a, b in v.items()}
                return v
            self.slots[e['s']] = {m.get(u, u): walk(v) for u, v in d.items()}

    def op_forget(self, e):
        for c in ('B', 'Q'):
            self.classes[c]._INSTANCES.clear()

    def op_validate(self, e):
        return self.enc(self.objs[e['h']].validate())

    def op_copy(self, e):
        obj = properties.copy(self.objs[e['h']])
        self.adopt(obj, None, e['pre'])
        return ['h', self.name(obj)]
