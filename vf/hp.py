"""Sessions: run operations on the real library and record what happened.

Every operation is a JSON record (see spec/HPStep.tla); Session.do executes it
against the library's public interface and returns the same record extended
with the observations the specification judges (see spec/HPTrace.tla).
"""
import copy as _copy
import signal
import warnings

import properties
import traitlets
from properties.extras.web import URL

from .terms import Codec, N, UND

MAX_DEPTH = 6
GENERIC = (ValueError, KeyError, TypeError, AttributeError)
MODES = ('validate', 'observe_change', 'observe_set')
DTYPES = {'int': int, 'float': float, 'bool': bool, 'complex': complex}
SHAPE0 = {'array': [[-1]], 'vec3': [[3]], 'vec2': [[2]], 'vec3a': [[-1, 3]], 'vec2a': [[-1, 2]]}


ALL = ['ok', 'kind', 'value', 'fires', 'tups', 'hooks', 'heap', 'warns', 'args', 'cont', 'undefined']
OP_SECONDS = 20


class Hang(BaseException):
    """an operation did not finish"""


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


class TooMany(BaseException):
    """more listener calls than a session should contain"""


class Fuel(Exception):
    """listeners nested too deeply"""


class HarnessError(Exception):
    """the harness itself failed"""


RAISABLE = {'ValueError': ValueError, 'KeyError': KeyError, 'TypeError': TypeError, 'AttributeError': AttributeError,
            'RuntimeError': RuntimeError, 'ValidationError': properties.ValidationError}


def P(k, **kw):
    """a complete property descriptor"""
    d = dict(k=k, req=True, dflt=UND, ser='none', cast=False, min=N(), max=N(), regex=['none', ''], strip='',
             ccase='unchanged', rmp=False, rmf=False, choices=[], cs=False, descs=[], coerce=False, obs=False,
             minl=-1, maxl=-1, cls='', props=[], strict=False, dtype=['float', 'int'], shape=[], length=N(),
             new='', warn=False, get=['const', N()], set=[], **{'del': []})
    if k in SHAPE0:
        d['shape'] = SHAPE0[k]
        d['coerce'] = True
        if k != 'array':
            d['dtype'] = ['float']
    if k == 'uuid':
        d['dflt'] = ['call', ['anyuuid']]
    if k == 'ren':
        d['warn'] = True
    if k in ('tuple', 'list', 'set'):
        d['prop'] = None
    if k == 'dict':
        d['kprop'] = d['vprop'] = None
    if k == 'dyn':
        d['prop'] = None
    for a, b in kw.items():
        if a == 'dele':
            a = 'del'
        assert a in d, a
        d[a] = b
    if k in ('tuple', 'list', 'set') and d['prop'] is None:
        d['prop'] = P('prop')
    if k == 'dict':
        d['kprop'] = d['kprop'] or P('prop')
        d['vprop'] = d['vprop'] or P('prop')
    return d


def REGEX(rx):
    return {'has': rx[1], 'pre': '^' + rx[1], 'full': '^[' + rx[1] + ']+$', 'one': '[' + rx[1] + ']'}[rx[0]]


def prog(name, payload, doc=''):
    return ['obs', name, payload, doc]


class Label(properties.Property):
    """a property type defined by a user of the library"""

    class_info = 'a label'

    def validate(self, instance, value):
        if type(value) is int and 0 <= value <= 9:
            value = str(value)
        if not isinstance(value, str) or len(value) > 3:
            self.error(instance, value)
        return 'Q' + value[1:] if value[:1] == 'q' else value

    def equal(self, value_a, value_b):
        return isinstance(value_a, str) and isinstance(value_b, str) and value_a.upper() == value_b.upper()

    @staticmethod
    def to_json(value, mark='', **kwargs):
        if not isinstance(value, str):
            raise TypeError('not a label')
        return mark + 'L:' + value

    @staticmethod
    def from_json(value, mark='', **kwargs):
        mark += 'L:'
        if not isinstance(value, str) or not value.startswith(mark):
            raise ValueError('not a label')
        return value[len(mark):]


Label.__module__ = 'm'
DEFAULT = ['s', 'Dft']
LABELS = {'val': type('Label', (Label,), {'_class_default': 'Dft', '__module__': 'm'}),
          'call': type('Label', (Label,), {'_class_default': staticmethod(lambda: 'Dft'), '__module__': 'm'})}


class Session(Codec):
    """one client session"""

    current = None
    options = None

    def more(self, op):
        """further options of what is saved, loaded and copied"""
        r = Session.options
        if op == 'ser':
            self.mark = r.choice(['', 'M', 'N', 'ML:'])
        if op != 'copy':
            return {'mk': self.mark if r.random() < .9 else 'M'}
        return {k: r.choice(vs) for k, vs in (('mk', ['M', 'N']), ('dyn', [True, False]), ('strict', [True, False, False]), ('av', [True, False, False]))
                if r.random() < .4}

    def __init__(self, sid, scope=ALL):
        self.mark = ''
        Codec.__init__(self)
        Session.current = self
        self.sid = sid
        self.scope = list(scope)
        self.stopped = False
        self.evs = []
        self.last = {}          # handle -> last projection
        self.cont = {}          # label -> container object (or detached result)
        self.scopes = {}
        self.links = {}
        self.fires = []
        self.hooks = []
        self.depth = 0
        self.propdescs = {}
        sess = self

        def _error_hook(self, tups):
            sess.hooks.append([sess.handle(self), sess.enc_tups(tups)])
        meta = type(properties.HasProperties)
        self.classes['HasProperties'] = properties.HasProperties
        self.classes['Root'] = meta('Root', (properties.HasProperties,), {
            '_REGISTRY': {}, '_error_hook': _error_hook, '__module__': 'm'})

        class Tr(traitlets.HasTraits):
            a = traitlets.Int()
            b = traitlets.Int()
        self.classes['traits'] = Tr
        self.cid_of = {self.classes['Root']: 'Root', Tr: 'traits'}

    # -- errors
    def enc_tups(self, tups):
        return [[t.reason or '', t.prop or '', self.handle(t.instance) if t.instance is not None else ''] for t in tups]

    # -- property declarations
    def default_of(self, spec):
        if spec[0] == 'val':
            return self.dec(spec[1])
        if spec[0] == 'call':
            term = spec[1]
            return lambda: self.dec(term)
        if spec[0] == 'cls':
            return self.classes[spec[1]]
        if spec[0] == 'undef':
            return properties.undefined
        raise HarnessError(spec)

    def mkprop(self, d, doc='', name=''):
        k = d['k']
        kw = {}
        if d['dflt'] != UND and k != 'uuid':
            kw['default'] = self.default_of(d['dflt'])
        if not d['req'] and k not in ('gettable', 'uuid', 'dyn', 'ren'):
            kw['required'] = False
        if d['ser'] == 'wrap':
            def unwrap(v, mark='', **kws):
                if type(v) is list and v[1:] == ([mark] if mark else []) and v:
                    return v[0]
                raise ValueError('not wrapped')
            kw['serializer'] = lambda v, mark='', **kws: [v, mark] if mark else [v]
            kw['deserializer'] = unwrap
        if d['ser'] == 'bare':      # functions that take no keywords
            def unbare(v):
                if type(v) is list and len(v) == 1:
                    return v[0]
                raise ValueError('not wrapped')
            kw['serializer'] = lambda v: [v]
            kw['deserializer'] = unbare
        if d['cast']:
            kw['cast'] = True
        if k in ('int', 'float'):
            for b in ('min', 'max'):
                if d[b] != N():
                    kw[b] = self.dec(d[b])
        if k in ('str', 'url'):
            if d['regex'][0] != 'none':
                kw['regex'] = REGEX(d['regex'])
            if d['strip']:
                kw['strip'] = d['strip']
            if d['ccase'] != 'unchanged':
                kw['change_case'] = d['ccase']
        if k == 'url':
            if d['rmp']:
                kw['remove_parameters'] = True
            if d['rmf']:
                kw['remove_fragment'] = True
        if k in ('tuple', 'list', 'set', 'dict', 'array', 'vec3', 'vec2', 'vec3a', 'vec2a'):
            if d['coerce'] != (k in SHAPE0):
                kw['coerce'] = d['coerce']
        if k in ('tuple', 'list', 'set'):
            if d['minl'] >= 0:
                kw['min_length'] = d['minl']
            if d['maxl'] >= 0:
                kw['max_length'] = d['maxl']
        if d['obs'] and k in ('list', 'set', 'dict'):
            kw['observe_mutations'] = True
        if k in SHAPE0:
            if k == 'array' and d['dtype'] != ['float', 'int']:
                ts = tuple(DTYPES[x] for x in d['dtype'])
                kw['dtype'] = ts if len(ts) > 1 else ts[0]
            if not d['shape']:
                kw['shape'] = None
            elif d['shape'] != SHAPE0[k]:
                shapes = [tuple('*' if x == -1 else x for x in s) for s in d['shape']]
                kw['shape'] = shapes[0] if len(shapes) == 1 else set(shapes)
            if d['length'] != N():
                kw['length'] = self.dec(d['length'])
        p = properties
        if k == 'own':
            if d['dflt'][0] in LABELS and d['dflt'][1] == DEFAULT:      # the default of the type
                kw.pop('default')
                return LABELS[d['dflt'][0]](doc, **kw)
            return Label(doc, **kw)
        if k == 'prop':
            return p.Property(doc, **kw)
        if k == 'gettable':
            return p.GettableProperty(doc, **kw)
        if k == 'choice':
            pairs = d['choices']
            choices = [c[0] for c in pairs] if not any(c[1] for c in pairs) else dict((c[0], list(c[1])) for c in pairs)
            if d['cs']:
                kw['case_sensitive'] = True
            if d['descs']:
                kw['descriptions'] = dict((c[0], t) for c, t in zip(pairs, d['descs']))
            return p.StringChoice(doc, choices, **kw)
        if k in ('tuple', 'list', 'set'):
            return {'tuple': p.Tuple, 'list': p.List, 'set': p.Set}[k](doc, self.mkprop(d['prop']), **kw)
        if k == 'dict':
            return p.Dictionary(doc, key_prop=self.mkprop(d['kprop']), value_prop=self.mkprop(d['vprop']), **kw)
        if k == 'inst':
            return p.Instance(doc, self.classes[d['cls']], **kw)
        if k == 'union':
            if d['strict']:
                kw['strict_instances'] = True
            return p.Union(doc, [self.mkprop(x) for x in d['props']], **kw)
        if k == 'ren':
            if not d['warn']:
                kw['warn'] = False
            if doc != self.rendoc(d['new']):
                kw['doc'] = doc
            return p.Renamed(d['new'], **kw)
        if k == 'dyn':
            return self.mkdyn(d, doc, name)
        simple = {'bool': p.Boolean, 'int': p.Integer, 'float': p.Float, 'complex': p.Complex, 'str': p.String,
                  'url': URL, 'color': p.Color, 'datetime': p.DateTime, 'uuid': p.Uuid,
                  'array': p.Array, 'vec3': p.Vector3, 'vec2': p.Vector2, 'vec3a': p.Vector3Array, 'vec2a': p.Vector2Array}
        return simple[k](doc, **kw)

    @staticmethod
    def rendoc(new):
        return "This property has been renamed '{}' and may be removed in the future.".format(new)

    def mkdyn(self, d, doc, name):
        sess = self
        g = d['get']

        def getter(self):
            if g[0] == 'const':
                return sess.dec(g[1])
            if g[0] == 'get':
                return getattr(self, g[1])
            xs = [getattr(self, n) for n in g[1]]
            return None if any(x is None for x in xs) else xs

        def setter(self, value):
            sess.run(self, d['set'], value)

        def deleter(self):
            sess.run(self, d['del'], None)
        for f in (getter, setter, deleter):
            f.__name__ = str(name)
        dyn = self.mkprop(d['prop'], doc)(getter)
        if d['set']:
            dyn = dyn.setter(setter)
        if d['del']:
            dyn = dyn.deleter(deleter)
        return dyn

    # -- listener programs
    def tgt(self, obj, t):
        return obj if t == 'self' else self.objs[t]

    def run(self, obj, acts, v):
        for a in acts:
            v = self.act(obj, a, v)
        return v

    def act(self, obj, a, v):
        k = a[0]
        if k == 'nop':
            return v
        if k == 'raise':
            raise RAISABLE[a[1]]('listener')
        if k == 'raisev':
            raise properties.ValidationError('listener', a[1], a[2], obj)
        if k == 'put':
            return self.dec(a[1])
        if k == 'set':
            setattr(self.tgt(obj, a[1]), a[2], self.dec(a[3]))
            return v
        if k == 'copy':
            setattr(self.tgt(obj, a[1]), a[2], v)
            return v
        if k == 'del':
            delattr(self.tgt(obj, a[1]), a[2])
            return v
        if k == 'reset':
            self.tgt(obj, a[1])._reset(a[2])
            return v
        if k == 'validate':
            self.tgt(obj, a[1]).validate()
            return v
        if k == 'when':
            w = self.dec(a[1])
            return self.run(obj, a[2], v) if self.pyeq(v, w) else v
        if k == 'within':
            with self.mkscope(a[1]):
                return self.run(obj, a[2], v)
        if k == 'try':
            try:
                return self.run(obj, a[1], v)
            except GENERIC:
                return v
        if k == 'le':
            x, y = getattr(obj, a[1]), getattr(obj, a[2])
            if x is None or y is None or callable(x) or callable(y) or not y < x:     # a method of that name: no property
                return v
            if a[3] == 'raisev':
                raise properties.ValidationError('cross', 'cross', a[1], obj)
            if a[3] == 'false':
                return False
            raise RAISABLE[a[3]]('cross')
        raise HarnessError(a)

    @staticmethod
    def pyeq(v, w):
        if v is properties.undefined or w is properties.undefined:
            return v is w
        v, w = [x.item() if hasattr(x, 'item') and not hasattr(x, '__len__') else x for x in (v, w)]
        r = v == w
        return r if isinstance(r, bool) else bool(getattr(r, 'all', lambda: r)())

    @staticmethod
    def mkscope(types):
        if types == ['all']:
            return properties.listeners_disabled()
        if types == ['validate']:
            return properties.validators_disabled()
        if sorted(types) == ['observe_change', 'observe_set']:
            return properties.observers_disabled()
        return properties.handlers.listeners_disabled(types[0] if len(types) == 1 else list(types))

    def listener(self, lid, program):
        sess = self

        def func(self, change):
            if sess.depth >= MAX_DEPTH:
                raise Fuel()
            if len(sess.fires) > 150:
                raise TooMany()
            sess.fires.append([lid, sess.handle(self), change['name'], change['mode'],
                               sess.enc(change['previous']), sess.enc(change['value'])])
            sess.depth += 1
            try:
                new = sess.run(self, program, change['value'])
            finally:
                sess.depth -= 1
            if new is not change['value']:
                change['value'] = new
        return func

    def class_validator(self, lid, program):
        sess = self

        def func(self):
            sess.fires.append([lid, sess.handle(self), '', 'class', N(), N()])
            return sess.run(self, program, None)
        return func

    # -- class definitions
    def defclass(self, d):
        ns = {'__module__': 'm', '__doc__': d['doc']}
        for kind, name, payload, doc in d['body']:
            if kind == 'prop':
                ns[name] = self.mkprop(payload, doc, name)
            elif kind == 'obs':
                names = properties.everything if payload['all'] else list(payload['names'])
                f = self.listener(payload['lid'], payload['prog'])
                if payload['mode'] == 'validate':
                    ns[name] = properties.validator(names)(f)
                else:
                    ns[name] = properties.observer(names, change_only=payload['mode'] == 'observe_change')(f)
            elif kind == 'cv':
                ns[name] = properties.validator(self.class_validator(payload['lid'], payload['prog']))
            else:
                ns[name] = 5
        if d['newreg']:
            ns['_REGISTRY'] = {}
        if d['docpriv'][0] != 'unset':
            ns['_doc_private'] = 'bad' if d['docpriv'][0] == 'bad' else d['docpriv'][1]
        if d['docord'][0] != 'unset':
            ns['_doc_order'] = {'none': None, 'bad': 5}.get(d['docord'][0], list(d['docord'][1]) if len(d['docord']) > 1 else None)
        if d['dflts']:
            ns['_defaults'] = dict((n, self.default_of(s)) for n, s in d['dflts'])
        bases = tuple(self.classes[b] for b in d['bases'])
        cls = type(properties.HasProperties)(str(d['name']), bases, ns)
        self.classes[d['cid']] = cls
        self.cid_of[cls] = d['cid']
        return cls

    # -- projection
    def project(self):
        """current stored values of every known object"""
        out = {}
        done = 0
        while done < len(self.objs):
            for h in list(self.objs)[done:]:
                done += 1
                obj = self.objs[h]
                cls = type(obj)
                cid = self.cid_of.get(cls, '?' + cls.__name__)
                vals = {}
                if cid == 'traits':
                    names = ['a', 'b']
                else:
                    names = [n for n, p in cls._props.items()
                             if not isinstance(p, (properties.basic.Renamed, properties.basic.DynamicProperty))]
                for n in names:
                    try:
                        v = getattr(obj, n)
                    except Exception as err:  # pylint: disable=broad-except
                        vals[n] = ['o', 'raised ' + type(err).__name__]
                        continue
                    if v is not None:
                        vals[n] = self.enc(v)
                out[h] = {'c': cid, 'v': vals}
        return out

    def changed(self):
        now = self.project()
        diff = {h: r for h, r in now.items() if self.last.get(h) != r}
        self.last = now
        return diff

    def attached(self, x):
        obj = self.cont[x]
        for h, o in self.objs.items():
            if self.cid_of.get(type(o)) == 'traits':
                continue
            for n, p in type(o)._props.items():
                if isinstance(p, (properties.basic.Renamed, properties.basic.DynamicProperty)):
                    continue
                if getattr(o, n, None) is obj:
                    return True
        return False

    # -- execution
    def do(self, op, **kw):
        """run one operation; kw may include poison=descriptor of the assigned value"""
        if self.stopped:
            return {'res': {'ok': False, 'v': N(), 'kinds': [], 'tups': []}, 'post': {}, 'cont': {}, 'fires': []}
        if 'h' in kw and kw['h'] is None:
            self.stopped = True         # an earlier operation failed to create the object
            return self.do('nop')
        if 'c' in kw and kw['c'] not in self.classes or op == 'defclass' and any(b not in self.classes for b in kw['d']['bases']):
            self.stopped = True         # an earlier operation failed to define the class
            return self.do('nop')
        e = {'op': op}
        e.update(kw)
        if Session.options and op in ('ser', 'deser', 'copy'):
            e.update(self.more(op))
        if op == 'mut' and e['m'] in ('__iadd__', '__imul__', '__ior__', '__iand__', '__isub__', '__ixor__') and self.attached(e['x']):
            return None                      # an alias is not an attribute: unspecified
        poison = e.pop('poison', None)
        if op in ('defclass', 'listen'):
            self.settle(e)
        self.fires, self.hooks, self.depth = [], [], 0
        self.args = []
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            try:
                signal.setitimer(signal.ITIMER_REAL, OP_SECONDS)
                res = {'ok': True, 'v': self.execute(e), 'kinds': [], 'tups': []}
            except HarnessError:
                raise
            except TooMany:
                self.stopped = True
                return {'res': {'ok': False, 'v': N(), 'kinds': [], 'tups': []}, 'post': {}, 'cont': {}, 'fires': []}
            except Hang as err:
                res = {'ok': False, 'v': N(), 'kinds': ['Hang'], 'tups': []}
                self.stopped = True
            except (Exception, RecursionError) as err:  # pylint: disable=broad-except
                if isinstance(err, properties.ValidationError):
                    tups = self.enc_tups(err.error_tuples)
                else:
                    tups = []
                res = {'ok': False, 'v': N(), 'kinds': [c.__name__ for c in type(err).__mro__], 'tups': tups}
                self.error = err
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        e['res'] = res
        e['fires'], e['hooks'] = self.fires, self.hooks
        self.fires, self.hooks = [], []
        e['warns'] = sum(1 for w in caught if w.category is FutureWarning)
        if op in ('defclass', 'mktrait'):
            e['warns'] = -1
        e['argsame'] = all(self.enc(a) == t for a, t in self.args)
        if poison is not None and self.args:
            spoil(self.args[-1][0], poison)
        e['post'] = self.changed()
        e['cont'] = {x: {'att': self.attached(x), 'val': self.enc(c)} for x, c in self.cont.items()}
        self.evs.append(e)
        return e

    def arg(self, t):
        v = self.dec(t)
        now = self.enc(v)
        self.args.append((v, now))
        if has_set(t):          # record the order in which a set will be iterated
            t[:] = now
        return v

    def settle(self, t):
        """write set-valued terms in the order in which their sets are iterated"""
        if isinstance(t, dict):
            for x in t.values():
                self.settle(x)
        elif isinstance(t, list):
            for x in t:
                self.settle(x)
            if len(t) == 3 and t[0] == 'S' and isinstance(t[1], str) and isinstance(t[2], list):
                for _ in range(8):
                    now = self.enc(self.dec(t))
                    if now == t:
                        break
                    t[:] = now

    def execute(self, e):
        op = e['op']
        none = N()
        if op == 'defclass':
            self.defclass(e['d'])
            return none
        if op == 'new':
            kw = {}
            for n, t in e['kw']:
                kw[n] = self.arg(t)
            return self.enc(self.classes[e['c']](**kw))
        if op == 'set':
            setattr(self.objs[e['h']], e['n'], self.arg(e['v']))
            return none
        if op == 'get':
            return self.enc(getattr(self.objs[e['h']], e['n']))
        if op == 'del':
            delattr(self.objs[e['h']], e['n'])
            return none
        if op == 'reset':
            self.objs[e['h']]._reset(e['n'])
            return none
        if op == 'validate':
            return self.enc(self.objs[e['h']].validate())
        if op == 'equal':
            return self.enc(properties.equal(self.arg(e['a']), self.arg(e['b'])))
        if op == 'ser':
            kw = {}
            if not e['ic']:
                kw['include_class'] = False
            if e['dyn']:
                kw['save_dynamic'] = True
            if e.get('mk'):
                kw['mark'] = e['mk']
            return self.enc(self.objs[e['h']].serialize(**kw))
        if op == 'deser':
            kw = {}
            for a, b in (('tr', 'trusted'), ('strict', 'strict'), ('av', 'assert_valid')):
                if e[a]:
                    kw[b] = True
            if e.get('mk'):
                kw['mark'] = e['mk']
            return self.enc(self.classes[e['c']].deserialize(self.arg(e['v']), **kw))
        if op == 'copy':
            kw = {b: e[a] for a, b in (('ic', 'include_class'), ('dyn', 'save_dynamic'), ('tr', 'trusted'), ('strict', 'strict'), ('av', 'assert_valid'), ('mk', 'mark')) if a in e}
            return self.enc(properties.copy(self.objs[e['h']], **kw))
        if op == 'enter':
            sc = self.scopes.setdefault(e['x'], self.mkscope(e["types"]))
            sc.__enter__()
            return none
        if op == 'exit':
            exc = ValueError('x') if e.get('exc') else None
            self.scopes[e['x']].__exit__(type(exc) if exc else None, exc, None)
            return none
        if op == 'listen':
            f = self.listener(e['lid'], e['prog'])
            names = properties.everything if e['all'] else list(e['names'])
            if e['mode'] == 'validate':
                properties.validator(self.objs[e['h']], names, f)
            else:
                properties.observer(self.objs[e['h']], names, f, change_only=e['mode'] == 'observe_change')
            return none
        if op == 'poke':
            obj = self.objs[e['h']]
            cur, new = getattr(obj, e['n']), self.dec(e['v'])
            refill(cur, new)
            return none
        if op == 'nop':
            return none
        if op == 'grab':
            got = getattr(self.objs[e['h']], e['n'])
            if not isinstance(got, (list, set, dict)):
                raise TypeError('not a container')
            self.cont[e['x']] = got
            return none
        if op == 'mut':
            return self.mut(self.cont[e['x']], e['m'], e['args'])
        if op == 'aug':
            self.aug(self.objs[e['h']], e['n'], e['m'], self.arg(e['args'][0]))
            return none
        if op == 'oper':
            out = self.oper(self.cont[e['x']], e['m'], [self.arg(a) for a in e['args']])
            self.cont[e['y']] = out
            return self.enc(out)
        if op == 'links':
            return self.mklinks(e)
        if op in ('unlink', 'relink'):
            for o in {id(self.links[k][0]): self.links[k][0] for k in e['ks']}.values():
                getattr(o, op)()
            return none
        if op == 'mktrait':
            return self.enc(self.classes['traits']())
        if op == 'filter':
            target = self.classes[e['c']]
            if e.get('inst'):
                target = self.objs[e['inst']]
            out = properties.filter_props(target, self.arg(e['v']), e['imm']) if not e.get('dflt') else \
                properties.filter_props(target, self.arg(e['v']))
            return self.enc(tuple(out))
        if op == 'props':
            return self.enc({n: p.doc for n, p in self.classes[e['c']]._props.items()})
        if op == 'doc':
            return ['s', self.classes[e['c']].__doc__]
        if op == 'registry':
            return ['d', 'dict', [[['s', n], ['s', self.cid_of.get(c, '?')]] for n, c in self.classes[e['c']]._REGISTRY.items()]]
        raise HarnessError(op)

    def mut(self, c, m, args):
        vals = [self.arg(a) for a in args]
        if m == 'setslice':
            c[vals[0]:vals[1]] = vals[2]
            return N()
        if m == 'delslice':
            del c[vals[0]:vals[1]]
            return N()
        r = getattr(c, m)(*vals)
        if r is NotImplemented:
            raise TypeError('unsupported operand')
        if r is c:
            return ['self']
        return self.enc(r)

    @staticmethod
    def aug(obj, n, m, v):
        if m == '__iadd__':
            x = getattr(obj, n)
            x += v
        elif m == '__imul__':
            x = getattr(obj, n)
            x *= v
        elif m == '__ior__':
            x = getattr(obj, n)
            x |= v
        elif m == '__iand__':
            x = getattr(obj, n)
            x &= v
        elif m == '__isub__':
            x = getattr(obj, n)
            x -= v
        elif m == '__ixor__':
            x = getattr(obj, n)
            x ^= v
        else:
            raise HarnessError(m)
        setattr(obj, n, x)

    @staticmethod
    def oper(c, m, vals):
        ops = {'__add__': lambda a, b: a + b, '__mul__': lambda a, b: a * b, '__or__': lambda a, b: a | b,
               '__and__': lambda a, b: a & b, '__xor__': lambda a, b: a ^ b, '__sub__': lambda a, b: a - b}
        if m in ops:
            return ops[m](c, vals[0])
        base = m.replace('__r', '__', 1)
        if m.startswith('__r') and base in ops:
            return ops[base](vals[0], c)
        return getattr(c, m)(*vals)

    def mklinks(self, e):
        def end(p):
            h, n = p
            return (self.objs[h] if h in self.objs else object(), n)
        tr = {'id': None, 'neg': tr_neg, 'inc': tr_inc, 'const': lambda x: 1}[e['tr']]
        kw = {}
        if e['now']:
            kw['update_now'] = True
        if not e['chg']:
            kw['change_only'] = False
        if e.get('sym'):                       # one link object joining several items
            items = [end(p) for p in e['sym']]
            lk = properties.link(*items, **kw)
            for i, l in enumerate(e['ls']):
                self.links[l[0]] = (lk, i)
        else:
            k, a, b = e['ls'][0]
            if tr is not None:
                kw['transform'] = tr
            self.links[k] = (properties.directional_link(end(a), end(b), **kw), 0)
        return N()

    # -- finishing
    def close(self):
        if hasattr(properties.handlers.listeners_disabled, '_quarantine'):
            properties.handlers.listeners_disabled._quarantine = set()

    def record(self):
        evs = self.evs
        for n, e in enumerate(evs):
            if 60 < len(e['fires']) <= 400:     # a cascade too long to be worth judging; a runaway one is judged
                evs = evs[:n]
                break
        return {'id': self.sid, 'scope': self.scope, 'evs': evs}


def has_set(t):
    return isinstance(t, list) and (t[:1] == ['S'] or any(has_set(x) for x in t))


def tr_neg(x):
    if type(x) is not int:
        raise TypeError('neg')
    return -x


def tr_inc(x):
    if type(x) is not int:
        raise TypeError('inc')
    return x + 1


def refill(cur, new):
    """change the contents of a stored container behind the property's back"""
    if type(cur).__mro__[1] in (list, set, dict) or type(cur) in (list, set, dict):
        base = [b for b in (list, set, dict) if isinstance(cur, b)][0]
        base.clear(cur)
        if base is list:
            list.extend(cur, new)
        elif base is set:
            set.update(cur, new)
        else:
            dict.update(cur, new)
    else:
        raise HarnessError('cannot poke {}'.format(type(cur)))


def spoil(v, d):
    """change the argument after it was assigned; the stored value must not change"""
    k = d['k']
    if k == 'array' and d['coerce'] and hasattr(v, 'fill'):
        try:
            v.fill(99)
        except (ValueError, TypeError):
            pass
    elif k in ('tuple', 'list', 'set'):
        if isinstance(v, (list, tuple, set)):
            for x in list(v):
                spoil(x, d['prop'])
        if isinstance(v, list):
            v.append('poison')
        elif isinstance(v, set):
            v.add('poison')
    elif k == 'dict':
        if isinstance(v, dict):
            for x in list(v.values()):
                spoil(x, d['vprop'])
            v['poison'] = 'poison'
    elif k == 'inst' and isinstance(v, dict):
        v['poison'] = 'poison'


def replay(sid, ops, scope=ALL):
    """run recorded operations again"""
    s = Session(sid, scope)
    try:
        for o in ops:
            o = {k: _copy.deepcopy(v) for k, v in o.items() if k not in OBSERVED}
            s.do(**o)
    finally:
        s.close()
    return s


OBSERVED = ('res', 'fires', 'hooks', 'warns', 'post', 'argsame', 'cont')
