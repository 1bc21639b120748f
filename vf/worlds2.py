"""Harnesses for singletons, pointers, tasks (see mini.py)."""
import contextlib
import copy
import io
import json

import properties
from properties.extras import HasUID, Pointer, Singleton

from .hp import HarnessError
from .mini import NONE, World


class TermWorld(World):
    """values as terms; objs: name -> object"""

    def start(self):
        self.objs = {}
        self.slots = {}

    def name(self, obj):
        for n, o in self.objs.items():
            if o is obj:
                return n
        return '?'

    def enc(self, v):
        if v is None:
            return NONE
        if isinstance(v, bool):
            return ['b', v]
        if isinstance(v, int):
            return ['i', v]
        if isinstance(v, float):
            return ['f', repr(v)]
        if isinstance(v, str):
            return ['s', v]
        if isinstance(v, (list, tuple)):
            return ['l', [self.enc(x) for x in v]]
        if isinstance(v, dict):
            return ['d', [[self.enc(k), self.enc(x)] for k, x in v.items()]]
        if self.name(v) != '?':
            return ['h', self.name(v)]
        return ['x', type(v).__name__]

    def dec(self, t):
        k = t[0]
        if k == 'none':
            return None
        if k == 'undef':
            return properties.undefined
        if k in ('i', 'b', 's'):
            return t[1]
        if k == 'f':
            return float(t[1])
        if k == 'h':
            return self.objs[t[1]]
        if k == 'l':
            return [self.dec(x) for x in t[1]]
        if k == 'd':
            return dict((self.dec(a), self.dec(b)) for a, b in t[1])
        if k == 'kw':
            return dict((n, self.dec(b)) for n, b in t[1])
        raise HarnessError(t)

    def values(self, obj):
        out = {}
        for n in obj._props:
            v = obj._get(n)
            if v is not None:
                out[n] = self.enc(v)
        return out


# -----------------------------------------------------------------------------
class SinglesWorld(TermWorld):
    """spec/Singles.tla"""

    module = 'SinglesRun'

    def start(self):
        TermWorld.start(self)
        I = properties.Integer

        class A(Singleton):
            _REGISTRY, _SINGLETONS = {}, {}
            name = properties.String('')
            v = I('', required=False)
            q = I('')

        class A1(A):
            w = I('', default=7)

        class C(A):
            _REGISTRY, _SINGLETONS = {}, {}

        class D(Singleton):
            _REGISTRY, _SINGLETONS = {}, {}
            v = I('', required=False)
            q = I('')

        class E(Singleton):
            _REGISTRY, _SINGLETONS = {}, {}
            name = properties.StringChoice('', choices=['x', 'y', 'z'])
            v = I('', required=False)
            q = I('')

        class Hold(properties.HasProperties):
            s = properties.Instance('', A)

        self.classes = {'A': A, 'A1': A1, 'C': C, 'D': D, 'E': E}
        self.holder = Hold()

    def adopt(self, obj, x):
        if self.name(obj) == '?':
            self.objs[x] = obj
        return ['h', self.name(obj)]

    def project(self):
        regs = {'RA': 'A', 'RC': 'C', 'RD': 'D', 'RE': 'E'}
        held = self.holder.s
        return {'objs': {n: {'c': type(o).__name__, 'id': o._singleton_id, 'v': self.values(o)} for n, o in self.objs.items()},
                'reg': {r: {i: self.name(o) for i, o in self.classes[c]._SINGLETONS.items()} for r, c in regs.items()},
                'hold': '' if held is None else self.name(held)}

    def op_make(self, e):
        kw = {n: self.dec(t) for n, t in e['kw']}
        c = self.classes[e['c']]
        if e['bykw']:
            obj = c(name=self.dec(e['id']), **kw)
        else:
            obj = c(self.dec(e['id']), *range(e['extra']), **kw)
        return self.adopt(obj, e['x'])

    def op_set(self, e):
        setattr(self.objs[e['h']], e['n'], self.dec(e['v']))

    def op_coerce(self, e):
        self.holder.s = self.dec(e['v'])
        self.adopt(self.holder.s, e['x'])

    def op_ser(self, e):
        o = self.objs[e['h']]
        d = o.serialize() if e['ic'] else o.serialize(include_class=False)
        self.slots[e['s']] = json.loads(json.dumps(d))
        return ['flat', {self.key(n): self.enc(v) for n, v in d.items()}]

    @staticmethod
    def key(n):
        return {'__class__': 'class', '_singleton_id': 'id'}.get(n, n)

    @staticmethod
    def unkey(n):
        return {'class': '__class__', 'id': '_singleton_id'}.get(n, n)

    def op_edit(self, e):
        d = self.slots[e['s']]
        if e['v'][0] == 'undef':
            d.pop(self.unkey(e['n']), None)
        else:
            d[self.unkey(e['n'])] = self.dec(e['v'])

    def op_deser(self, e):
        d = self.slots[e['s']]
        before = copy.deepcopy(d)
        try:
            obj = self.classes[e['c']].deserialize(d, trusted=e['tr'], strict=e['strict'], assert_valid=e['av'])
        finally:
            self.same(before, d)
        return self.adopt(obj, e['x'])

    def op_copy(self, e):
        return self.adopt(properties.copy(self.objs[e['h']]), e['x'])

    def op_validate(self, e):
        return self.enc(self.objs[e['h']].validate())

    def op_forget(self, e):
        self.classes[e['r'][1]]._SINGLETONS.clear()


# -----------------------------------------------------------------------------
class PointersWorld(TermWorld):
    """spec/Pointers.tla"""

    module = 'PointersRun'

    def start(self):
        TermWorld.start(self)
        world = self
        self.table = {}
        I = properties.Integer

        class T(HasUID):
            _REGISTRY, _INSTANCES = {}, {}
            val = I('')

        class T2(T):
            more = I('')

        class V(HasUID):
            _REGISTRY, _INSTANCES = {}, {}
            val = I('')

            @classmethod
            def validate_uid(cls, uid):
                if uid in ('xa', 'XA', 'x'):
                    raise properties.ValidationError('refused')

        class U(HasUID):
            _REGISTRY, _INSTANCES = {}, {}
            val = I('')

        class W(properties.HasProperties):
            _REGISTRY = {}
            name = properties.String('', change_case='lower')

            @classmethod
            def load(cls, uid):
                return world.table.get(uid)

        class WN(properties.HasProperties):
            _REGISTRY = {}
            name = properties.String('', change_case='lower')

        class Z(properties.HasProperties):
            _REGISTRY = {}
            code = properties.StringChoice('', choices={'aa': ['a1'], 'bb': []})

        class P(object):
            def __init__(self, n):
                if not isinstance(n, int):
                    raise TypeError('not an integer')
                self.n = n

        self.classes = {c.__name__: c for c in (T, T2, V, U, W, WN, Z, P)}
        t = self.cfg['t']
        kw = {'load': True} if self.cfg['ld'] else {}
        if t in ('W', 'WN'):
            kw['uid_prop'] = 'name'
        elif t == 'Z':
            kw['uid_prop'] = 'code'
        target = self.classes[t]

        class Hold(properties.HasProperties):
            _REGISTRY = {}
            p = Pointer('', target, **kw)
            l = properties.List('', Pointer('', target, **kw), required=False)

        self.Hold = Hold
        self.holder = Hold()

    def adopt(self, pre):
        vs = [('p', self.holder.p)] + [('l%d' % (j + 1), v) for j, v in enumerate(self.holder.l or [])]
        for place, v in vs:
            if type(v) in self.classes.values() and self.name(v) == '?':
                self.objs[pre + (v.uid if isinstance(v, HasUID) else place)] = v

    def project(self):
        regs = {'RT': 'T', 'RV': 'V', 'RU': 'U'}
        return {'objs': {n: {'c': type(o).__name__, 'v': {'n': ['i', o.n]} if type(o).__name__ == 'P' else self.values(o)} for n, o in self.objs.items()},
                'reg': {r: {i: self.name(o) for i, o in self.classes[c]._INSTANCES.items() if len(i) < 9} for r, c in regs.items()},
                'hold': self.values(self.holder)}

    def op_new(self, e):
        self.objs[e['x']] = self.classes[e['c']](**{n: self.dec(t) for n, t in e['kw']})
        return ['h', e['x']]

    def op_set(self, e):
        v = self.dec(e['v'])
        before = copy.copy(v) if isinstance(v, (list, dict)) else v
        try:
            setattr(self.holder, e['n'], v)
        finally:
            self.same(before, v)
        self.adopt(e['pre'])

    def op_put(self, e):
        self.table[e['u']] = self.objs[e['x']]

    def op_forget(self, e):
        self.table.clear()
        for c in 'TVU':
            self.classes[c]._INSTANCES.clear()

    def op_validate(self, e):
        return self.enc(self.holder.validate())

    def one(self, v):
        if isinstance(v, dict) and '__root__' in v:
            ents = [k for k in v if k != '__root__']
            return ['flat', self.enc(v['__root__']), self.fields(v[v['__root__']])] if ents == [v['__root__']] else ['flat', ents]
        if isinstance(v, dict):
            return ['obj', self.fields(v)]
        return self.enc(v)

    def fields(self, f):
        return {'class' if n == '__class__' else n: self.enc(v) for n, v in f.items()}

    def op_ser(self, e):
        d = self.holder.serialize()
        d.pop('__class__')
        self.slots[e['s']] = json.loads(json.dumps(d))
        return ['holder', {n: ['l', [self.one(x) for x in v]] if n == 'l' else self.one(v) for n, v in d.items()}]

    def op_edit(self, e):
        if e['v'][0] == 'undef':
            self.slots[e['s']].pop(e['n'], None)
        else:
            self.slots[e['s']][e['n']] = self.dec(e['v'])

    def op_deser(self, e):
        d = self.slots[e['s']]
        before = copy.deepcopy(d)
        try:
            self.holder = self.Hold.deserialize(d, trusted=e['tr'], assert_valid=e['av'])
        finally:
            self.same(before, d)
        self.adopt(e['pre'])


# -----------------------------------------------------------------------------
class TasksWorld(TermWorld):
    """spec/Tasks.tla"""

    module = 'TasksRun'

    def start(self):
        TermWorld.start(self)
        from properties.extras import task
        world = self
        I = properties.Integer
        self.log = []

        class Sub(properties.HasProperties):
            _REGISTRY = {}
            a = I('')

        class In(task.BaseInput):
            _REGISTRY = {}
            x = I('')
            y = I('', default=5)
            l = properties.List('', I(''), required=False, default=properties.undefined)
            n = properties.Instance('', Sub, required=False)

            @properties.validator
            def _check(self):
                if self.x == 13:
                    raise properties.ValidationError('unlucky')
                return self.x != 14

        class In2(In):
            x = I('', required=False)
            w = I('', default=3)

        class Sub2(Sub):
            a = I('', default=8)
        In._REGISTRY['Sub2'] = Sub2
        Sub._REGISTRY['In2'] = Sub2

        class Out(task.BaseOutput):
            _REGISTRY = {}
            r = I('')

            @properties.validator
            def _check(self):
                return self.r != 99

        class SubOut(Out):
            more = I('', default=2)

        class Task(task.BaseTask):
            Input, Output = In, Out

            def run(self, input_obj):
                how = world.how
                if how == 'abstract':
                    return super(Task, self).run(input_obj)
                world.note('run', input_obj)
                if how in ('good', 'spoil'):
                    out = Out(r=input_obj.x + input_obj.y)
                    if how == 'spoil':
                        input_obj.x = 13
                    return out
                if how in ('temporary', 'permanent', 'value', 'key', 'validation'):
                    raise {'temporary': task.TemporaryTaskFailure, 'permanent': task.PermanentTaskFailure, 'value': ValueError, 'key': KeyError,
                           'validation': properties.ValidationError}[how]('from run')
                return {'fail': lambda: Out(r=0, success=False, log='bad'), 'sub': lambda: SubOut(r=1), 'base': task.BaseOutput, 'missing': Out,
                        'refused': lambda: Out(r=99), 'none': lambda: None, 'int': lambda: 3, 'dict': lambda: {'r': 1, 'success': True, 'log': ''},
                        'input': lambda: input_obj, 'other': lambda: Sub(a=1)}[how]()

            def process_output(self, output_obj):
                world.note('process', output_obj)
                how = world.proc
                if how == 'default':
                    return super(Task, self).process_output(output_obj)
                if how == 'key':
                    raise KeyError('from process_output')
                return {'self': output_obj, 'none': None, 'count': len(world.values(output_obj))}[how]

        self.Status = task.TaskStatus
        self.task = Task()

    def note(self, what, obj):
        """what a step of the task was given"""
        vals = self.values(obj)
        if 'n' in vals:
            vals['n'] = ['a', ['undef'] if obj.n.a is None else self.enc(obj.n.a)]
        try:
            valid = obj.validate()
        except ValueError:
            valid = False
        self.log.append({'what': what, 'cls': type(obj).__name__, 'v': vals, 'valid': valid})

    def project(self):
        return {'log': self.log}

    def dec(self, t):
        return t[1] / 100. if t[0] == 'pc' else TermWorld.dec(self, t)

    def op_call(self, e):
        self.how, self.proc, self.log = e['run'], e['proc'], []
        kw = {n: self.dec(t) for n, t in e['kw']}
        before = copy.deepcopy(kw)
        try:
            out = self.task(**kw)
        finally:
            self.same(before, kw)
        if isinstance(out, dict):
            return ['res', {n: self.enc(v) for n, v in out.items()}]
        if isinstance(out, properties.HasProperties):
            return ['out', type(out).__name__]
        return self.enc(out)

    def op_status(self, e):
        self.log = []
        v = self.Status(**self.dec(['kw', e['v'][1]])) if e['v'][0] == 'st' else self.dec(e['v'])
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            self.task.report_status(v)
        return ['s', f.getvalue().rstrip('\n')]
