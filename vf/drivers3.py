"""Seeded histories of the small worlds (see mini.py, worlds.py)."""
import os
import random

import png
import properties

from . import worlds, worlds2, worlds3, worlds4
from .mini import NONE, UNDEF


class Rand(object):
    """random choices"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def ch(self, xs):
        return self.r.choice(list(xs))

    def p(self, x):
        return self.r.random() < x


def S(x):
    return ['s', x]


def H(x):
    return ['h', x]


def I(n):
    return ['i', n]


# -----------------------------------------------------------------------------
class UidDriver(Rand):
    """histories of objects with unique ids"""

    def __init__(self, seed, sid):
        Rand.__init__(self, seed)
        self.w = worlds.UidWorld(sid, {'w': 'uid'})
        self.taint = set()
        self.n = 0
        self.pool = ['a', 'b', 'c', 'd', 'e']
        self.forgot = False

    def do(self, op, **kw):
        return self.w.do(op, **kw)

    # -- knowledge of the world
    def of(self, *cs):
        return [n for n, o in self.w.objs.items() if self.w.cname(o) in cs]

    def bs(self):
        return self.of('B', 'N', 'M')

    def uid(self, x):
        return self.w.text(self.w.objs[x].uid)

    def ids(self):
        return [u for u in self.pool if u not in self.taint]

    def reach(self, x):
        out, todo = [], [self.w.objs[x]]
        while todo:
            o = todo.pop()
            if any(o is y for y in out):
                continue
            out.append(o)
            for n in o._props:
                v = o._get(n)
                vs = v if isinstance(v, (list, tuple)) else v.values() if isinstance(v, dict) else [v]
                todo += [y for y in vs if isinstance(y, properties.HasProperties)]
        return out

    def clean(self, x):
        us = [self.w.text(o.uid) for o in self.reach(x) if 'uid' in o._props]
        if any(o is b for b in self.reach(x) if 'uid' not in b._props and b.inn is not None for o in self.reach(self.w.name(b.inn)) if 'uid' not in o._props):
            return False        # a plain object that contains itself cannot be written
        return len(set(us)) == len(us) and not set(us) & self.taint

    def name(self):
        self.n += 1
        return 'x%d' % self.n

    # -- values
    def val(self, n, bad=.1):
        if self.p(bad):
            return self.ch([NONE, I(5) if n not in ('val', 'num') else self.ch([S('zz'), I(99)]), S('zz') if n not in ('ptr', 'tag') else I(3)])
        bs = self.bs()
        one = lambda: H(self.ch(bs))    # noqa
        if n in ('val', 'num'):
            return I(self.r.randrange(4))
        if n == 'tag':
            return S(self.ch(['t', 'u']))
        if n == 'ptr':
            return one() if bs and self.p(.5) else S(self.ch(self.ids() + ['zz']))
        if n == 'box':
            xs = self.of('Box')
            return H(self.ch(xs)) if xs else UNDEF
        if not bs:
            return UNDEF
        if n in ('nxt', 'inn'):
            return one()
        if n == 'kids':
            return ['l', [one() for _ in range(self.r.randrange(4))]]
        return ['d', [[S(k), one()] for k in self.r.sample(['k', 'l', 'm'], self.r.randrange(3))]]

    # -- operations
    def new(self):
        c = self.ch(['N', 'N', 'N', 'M', 'B', 'Q', 'Box'])
        props = {'B': [], 'N': ['val', 'nxt', 'kids', 'map', 'box', 'ptr'], 'M': ['val', 'nxt', 'kids', 'map', 'box', 'ptr', 'tag'], 'Q': ['val'],
                 'Box': ['inn', 'num']}[c]
        kw = []
        if c != 'Box' and self.p(.8) and self.ids():
            kw.append(['uid', S(self.ch(self.ids()))])
        for n in props:
            if self.p(.7 if n == 'val' else .3):
                v = self.val(n, .05)
                if v != UNDEF:
                    kw.append([n, v])
        if self.p(.03):
            kw.append(['zzz', I(1)])
        self.r.shuffle(kw)
        # one mistake at a time
        self.do('new', x=self.name(), c=c, kw=kw)

    def set(self):
        xs = list(self.w.objs)
        if not xs:
            return self.new()
        x = self.ch(xs)
        c = self.w.cname(self.w.objs[x])
        n = self.ch([p for p in self.w.objs[x]._props if p != 'uid'] + (['uid'] if c != 'Box' else []))
        if n == 'uid':
            old = self.uid(x)
            us = [u for u in self.ids() if not (self.forgot and u == old)]
            if old in self.taint or not us:
                return None
            u = self.ch(us)
            e = self.do('set', h=x, n=n, v=S(u) if self.p(.95) else I(4), pre='')
            if e['res']['ok'] and u != old:
                self.taint.add(old)
            return None
        if n in ('nxt', 'inn') and self.p(.15) and self.ids():
            self.n += 1
            return self.do('set', h=x, n=n, v=['kw', self.ch(self.ids())], pre='k%d' % self.n)
        v = self.val(n)
        if v == UNDEF or self.p(.1):
            v = UNDEF
        return self.do('set', h=x, n=n, v=v, pre='')

    def load(self):
        ids = self.ids() + [self.uid(x) for x in self.bs() if self.uid(x) not in self.taint]
        if ids:
            self.do('load', c=self.ch(['B', 'N', 'M', 'Q']), u=self.ch(ids))

    def ser(self):
        xs = [x for x in self.bs() + self.of('Q') if self.clean(x)]
        if xs:
            self.do('ser', h=self.ch(xs), s=self.ch(['s', 't']), ic=self.p(.9))

    def validate(self):
        if self.w.objs:
            self.do('validate', h=self.ch(list(self.w.objs)))

    def forget(self):
        self.do('forget')
        self.forgot = True

    def copy(self):
        xs = [x for x in self.bs() + self.of('Q') if self.clean(x)]
        if xs:
            x = self.ch(xs)
            self.readin('copy', h=x, pre='c%d' % self.n)

    def recopy(self):
        self.forget()
        self.copy()

    def readin(self, op, **kw):
        self.n += 1
        before = {u for c in 'BQ' for u in self.w.classes[c]._INSTANCES}
        e = self.do(op, **kw)
        if not e['res']['ok']:
            ents = self.w.slots.get(kw.get('s'), {}) if op == 'deser' else {}
            us = {self.w.text(u) for u in ents if u != '__root__'}
            if op == 'copy':
                us = {self.w.text(o.uid) for o in self.reach(kw['h']) if 'uid' in o._props}
            del before
            self.taint |= us

    def entries(self, s):
        return [self.w.text(u) for u in self.w.slots[s] if u != '__root__']

    def mentioned(self, d):
        if isinstance(d, dict):
            return {self.w.text(k) for k in d}.union(*[self.mentioned(v) for v in d.values()])
        if isinstance(d, list):
            return set().union(*[self.mentioned(v) for v in d])
        return {self.w.text(d)} if isinstance(d, str) else set()

    def deser(self):
        ss = [s for s in self.w.slots if not self.mentioned(self.w.slots[s]) & self.taint]
        if not ss:
            return self.ser()
        s = self.ch(ss)
        root = '' if self.p(.75) else self.ch(self.entries(s) + ['none', 'q9'] + self.ids()[:1])
        if root in self.taint:
            return None
        own = self.w.slots[s].get(self.w.slots[s].get('__root__'), {}).get('__class__')
        self.readin('deser', c=own if own in ('B', 'N', 'M', 'Q') and self.p(.5) else self.ch(['B', 'N', 'N', 'N', 'M', 'Q']), s=s, root=root, tr=self.p(.8), strict=self.p(.25), av=self.p(.3), pre='y%d' % self.n)
        return None

    def fresh(self, us):
        m = {}
        for u in us:
            m[u] = 'u%d' % len(self.pool)
            self.pool.append(m[u])
        return m

    def edit(self):
        ss = list(self.w.slots)
        if not ss:
            return None
        s = self.ch(ss)
        us = self.entries(s)
        how = self.ch(['drop', 'put', 'cut', 'root', 'retag', 'retag', 'retag', 'retag'])
        if how == 'retag':
            return self.do('edit', s=s, how=how, m=self.fresh(us)) if us else None
        if not us:
            return None
        u = self.ch(us)
        ent = self.w.slots[s][self.w.back(u)]
        if how == 'drop':
            return self.do('edit', s=s, how=how, u=u)
        if how == 'root':
            return self.do('edit', s=s, how=how, u=self.ch(us + ['q9']))
        if how == 'cut':
            ns = [n for n in ent if n not in ('uid',)]
            return self.do('edit', s=s, how=how, u=u, n=self.ch(['class' if n == '__class__' else n for n in ns])) if ns else None
        n = self.ch(['val', 'zzz', 'class', 'nxt', 'kids', 'ptr'])
        v = {'val': self.ch([S('zz'), I(99)]), 'zzz': I(1), 'class': S(self.ch(['B', 'N', 'M', 'Zed', 'Q'])), 'nxt': S(self.ch(us + ['q9'])),
             'kids': ['l', [S(self.ch(us)) for _ in range(self.r.randrange(3))]], 'ptr': S(self.ch(us + ['q9']))}[n]
        return self.do('edit', s=s, how='put', u=u, n=n, v=v)

    def cycle(self):
        """serialize a graph and read it where its ids are free"""
        self.ser()
        if self.p(.3):
            self.edit()
        if self.p(.3):
            self.forget()
        else:
            for s in list(self.w.slots):
                us = self.entries(s)
                if us:
                    self.do('edit', s=s, how='retag', m=self.fresh(us))
        self.deser()


def c16(seed, sid):
    d = UidDriver(seed, sid)
    for _ in range(3):
        d.new()
    ops = [k for k, n in sorted(dict(new=3, set=10, load=2, ser=2, deser=2, edit=2, cycle=3, validate=2, copy=1, recopy=1).items()) for _ in range(n)]
    for _ in range(30):
        if len(d.w.objs) > 14:
            break
        getattr(d, d.ch(ops))()
    return d.w


# -----------------------------------------------------------------------------
class SinglesDriver(Rand):
    """histories of singletons"""

    def __init__(self, seed, sid):
        Rand.__init__(self, seed)
        self.w = worlds2.SinglesWorld(sid, {'w': 'singles'})
        self.n = 0

    def do(self, op, **kw):
        return self.w.do(op, **kw)

    def x(self):
        self.n += 1
        return 'o%d' % self.n

    def id(self):
        return S(self.ch(['x', 'y', 'z', 'x', 'y', '']))

    def kws(self, c, bad=.1):
        kw = []
        for n in ['v', 'q'] + (['w'] if c == 'A1' else []):
            if self.p(.5):
                kw.append([n, I(self.r.randrange(5))])
        if self.p(bad):
            kw.append(self.ch([['v', S('zz')], ['zzz', I(1)], ['q', NONE]]))
            kw = [k for j, k in enumerate(kw) if k[0] not in [y[0] for y in kw[j + 1:]]]
        return kw

    def make(self):
        c = self.ch(['A', 'A', 'A1', 'C', 'D', 'E'])
        t = self.id()
        if self.p(.06):
            t = self.ch([I(3), NONE, S('bad')])
        if c == 'D' and t[0] != 's':
            return
        bykw = self.p(.3)
        self.do('make', x=self.x(), c=c, id=t, kw=self.kws(c, 0 if t[0] != 's' or (c == 'E' and t[1] not in ('x', 'y', 'z')) else .1), bykw=bykw, extra=0 if bykw else self.ch([0, 0, 1, 2]))

    def obj(self):
        return self.ch(self.w.objs) if self.w.objs else None

    def set(self):
        h = self.obj()
        if h:
            c = type(self.w.objs[h]).__name__
            n = self.ch(['v', 'q', 'w', 'name', 'name', 'name'])
            if (n == 'name' and c == 'D') or (n == 'w' and c != 'A1'):
                return
            v = (S(self.ch(['x', 'y', 'z', 'w'])) if n == 'name' else I(self.r.randrange(5))) if self.p(.85) else self.ch([UNDEF, UNDEF, NONE, I(3) if n == 'name' else S('q')])
            self.do('set', h=h, n=n, v=v)

    def ser(self):
        h = self.obj()
        if h:
            self.do('ser', h=h, s=self.ch(['s', 't']), ic=self.p(.8))

    def slot(self):
        return self.ch(self.w.slots) if self.w.slots else None

    def edit(self):
        s = self.slot()
        if not s:
            return self.ser()
        d = self.w.slots[s]
        n = self.ch(['id', 'name', 'v', 'class', 'zzz', 'q'])
        v = self.ch({'id': [UNDEF, self.id(), self.id()], 'name': [UNDEF, self.id(), S('bad')] + ([I(4)] if '_singleton_id' in d else []),
                     'v': [UNDEF, I(3), S('zz')], 'q': [UNDEF, I(3)], 'class': [S('A'), S('A1'), S('C'), S('Nope'), UNDEF], 'zzz': [I(1)]}[n])
        if n == 'id' and v == UNDEF and not isinstance(d.get('name', 'x'), str):
            return None
        self.do('edit', s=s, n=n, v=v)

    def deser(self):
        s = self.slot()
        if not s:
            return self.ser()
        own = self.w.slots[s].get('__class__')
        c = own if own in self.w.classes and self.p(.5) else self.ch(['A', 'A', 'A1', 'C', 'D', 'E'])
        self.do('deser', c=c, s=s, tr=self.p(.5), strict=self.p(.25), av=self.p(.25), x=self.x())

    def copy(self):
        h = self.obj()
        if h:
            self.do('copy', h=h, x=self.x())

    def validate(self):
        h = self.obj()
        if h:
            self.do('validate', h=h)

    def forget(self):
        self.do('forget', r=self.ch(['RA', 'RC', 'RD', 'RE']))

    def coerce(self):
        h = self.obj()
        v = self.ch(([H(h)] if h else []) + [self.id(), I(3), ['kw', [['name', self.id()]] + self.kws('A')]])
        self.do('coerce', x=self.x(), v=v)


def c17(seed, sid):
    d = SinglesDriver(seed, sid)
    ops = [k for k, n in sorted(dict(make=8, set=5, ser=3, edit=2, deser=6, copy=1, validate=1, forget=2, coerce=3).items()) for _ in range(n)]
    for _ in range(40):
        getattr(d, d.ch(ops))()
    return d.w


# -----------------------------------------------------------------------------
class PointersDriver(Rand):
    """histories of a holder of pointers"""

    def __init__(self, seed, sid):
        Rand.__init__(self, seed)
        self.t = self.ch(['T', 'T', 'V', 'W', 'W', 'WN', 'Z', 'P'])
        self.ld = self.p(.6)
        self.w = worlds2.PointersWorld(sid, {'t': self.t, 'ld': self.ld})
        self.n = 0
        self.dead = False

    def do(self, op, **kw):
        return self.w.do(op, **kw)

    def pre(self):
        self.n += 1
        return 'm%d' % self.n

    def kw(self, c, bad=.08):
        if c in ('T', 'T2', 'V', 'U'):
            kw = [['uid', S(self.ch(['a', 'b', 'c', 'A', 'xa', 'd', 'e']))]]
            if self.p(.7):
                kw.append(['val', I(self.r.randrange(3))])
            if c == 'T2' and self.p(.7):
                kw.append(['more', I(2)])
        elif c in ('W', 'WN'):
            kw = [['name', S(self.ch(['a', 'b', 'A', 'XA']))]] if self.p(.8) else []
        elif c == 'Z':
            kw = [['code', S(self.ch(['aa', 'a1', 'bb']))]] if self.p(.8) else []
        else:
            kw = [['n', I(self.r.randrange(3))]]
        if self.p(bad):
            kw = self.ch([kw + [['zzz', I(1)]], [[n, NONE] for n, v in kw]]) if kw else [['zzz', I(1)]]
        return kw

    def new(self):
        c = self.ch([self.t, self.t, 'U'] + (['T2', 'T2'] if self.t == 'T' else []) + (['WN'] if self.t == 'W' else []))
        self.do('new', c=c, x='o' + self.pre(), kw=self.kw(c))

    def val(self, bad=.25):
        if self.p(bad):
            return self.ch([NONE, I(self.r.randrange(4)), ['l', [I(1)]], ['kw', [['zzz', I(1)]]], ['b', True] if self.t != 'P' else NONE, UNDEF])
        xs = list(self.w.objs)
        how = self.ch(['id', 'id', 'obj', 'obj', 'kw'])
        if how == 'obj' and xs:
            return H(self.ch(xs))
        if how == 'kw':
            return ['kw', self.kw(self.t)]
        return S(self.ch(['aa', 'a1', 'bb', 'q'] if self.t == 'Z' else ['a', 'b', 'c', 'A', 'B', 'xa', 'XA', 'x', '']))

    def set(self):
        if self.p(.65):
            self.do('set', n='p', v=self.val(), pre=self.pre())
            return
        k = self.r.randrange(4)
        vs = [self.val(.05) for _ in range(k)]
        vs = [v for v in vs if v != UNDEF]
        # a new object of a rejected list would stay in the registry of its class
        kws = [v for v in vs if v[0] == 'kw']
        if kws and self.t in ('T', 'V'):
            vs = [v for v in vs if v[0] != 'kw'] + kws[:1]
        self.do('set', n='l', v=['l', vs] if self.p(.95) else self.ch([S('a'), I(3), UNDEF]), pre=self.pre())

    def put(self):
        if self.t == 'W' and self.w.objs:
            self.do('put', u=self.ch(['a', 'b', 'xa', 'A']), x=self.ch(list(self.w.objs)))
        else:
            self.new()

    def held(self):
        return [v for v in [self.w.holder.p] + list(self.w.holder.l or []) if v is not None]

    def validate(self):
        for v in self.held():
            if isinstance(v, str) and self.ld and (v in self.w.table if self.t == 'W' else v in getattr(self.w.classes[self.t], '_INSTANCES', {})):
                return
        self.do('validate')

    def ser(self):
        if not any(type(v).__name__ == 'P' for v in self.held()):
            self.do('ser', s=self.ch('st'))

    def forget(self):
        self.do('forget')

    def edit(self):
        if self.w.slots:
            s = self.ch(list(self.w.slots))
            n = self.ch('pl')
            v = self.ch([UNDEF, S('a'), S('q'), I(3)]) if n == 'p' else self.ch([UNDEF, ['l', [S('b'), S('a')]], ['l', []], ['l', [S('xa')]]])
            if v == I(3) and self.t == 'P':
                return
            self.do('edit', s=s, n=n, v=v)

    def deser(self):
        if not self.w.slots:
            return self.ser()
        s = self.ch(list(self.w.slots))
        d = self.w.slots[s]
        us = [v['__root__'] for v in [d.get('p')] + (d['l'] if isinstance(d.get('l'), list) else []) if isinstance(v, dict) and '__root__' in v]
        if len(set(us)) < len(us):
            return None
        if us and self.p(.7):
            self.do('forget')
        e = self.do('deser', s=s, tr=self.p(.6), av=self.p(.2), pre=self.pre())
        self.dead = not e['res']['ok']


def c23(seed, sid):
    d = PointersDriver(seed, sid)
    ops = [k for k, n in sorted(dict(new=6, set=14, put=3, validate=2, ser=3, forget=1, edit=1, deser=4).items()) for _ in range(n)]
    for _ in range(40):
        getattr(d, d.ch(ops))()
        if d.dead:
            break
    return d.w


# -----------------------------------------------------------------------------
def c18(seed, sid):
    """calls of a task and status reports"""
    g = Rand(seed)
    w = worlds2.TasksWorld(sid, {'w': 'tasks'})
    runs = ['good', 'spoil', 'fail', 'sub', 'base', 'missing', 'refused', 'none', 'int', 'dict', 'input', 'other', 'temporary', 'permanent', 'value', 'key',
            'validation', 'abstract']

    def num():
        return I(g.ch([0, 1, 2, 13, 14, 40]))

    for _ in range(30):
        if g.p(.3):
            kw = []
            if g.p(.7):
                kw.append(['progress', ['pc', g.ch([0, 100, 50, g.r.randrange(101), g.r.randrange(101), 101, -1, 150])] if g.p(.9) else g.ch([S('zz'), NONE])])
            if g.p(.6):
                kw.append(['message', S(g.ch(['hi', '', 'a b'])) if g.p(.9) else I(3)])
            if g.p(.05):
                kw.append(['zzz', I(1)])
            ok = all(k[0] != 'zzz' and (k[1][0] == 's' if k[0] == 'message' else k[1][0] == 'pc' and 0 <= k[1][1] <= 100) for k in kw)
            v = ['st' if ok and g.p(.5) else 'kw', kw] if g.p(.93) else g.ch([I(3), NONE, S('x'), ['l', []]])
            w.do('status', v=v)
            continue
        kw = []
        if g.p(.9):
            kw.append(['x', num() if g.p(.85) else S('3')])
        if g.p(.5):
            kw.append(['y', num() if g.p(.85) else S('3')])
        if g.p(.3):
            kw.append(['l', ['l', [num() if g.p(.9) else S('3') for _ in range(g.r.randrange(3))]]])
        if g.p(.3):
            kw.append(['n', ['kw', [['a', num()]] if g.p(.8) else []]])
        if g.p(.1):
            kw.append(['zzz', g.ch([I(1), NONE, S('x')])])
        if g.p(.1):
            kw.append(['__class__', S(g.ch(['In', 'In2', 'BaseInput', 'Sub2', 'Nope', '']))])
        if g.p(.12):
            n = g.ch('xyln')
            bad = {'x': [S('zz'), NONE], 'y': [S('zz'), NONE], 'l': [['l', [I(1), S('zz')]], I(3)], 'n': [I(3), ['kw', [['a', S('q')]]]]}
            kw = [k for k in kw if k[0] != n] + [[n, g.ch(bad[n])]]
        w.do('call', kw=kw, run=g.ch(runs + ['good'] * 6), proc=g.ch(['default', 'default', 'self', 'none', 'count', 'key']))
    return w


# -----------------------------------------------------------------------------
class FilesDriver(Rand):
    """histories of file and image properties"""

    MODES = ['r', 'r+', 'rb', 'rb+', 'w', 'w+', 'wb', 'wb+', 'a', 'a+', 'ab', 'ab+']

    def __init__(self, seed, sid):
        Rand.__init__(self, seed)
        self.png = self.p(.5)
        if self.png:
            modes = self.r.sample(['rb', 'rb+', 'ab+', 'wb+'], self.ch([1, 2])) if self.p(.3) else []
            mode = self.ch([m for m in modes if m != 'wb+'] or ['rb']) if modes else self.ch(['rb', 'rb', 'rb+', 'ab+'])
            if modes and mode not in modes:
                modes.append(mode)
            cfg = {'k': 'png', 'mode': mode, 'valid': modes, 'name': self.ch(['texture.png', 'p.png'])}
        else:
            mode = self.ch([''] + self.MODES)
            valid = [mode] + self.r.sample(self.MODES, self.r.randrange(3)) if mode and self.p(.4) else []
            cfg = {'k': 'file', 'mode': mode, 'valid': valid, 'name': ''}
        self.w = worlds3.FilesWorld(sid, cfg)
        self.n = 0

    def do(self, op, **kw):
        return self.w.do(op, **kw)

    def x(self):
        self.n += 1
        return 'x%d' % self.n

    def some(self, ok=lambda o: True):
        xs = [n for n, o in self.w.objs.items() if ok(o)]
        return self.ch(xs) if xs else None

    def open(self):
        m = self.ch(self.MODES) if self.p(.4) or not self.png else self.ch(['rb', 'rb', 'rb+', 'ab+'])
        p = self.ch(['w1', 'w2']) if m[0] == 'w' else self.ch(['a', 'b', 't', 'e', 'no', 'dir'] if self.p(.3) else ['a', 'b', 't'])
        if p == 'no' and m[0] == 'a':
            p = 'w1'
        self.do('open', x=self.x(), path=p, mode=m)

    def make(self):
        k = self.ch(['mem', 'mem', 'mem', 'txt', 'half', 'pix'])
        self.do('make', x=self.x(), k=k, data='G' if k == 'pix' else self.ch(['A', 'B', 'T', '']))

    def close(self):
        x = self.some(lambda o: hasattr(o, 'close'))
        if x:
            self.do('close', x=x)

    @staticmethod
    def readable(o):
        return hasattr(o, 'seek') and not o.closed and o.readable() and 'b' in getattr(o, 'mode', 'b')

    def part(self):
        x = self.some(self.readable)
        if x:
            self.do('part', x=x)

    def read(self):
        x = self.some(self.readable)
        if x:
            self.do('read', x=x)

    def write(self):
        busy = [os.path.basename(str(o.name)) for o in self.w.objs.values() if hasattr(o, 'mode') and not o.closed]
        ps = [p for p in ('a', 'b', 't') if p not in busy]
        if ps:
            self.do('write', path=self.ch(ps), data=self.ch(['A', 'B', 'T']))

    def set(self):
        used = [t['v'][1] for t in self.w.evs if t['op'] == 'set' and t['res']['ok'] and t['v'][0] == 'h']
        used = [n for n in used if isinstance(self.w.objs[n], png.Image)]      # these can be written only once
        x = self.some()
        if x and x not in used and self.p(.6):
            v = H(x)
        elif self.p(.75):
            v = S(self.ch(['w1', 'w2'] if self.w.cfg['mode'][:1] == 'w' else ['a', 'b', 'a', 'b', 't', 'e', 'no', 'dir']))
        else:
            v = self.ch([NONE, UNDEF, I(3), ['l', []]])
        self.do('set', h=self.ch(['h1', 'h1', 'h2']), v=v, x=self.x())

    def get(self):
        self.do('get', h=self.ch(['h1', 'h2']))

    def delete(self):
        self.do('del', h=self.ch(['h1', 'h2']))

    def validate(self):
        self.do('validate', h=self.ch(['h1', 'h2']))

    def held(self):
        hs = [h for h, o in self.w.holders.items() if o.f is not None and not o.f.closed]
        return self.ch(hs) if hs and self.png else None

    def ser(self):
        h = self.held()
        if h:
            self.do('ser', h=h, s=self.ch('st'))

    def deser(self):
        if self.w.slots:
            self.do('deser', h=self.ch(['h1', 'h2']), s=self.ch(list(self.w.slots)), x=self.x())

    def edit(self):
        if self.w.slots:
            self.do('edit', s=self.ch(list(self.w.slots)), d=self.ch(['bad', 'T', '']))

    def copy(self):
        h = self.held()
        if h:
            self.do('copy', h=h, g=self.ch(['h1', 'h2']), x=self.x())


def c24(seed, sid):
    d = FilesDriver(seed, sid)
    ops = [k for k, n in sorted(dict(open=5, make=3, close=1, part=3, read=2, write=1, set=12, get=1, delete=2, validate=2, ser=3, deser=3, edit=1, copy=2).items())
           for _ in range(n)]
    try:
        for _ in range(30):
            getattr(d, d.ch(ops))()
    except Exception:
        d.w.close()
        raise
    return d.w


# -----------------------------------------------------------------------------
B, F = (lambda v: ['b', v]), (lambda n: ['f', n])
L, T, ST, D = (lambda *x: ['l', list(x)]), (lambda *x: ['t', list(x)]), (lambda *x: ['S', list(x)]), (lambda *x: ['d', [list(p) for p in x]])


class DeclDriver(Rand):
    """histories of declarations"""

    NUMERIC, CONT, VECS = ('Integer', 'Float'), ('List', 'Set', 'Tuple'), ('Vector2', 'Vector3', 'Vector2Array', 'Vector3Array')
    GETTABLE, FILES = ('GettableProperty', 'Uuid', 'Renamed'), ('File', 'ImagePNG')
    TYPES = ('Property', 'Boolean', 'Complex', 'String', 'URL', 'StringChoice', 'Color', 'DateTime', 'Array', 'Dictionary', 'Instance', 'Pointer',
             'Union') + NUMERIC + CONT + VECS + GETTABLE + FILES
    UNSURE = FILES + ('Pointer', 'Vector2Array', 'Vector3Array', 'DateTime', 'URL')
    UNHASHED = ('List', 'Set', 'Dictionary', 'Array', 'Union') + VECS

    def __init__(self, seed, sid):
        Rand.__init__(self, seed)
        self.w = worlds4.DeclWorld(sid, {'k': 'decl'})
        self.n = 0
        self.used, self.cls, self.unsure, self.classes = set(), {}, set(), {}

    def do(self, op, **kw):
        return self.w.do(op, **kw)

    def free(self, ok=lambda c: True):
        return [x for x, c in self.cls.items() if x not in self.used and ok(c)]

    def strings(self, n):
        return [S(x) for x in self.r.sample(['a', 'A', 'b', 'B', 'c', 'ab', 'x'], n)]

    def num(self):
        return self.ch([I, I, F])(self.r.randrange(-3, 7))

    def choices(self):
        names = self.strings(self.r.randrange(5))
        if self.p(.12):
            names = names + names[:1]
        if self.p(.5):
            return ['l' if self.p(.5) else 't', names]
        return D(*[(n, self.ch([L(), L(*self.strings(self.ch([0, 1, 2]))), T(*self.strings(1)), self.strings(1)[0]])) for n in names if names.count(n) == 1])

    def nested(self, hashed=False):
        xs = self.free(lambda c: c not in self.GETTABLE + ('Dyn',) and not (hashed and c in self.UNHASHED))
        if xs and self.p(.7):
            return ['p', self.ch(xs)]
        return ['c', 'P0']

    def value(self, c, n):
        g = self
        if g.p(.05):
            if n in ('remove_parameters', 'remove_fragment', 'load', 'uid_prop', 'min', 'max', 'default'):
                return g.ch([I(3), I(0)])
            return g.ch([I(-3), F(2), ['c', 'int'], NONE, L()] if n in ('descriptions', 'choices', 'props', 'serializer', 'deserializer') else [['c', 'float'], D()])
        if n in ('required', 'cast', 'unicode', 'case_sensitive', 'coerce', 'observe_mutations', 'auto_create', 'strict_instances', 'warn'):
            return g.ch([B(True), B(True), B(False), B(False), I(1)] if g.p(.2) else [B(True), B(False)])
        if n in ('doc', 'name', 'strip', 'filename', 'new_name'):
            return S(g.ch(['a', 'text', 'n.png']))
        if n in ('serializer', 'deserializer'):
            return ['fn', 'ser']
        if n in ('min', 'max'):
            return NONE if g.p(.1) else g.num()
        if n in ('min_length', 'max_length'):
            return I(g.ch([0, 1, 2, 3, -1] if g.p(.3) else [0, 1, 2, 3]))
        if n == 'change_case':
            return g.ch([S('upper'), S('lower'), NONE])
        if n == 'regex':
            return g.ch([S('^a'), ['re', '^a'], S('b$'), ['re', 'b$'], S('(')])
        if n == 'shape' and c in g.VECS:
            one = lambda: T(g.ch([S('*'), I(3), I(1)]), I(int(c[6]) if g.p(.85) else 5 - int(c[6])))
            return g.ch([one(), one(), ST(one(), T(I(4), I(int(c[6])))), ST(one()), T(I(3)), T(S('*'), S('*')), NONE])
        if n == 'shape':
            one = lambda: T(*[g.ch([S('*'), I(3), I(1), I(2)]) for _ in range(g.ch([1, 1, 2, 3]))])
            return g.ch([NONE, one(), one(), ST(one(), T(I(3))), ST(one()), L(I(1)), T(S('x')), T(F(1)), ST(one(), I(3))])
        if n == 'dtype':
            cs = [['c', x] for x in ('int', 'float', 'bool', 'complex')]
            return g.ch([g.ch(cs), L(*g.r.sample(cs, g.ch([1, 2]))), T(*g.r.sample(cs, g.ch([0, 1, 2, 3]))), T(g.ch(cs), ['c', 'P0'])])
        if n == 'length':
            return g.num()
        if n in ('prop', 'key_prop', 'value_prop'):
            return g.nested(c == 'Set' or n == 'key_prop')
        if n == 'instance_class':
            return ['c', g.ch(['P0', 'P0', 'int'] if c == 'Instance' else ['U0'])]
        if n == 'props':
            xs = []
            for _ in range(g.ch([0, 1, 2, 2, 3])):
                x = g.nested()
                if x not in xs:
                    xs.append(x)
            return ['l' if g.p(.5) else 't', xs]
        if n == 'mode':
            return S(g.ch(['r', 'rb', 'wb+', 'ab+', 'a', 'rb+', 'q']))
        if n == 'valid_modes':
            ms = [S(m) for m in g.r.sample(['rb', 'r', 'ab+', 'wb+', 'rb+'], g.ch([1, 2, 3, 4]))]
            return ms[0] if g.p(.1) else [g.ch('ltS'), ms]
        return g.ch([S('a'), I(7)]) if n == 'uid_prop' else g.ch([B(True), B(False), S('a'), I(0), S(''), NONE])

    def any(self, deep=True):
        g = self
        xs = [I(1), I(9), I(-2), F(2), S('a'), S('ab'), S('b'), B(True), B(False), NONE]
        if not deep:
            return g.ch(xs[:-1])
        k = g.ch(['', '', 'l', 't', 'S', 'd', 'l', 't'])
        if not k:
            return g.ch(xs)
        if k == 'd':
            return D(*([(S('a'), g.any(False))] if g.p(.6) else []))
        ys = []
        for _ in range(g.ch([0, 1, 2, 3, 3])):
            y = g.any(False)
            if k != 'S' or not any(y[1] == z[1] for z in ys):
                ys.append(y)
        if k == 'S':
            ys = ys[:1]
        if g.p(.5):
            ys = [I(j + 1) for j in range(len(ys))]
        return [k, ys]

    def default(self, c):
        d = self.ch([self.any(), self.any(), ['fn', 'one'], ['fn', 'lst'], UNDEF, NONE])
        if c in ('Instance', 'Union') and self.p(.5):
            d = self.ch([['c', 'P0'], D()])
        return d

    def settled(self, c, kw):
        """does the specification say which values fit?"""
        if c in self.UNSURE:
            return False
        ps = [t for n, t in kw if n in ('prop', 'key_prop', 'value_prop')] + [t for n, ts in kw if n == 'props' and ts[0] in 'lt' for t in ts[1]]
        return all(t[0] != 'p' or t[1] not in self.unsure for t in ps)

    def odd(self, c, v, kw):
        """combinations about which nothing is said"""
        kw = dict(kw)
        if c == 'Set' or (kw.get('coerce') == B(True) and c in ('Dictionary',)):
            return v[0] in 'd' or (v[0] in 'ltS' and c == 'Dictionary') or v[0] == 'fn' or v[0] == 's'
        if c in self.VECS or c == 'Array':
            return v[0] in 'S' or (v[0] in 'lt' and any(x[0] in 'sb' for x in v[1]))
        if c in ('Boolean',) + self.NUMERIC and kw.get('cast') == B(True):
            return False
        return False

    def decl(self):
        g = self
        c = g.ch(g.TYPES) if g.p(.6) else g.ch(['StringChoice', 'Integer', 'List', 'Tuple', 'Array', 'Union', 'File', 'Dictionary', 'String', 'Instance'])
        pos = {'StringChoice': ['doc', 'choices', 'case_sensitive'], 'List': ['doc', 'prop'], 'Set': ['doc', 'prop'], 'Tuple': ['doc', 'prop'],
               'Instance': ['doc', 'instance_class'], 'Pointer': ['doc', 'instance_class'], 'Union': ['doc', 'props'], 'File': ['doc', 'mode'],
               'ImagePNG': ['doc', 'mode'], 'Renamed': ['new_name']}.get(c, ['doc'])
        given = {}

        def val(n):
            if n == 'choices':
                v = g.choices()
                if g.p(.05):
                    v = g.ch([L(I(1)), S('a'), D((S('a'), I(3)))])
            elif n == 'descriptions':
                names = [p[0] if given['choices'][0] == 'd' else p for p in given['choices'][1]] if given.get('choices', NONE)[0] in 'ltd' else []
                names = [x for x in names if not (g.p(.07))]
                v = D(*[(x, S('x') if g.p(.95) else I(1)) for j, x in enumerate(names) if x not in names[:j]])
            else:
                v = g.value(c, n)
            return v
        npos = len(pos) if len(pos) > 1 and g.p(.7) else 1
        if pos[-1] == 'case_sensitive' and g.p(.6):
            npos = min(npos, 2)
        args = []
        for n in pos[:npos]:
            given[n] = val(n)
            args.append(given[n])
        kw = []
        for n in pos[npos:]:
            if n in ('choices', 'props', 'instance_class') and g.p(.95) or g.p(.4):
                given[n] = val(n)
                kw.append([n, given[n]])
        own = [n for n in worlds4.OWN.get(c, []) if n not in given]
        common = ['serializer', 'deserializer'] + ([] if c in g.GETTABLE else ['required']) + ([] if c in g.CONT + ('Dictionary', 'Union') else ['name'])
        names = g.r.sample(own, min(len(own), g.ch([0, 1, 2, 2, 3]))) + g.r.sample(common, g.ch([0, 0, 0, 1]))
        if c == 'StringChoice' and g.p(.4) and 'descriptions' not in names:
            names.append('descriptions')
        if g.p(.06):
            names.append(g.ch(['foo', '_min', '_name', 'terms', 'meta', 'info', '_default', 'minimum'] + (['shape', 'dtype'] if c in g.VECS[:2] else [])))
        g.r.shuffle(names)
        if c == 'StringChoice':
            names.sort(key=lambda n: n == 'descriptions')
        for n in names:
            if n in given:
                continue
            given[n] = val(n) if n not in ('foo', '_min', '_name', 'terms', 'meta', 'info', '_default', 'minimum', 'shape', 'dtype') or n in own else I(3)
            kw.append([n, given[n]])
        alls = list(given.items())
        nested = [t[1] for n, t in alls if n in ('prop', 'key_prop', 'value_prop') and t[0] == 'p']
        nested += [t[1] for n, ts in alls if n == 'props' and ts[0] in ('l', 't') for t in ts[1] if t[0] == 'p']
        if len(nested) != len(set(nested)):
            return
        sure = g.settled(c, alls)
        if sure and c not in ('Uuid', 'Renamed') and g.p(.45):
            d = g.default(c)
            if not g.odd(c, d, alls) and not (c == 'Union' and any(g.cls[x] in ('Set', 'Array', 'Dictionary') + g.VECS for x in nested)) \
                    and not (d[0] == 'd' and nested) and not any(g.cls[x] in ('Set', 'Dictionary', 'Array') + g.VECS for x in nested):
                kw.insert(g.r.randrange(len(kw) + 1), ['default', d])
        g.n += 1
        x = 'p%d' % g.n
        e = g.do('decl', x=x, cls=c, args=args, kw=kw)
        if e['res']['ok']:
            g.cls[x] = c
            g.used.update(nested)
            if not sure:
                g.unsure.add(x)

    def put(self):
        xs = [x for x, c in self.cls.items() if c != 'Dyn']
        if not xs:
            return
        x = self.ch(xs)
        c = self.cls[x]
        names = [n for n in ('doc', 'serializer', 'deserializer', 'required', 'min', 'max', 'min_length', 'max_length', 'cast', 'change_case', 'length', 'coerce', 'regex',
                             'shape', 'dtype', 'unicode', 'strip', 'filename', 'warn', 'load', 'uid_prop', 'remove_fragment', 'auto_create', 'observe_mutations')
                 if n in worlds4.OWN.get(c, []) or n in ('doc', 'serializer', 'deserializer') or (n == 'required' and c not in self.GETTABLE)]
        names += ['info', 'meta', 'terms'] if self.p(.1) else []
        if x not in self.used and c not in self.CONT + ('Dictionary', 'Union'):
            names.append('name')
        n = self.ch(names)
        if n == 'warn' and c != 'Renamed':
            return
        self.do('put', x=x, n=n, v=I(3) if n in ('info', 'meta', 'terms') else self.value(c, n))

    def tag(self):
        if self.cls:
            tags = lambda: [[k, self.ch([I(1), S('a'), NONE])] for k in self.r.sample(['k', 'j', 'i'], self.ch([0, 1, 2]))]
            self.do('tag', x=self.ch(list(self.cls)), bad=self.ch([''] * 8 + ['two', 'bad']), d=tags(), kw=tags())

    def class_(self):
        xs = self.free(lambda c: c != 'Renamed')
        if not xs:
            return
        xs = self.r.sample(xs, min(len(xs), self.ch([1, 1, 2, 3])))
        names = self.r.sample(['n', 'm', 'q'], len(xs))
        attrs = [[n, x] for n, x in zip(names, xs)]
        c = 'K%d' % len(self.classes)
        self.classes[c] = attrs
        self.used.update(xs)
        self.do('class', c=c, attrs=attrs)

    def use(self):
        cs = [c for c, attrs in self.classes.items() if not any(x in self.unsure for _, x in attrs)]
        if cs:
            self.do('use', c=self.ch(cs))

    def dyn(self):
        xs = self.free(lambda c: c not in ('Dyn',))
        if xs:
            x = self.ch(xs)
            self.n += 1
            y = 'p%d' % self.n
            e = self.do('dyn', x=x, y=y, fn=self.ch([['fn', 'get1']] * 5 + [['fn', 'oth1'], ['fn', 'get2'], ['fn', 'get0'], I(3)]))
            if e['res']['ok']:
                self.cls[y] = 'Dyn'
                self.used.add(x)

    def access(self):
        xs = [x for x, c in self.cls.items() if c == 'Dyn' and x not in self.used]
        if xs:
            self.do('access', x=self.ch(xs), n=self.ch(['set_func', 'del_func']), fn=self.ch([['fn', f] for f in ('get1', 'get2', 'oth1', 'oth2', 'get0')] + [I(3)]))

    def validate(self):
        xs = [x for x, c in self.cls.items() if c not in ('Dyn', 'Uuid', 'Renamed') and x not in self.unsure]
        if not xs:
            return
        x = self.ch(xs)
        if any(self.cls[y] in ('Set', 'Dictionary', 'Array') + self.VECS for y in self.used):
            return
        v = self.any()
        p = self.w.objs[x]
        if not self.odd(self.cls[x], v, [('coerce', B(True))]) and v[0] != 'd':
            self.do('validate', x=x, v=v)


def c26(seed, sid):
    d = DeclDriver(seed, sid)
    ops = [k for k, n in sorted(dict(decl=14, put=5, tag=2, class_=2, use=2, dyn=1, access=2, validate=3).items()) for _ in range(n)]
    for _ in range(30):
        getattr(d, d.ch(ops))()
    return d.w
