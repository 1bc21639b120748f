"""More session generators: observed containers, links, unions, arrays, documentation, filtering."""
import json
import random

from . import drivers, gen, hp
from .drivers import Graph, Lattice, Machine, clone, fits, first, mutation, nudge, setup_insts
from .gen import COLORS, WORDS, Gen, body_prop, klass, uniq, uniqpairs
from .hp import P, Session
from .terms import B, D, DT, F, H, I, L, N, S, SE, TU, UND


# -----------------------------------------------------------------------------
# observed containers
class Observed(Machine):
    """clients that hold on to observed containers"""

    def prop(self, kinds=None):
        g = self.g
        if g.p(.7):
            k = g.ch(['list', 'list', 'set', 'dict'])
            el = lambda hash_=False: clone(g.desc(0, kinds=('int', 'int', 'float', 'str', 'choice', 'bool') + (('inst',) if g.icls and not hash_ else ()),
                                                  elem='hash' if hash_ else True), dflt=UND)
            if k == 'dict':
                d = P('dict', kprop=el(True), vprop=el(), obs=True, coerce=g.p(.2))
            else:
                d = P(k, prop=el(k == 'set'), obs=True, coerce=g.p(.2))
                if g.p(.25):
                    d['maxl'] = 2
            if g.p(.3):
                d['dflt'] = ['call', {'list': L(), 'set': SE(), 'dict': D()}[k]]
            d['req'] = g.p(.3)
            return d
        return Machine.prop(self, ('int', 'str', 'list'))

    def oper(self):
        if not self.grabs or len(self.grabs) > 8:
            return
        g = self.g
        x, d = g.ch(self.grabs)
        y = 'k%d' % len(self.grabs)
        k = d['k']
        if k == 'list':
            m = g.ch(['copy', '__add__', '__add__', '__radd__', '__mul__', '__rmul__'])
            a = [] if m == 'copy' else [I(g.ch([0, 1, 2]))] if 'mul' in m else [g.ch([plain, plain, plain, TU, lambda *_: I(3)])(*self.items(d))]
            if m == '__radd__' and a[0][0] != 'l':
                a = [L(*self.items(d))]
        elif k == 'set':
            m = g.ch(['copy', 'union', 'intersection', 'difference', 'symmetric_difference', '__or__', '__ror__', '__and__', '__rand__',
                      '__xor__', '__rxor__', '__sub__', '__rsub__'])
            xs = uniq([hv(g, d['prop']) for _ in range(g.r.randrange(3))])
            a = [] if m == 'copy' else [SE(*xs)] if m.startswith('__') and g.p(.9) else [g.ch([SE, L, TU])(*xs)] if not m.startswith('__') else [I(3)]
        else:
            m = g.ch(['copy', '__or__', '__ror__'])
            ps = uniqpairs([[hv(g, d['kprop']), g.value(d['vprop'], .2)] for _ in range(g.r.randrange(3))])
            a = [] if m == 'copy' else [D(*ps)]
        e = self.s.do('oper', x=x, m=m, args=a, y=y)
        if e['res']['ok']:
            self.grabs.append((y, d))

    def items(self, d):
        return [self.g.value(d['prop'], .2) for _ in range(self.g.r.randrange(3))]

    def move(self):
        """assign a container that is already stored somewhere (again)"""
        g = self.g
        h, c = g.ch(self.objs)
        ns = [n for n, d in self.props[c] if d['k'] in ('list', 'set', 'dict') and d['obs'] and self.s.last.get(h, {'v': {}})['v'].get(n)]
        if ns:
            n = g.ch(ns)
            v = json.loads(json.dumps(self.s.last[h]['v'][n]))
            if isinstance(v[1], str):
                v[1] = v[1].replace('obs:', '')
            h2, c2 = g.ch(self.objs)
            n2 = n if n in dict(self.props[c2]) else g.ch(self.props[c2])[0]
            self.s.do('set', h=h2, n=n2, v=v)


def plain(*xs):
    return L(*xs)


def hv(g, d):
    from .gen import hashable_
    v = g.value(d, .2)
    return v if hashable_(v) else I(1)


def c14(seed, sid):
    m = Observed(seed, sid, ['ok', 'kind', 'value', 'heap', 'cont', 'fires', 'undefined'], nprops=3, nlis=2, raises=.25, insts=seed % 2, cvs=.1,
                 defaults=.4, sub=.3, required=.3).setup()
    return m.run(dict(set=6, grab=6, mutate=16, aug=5, oper=5, dele=1, reset=1, listen=2, new=1, move=2, enter=1, leave=1), 44)


# -----------------------------------------------------------------------------
# links
class Linked(Machine):

    def setup(self):
        g = self.g
        n = g.ch([2, 3])
        kinds = ('int', 'int', 'int', 'float', 'str', 'list', 'bool')
        self.opt['kinds'] = kinds
        self.define('A', ['Root'], {})
        if g.p(.4):
            self.define('B', ['A'], dict(self.props['A']))
        for _ in range(n):
            self.new()
        self.tr = []
        if g.p(.4):
            for _ in range(g.ch([1, 2])):
                e = self.s.do('mktrait')
                if e['res']['ok']:
                    self.tr.append(first(e))
        return self

    def prop(self, kinds=None):
        g = self.g
        if g.p(.6):
            d = P('int', req=g.p(.3))
            if g.p(.3):
                d['max'] = I(g.ch([2, 4]))
            if g.p(.5):
                d['dflt'] = ['val', I(g.ch([0, 1, 2]))]
            return d
        return Machine.prop(self, kinds)

    def ends(self):
        out = [(h, n, d) for h, c in self.objs for n, d in self.props[c]]
        return out + [(h, n, P('int')) for h in self.tr for n in ('a', 'b')]

    def end(self):
        g = self.g
        es = self.ends()
        ints = [e for e in es if e[2]['k'] == 'int']
        return g.ch(ints if ints and g.p(.8) else es) if es else ('nobody', 'p0', P('int'))

    def link(self):
        g = self.g
        if self.nlinks > 8:
            return
        bad = g.p(.08)
        chg = g.p(.6)
        if g.p(.3):
            k = g.ch([2, 2, 3]) if self.nlinks <= 4 else 2
            es = [self.end() for _ in range(k)]
            items = [[e[0], e[1]] for e in es]
            if bad:
                items[g.r.randrange(k)] = self.baditem()
            ls = []
            for i in range(k):
                for j in range(k):
                    if i != j:
                        ls.append(['K%d' % self.nlinks, items[i], items[j]])
                        self.nlinks += 1
            e = self.s.do('links', ls=ls, now=g.p(.3), chg=chg, tr='id', sym=items)
            if e['res']['ok']:
                self.ks.append([l[0] for l in ls])
            return
        a, b = self.end(), self.end()
        a, b = [a[0], a[1]], [b[0], b[1]]
        if bad:
            if g.p(.5):
                a = self.baditem()
            else:
                b = self.baditem()
        k = 'K%d' % self.nlinks
        self.nlinks += 1
        e = self.s.do('links', ls=[[k, a, b]], now=g.p(.3), chg=chg, tr=g.ch(['id', 'id', 'id', 'neg', 'inc', 'const']))
        if e['res']['ok']:
            self.ks.append([k])

    def baditem(self):
        g = self.g
        return g.ch([['nobody', 'p0'], [g.ch(self.objs)[0] if self.objs else 'nobody', 'nope'], [self.tr[0], 'zz'] if self.tr else ['nobody', 'a']])

    def unlink(self):
        if self.ks:
            self.s.do('unlink', ks=self.g.ch(self.ks))

    def relink(self):
        if self.ks:
            self.s.do('relink', ks=self.g.ch(self.ks))

    def setend(self):
        g = self.g
        h, n, d = self.end()
        if h in self.tr:
            self.s.do('set', h=h, n=n, v=g.ch([I(0), I(1), I(2), I(3), I(-1), I(1), S('x'), F(1), N()]))
        else:
            self.s.do('set', h=h, n=n, v=UND if g.p(.03) else g.ch([I(0), I(1), I(2), I(3), I(5), I(-1)]) if d['k'] == 'int' and g.p(.9) else g.value(d, .1))


def c15(seed, sid):
    m = Linked(seed, sid, ['ok', 'kind', 'heap', 'fires', 'undefined'], nprops=3, nlis=seed % 3, raises=.2, insts=0, cvs=0, obs=.6, nested=.2)
    m.ks = []
    m.setup()
    for _ in range(3):
        m.link()
    return m.run(dict(link=4, setend=16, set=2, unlink=2, relink=2, reset=1, dele=0, enter=1, leave=2, grab=1, mutate=1), 34)


# -----------------------------------------------------------------------------
# unions
def c19(seed, sid):
    """unions of many alternatives"""
    g = Gen(seed)
    g.nan = False
    g.cexact = True
    g.stable = True
    g.nolen = True
    s = Session(sid, ['ok', 'kind', 'value', 'heap', 'undefined'])
    setup_insts(g, s)
    kinds = ('bool', 'int', 'float', 'str', 'choice', 'datetime', 'color', 'tuple', 'list', 'set', 'dict', 'inst', 'url') + tuple(([], ['complex'], ['vec3', 'vec2'])[seed % 3])
    ps = []
    for i in range(3):
        alts = []
        for _ in range(g.ch([2, 2, 3, 4])):
            a = g.desc(g.ch([0, 1, 1]), kinds=kinds, elem=True)
            if a['k'] != 'inst' and g.p(.2):
                a['dflt'] = g.default(a)
            if not any(crossing(a, b) for b in alts):
                alts.append(a)
        if len(alts) < 2:
            alts.append(g.scalar('str'))
        if g.p(.15):
            a = P('union', props=[g.scalar('int'), g.scalar('str')])
            if not any(crossing(a, b) for b in alts):
                alts.append(a)
        d = P('union', props=alts, req=g.p(.3), strict=g.p(.3))
        if g.p(.3):
            d['dflt'] = g.default(g.ch(alts))
        x = g.r.random()
        if x < .15:
            d = P('list', prop=clone(d, dflt=UND), req=False, obs=g.p(.5))
        elif x < .25:
            d = P('dict', kprop=P('str'), vprop=clone(d, dflt=UND), req=False)
        ps.append(('p%d' % i, d))
    s.do('defclass', d=klass('A', [body_prop(n, d) for n, d in ps]))
    e = s.do('new', c='A', kw=[])
    objs = []
    if e['res']['ok']:
        objs.append(first(e))
    e = s.do('new', c='A', kw=[[n, g.value(d, .1)] for n, d in ps])
    if e['res']['ok']:
        objs.append(first(e))
    if not objs:
        return s
    u = Unions(g, s, ps, objs)
    u.noser = seed % 3 == 1
    u.vecs = seed % 3 == 2
    for _ in range(26):
        u.step()
    return s


def crossing(a, b):
    """a stored value of one alternative is coerced by the other to something else: which one holds it is ambiguous"""
    vec = ('vec3', 'vec2', 'array')
    seq = ('color', 'tuple', 'list', 'set', 'dict', 'bool', 'int', 'float', 'complex', 'union')
    return (a['k'] in vec and b['k'] in seq or b['k'] in vec and a['k'] in seq
            or casting(a) and b['k'] in ('tuple', 'list', 'set') or casting(b) and a['k'] in ('tuple', 'list', 'set')
            or a['k'] in TEXTY and altered(b) or b['k'] in TEXTY and altered(a))


TEXTY = ('color', 'tuple', 'list', 'set')


def casting(d):
    return d['k'] in ('bool', 'int', 'float', 'complex') and d['cast']


def altered(d):
    """stores text other than the text it was given"""
    return (d['k'] == 'choice' and (not d['cs'] or any(c[1] for c in d['choices']))
            or d['k'] in ('str', 'url') and (d['ccase'] != 'unchanged' or d['strip'] != '')
            or d['k'] == 'union' and any(altered(x) for x in d['props']))


class Unions(Machine):
    """operations on objects with union properties"""

    def __init__(self, g, s, ps, objs):
        self.g, self.s = g, s
        self.props = {'A': ps}
        self.spec = {}
        self.objs = [(h, 'A') for h in objs]
        self.opt = {}

    def step(self):
        g, s = self.g, self.s
        h = g.ch(self.objs)[0]
        n, d = g.ch(self.props['A'])
        x = g.r.random()
        if x < .55:
            s.do('set', h=h, n=n, v=g.value(d, .35))
        elif x < .6:
            s.do('reset', h=h, n=n)
        elif x < .65:
            s.do('del', h=h, n=n)
        elif x < .72:
            s.do('validate', h=h)
        elif x < .8 and len(self.objs) > 1:
            a, b = g.r.sample(self.objs, 2)
            n, d = g.ch(self.props['A'])
            v = g.good(d, 0)
            s.do('set', h=a[0], n=n, v=v)
            s.do('set', h=b[0], n=n, v=nudge(g, v) if g.p(.5) and not self.vecs else v)
            self.settled() and s.do('equal', a=H(a[0]), b=H(b[0]))
        elif x < .9:
            self.settled() and self.deser()
        else:
            if self.settled():
                e = s.do('ser', h=h, ic=g.p(.6), dyn=False)
                if e['res']['ok']:
                    e = s.do('deser', c='A', v=e['res']['v'], tr=g.p(.5), strict=g.p(.2), av=g.p(.3))
                    if e['res']['ok']:
                        k = first(e)
                        if len(self.objs) < 5:
                            self.objs.append((k, 'A'))

    def settled(self):
        return not self.noser and not self.ambiguous()


# -----------------------------------------------------------------------------
# arrays and vectors
def c20(seed, sid):
    g = Gen(seed)
    g.cexact = g.zerod = g.nearvec = True
    g.evenvec = False
    s = Session(sid, ['ok', 'kind', 'value', 'heap', 'args', 'undefined'])
    ps = []
    for i in range(4):
        d = g.vec()
        d['req'] = False
        if g.p(.15):
            d = P('list', prop=d, req=False)
        elif g.p(.1) and d['shape']:
            d = P('union', props=[g.scalar('int'), d], req=False)
        ps.append(('p%d' % i, d))
    s.do('defclass', d=klass('A', [body_prop(n, d) for n, d in ps]))
    objs = [first(s.do('new', c='A', kw=[])) for _ in range(2)]
    a, b = objs
    for _ in range(22):
        n, d = g.ch(ps)
        x = g.r.random()
        if x < .5:
            s.do('set', h=a, n=n, v=g.value(d, .4), poison=d)
        elif x < .65:
            v = g.good(d)
            if d['k'] in ('list', 'union') or d['length'] != N():
                s.do('set', h=a, n=n, v=v)
                s.do('set', h=b, n=n, v=v)
            else:
                s.do('set', h=a, n=n, v=v)
                s.do('set', h=b, n=n, v=anudge(g, v) if g.p(.7) else g.good(d))
            if comparable(s, a, b):
                s.do('equal', a=H(a), b=H(b))
                s.do('equal', a=H(b), b=H(a))
            s.do('set', h=b, n=n, v=UND)
            s.do('set', h=a, n=n, v=UND)
        elif x < .7:
            s.do('validate', h=a)
        elif x < .75:
            s.do('get', h=a, n=n)
        elif exact(s, a):
            e = s.do('ser', h=a, ic=True, dyn=False)
            if e['res']['ok']:
                v = json.loads(json.dumps(e['res']['v']))
                if g.p(.35):
                    adamage(g, v, [n_ for n_, d_ in ps if 'bool' in str(d_)])
                e = s.do('deser', c='A', v=v, tr=False, strict=False, av=g.p(.2))
                if e['res']['ok']:
                    k = first(e)
                    s.do('equal', a=H(a), b=H(k))
                    if exact(s, k):
                        s.do('ser', h=k, ic=True, dyn=False)
    return s


def elems(v):
    if isinstance(v, list) and v and v[0] == 'a':
        yield v
    elif isinstance(v, list):
        for x in v:
            for y in elems(x):
                yield y


def comparable(s, *hs):
    """no irrational components (scaled vectors)"""
    return all(exact(s, h) for h in hs)


def exact(s, h):
    return not any(x[0] in ('fx', 'anyf') or (x[0] == 'c' and x[1][0] != 'f') or (x[0] == 'f' and x[2] not in OKOFF)
                   for v in s.last.get(h, {'v': {}})['v'].values() for a in elems(v) for x in a[4])


OKOFF = (0, 4, -4, 9, -9, 11, -11, 20, -20, 100, 3000)


def anudge(g, v):
    """nearly the same array"""
    if v[0] in ('i', 'f') and g.p(.4):
        if v[0] == 'i' or abs(v[2]) > 5:
            return v
        return ['f', v[1], v[2] + g.ch([0, 4, -4])] if g.p(.8) else ['f', v[1] + 1, 0]
    if v[0] in ('l', 't'):
        return [v[0], v[1], [anudge(g, x) for x in v[2]]]
    if v[0] == 'a' and v[2] == 'f':
        return v[:4] + [[anudge(g, x) for x in v[4]]]
    return v


def adamage(g, v, skip):
    """damage serialized arrays"""
    for q in v[2]:
        if q[0] != S('__class__') and q[0][1] not in skip and q[1][0] == 'l' and g.p(.6):
            xs = q[1][2]
            x = g.r.random()
            if x < .25 and xs:
                xs.pop()
            elif x < .5:
                xs.append(g.ch([I(1), S('a'), S('nan'), S('inf'), L(I(1), I(2))]))
            elif x < .75 and xs and xs[0][0] == 'l':
                xs[0][2].append(g.ch([I(1), S('-inf')]))
            else:
                q[1] = g.ch([I(1), S('east'), L(), L(L(I(1)), L(I(2)))])


# -----------------------------------------------------------------------------
# documentation
class Documented(Lattice):

    def setup(self):
        self.ordered = {}
        return Lattice.setup(self)

    def docs(self, kw, look):
        g = self.g
        kw['doc'] = g.ch(['A class', '', 'Text of a class.', 'Two\n\nparts'])
        names = [n for n, e in look.items() if e[0] == 'prop']
        priv = [n for n in names if n.startswith('_')]
        pub = [n for n in names if not n.startswith('_')]
        x = g.r.random()
        if x < .35:
            kw['docpriv'] = ['flag', g.p(.6)]
        y = g.r.random()
        if y < .3:
            o = list(names if g.p(.5) else pub)
            g.r.shuffle(o)
            kw['docord'] = ['list', o]
        elif y < .4:
            kw['docord'] = ['none']
        elif y < .5:
            o = list(pub)
            g.r.shuffle(o)
            z = g.r.random()
            if z < .3 and o:
                o.append(o[0])
            elif z < .6:
                o.append('nope')
            elif o:
                o.pop()
            kw['docord'] = ['list', o]

    def prop(self, kinds=None):
        g = self.g
        x = g.r.random()
        if x < .3:
            k = g.ch(['list', 'set', 'tuple', 'dict', 'union'])
            if k == 'dict':
                d = P('dict', kprop=g.scalar('str'), vprop=g.scalar(g.ch(['int', 'float', 'bool'])), coerce=g.p(.3))
            elif k == 'union':
                d = P('union', props=[g.scalar('int'), g.scalar(g.ch(['str', 'float', 'choice'])), P('list', prop=g.scalar('int'))][:g.ch([2, 3])])
            else:
                d = P(k, prop=g.scalar(g.ch(['int', 'str', 'choice', 'float', 'bool'])), coerce=g.p(.3))
                if g.p(.4):
                    d['minl'] = 1
                if g.p(.4):
                    d['maxl'] = 3
        elif x < .42:
            d = g.vec()
        elif x < .5 and g.icls:
            d = P('inst', cls=g.ch(g.icls)[0])
        else:
            d = g.scalar()
        d['req'] = g.p(.5)
        if g.p(.4):
            d['dflt'] = g.default(d)
        return d


def c22(seed, sid):
    m = Documented(seed, sid, ['ok', 'kind', 'value', 'undefined'], nlis=1, nested=0, cdfl=.15, newreg=0, doc=1, spoil=.05, raises=0)
    m.g.nan = False
    m.g.docsafe = True
    setup_insts(m.g, m.s, 1)
    m.setup_names = None
    m.g.r.random()
    Documented.setup(m)
    return m.run(dict(derive=8, doctext=1, named=1), 10)


# -----------------------------------------------------------------------------
# filtering
def c25(seed, sid):
    m = Lattice(seed, sid, ['ok', 'kind', 'value', 'args', 'undefined'], raises=0, nlis=0, nested=0, cdfl=0, newreg=0, doc=0, spoil=0,
                kinds=('int', 'str', 'list', 'bool', 'float'), defaults=.3, required=.3, sprob=.3)
    m.setup()
    g = m.g
    for _ in range(14):
        if g.p(.2):
            m.derive()
            continue
        cs = [c for c in m.cids]
        if not cs:
            continue
        c = g.ch(cs)
        names = [n for n, d in m.props[c]] + [n for n, d in m.spec.get(c, [])]
        keys = []
        for _ in range(g.r.randrange(6)):
            x = g.r.random()
            if x < .6 and names:
                keys.append(S(g.ch(names)))
            elif x < .9:
                keys.append(S(g.ch(m.names + m.lnames + ['rn', 'zz', '__class__', 'name', '', '_props', '_backend', 'validate', 'serialize'])))
            else:
                keys.append(g.ch([I(1), N(), TU(S('p0')), B(True)]))
        keys = uniq(keys)
        v = D(*[(k, g.ch([I(g.int_()), S('a'), N(), L(I(1)), UND])) for k in keys])
        kw = dict(c=c, v=v, imm=g.p(.5))
        insts = [h for h, k in m.objs if k == c]
        if insts and g.p(.5):
            kw['inst'] = g.ch(insts)
        if kw['imm'] is True and g.p(.3):
            kw['dflt'] = True
        m.s.do('filter', **kw)
    return m.s


# -----------------------------------------------------------------------------
# property types defined by the user of the library
OWN = ('c02', 'c04', 'c07', 'c08', 'c09', 'c11', 'c12', 'c14', 'c15', 'c25', 'c03', 'c10', 'c13', 'c22')


def c27(seed, sid):
    """sessions of the other drivers in which text properties are of a type defined by the client"""
    name = OWN[seed % len(OWN)]
    gen.Gen.own = True
    try:
        return (globals().get(name) or getattr(drivers, name))(seed, sid)
    finally:
        gen.Gen.own = False


def c28(seed, sid):
    """saving, loading and copying with further options"""
    gen.Gen.own = True
    hp.Session.options = random.Random(seed)
    try:
        s = (drivers.c09 if seed % 3 else drivers.c10)(seed, sid)
        s.scope = ['ok', 'kind', 'value', 'heap', 'args', 'undefined']
        return s
    finally:
        gen.Gen.own = False
        hp.Session.options = None
