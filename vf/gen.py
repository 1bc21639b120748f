"""Random property descriptors, values, listener programs and classes.

Everything is drawn from one random.Random, so a seed determines a session.
Behaviour the specification leaves open is not generated (see DESIGN.md).
"""
import random

from .hp import P
from .terms import B, D, DT, F, H, I, L, N, S, SE, TU, UND

SCALARS = ('bool', 'int', 'float', 'complex', 'str', 'url', 'choice', 'color', 'datetime', 'prop')
CONTS = ('tuple', 'list', 'set', 'dict')
VECS = ('array', 'vec3', 'vec2', 'vec3a', 'vec2a')
WORDS = ['', 'a', 'b', 'ab', 'aB', 'Ab', 'AB', ' ab ', '-a-', 'abc', 'b1', '12', 'yes', 'x y', 'ba', 'xbx', 'A', 'Mid']
URLS = ['http://a.b/c?d=1#e', 'https://a.b', 'http://a.b/p;q=1?x=2#f', 'ftp://h/x', 'mailto:a@b', '//a.b/c', 'abc', '', 'http://',
        'http:///p', 'HTTP://A.B/C', 'http://h?q', 'http://h#f', 'x://y/z?w#v', 'http:/a', '1x://y', 'https://h/p?a=1&b=2']
COLORS = ['red', 'Red', 'RED', 'k', 'w', 'firebrick', 'rebeccapurple', '#fff', 'fff', '#12ab9F', 'abcdef', '#12345', 'ggg', 'random',
          'Random', '', '#', '##fff', 'c', 'xyz', 'lightgoldenrodyellow', '00000', 'gray', 'grey', 'transparent']
DATES = ['2020/02/29', '2021/02/29', '2020-02-29', '2020-01-31T23:59:59Z', '2020-01-31T24:00:00Z', '2020/1', '1999/12/31', '2000-13-01',
         '2020-01-31 23:59:59', '2020/01/31T00:00:00Z', 'abc', '', '2016-02-30', '1900/02/29', '2000/02/29', '2020-01-31T23:60:59Z']
NUMTEXT = ['3', '-2', ' 4 ', '3.0', '2.5', '-0.5', 'nan', 'inf', '-inf', '', 'abc', '1 2', '+7', '1j', '(1+2j)', '2-3j', '0']
OFFS = [0, 0, 0, 4, -4, 9, -9, 11, -11, 20, -20, 100, 3000]


def hascomplex(d):
    return d['k'] == 'complex' or any(hascomplex(x) for x in d.get('props') or []) or any(isinstance(d.get(x), dict) and hascomplex(d[x]) for x in ('prop', 'kprop', 'vprop'))


def exact(v):
    """the value with no offsets of floats"""
    if not isinstance(v, list):
        return v
    return v[:2] + [0] if v and v[0] in ('f', 'npf') and len(v) == 3 else [exact(x) for x in v]


class Gen(object):
    """source of random test data"""

    own = False           # property types defined by the user of the library

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.insts = {}       # class id -> handles usable as instances
        self.icls = []        # classes usable in instance properties: (cid, [(name, descriptor)])
        self.nan = True
        self.nones = False
        self.sure = False     # only values that are certainly acceptable
        self.cexact = False   # no small offsets in complex numbers
        self.nolen = False    # no vector properties with a length
        self.stable = False   # no pattern together with strip or change_case
        self.arrays = False   # arrays and huge numbers among arbitrary values

    def ch(self, xs):
        return self.r.choice(list(xs))

    def p(self, x):
        return self.r.random() < x

    # -- numbers
    def offf(self, k):
        """k + a small offset"""
        return ['f', int(k * 1024), self.ch(OFFS)]

    def int_(self):
        return self.r.choice([-3, -2, -1, 0, 0, 1, 1, 2, 3, 4, 5, 7, 10, 12])

    def numtext(self):
        return self.ch(NUMTEXT if self.nan else [t for t in NUMTEXT if t != 'nan'])

    def num(self):
        x = self.r.random()
        if x < .4:
            return I(self.int_())
        if x < .7:
            return self.offf(self.int_())
        if x < .8:
            return self.offf(self.int_() + self.ch([.5, .25, -.5]))
        if x < .85:
            return B(self.p(.5))
        if x < .9:
            return ['npi', self.int_()]
        if x < .94:
            return ['npf'] + self.offf(self.int_())[1:]
        if x < .97:
            return ['inf', self.ch([1, -1])]
        return ['nan'] if self.nan else I(0)

    def junk(self):
        """any value"""
        x = self.r.randrange(26)
        if x < 6:
            return self.num()
        if x < 9:
            return S(self.ch(WORDS + [self.numtext()]))
        if x == 9:
            return S(self.ch(URLS))
        if x == 10:
            return S(self.ch(COLORS))
        if x == 11:
            return S(self.ch(DATES))
        if x == 12:
            return L(*[I(self.int_()) for _ in range(self.r.randrange(4))], cls=self.ch(['list', 'list', 'MyList']))
        if x == 13:
            return TU(*[I(self.int_()) for _ in range(self.r.randrange(4))], cls=self.ch(['tuple', 'tuple', 'MyTuple']))
        if x == 14:
            return SE(*[I(k) for k in self.r.sample([0, 1, 2, 3], self.r.randrange(4))], cls=self.ch(['set', 'set', 'MySet']))
        if x == 15:
            return D(*[(S(k), I(self.int_())) for k in self.r.sample(['a', 'b', 'c'], self.r.randrange(3))], cls=self.ch(['dict', 'dict', 'MyDict']))
        if x == 16:
            return ['o', self.ch(['o1', 'o2'])]
        if x == 17:
            return ['c', F(self.int_()), F(self.int_())]
        if x == 18:
            return ['by', 'ab'] if self.arrays else S('ab')
        if x == 19:
            return DT(2020, 2, self.r.randrange(1, 29), self.r.randrange(24))
        if x == 20 and self.arrays:
            return ['uuid', '12345678-1234-1234-1234-1234567890a' + self.ch('bc')]
        if x == 21:
            return ['npb', self.p(.5)]
        if x == 22 and self.arrays:
            return ['a', 'ndarray', 'i', [2], [I(1), I(self.int_())]]
        if x == 23 and self.arrays:
            return ['I', self.ch([1, -1]), '1' + '0' * self.ch([12, 20, 400])]
        if x == 24 and any(self.insts.values()):
            return H(self.ch([h for hs in self.insts.values() for h in hs]))
        return S('zz')

    # -- descriptors
    def scalar(self, k=None):
        k = k or self.ch(SCALARS)
        if self.own and k in ('str', 'choice', 'url', 'color') and self.p(.75):
            return P('own')
        kw = {}
        if k == 'bool':
            kw['cast'] = self.p(.3)
        elif k in ('int', 'float'):
            kw['cast'] = self.p(.3)
            a, b = sorted([self.int_(), self.int_()])
            mk = I if k == 'int' or self.p(.3) else (lambda n: F(n + self.ch([0, .5])))
            if self.p(.4):
                kw['min'] = mk(a)
            if self.p(.4):
                kw['max'] = mk(b) if 'min' not in kw else (I(b + 1))
        elif k == 'complex':
            kw['cast'] = self.p(.3)
        elif k in ('str', 'url'):
            if self.p(.4) and k == 'str':
                kw['regex'] = self.ch([['has', 'b'], ['pre', 'a'], ['full', 'ab'], ['one', 'b1'], ['has', 'ab'], ['full', 'abAB']])
            if self.p(.3):
                kw['strip'] = self.ch([' ', '-', ' -', 'a'])
            if self.p(.4) and k == 'str':
                kw['ccase'] = self.ch(['upper', 'lower'])
            if self.stable and 'regex' in kw:
                kw.pop('strip', None)
                kw.pop('ccase', None)
            if k == 'url':
                kw['rmp'] = self.p(.5)
                kw['rmf'] = self.p(.5)
        elif k == 'choice':
            kw['cs'] = self.p(.4)
            sets = [[['a', []], ['b', []]], [['AB', ['x', 'y']], ['Mid', ['ba']], ['c', []]], [['yes', ['Y', 'aB']], ['no', ['N']]],
                    [['a', []], ['b', []], ['zz', []]], [['x y', ['b1']], ['ab', []]]]
            kw['choices'] = self.ch(sets)
            if kw['cs'] and self.p(.3):
                kw['choices'] = [['a', ['x']], ['A', ['X']], ['Ab', ['aB']]]
            if self.p(.3):
                kw['descs'] = ['d%d' % i for i in range(len(kw['choices']))]
        return P(k, **kw)

    def desc(self, depth=2, kinds=None, obs=False, elem=False):
        """a random descriptor of a settable property"""
        kinds = kinds or (SCALARS + CONTS * 2 + (('inst',) * 3 if self.icls else ()))
        ks = [k for k in kinds if depth > 0 or (k not in CONTS and k != 'union')]
        if elem == 'hash':
            ks = [k for k in ks if k in ('bool', 'int', 'float', 'str', 'choice', 'complex', 'datetime', 'inst', 'tuple')] or ['int']
        elif elem:
            ks = [k for k in ks if k != 'prop'] or ['int']
        k = self.ch(ks)
        if k in ('tuple', 'list', 'set'):
            kw = dict(prop=self.desc(depth - 1, kinds, elem='hash' if k == 'set' or elem == 'hash' else True), coerce=self.p(.4))
            if self.p(.3):
                kw['minl'] = self.ch([0, 1, 2])
            if self.p(.3):
                kw['maxl'] = max(kw.get('minl', 0), self.ch([1, 2, 3]))
            kw['obs'] = k != 'tuple' and obs
            return P(k, **kw)
        if k == 'dict':
            return P('dict', kprop=self.desc(0, kinds, elem='hash') if self.p(.7) else P('str'),
                     vprop=self.desc(depth - 1, kinds, elem=True), coerce=self.p(.3), obs=obs)
        if k == 'inst':
            return P('inst', cls=self.ch(self.icls)[0])
        if k == 'union':
            n = self.ch([2, 2, 3])
            return P('union', props=[self.desc(depth - 1, kinds, elem=True) for _ in range(n)])
        if k in VECS:
            return self.vec(k)
        return self.scalar(k)

    def vec(self, k=None):
        k = k or self.ch(VECS)
        kw = {'coerce': self.p(.8)}
        if k == 'array':
            kw['dtype'] = self.ch([['float', 'int'], ['float'], ['int'], ['bool'], ['complex'], ['int', 'float'], ['float', 'complex']])
            kw['shape'] = self.ch([[[-1]], [[-1]], [[3]], [[-1, 2]], [[2, 2]], [[-1], [-1, 3]], [[2], [2, 2]], [], [[2, -1, 2]], [[-1, -1]]])
        else:
            if self.p(.4) and not self.nolen:
                kw['length'] = self.ch([F(1), F(5), F(2), F(.5)])
            if k in ('vec3a', 'vec2a') and self.p(.2):
                kw['shape'] = [[2, 3 if k == 'vec3a' else 2]]
        return P(k, **kw)

    # -- values
    def value(self, d, bad=.3):
        """a value to assign to d: usually acceptable, sometimes not"""
        if self.p(bad):
            v = self.near(d) if self.p(.5) else self.junk()
        else:
            v = self.good(d, bad)
        return exact(v) if self.cexact and hascomplex(d) else v

    def near(self, d):
        """a value close to the boundary of acceptance"""
        k = d['k']
        if k in ('int', 'float'):
            bs = [d[b] for b in ('min', 'max') if d[b] != N()]
            if bs:
                b = self.ch(bs)
                n = b[1] * 1024 if b[0] == 'i' else b[1]
                return ['f', n, self.ch([0, 4, -4, 9, -9, 11, -11, 300, -300])]
            return self.num()
        if k == 'complex':
            return S(self.ch([t for t in NUMTEXT if 'n' not in t]))
        if k == 'str' or k == 'choice':
            return S(self.ch(WORDS))
        if k == 'own':
            return self.ch([S(self.ch(WORDS)), I(9), I(10), I(-1), S('aBcD'), F(1), B(True)])
        if k == 'url':
            return S(self.ch(URLS))
        if k == 'color':
            return self.ch([S(self.ch(COLORS)), TU(I(0), I(255), I(256)), TU(I(-1), I(0), I(0)), L(I(0), I(0)), L(F(1), I(2), I(3)),
                            TU(B(True), I(0), I(0)), TU(S('1'), I(0), I(0)), TU(I(255), I(255), I(255), I(255))])
        if k == 'datetime':
            return S(self.ch(DATES))
        if k in CONTS:
            g = self.good(d, 0)
            if g[0] not in 'ltSd':
                return g
            if self.p(.4):
                return self.reclass(g)
            return self.damage(d, g)
        if k == 'inst':
            g = self.kwdict(d['cls'], 0)
            x = self.r.random()
            if x < .3:
                return D(*(g[2] + [[S('nope'), I(1)]]))
            if x < .6:
                c = dict(self.icls)[d['cls']]
                if c:
                    n, dd = self.ch(c)
                    return D(*([q for q in g[2] if q[0] != S(n)] + [[S(n), self.near(dd)]]))
            if x < .7:
                return D([I(1), I(2)])
            return self.junk()
        if k == 'union':
            return self.near(self.ch(d['props']))
        if k in VECS:
            return self.vecval(d, True)
        return self.junk()

    def reclass(self, g):
        """the same elements in another kind of container"""
        if g[0] not in 'ltSd':
            return g
        if g[0] == 'd':
            return self.ch([L(*[TU(a, b) for a, b in g[2]]), ['d', 'MyDict', g[2]]] + ([] if self.sure else [L(*[a for a, b in g[2]])]))
        xs = g[2]
        hashable = all(hashable_(x) for x in xs)
        opts = [L(*xs), TU(*xs), L(*xs, cls='MyList'), TU(*xs, cls='MyTuple')]
        if hashable:
            u = uniq(xs)
            opts += [SE(*u), SE(*u, cls='MySet')]
        if len(xs) == 1 and xs[0][0] not in 'altSd':
            opts.append(xs[0])
        return self.ch(opts)

    def damage(self, d, g):
        """make one element of a container unacceptable (perhaps)"""
        if d['k'] not in ('list', 'set', 'tuple', 'dict') or (d['k'] == 'dict') != (g[0] == 'd'):
            return self.junk()
        xs = [list(q) if g[0] == 'd' else q for q in g[2]]
        if g[0] == 'd':
            if xs and self.p(.5):
                i = self.r.randrange(len(xs))
                xs[i][1] = self.near(d['vprop'])
            else:
                xs.append([self.ch([S('kk'), I(77)]), self.near(d['vprop'])])
            return [g[0], g[1], uniqpairs(xs)]
        bad = self.near(d['prop'] if d['k'] != 'dict' else d['vprop'])
        if g[0] == 'S' and not hashable_(bad):
            bad = S('zz')
        if self.nones and self.p(.2) and d['k'] != 'dict' and d['prop']['k'] in ('int', 'float', 'str', 'bool', 'inst'):
            bad = N()
        xs.insert(self.r.randrange(len(xs) + 1), bad)
        return [g[0], g[1], uniq(xs) if g[0] == 'S' else xs]

    def kwdict(self, cid, bad=0):
        c = dict(self.icls)[cid]
        ps = []
        for n, dd in c:
            if self.p(.7):
                ps.append([S(n), self.value(dd, bad)])
        self.r.shuffle(ps)
        return D(*ps)

    def good(self, d, bad=0):
        """a value that d accepts (nearly always)"""
        k = d['k']
        if k in ('prop', 'gettable'):
            return self.ch([I(self.int_()), S(self.ch(WORDS)), L(I(1)), B(True), ['o', 'o1'], self.offf(1)])
        if k == 'bool':
            return self.junk() if d['cast'] and self.p(.5) and not self.sure else B(self.p(.5))
        if k in ('int', 'float'):
            lo = -4 if d['min'] == N() else tonum(d['min'])
            hi = (lo + 6 if d['max'] == N() else tonum(d['max']))
            if d['min'] == N() and d['max'] != N():
                lo = hi - 6
            if d['cast'] and self.p(.2) and not self.sure:
                return S(self.numtext())
            nums = [n for n in range(int(lo) - 1, int(hi) + 2) if lo <= n <= hi] or [int(lo)]
            n = self.ch(nums)
            if k == 'int':
                return self.ch([I(n), I(n), ['f', n * 1024, 0], ['npi', n]] + ([['f', n * 1024, self.ch([4, -4, 9, -9])]] if lo < n < hi and not self.sure else []))
            if lo < n < hi:
                return self.ch([I(n), self.offf(n), self.offf(n + .25) if n + .25 < hi else I(n)])
            if not self.nan or d['min'] != N() or d['max'] != N():
                return I(n)
            return self.ch([I(n), I(n), ['inf', self.ch([1, -1])], ['nan']])
        if k == 'complex':
            if self.cexact:
                return self.ch([['c', F(self.int_()), F(self.int_() + .5)], I(self.int_())])
            return self.ch([['c', F(self.int_()), F(self.int_())], I(self.int_()), self.offf(2), ['c', self.offf(1), self.offf(2)]])
        if k == 'own':
            return self.ch([S(self.ch(['a', 'A', 'ab', 'Ab', 'aB', 'AB', 'abc', '', '3', 'q', 'qa', 'QA', 'Qa'])), S(self.ch(['ab', 'AB'])), I(3), I(0)])
        if k == 'str':
            return S(self.ch([w for w in WORDS if rx(d['regex'], w)]))
        if k == 'url':
            return S(self.ch(URLS[:4] + ['x://y/z?w#v']))
        if k == 'choice':
            c = self.ch(d['choices'])
            w = self.ch([c[0]] + c[1])
            return S(w if d['cs'] else self.ch([w, w.upper(), w.lower()]))
        if k == 'color':
            return self.ch([S(self.ch(['red', 'k', '#abc', 'aabbcc', 'navy'])), TU(I(1), I(2), I(self.ch([0, 255]))), L(I(0), I(0), I(9))])
        if k == 'datetime':
            return self.ch([DT(2020, 2, self.r.randrange(1, 29), 5, 6, 7), S('2020/02/29'), S('2020-01-31T23:59:59Z')])
        if k == 'uuid':
            return ['uuid', '12345678-1234-1234-1234-1234567890ab']
        if k in ('tuple', 'list', 'set'):
            lo = max(0, d['minl'])
            hi = d['maxl'] if d['maxl'] >= 0 else lo + 2
            n = self.r.randrange(lo, max(lo, min(hi, 3)) + 1)
            if self.p(.1) and not self.sure:
                n = self.r.randrange(4)
            xs = [self.good(d['prop'], bad) for _ in range(n)]
            if d['k'] == 'set':
                xs = uniq([x for x in xs if hashable_(x)])
            g = [{'tuple': 't', 'list': 'l', 'set': 'S'}[k], {'tuple': 'tuple', 'list': 'list', 'set': 'set'}[k], xs]
            if self.p(.2):
                g[1] = 'My' + g[1].capitalize()
            return self.reclass(g) if d['coerce'] and self.p(.4) else g
        if k == 'dict':
            ps = uniqpairs([[self.good(d['kprop'], bad), self.good(d['vprop'], bad)] for _ in range(self.r.randrange(3))])
            ps = [q for q in ps if hashable_(q[0])]
            g = ['d', self.ch(['dict', 'dict', 'MyDict']), ps]
            return self.reclass(g) if d['coerce'] and self.p(.3) else g
        if k == 'inst':
            hs = self.insts.get(d['cls'], [])
            if hs and self.p(.6):
                return H(self.ch(hs))
            return self.kwdict(d['cls'], bad)
        if k == 'union':
            return self.good(self.ch(d['props']), bad)
        if k in VECS:
            return self.vecval(d, False)
        return self.junk()

    docsafe = False
    zerod = False
    nearvec = False
    evenvec = True      # no components that differ by less than what equality of arrays tolerates

    def default(self, d):
        """a default specification for d"""
        spec = self.default_(d)
        if self.docsafe and spec[0] == 'val' and not printable(spec[1]):
            return ['call', spec[1]]
        return spec

    def default_(self, d):
        self.sure = True
        try:
            k = d['k']
            if k == 'inst':
                return ['cls', d['cls']] if self.p(.7) else ['undef']
            if uncoerced(d):
                return ['undef']
            if k == 'prop':
                return ['val', self.ch([I(1), S('a'), B(True)])]
            if k == 'union' and any(x['k'] == 'inst' for x in d['props']):      # what an instance is made of may be refused
                return self.default_(([x for x in d['props'] if x['k'] not in ('inst', 'union')] or [P('prop')])[0])
            if k == 'own' and self.p(.6):
                return [self.ch(['val', 'call']), S('Dft')]
            if k in CONTS + VECS or self.p(.3):
                saved, self.insts = self.insts, {}
                v = self.good(d)
                self.insts = saved
                if v[0] == 'S' and k != 'set':      # its order would decide the value
                    v = L(*v[2])
                return ['call' if k in VECS or self.p(.6) else 'val', v]
            return ['val', self.good(d)]
        finally:
            self.sure = False

    # -- arrays
    def vecval(self, d, bad):
        k = d['k']
        dim = {'vec3': 3, 'vec2': 2, 'vec3a': 3, 'vec2a': 2}.get(k)
        cls = {'vec3': 'Vector3', 'vec2': 'Vector2', 'vec3a': 'Vector3Array', 'vec2a': 'Vector2Array'}
        alt = ['z', '-z', 'up', 'down']
        words = [self.ch([w, w.upper(), w.title()]) for w in ['x', 'y', '-x', '-y', 'east', 'west', 'north', 'south', 'zero'] + (alt if dim == 3 else [])]
        bads = ['bad', '', '-', 'xx', '+x'] + (alt + ['-Z', 'UP', 'Down'] if dim == 2 else [])
        rows = {3: [[0, 0, 0], [3, 4, 0], [1, 2, 2], [0, 0, 2], [2, 0, 0], [-1, 0, 0]], 2: [[0, 0], [3, 4], [1, 0], [0, -2], [6, 8]]}
        num = self.ch([lambda n: I(n), lambda n: F(n), lambda n: ['f', n * 1024, self.ch([4, -4, 0])] if self.nearvec else self.offf(n)] if d['length'] == N() and not self.evenvec else [lambda n: I(n), lambda n: F(n)])
        if k in ('vec3', 'vec2'):
            x = self.r.random()
            if x < .35:
                return S(self.ch(bads if bad and self.p(.4) else words))
            row = self.ch(rows[dim] if bad or d['length'] == N() else rows[dim][1:])
            xs = [num(n) for n in row]
            if bad:
                y = self.r.random()
                if y < .25:
                    xs = xs[:-1]
                elif y < .5:
                    xs = xs + [I(1)]
                elif y < .65:
                    xs[0] = S('a')
                elif y < .8:
                    xs = [L(*xs)]
            if x < .5 and all(t[0] in ('i', 'f') for t in xs) and not bad:
                return ['a', self.ch(['ndarray', cls[k]]), 'f', [dim], [['f', t[1] * 1024, 0] if t[0] == 'i' else t for t in xs]]
            return self.ch([L, TU])(*xs)
        if k in ('vec3a', 'vec2a'):
            n = self.r.randrange(1, 4)
            out = []
            for _ in range(n):
                if self.p(.35):
                    out.append(S(self.ch(words)))
                else:
                    out.append(self.ch([L, TU])(*[num(q) for q in self.ch(rows[dim] if bad or d['length'] == N() else rows[dim][1:])]))
            if bad:
                y = self.r.random()
                if y < .2:
                    out.append(S(self.ch(bads)))
                elif y < .4:
                    out.append(L(*[I(1)] * (dim + 1)))
                elif y < .5:
                    out = [I(1)] * dim
                elif y < .6:
                    return S('x')
                elif y < .7:
                    return L(L(L(*[I(1)] * dim)))
                elif y < .8:
                    out.append(L(*[S('a')] * dim))
            if self.p(.3) and not bad:
                flat = [['f', t * 1024, 0] for _ in range(n) for t in self.ch(rows[dim][1:])]
                return ['a', self.ch(['ndarray', cls[k]]), 'f', [n, dim], flat]
            return self.ch([L, TU])(*out)
        shape = self.ch(d['shape']) if d['shape'] else self.ch([[2], [1, 2], [2, 2, 1]] + ([[]] if self.zerod else []))
        shape = [self.r.randrange(1, 4) if s == -1 else s for s in shape]
        if bad and self.p(.6):
            shape = self.ch([shape + [1], shape[:-1] or [2, 2], [s + 1 for s in shape], [0], [1]])
        n = 1
        for s in shape:
            n *= s
        dt = self.ch(['float', 'int', 'bool', 'complex']) if bad else self.ch(d['dtype'])
        mk = {'float': lambda: F(self.int_() + .5), 'int': lambda: I(self.int_()), 'bool': lambda: B(self.p(.5)),
              'complex': lambda: ['c', F(self.int_()), F(1)]}[dt]
        flat = [mk() for _ in range(n)]
        if dt == 'float' and self.p(.2) and flat and (self.zerod or 'complex' not in d['dtype']):
            flat[0] = self.ch([['nan'], ['inf', 1], ['inf', -1]])
        if self.p(.5) or not shape:
            return ['a', 'ndarray', {'float': 'f', 'int': 'i', 'bool': 'b', 'complex': 'c'}[dt], shape, flat]
        if bad and flat and self.p(.15):
            flat[0] = S('a')
        return nest(shape, flat, self.ch([L, TU]))


def nest(shape, flat, mk):
    if len(shape) == 1:
        return mk(*flat)
    m = len(flat) // shape[0] if shape[0] else 0
    return mk(*[nest(shape[1:], flat[i * m:(i + 1) * m], mk) for i in range(shape[0])])


def tonum(t):
    return t[1] if t[0] == 'i' else t[1] / 1024.0


def rx(r, w):
    if r[0] == 'none':
        return True
    if r[0] == 'has':
        return r[1] in w
    if r[0] == 'pre':
        return w.startswith(r[1])
    if r[0] == 'full':
        return bool(w) and set(w) <= set(r[1])
    return bool(set(w) & set(r[1]))


def hashable_(t):
    if t[0] in ('l', 'S', 'd', 'a'):
        return False
    return all(hashable_(x) for x in t[2]) if t[0] == 't' else True


def key(t):
    """python equality of terms, near enough to drop duplicates"""
    if t[0] in ('b', 'npb'):
        return ('n', int(t[1]) * 1024, 0)
    if t[0] in ('i', 'npi'):
        return ('n', t[1] * 1024, 0)
    if t[0] in ('f', 'npf'):
        return ('n', t[1], t[2])
    if t[0] == 'c':
        return key(t[1]) if key(t[2]) == ('n', 0, 0) else ('c', key(t[1]), key(t[2]))
    if t[0] in ('t', 'l', 'S'):
        return (t[0],) + tuple(key(x) for x in t[2])
    return repr(t)


def uniq(xs):
    out, seen = [], set()
    for x in xs:
        if key(x) not in seen:
            seen.add(key(x))
            out.append(x)
    return out


def uniqpairs(ps):
    out, seen = [], set()
    for a, b in ps:
        if key(a) not in seen:
            seen.add(key(a))
            out.append([a, b])
    return out


def body_prop(name, d, doc=None):
    return ['prop', name, d, doc or 'doc of ' + name]


def klass(cid, body, bases=('Root',), name=None, **kw):
    d = dict(cid=cid, name=name or cid, bases=list(bases), newreg=False, docpriv=['unset'], docord=['unset'], doc=cid + ' doc',
             body=body, dflts=[])
    d.update(kw)
    return d


def printable(v):
    """the specification knows how this prints"""
    if v[0] == 'f':
        return v[2] == 0
    if v[0] in ('l', 't', 'S'):
        return v[1] in ('list', 'tuple', 'set') and (v[0] != 'S' or len(v[2]) < 2) and all(printable(x) for x in v[2])
    if v[0] == 'd':
        return v[1] == 'dict' and all(printable(k) and printable(x) for k, x in v[2])
    return v[0] in ('none', 'b', 'i', 's')


def uncoerced(d):
    """takes arrays of one class only"""
    if d['k'] in VECS:
        return not d['coerce']
    return any(uncoerced(x) for x in [d.get(q) for q in ('prop', 'kprop', 'vprop')] + list(d.get('props') or []) if isinstance(x, dict))
