"""Session generators, one family per property."""
import json

from .gen import WORDS, Gen, body_prop, klass
from .hp import P, Session
from .terms import B, D, DT, F, H, I, L, N, S, SE, TU, UND


def first(e):
    """handle of the object an event created"""
    return e['res']['v'][1] if e['res']['ok'] else None


def c01(seed, sid):
    """random scalar properties, random values"""
    g = Gen(seed)
    g.arrays = True
    s = Session(sid, ['ok', 'kind', 'heap', 'undefined'])
    ps = []
    for i in range(5):
        d = g.scalar()
        d['req'] = False
        ps.append(('p%d' % i, d))
    s.do('defclass', d=klass('A', [body_prop(n, d) for n, d in ps]))
    s.do('new', c='A', kw=[])
    for _ in range(40):
        n, d = g.ch(ps)
        e = s.do('set', h='h1', n=n, v=scalar_value(g, d))
        if e['res']['ok'] and g.p(.3):
            v = e['post'].get('h1', {'v': {}})['v'].get(n)
            if v and stable(d):
                s.do('set', h='h1', n=n, v=v)
    if all(stable(d) for n, d in ps):
        s.do('validate', h='h1')
    return s


def scalar_value(g, d):
    v = g.value(d, .5)
    if d['k'] == 'float' and (d['min'] != N() or d['max'] != N()) and (v == ['nan'] or (v[0] == 's' and 'nan' in v[1])):
        v = I(1)
    if (d['k'] == 'prop' or d['k'] == 'bool' and d['cast']) and v[0] == 'a':
        v = I(0)
    if d['k'] == 'prop' and v[0] == 'I':
        v = I(9)
    if d['k'] == 'int' and v[0] in ('uuid', 'by'):
        v = N()
    if d['k'] == 'complex' and v[0] in ('inf', 'nan', 'I'):
        v = I(2)
    if d['k'] == 'complex' and v[0] == 's' and ('inf' in v[1] or 'nan' in v[1]):
        v = I(2)
    if d['k'] in ('float', 'int') and v[0] == 'I' and (d['min'] != N() or d['max'] != N()) and d['k'] == 'float':
        v = I(3)
    return v


def stable(d):
    """stripping and case changes do not take a value out of the pattern"""
    if d['k'] in ('str', 'url'):
        return d['regex'][0] == 'none' or (d['strip'] == '' and d['ccase'] == 'unchanged')
    return True


def clone(d, **kw):
    d = dict(d)
    d.update(kw)
    return d


def desc_of(g, depth=2, **kw):
    d = g.desc(depth, **kw)
    d['req'] = False
    return d


def setup_insts(g, s, n=2, obs=False):
    """classes C0.. usable in instance properties and some instances of them"""
    g.icls = []
    for i in range(n):
        cid = 'C%d' % i
        ps = [('v%d' % j, dict(g.scalar(g.ch(['int', 'str', 'float', 'bool', 'choice'])), req=g.p(.3))) for j in range(g.ch([1, 2]))]
        if i and g.p(.5):
            ps.append(('sub', P('inst', cls='C0', req=False)))
        base = ['Root'] if not (i and g.p(.4)) else ['C0']
        allps = (list(dict(g.icls)['C0']) if base == ['C0'] else []) + ps
        s.do('defclass', d=klass(cid, [body_prop(nm, d) for nm, d in ps], bases=base))
        g.icls.append((cid, list(dict(allps).items())))
        g.insts[cid] = []
        for _ in range(2):
            e = s.do('new', c=cid, kw=[[nm, g.good(d)] for nm, d in dict(allps).items() if d['k'] != 'inst'])
            if e['res']['ok']:
                h = first(e)
                g.insts[cid].append(h)
                if base == ['C0']:
                    g.insts['C0'].append(h)


def c02(seed, sid):
    """nested container and instance properties: element validation, class, copies"""
    g = Gen(seed)
    g.nan = False
    g.nones = True
    s = Session(sid, ['ok', 'kind', 'heap', 'args', 'value', 'undefined'])
    setup_insts(g, s)
    ps = []
    for i in range(4):
        d = desc_of(g, g.ch([1, 2, 2, 3]), kinds=('bool', 'int', 'float', 'str', 'choice', 'complex') + ('tuple', 'list', 'set', 'dict', 'inst') * 2,
                    obs=g.p(.3))
        ps.append(('p%d' % i, d))
    s.do('defclass', d=klass('A', [body_prop(n, d) for n, d in ps]))
    h = first(s.do('new', c='A', kw=[]))
    for _ in range(25):
        n, d = g.ch(ps)
        e = s.do('set', h=h, n=n, v=tame(g.value(d, .35)), poison=d)
        if g.p(.15):
            s.do('get', h=h, n=n)
        if g.p(.1) and all(deepstable(d) for n, d in ps):
            s.do('validate', h=h)
    return s


def tame(v):
    return v


def deepstable(d):
    return stable(d) and all(deepstable(x) for x in [d.get('prop'), d.get('kprop'), d.get('vprop')] + d['props'] if x)


# -----------------------------------------------------------------------------
# objects with listeners
NUMERIC = ('i', 'f', 'b', 'npi', 'npf')
RAISE = ('ValueError', 'KeyError', 'TypeError', 'AttributeError', 'ValidationError', 'RuntimeError')
SCOPES = (['all'], ['all'], ['validate'], ['observe_change', 'observe_set'], ['observe_change'], ['observe_set'],
          ['validate', 'observe_set'])


TAGS = {'bool': 'b', 'list': 'l', 'set': 'S', 'dict': 'd', 'tuple': 't', 'float': ('f', 'i', 'b', 'inf'), 'inst': 'h', 'datetime': 'dt', 'color': 't',
        'complex': 'c', 'uuid': 'uuid', 'str': 's', 'own': 's', 'choice': 's', 'url': 's', 'array': 'a', 'vec3': 'a', 'vec2': 'a', 'vec3a': 'a', 'vec2a': 'a'}


def fits(d, v):
    """v is of a type that d stores"""
    k = d['k']
    if v[0] == 'none' or k not in TAGS:
        return True
    if v[0] not in (TAGS[k] if isinstance(TAGS[k], tuple) else (TAGS[k],)):
        return False
    if k in ('list', 'set', 'tuple'):
        return all(fits(d['prop'], x) for x in v[2])
    if k == 'dict':
        return all(fits(d['kprop'], a) and fits(d['vprop'], b) for a, b in v[2])
    return True


class Machine(object):
    """random clients of classes with properties, listeners and validators"""

    def __init__(self, seed, sid, scope, **opt):
        self.g = Gen(seed)
        self.g.nan = False
        self.g.stable = True
        self.g.cexact = self.g.nolen = opt.pop('cexact', False)
        self.s = Session(sid, scope)
        self.opt = dict(kinds=('int', 'int', 'float', 'str', 'bool', 'choice', 'list', 'set', 'dict', 'inst'), nprops=4, obs=.5, cvs=.5,
                        defaults=.6, required=.6, raises=.25, insts=2, lids=0, sub=.5, nlis=3, immut=.2, special=0, sprob=.4, nested=.4, dyn=.5)
        self.opt.update(opt)
        self.lid = 0
        self.props = {}      # class -> [(name, desc)] settable
        self.spec = {}       # class -> [(name, desc)] immutable, dynamic and renamed ones
        self.objs = []       # (handle, class)
        self.open = []       # open scopes, innermost last
        self.nsc = 0
        self.grabs = []
        self.nlinks = 0

    def newlid(self):
        self.lid += 1
        return 'L%d' % self.lid

    # -- programs
    assignable = None

    def action(self, mode, ps, pname, targets, depth):
        g = self.g
        x = g.r.random()
        dd = dict(ps)
        if x < self.opt['raises'] * .6:
            return ['raise', g.ch(RAISE)]
        if x < self.opt['raises']:
            return ['raisev', g.ch(['invalid', 'missing', 'because']), g.ch(list(dd))]
        if x < .35:
            return ['nop']
        if x < .5 and mode == 'validate' and pname and not dd[pname]['obs']:
            return self.put(dd[pname])
        if x < .58:
            return ['when', self.val(dd[pname] if pname else P('int'), 0), self.program(mode, ps, pname, targets, depth - 1)] if depth else ['nop']
        if x < .63 and depth:
            return ['within', g.ch(SCOPES), self.program(mode, ps, pname, targets, depth - 1)]
        if x < .69 and depth:
            return ['try', self.program(mode, ps, pname, targets, depth - 1)]
        if x < .74:
            ints = [n for n, d in ps if d['k'] == 'int']
            if len(ints) > 1:
                a, b = g.r.sample(ints, 2)
                return ['le', a, b, g.ch(['raisev', 'ValueError', 'false' if mode == 'class' else 'TypeError'])]
            return ['nop']
        t = g.ch(targets)
        if t == 'self':
            tps = dd
        else:
            tps = dict(self.props[dict(self.objs)[t]])
        ns = [n for n in tps if self.assignable is None or n in self.assignable]
        if not ns:
            return ['nop']
        n = g.ch(ns)
        if x < .88:
            return ['set', t, n, self.val(tps[n], .2)]
        if x < .91 and mode != 'class':
            return ['copy', t, n]
        if x < .94:
            return ['del', t, n]
        if x < .97:
            return ['reset', t, n]
        return ['validate', t] if mode != 'class' or t != 'self' else ['nop']

    def put(self, d):
        if d['k'] == 'bool':
            return ['put', B(self.g.p(.5))]
        if d['k'] in ('array', 'vec2', 'vec3', 'vec2a', 'vec3a'):
            return ['nop']
        v = self.val(d, .1)
        if d['k'] == 'union' and v[0] == 'd':      # kept as it is: what an instance is made of may be refused later
            return ['nop']
        return ['put', v] if fits(d, v) else ['nop']

    def val(self, d, bad):
        g = self.g
        saved = g.insts
        if d['k'] == 'inst' and g.p(.5):
            g.insts = {}
        try:
            v = g.value(d, bad)
        finally:
            g.insts = saved
        return v

    def program(self, mode, ps, pname, targets=('self',), depth=1):
        g = self.g
        out = []
        for _ in range(g.ch([1, 1, 1, 2])):
            a = self.action(mode, ps, pname, targets, depth)
            out.append(a)
            if a[0] == 'put':
                break
        return out

    def listener(self, ps, targets=('self',), nested=None):
        g = self.g
        names = [n for n, d in ps]
        allp = g.p(.2)
        sel = names if allp else g.r.sample(names, min(len(names), g.ch([1, 1, 2])))
        mode = g.ch(['validate', 'observe_change', 'observe_set'])
        only = sel[0] if len(sel) == 1 else None
        if g.p(self.opt['nested'] if nested is None else nested):
            pr = self.program(mode, ps, only, targets)
        elif mode == 'validate' and only and g.p(.4) and not dict(ps)[only]['obs']:
            pr = [self.put(dict(ps)[only])]
        elif g.p(self.opt['raises']):
            bad = ['raise', g.ch(RAISE)] if g.p(.7) else ['raisev', 'because', g.ch(names)]
            pr = [['when', self.val(dict(ps)[only], 0), [bad]]] if only and g.p(.6) else [bad]
        else:
            pr = [['nop']]
        return {'lid': self.newlid(), 'mode': mode, 'all': allp, 'names': [] if allp else sel, 'prog': pr}

    # -- classes
    def prop(self, kinds=None):
        g = self.g
        d = g.desc(1, kinds=kinds or self.opt['kinds'], obs=g.p(self.opt['obs']))
        d['req'] = g.p(self.opt['required'])
        if g.p(self.opt['defaults']):
            d['dflt'] = g.default(d)
        if d['k'] in ('int', 'float', 'str', 'bool', 'choice') and g.p(self.opt.get('wrap', 0)):
            d['ser'] = g.ch(['wrap', 'wrap', 'bare'])
        return d

    def define(self, cid, bases, inherited):
        g = self.g
        ps = dict(inherited)
        own = []
        for i in range(self.opt['nprops'] if not inherited else g.ch([0, 1, 2])):
            n = 'p%d' % i if not inherited else g.ch(['q0', 'q1'] + (list(inherited) if g.p(.4) else []))
            if n in dict(own):
                continue
            d = self.prop()
            own.append((n, d))
            ps[n] = d
        body = [body_prop(n, d) for n, d in own]
        spc = dict(self.spec.get(bases[0], []))
        for n, d in self.specials(ps, inherited):
            if n not in ps and g.p(self.opt['special']) and (d['k'] != 'ren' or d['new'] in ps or d['new'] in spc):
                body.append(body_prop(n, d))
                spc[n] = d
        for i in range(g.r.randrange(self.opt['nlis'] + 1)):
            body.append(['obs', 'l%d' % i if not inherited or g.p(.4) else 'm%d' % i, self.listener(list(ps.items())), ''])
        if g.p(self.opt['cvs']):
            for i in range(g.ch([1, 1, 2])):
                body.append(['cv', 'cv%d' % i, {'lid': self.newlid(), 'prog': self.program('class', list(ps.items()), None)}, ''])
        seen, out = set(), []
        for b in body:
            if b[1] not in seen:
                seen.add(b[1])
                out.append(b)
        dflts = []
        if g.p(.25):
            for n in g.r.sample(list(ps), 1):
                sp = g.default(ps[n])
                if sp != ['undef']:
                    dflts.append([n, sp])
        self.s.do('defclass', d=klass(cid, out, bases=bases, dflts=dflts))
        self.props[cid] = list(ps.items())
        self.spec[cid] = list(spc.items())

    def specials(self, ps, inherited):
        """immutable, dynamic and renamed properties over ps"""
        g = self.g
        plain = [(n, d) for n, d in ps.items()]
        out = []
        sfx = 's' if inherited else ''
        d = g.desc(1, kinds=('int', 'str', 'float', 'list', 'dict'))
        out.append(('im' + sfx, P('gettable', dflt=g.ch([['val', I(3)], ['call', L(I(1))], ['val', S('k')], ['undef'], ['call', D((S('a'), I(1)))]]))))
        if g.p(.5):
            out.append(('uid' + sfx, P('uuid')))
        n, d = g.ch(plain)
        warn = g.p(.6)
        out.append(('ren' + sfx, P('ren', new=n, warn=warn)))
        if g.p(.3):
            out.append(('ren2' + sfx, P('ren', new='ren' + sfx, warn=g.p(.5))))
        n, d = g.ch(plain)
        dp = clone(d, dflt=UND, obs=False)
        if d['k'] != 'inst':
            out.append(('dyn' + sfx, P('dyn', prop=dp if g.p(.8) else clone(g.scalar('int')), get=['get', n] if g.p(.8) else ['const', self.val(dp, .2)],
                                       set=[['copy', 'self', n]] if g.p(.6) else [], dele=[['del', 'self', n]] if g.p(.5) else [])))
        names = [n for n, d in plain if d['k'] == 'int'][:2]
        if names:
            out.append(('dl' + sfx, P('dyn', prop=P('list', prop=P('int', max=g.ch([N(), I(4)]))), get=['list', names],
                                      set=[['raise', 'RuntimeError']] if g.p(.3) else [])))
        return out

    def anyprop(self, c):
        """a property of c and a descriptor of the values it takes"""
        g = self.g
        if self.spec.get(c) and g.p(self.opt['sprob']):
            n, d = g.ch(self.spec[c])
            e = d
            allp = dict(self.props[c] + self.spec[c])
            while e['k'] == 'ren':
                e = allp[e['new']]
            if e['k'] == 'dyn':
                e = e['prop']
            return n, e
        return g.ch(self.props[c])

    def setup(self):
        g, s = self.g, self.s
        if self.opt['insts']:
            setup_insts(g, s, self.opt['insts'])
            for cid, ps in g.icls:
                self.props[cid] = [(n, d) for n, d in ps]
        self.define('A', ['Root'], {})
        if g.p(self.opt['sub']):
            self.define('B', ['A'], dict(self.props['A']))
        for _ in range(g.ch([1, 2])):
            self.new()
        return self

    # -- operations
    def new(self):
        g = self.g
        c = g.ch([c for c in self.props if c in ('A', 'B')])
        kw = []
        ps = list(self.props[c])
        g.r.shuffle(ps)
        for n, d in ps:
            if g.p(.4):
                kw.append([n, g.value(d, .15)])
        for n, d in self.spec.get(c, []):
            if g.p(.08):
                e = self.anyprop(c)
                if e[0] not in [k[0] for k in kw]:
                    kw.append([e[0], g.value(e[1], .15)])
        if g.p(.03):
            kw.append(['nope', I(1)])
        e = self.s.do('new', c=c, kw=kw)
        if e['res']['ok']:
            self.objs.append((first(e), c))
        return e

    def set(self, bad=.25):
        h, c = self.g.ch(self.objs)
        n, d = self.anyprop(c)
        v = UND if self.g.p(.03) else self.g.value(d, bad)
        return self.s.do('set', h=h, n=n, v=v)

    def dele(self):
        h, c = self.g.ch(self.objs)
        return self.s.do('del', h=h, n=self.anyprop(c)[0])

    def get(self):
        h, c = self.g.ch(self.objs)
        return self.s.do('get', h=h, n=self.anyprop(c)[0])

    def reset(self):
        h, c = self.g.ch(self.objs)
        return self.s.do('reset', h=h, n=self.anyprop(c)[0])

    def validate(self):
        return self.s.do('validate', h=self.g.ch(self.objs)[0])

    def enter(self):
        if len(self.open) >= 4:
            return self.leave()
        x = self.g.ch([o[0] for o in self.open] * 2 + ['s%d' % self.nsc])
        types = dict(self.open).get(x)
        if types is None:
            types = self.g.ch(SCOPES)
            self.nsc += 1
        self.open.append((x, types))
        return self.s.do('enter', x=x, types=types)

    def leave(self):
        if self.open:
            x, _ = self.open.pop()
            return self.s.do('exit', x=x, exc=self.g.p(.3))

    def listen(self):
        h, c = self.g.ch(self.objs)
        lis = self.listener(self.props[c], ['self'] + [o[0] for o in self.objs])
        return self.s.do('listen', h=h, **lis)

    def badset(self):
        return self.set(.9)

    def mklink(self, opts=None):
        """a directional link between integer properties"""
        g = self.g
        ends = [(h, n) for h, c in self.objs for n, d in self.props[c] if d['k'] == 'int']
        if len(ends) > 1:
            a, b = g.r.sample(ends, 2)
            k = 'K%d' % self.nlinks
            self.nlinks += 1
            return self.s.do('links', ls=[[k, list(a), list(b)]], now=g.p(.3), chg=g.p(.5), tr=g.ch(['id', 'neg', 'inc', 'const']))

    def deser(self):
        """build an object from what an object serialized to, perhaps changed"""
        g = self.g
        if self.ambiguous():
            return
        h, c = g.ch(self.objs)
        e = self.s.do('ser', h=h, ic=g.p(.8), dyn=bool(self.spec.get(c)) and g.p(.3))
        if not e['res']['ok']:
            return
        v = json.loads(json.dumps(e['res']['v']))
        if g.p(.5):
            self.corrupt(v)
        c2 = c if g.p(.8) else g.ch(list(self.props))
        e = self.s.do('deser', c=c2, v=v, tr=g.p(.5), strict=g.p(.3), av=g.p(.3))
        if e['res']['ok'] and e['res']['v'][0] == 'h' and len(self.objs) < 8:
            made = e['post'][first(e)]['c']
            if made in self.props:
                self.objs.append((first(e), made))

    def corrupt(self, v):
        g = self.g
        ps = v[2]
        x = g.r.random()
        if x < .3 and ps:
            del ps[g.r.randrange(len(ps))]
        elif x < .5:
            ps.insert(g.r.randrange(len(ps) + 1), [S(g.ch(['zz', 'nope', 'y'])), g.ch([I(1), S('a'), N(), L(I(1))])])
        elif x < .75:
            for q in ps:
                if q[0] == S('__class__'):
                    q[1] = g.ch([S('A'), S('B'), S('Nope'), S('C0'), S('C1'), S('Root'), S('')])
        elif ps:
            q = g.ch(ps)
            if q[0] != S('__class__'):
                q[1] = g.ch([I(g.int_()), S(g.ch(WORDS)), L(I(1), S('q')), L(), N(), D((S('a'), I(1))), g.offf(2)])
            elif q[1][0] == 'd':
                self.corrupt(q[1])

    def ser(self):
        if self.ambiguous():
            return
        return self.s.do('ser', h=self.g.ch(self.objs)[0], ic=self.g.p(.7), dyn=bool(self.spec) and self.g.p(self.opt['dyn']))

    def ambiguous(self):
        """a set of several objects: copies have no order"""
        def bad(v):
            if isinstance(v, list) and v and v[0] == 'S' and sum(x[0] == 'h' for x in v[2]) > 1:
                return True
            return isinstance(v, list) and any(bad(x) for x in v)
        if any(bad(x) for o in self.s.last.values() for x in o['v'].values()):
            return True
        # values of another type, stored while validation was disabled or by a validator
        return any(not fits(d, o['v'][n]) for o in self.s.last.values() for n, d in self.props.get(o['c'], []) if n in o['v'])

    def copy(self):
        if self.ambiguous():
            return
        return self.s.do('copy', h=self.g.ch(self.objs)[0])

    def equal(self):
        a, b = self.g.ch(self.objs), self.g.ch(self.objs)
        for h, c in (a, b):     # what a dynamic property computes must be valid
            for n, d in self.spec.get(c, []):
                if d['k'] == 'dyn' and not self.s.do('get', h=h, n=n)['res']['ok']:
                    return
        return self.s.do('equal', a=H(a[0]), b=H(b[0]))

    def grab(self):
        h, c = self.g.ch(self.objs)
        ns = [n for n, d in self.props[c] if d['k'] in ('list', 'set', 'dict') and d['obs']]
        if ns:
            n = self.g.ch(ns)
            x = 'k%d' % len(self.grabs)
            e = self.s.do('grab', x=x, h=h, n=n)
            if e['res']['ok']:
                self.grabs.append((x, dict(self.props[c])[n]))

    def mutate(self):
        if self.grabs:
            x, d = self.g.ch(self.grabs)
            m, args = mutation(self.g, d)
            if m == 'sort' and len({v[0] in NUMERIC or v[0] for v in self.s.evs[-1]['cont'].get(x, {'val': [0, 0, []]})['val'][2]}) > 1:
                m = 'reverse'       # how far a failing sort gets is left open
            self.s.do('mut', x=x, m=m, args=args)

    def aug(self):
        h, c = self.g.ch(self.objs)
        ns = [(n, d) for n, d in self.props[c] if d['k'] in ('list', 'set', 'dict') and d['obs']]
        if ns:
            n, d = self.g.ch(ns)
            m = self.g.ch({'list': ['__iadd__', '__imul__'], 'set': ['__ior__', '__iand__', '__isub__', '__ixor__'], 'dict': ['__ior__']}[d['k']])
            v = I(self.g.ch([0, 1, 2])) if m == '__imul__' else self.g.value(d, .2)
            if self.s.last.get(h, {'v': {}})['v'].get(n, ['none'])[0] not in ('l', 'S', 'd', 'none'):
                return
            self.s.do('aug', h=h, n=n, m=m, args=[v])

    def poke(self):
        h, c = self.g.ch(self.objs)
        ns = [(n, d) for n, d in self.props[c] if d['k'] in ('list', 'set', 'dict') and not d['obs'] and self.s.last.get(h, {'v': {}})['v'].get(n)]
        if ns:
            n, d = self.g.ch(ns)
            cur = self.s.last[h]['v'][n]
            g = self.g.good(dict(d, coerce=False), 0) if self.g.p(.4) else self.g.damage(d, self.g.good(dict(d, coerce=False), 0))
            if g[0] == cur[0] and not str(cur[1]).startswith('obs'):
                self.s.do('poke', h=h, n=n, v=[cur[0], cur[1], g[2]])

    def run(self, weights, n):
        ops = [k for k, w in sorted(weights.items()) for _ in range(w)]
        for _ in range(n):
            if not self.objs:
                self.new()
                continue
            getattr(self, self.g.ch(ops))()
        while self.open:
            self.leave()
        return self.s


def mutation(g, d):
    """a mutating method and its arguments"""
    k = d['k']
    if k == 'list':
        el = lambda: g.value(d['prop'], .2)
        m = g.ch(['append', 'append', 'insert', 'extend', '__setitem__', '__delitem__', 'pop', 'remove', 'reverse', 'clear', 'sort',
                  'setslice', 'delslice', '__iadd__', '__imul__'])
        if m == 'append':
            return m, [el()]
        if m == 'insert':
            return m, [I(g.ch([-2, -1, 0, 1, 5])), el()]
        if m in ('extend', '__iadd__'):
            return m, [g.ch([L, TU])(*[el() for _ in range(g.r.randrange(3))]) if g.p(.9) else I(3)]
        if m == '__setitem__':
            return m, [I(g.ch([-1, 0, 1, 5])), el()]
        if m == '__delitem__':
            return m, [I(g.ch([-1, 0, 1, 5]))]
        if m == 'pop':
            return m, g.ch([[], [I(0)], [I(-1)], [I(7)]])
        if m == 'remove':
            return m, [el()]
        if m == 'setslice':
            return m, [I(g.ch([0, 1])), I(g.ch([1, 2, 9])), L(*[el() for _ in range(g.r.randrange(3))])]
        if m == 'delslice':
            return m, [I(g.ch([0, 1])), I(g.ch([1, 2, 9]))]
        if m == '__imul__':
            return m, [I(g.ch([-1, 0, 1, 2]))]
        return m, []
    if k == 'set':
        el = lambda: hashval(g, d['prop'])
        m = g.ch(['add', 'add', 'discard', 'remove', 'pop', 'clear', 'update', 'intersection_update', 'difference_update',
                  'symmetric_difference_update', '__ior__', '__iand__', '__isub__', '__ixor__'])
        if m in ('add', 'discard', 'remove'):
            return m, [el()]
        if m in ('pop', 'clear'):
            return m, []
        from .gen import uniq
        xs = uniq([el() for _ in range(g.r.randrange(3))])
        if m.startswith('__'):
            return m, [SE(*xs) if g.p(.9) else L(*xs)]
        return m, [g.ch([SE, L, TU])(*xs)]
    from .gen import uniqpairs
    key = lambda: hashval(g, d['kprop'])
    val = lambda: g.value(d['vprop'], .2)
    m = g.ch(['__setitem__', '__setitem__', '__delitem__', 'pop', 'popitem', 'setdefault', 'update', 'clear', '__ior__'])
    if m == '__setitem__':
        return m, [key(), val()]
    if m == '__delitem__':
        return m, [key()]
    if m == 'pop':
        return m, [key()] + ([val()] if g.p(.5) else [])
    if m == 'setdefault':
        return m, [key(), val()]
    if m in ('update', '__ior__'):
        ps = uniqpairs([[key(), val()] for _ in range(g.r.randrange(3))])
        return m, [D(*ps) if g.p(.8) else L(*[TU(a, b) for a, b in ps])]
    return m, []


def hashval(g, d):
    from .gen import hashable_
    v = g.value(d, .2)
    return v if hashable_(v) else I(1)


def c04(seed, sid):
    m = Machine(seed, sid, ['fires', 'heap', 'ok', 'kind', 'undefined']).setup()
    return m.run(dict(set=10, dele=2, reset=1, new=1, listen=2, validate=1, enter=1, leave=1, grab=1, mutate=2, aug=1), 40)


def c03(seed, sid):
    """assignments that fail, by every route"""
    m = Machine(seed, sid, ['ok', 'heap', 'fires', 'cont', 'kind', 'undefined'], raises=.35, obs=.7,
                kinds=('int', 'int', 'float', 'str', 'choice', 'list', 'set', 'dict', 'tuple', 'inst')).setup()
    return m.run(dict(set=8, badset=6, dele=2, reset=2, new=3, listen=3, grab=2, mutate=6, aug=2, mklink=1), 40)


def c05(seed, sid):
    m = Machine(seed, sid, ['fires', 'ok', 'heap', 'undefined'], nprops=3, nlis=4, raises=.15, insts=1, nested=.5).setup()
    return m.run(dict(set=8, dele=1, new=2, listen=2, validate=1, enter=6, leave=4, deser=2, copy=1, reset=1), 40)


def c11(seed, sid):
    m = Machine(seed, sid, ['ok', 'kind', 'value', 'heap', 'warns', 'undefined'], special=.9, nprops=3, nlis=1, sprob=.7, cvs=.2, raises=.1,
                dyn=.6, kinds=('int', 'int', 'float', 'str', 'list', 'dict'), insts=0).setup()
    return m.run(dict(set=10, dele=4, get=8, reset=2, new=2, ser=3, deser=3, copy=1, equal=1, validate=1), 45)


def c21(seed, sid):
    m = Machine(seed, sid, ['tups', 'hooks', 'kind', 'undefined'], raises=.3, required=.8, nprops=4).setup()
    return m.run(dict(set=6, badset=6, dele=1, new=6, listen=1, validate=6, poke=3, reset=1, grab=1, mutate=3), 40)


# -----------------------------------------------------------------------------
class Graph(Machine):
    """objects that refer to each other"""

    def __init__(self, seed, sid, scope, **opt):
        Machine.__init__(self, seed, sid, scope, **opt)
        self.opt.setdefault('refs', ('nxt', 'lst', 'dct', 'tup', 'uni', 'st'))
        self.opt.setdefault('extra', ('int', 'float', 'str', 'choice', 'list', 'dict'))

    def refprop(self, n, cls):
        g = self.g
        i = P('inst', cls=cls, req=g.p(self.opt['required']))
        if n == 'nxt':
            if g.p(.2) and cls != 'A':
                i['dflt'] = ['cls', 'A'] if cls == 'A' else UND
            return i
        kw = dict(req=g.p(self.opt['required']))
        if n == 'lst':
            d = P('list', prop=i, obs=g.p(self.opt['obs']), maxl=g.ch([-1, -1, 2]), coerce=g.p(.3), **kw)
        elif n == 'dct':
            d = P('dict', kprop=P('str'), vprop=i, obs=g.p(self.opt['obs']), **kw)
        elif n == 'tup':
            d = P('tuple', prop=g.ch([i, P('list', prop=i)]), coerce=g.p(.3), minl=g.ch([-1, -1, 1]), **kw)
        elif n == 'uni':
            d = P('union', props=g.ch([[i, P('int')], [P('str', regex=['pre', 'a']), i], [P('list', prop=i), i]]), **kw)
        elif n == 'st':
            d = P('set', prop=i, **kw)
        if g.p(.3) and n in ('lst', 'dct', 'tup'):
            d['dflt'] = ['call', {'lst': L(), 'dct': D(), 'tup': TU()}[n]]
        return d

    def setup(self):
        g = self.g
        g.icls = []
        self.opt['kinds'] = self.opt['extra']
        self.opt['nprops'] = self.opt.get('own', 2)
        self.define('A', ['Root'], {})
        self.ready('A')
        ps = [(n, self.refprop(n, 'A')) for n in g.r.sample(self.opt['refs'], min(len(self.opt['refs']), g.ch([2, 3])))]
        self.refclass('B', 'A', ps)
        if g.p(.6):
            ps = [(n + 'b', self.refprop(n, 'B')) for n in g.r.sample(self.opt['refs'], 1)]
            self.refclass('D', g.ch(['A', 'B']), ps)
        for _ in range(g.ch([2, 3, 4])):
            self.new()
        return self

    def ready(self, cid):
        self.g.icls.append((cid, self.props[cid]))
        self.g.insts[cid] = []

    def refclass(self, cid, base, ps):
        g = self.g
        body = [body_prop(n, d) for n, d in ps]
        allps = dict(self.props[base])
        allps.update(ps)
        if g.p(self.opt['cvs']):
            body.append(['cv', 'cv' + cid, {'lid': self.newlid(), 'prog': self.program('class', list(allps.items()), None, depth=0)}, ''])
        if g.p(self.opt['cvs']):
            body.append(['obs', 'ob' + cid, self.listener(list(allps.items()), nested=.2), ''])
        self.s.do('defclass', d=klass(cid, body, bases=[base], newreg=g.p(self.opt.get('newreg', 0))))
        self.props[cid] = list(allps.items())
        self.spec[cid] = list(self.spec.get(base, []))
        self.ready(cid)
        self.isa = dict(getattr(self, 'isa', {'A': ['A']}))
        self.isa[cid] = self.isa[base] + [cid]

    def adopt(self, h, c):
        self.objs.append((h, c))
        for k in self.isa.get(c, [c]):
            self.g.insts[k].append(h)

    def new(self):
        g = self.g
        c = g.ch(['B', 'B'] + list(self.props))
        kw = []
        ps = list(self.props[c])
        g.r.shuffle(ps)
        for n, d in ps:
            if g.p(.6):
                kw.append([n, g.value(d, self.opt.get('bad', .1))])
        e = self.s.do('new', c=c, kw=kw)
        if e['res']['ok']:
            self.adopt(first(e), c)
        return e

    def val(self, d, bad):
        return self.g.value(d, bad)

    def deser(self):
        e = Machine.deser(self)
        return e

    def pair(self):
        """an object, a copy of it, and a change to one of them"""
        if self.ambiguous():
            return
        g = self.g
        h, c = g.ch(self.objs)
        e = self.s.do('copy', h=h)
        if not e['res']['ok']:
            return
        k = first(e)
        if len(self.objs) < 9:
            self.adopt(k, c)
        self.s.do('equal', a=H(h), b=H(k))
        self.s.do('equal', a=H(k), b=H(h))
        new = [x for x, o in e['post'].items() if o['c'] in self.props]
        x = g.ch(new)
        n, d = g.ch(self.props[e['post'][x]['c']])
        y = g.r.random()
        if y < .6:
            self.s.do('set', h=x, n=n, v=g.value(d, .1))
        elif y < .75:
            self.s.do('del', h=x, n=n)
        else:
            cur = self.s.last.get(x, {'v': {}})['v'].get(n)
            if cur and cur[0] in ('l', 'd') and not cur[1].startswith('obs'):
                self.s.do('poke', h=x, n=n, v=[cur[0], cur[1], g.ch([cur[2][1:], cur[2][:-1], cur[2][::-1]])])
        self.s.do('equal', a=H(h), b=H(k))
        self.s.do('equal', a=H(k), b=H(h))

    def cycle(self):
        """make objects refer to each other in a circle"""
        g = self.g
        ends = [(h, n, d['cls']) for h, c in self.objs for n, d in self.props[c] if d['k'] == 'inst']
        if ends:
            h, n, k = g.ch(ends)
            hs = g.insts[k]
            if hs:
                self.s.do('set', h=h, n=n, v=H(g.ch(hs)))

    def eqterm(self):
        g = self.g
        a = H(g.ch(self.objs)[0])
        b = g.ch([I(1), N(), S('a'), L(a), a])
        if g.p(.5):
            a, b = b, a
        if g.p(.3):
            a = b
        self.s.do('equal', a=a, b=b)

    def round(self):
        """serialize, load, compare, serialize again"""
        if self.ambiguous() or len(self.objs) > 12:
            return
        h, c = self.g.ch(self.objs)
        ic = self.g.p(.7)
        e = self.s.do('ser', h=h, ic=ic, dyn=False)
        if not e['res']['ok'] or 'perm' in str(e['res']['v'])[:0]:
            return
        e = self.s.do('deser', c=c, v=e['res']['v'], tr=self.g.p(.7), strict=self.g.p(.3), av=self.g.p(.3))
        if e['res']['ok']:
            k = first(e)
            self.s.do('equal', a=H(h), b=H(k))
            self.s.do('ser', h=k, ic=ic, dyn=False)
            self.s.do('validate', h=k)

    def uncycle(self):
        g = self.g
        ends = [(h, n) for h, c in self.objs for n, d in self.props[c] if d['k'] == 'inst']
        if ends:
            h, n = g.ch(ends)
            self.s.do('del', h=h, n=n)

    def registry(self):
        return self.s.do('registry', c=self.g.ch(list(self.props)))

    def spoilset(self):
        """assign anything while validation is disabled"""
        x = 's%d' % self.nsc
        self.nsc += 1
        self.s.do('enter', x=x, types=self.g.ch([['all'], ['validate']]))
        self.set(.5)
        self.s.do('exit', x=x, exc=False)


def c07(seed, sid):
    m = Graph(seed, sid, ['ok', 'tups', 'value', 'heap', 'kind', 'fires', 'undefined'], required=.5, cvs=.5, raises=.2, nlis=2).setup()
    return m.run(dict(validate=10, set=5, badset=1, cycle=4, dele=3, poke=6, new=2, spoilset=1, listen=1), 40)


def c08(seed, sid):
    if seed % 4 == 0:
        return eqvalues(seed, sid)
    m = Graph(seed, sid, ['ok', 'value', 'heap', 'undefined'], required=.3, cvs=0, raises=0, nlis=0, bad=0,
              refs=('nxt', 'lst', 'dct', 'tup', 'uni'), extra=('int', 'float', 'str', 'bool', 'list', 'dict', 'set', 'datetime', 'color')).setup()
    return m.run(dict(pair=6, equal=6, set=3, cycle=3, eqterm=1, new=1), 20)


def eqvalues(seed, sid):
    """pairs of objects with one property each of many types, nearly equal values"""
    g = Gen(seed)
    g.nan = False
    s = Session(sid, ['ok', 'value', 'heap', 'undefined'])
    ps = []
    for i in range(4):
        d = g.desc(2, kinds=('float', 'complex', 'int', 'bool', 'str', 'datetime', 'color', 'list', 'tuple', 'set', 'dict'))
        d['req'] = False
        ps.append(('p%d' % i, d))
    s.do('defclass', d=klass('A', [body_prop(n, d) for n, d in ps]))
    s.do('defclass', d=klass('B', [], bases=['A']))
    a = first(s.do('new', c='A', kw=[]))
    b = first(s.do('new', c=g.ch(['A', 'A', 'A', 'A', 'B']), kw=[]))
    for _ in range(14):
        n, d = g.ch(ps)
        v = g.good(d, 0)
        s.do('set', h=a, n=n, v=v)
        s.do('set', h=b, n=n, v=nudge(g, v) if g.p(.8) else g.good(d, 0))
        if g.p(.1):
            s.do('del', h=g.ch([a, b]), n=g.ch(ps)[0])
        s.do('equal', a=H(a), b=H(b))
        s.do('equal', a=H(b), b=H(a))
        if g.p(.5):     # start again from equal objects
            s.do('set', h=b, n=n, v=v)
    return s


def nudge(g, v):
    """nearly the same value"""
    if v[0] in ('i', 'npi') and g.p(.4):
        return ['f', v[1] * 1024, g.ch([0, 4, 9, -9])]
    if v[0] in ('f', 'npf'):
        return ['f', v[1], v[2] + g.ch([0, 4, -4, 9, -9, 11, 20])]
    if v[0] == 'c' and g.cexact:
        return v
    if v[0] == 'c':
        return ['c', nudge(g, v[1]), nudge(g, v[2])]
    if v[0] in ('l', 't') and g.p(.8):
        xs = [nudge(g, x) for x in v[2]]
        if g.p(.1) and xs:
            xs.pop()
        return [v[0], v[1], xs]
    if v[0] == 'S':
        from .gen import uniq
        xs = list(v[2])
        g.r.shuffle(xs)
        return ['S', v[1], uniq([nudge(g, x) if g.p(.3) else x for x in xs])]
    if v[0] == 'd':
        ps = [[a, nudge(g, b) if g.p(.5) else b] for a, b in v[2]]
        g.r.shuffle(ps)
        return ['d', v[1], ps]
    return v


def c09(seed, sid):
    """round trips and copies"""
    m = Graph(seed, sid, ['ok', 'kind', 'value', 'heap', 'fires', 'undefined'], required=.3, cvs=.2, raises=0, nlis=1, nested=.1, bad=0, obs=.4, wrap=.15, cexact=True,
              refs=('nxt', 'lst', 'dct', 'tup', 'uni'), own=3,
              extra=('int', 'float', 'str', 'bool', 'choice', 'url', 'list', 'dict', 'set', 'tuple', 'datetime', 'color', 'complex') + ('vec3', 'array')[:seed % 3]).setup()
    return m.run(dict(round=6, pair=4, ser=3, set=4, cycle=2, uncycle=2, new=1, grab=1, mutate=2), 22)


def c10(seed, sid):
    """options of deserialization, damaged inputs, registries"""
    m = Graph(seed, sid, ['ok', 'kind', 'value', 'heap', 'args', 'fires', 'undefined'], required=.5, cvs=.3, raises=.15, nlis=2, nested=.2, bad=0,
              obs=.3, refs=('nxt', 'lst', 'dct', 'tup', 'uni'), newreg=.4,
              extra=('int', 'float', 'str', 'bool', 'choice', 'list', 'dict', 'datetime')).setup()
    return m.run(dict(deser=12, set=3, new=1, cycle=1, registry=1, listen=1, enter=1, leave=2), 26)


# -----------------------------------------------------------------------------
class Lattice(Machine):
    """classes with several bases"""

    # the others may be listeners of some class: an instance attribute would hide the method
    assignable = ('p1',)

    def setup(self):
        g = self.g
        self.cids = []
        self.names = ['p0', 'p1', 'p2', 'p3']
        self.lnames = ['l0', 'l1', 'l2', 'p0', 'cv0', 'cv1']
        for i in range(g.ch([3, 4, 5, 6])):
            self.lclass('K%d' % i)
        for _ in range(3):
            self.new()
        return self

    def mro(self, bases):
        try:
            return [k.__name__ for k in type('x', tuple(self.dummy[b] for b in bases), {}).__mro__[1:] if k is not object]
        except TypeError:
            return None

    def bases(self):
        g = self.g
        if not self.cids or g.p(.15):
            return ['Root']
        k = g.ch([1, 2, 2, 3])
        return g.r.sample(self.cids, min(k, len(self.cids)))

    def resolve(self, mro, body):
        """name -> body entry that attribute lookup finds"""
        out = {}
        for b in [body] + [self.bodies[k] for k in mro if k in self.bodies]:
            for e in b:
                out.setdefault(e[1], e)
        return out

    def lclass(self, cid):
        g = self.g
        if not hasattr(self, 'dummy'):
            self.dummy, self.bodies, self.dfl = {'Root': type('Root', (), {})}, {}, {}
        bases = self.bases()
        mro = self.mro(bases)
        body, used = [], set()
        for _ in range(g.ch([0, 1, 2, 3])):
            n = g.ch(self.names)
            if n in used:
                continue
            used.add(n)
            x = g.r.random()
            if x < .75:
                body.append(body_prop(n, self.prop(), 'doc %s of %s' % (n, cid)))
            elif x < .85:
                body.append(['plain', n, {}, ''])
            elif x < .93 and n not in self.assignable:
                body.append(['cv', n, {'lid': self.newlid(), 'prog': [['nop']]}, ''])
            else:
                body.append(body_prop(n, P('gettable', dflt=['val', I(g.int_())])))
        look = self.resolve(mro or [], body)
        mut = [(n, e[2]) for n, e in sorted(look.items()) if e[0] == 'prop' and e[2]['k'] not in ('gettable', 'ren', 'dyn', 'uuid')]
        if g.p(.2) and mut and 'rn' not in used:
            used.add('rn')
            body.append(body_prop('rn', P('ren', new=g.ch(mut)[0], warn=g.p(.5))))
        for _ in range(g.r.randrange(self.opt['nlis'] + 1)):
            n = g.ch(self.lnames)
            if n in used:
                continue
            used.add(n)
            x = g.r.random()
            if x < .6 and mut:
                body.append(['obs', n, self.listener([m for m in mut if m[0] != n] or mut), ''])
            elif x < .8:
                body.append(['cv', n, {'lid': self.newlid(), 'prog': g.ch([[['nop']], [['nop']], [['raise', 'ValueError']]])}, ''])
            elif x < .9:
                body.append(['plain', n, {}, ''])
            else:
                body.append(body_prop(n, P('int', req=False)))
        look = self.resolve(mro or [], body)
        mut = [(n, e[2]) for n, e in sorted(look.items()) if e[0] == 'prop' and e[2]['k'] not in ('gettable', 'ren', 'dyn', 'uuid')]
        g.r.shuffle(body)
        dflts = []
        for n, d in mut:
            if g.p(self.opt.get('cdfl', .15)):
                dflts.append([n, g.default(d)])
        kw = {}
        if g.p(self.opt.get('newreg', .1)):
            kw['newreg'] = True
        if self.cids and g.p(self.opt.get('dupname', 0)):
            kw['name'] = g.ch(self.cids)
        self.docs(kw, look)
        spoiled = g.p(self.opt.get('spoil', 0)) and self.spoil(body, dflts, mut, kw, look)
        e = self.s.do('defclass', d=klass(cid, body, bases=bases, dflts=dflts, **kw))
        if e['res']['ok'] and mro is not None:
            self.cids.append(cid)
            self.dummy[cid] = type(cid, tuple(self.dummy[b] for b in bases), {})
            self.bodies[cid] = body
            self.props[cid] = mut
            self.spec[cid] = [(n, x[2]) for n, x in sorted(look.items()) if x[0] == 'prop' and (x[2]['k'] == 'gettable' or x[2]['k'] == 'ren' and x[2]['new'] in dict(mut))]
            if g.p(.5):
                self.s.do('props', c=cid)
            if g.p(self.opt.get('doc', .1)):
                self.s.do('doc', c=cid)
        elif g.p(.7):      # what existed is unaffected
            for k in self.cids[-2:]:
                self.s.do('props', c=k)
                self.s.do('registry', c=k)

    def docs(self, kw, look):
        pass

    def spoil(self, body, dflts, mut, kw, look):
        """one mistake in the definition"""
        g = self.g
        x = g.r.randrange(7)
        if x == 0:
            body.append(body_prop('bad', P('ren', new=g.ch(['nope', 'l0x']))))
        elif x == 1:
            lis = {'lid': self.newlid(), 'mode': g.ch(['validate', 'observe_change', 'observe_set']), 'all': False,
                   'names': g.ch([['nope'], [m[0] for m in mut[:1]] + ['nope']]), 'prog': [['nop']]}
            body.append(['obs', 'badl', lis, ''])
        elif x == 2:
            imm = [n for n, e in look.items() if e[0] == 'prop' and e[2]['k'] in ('gettable', 'ren')]
            if not imm:
                return False
            body.append(['obs', 'badl', {'lid': self.newlid(), 'mode': 'observe_set', 'all': False, 'names': [g.ch(imm)], 'prog': [['nop']]}, ''])
        elif x == 3:
            dflts.append(['nope', ['val', I(1)]])
        elif x == 4 and mut:
            n, d = g.ch(mut)
            for q in [q for q in dflts if q[0] == n]:
                dflts.remove(q)
            dflts.append([n, g.ch([['val', ['o', 'o1']], ['call', ['o', 'o1']]])])
        elif x == 5:
            kw['docpriv'] = ['bad']
        else:
            kw['docord'] = g.ch([['bad'], ['list', ['nope']], ['list', []]])
        return True

    def new(self):
        g = self.g
        cs = [c for c in self.cids if self.props[c]]
        if not cs:
            return None
        c = g.ch(cs)
        kw = []
        for n, d in self.props[c]:
            if g.p(.3):
                kw.append([n, g.value(d, .1)])
        g.r.shuffle(kw)
        e = self.s.do('new', c=c, kw=kw)
        if e['res']['ok']:
            self.objs.append((first(e), c))
        return e

    def derive(self):
        if len(self.cids) < 9:
            self.lclass('K%d' % (len(self.cids) + 10 + self.lid))

    def registry(self):
        if self.cids:
            self.s.do('registry', c=self.g.ch(self.cids))

    def named(self):
        if self.cids:
            self.s.do('props', c=self.g.ch(self.cids))

    def doctext(self):
        if self.cids:
            self.s.do('doc', c=self.g.ch(self.cids))

    def run(self, weights, n):
        ops = [k for k, w in sorted(weights.items()) for _ in range(w)]
        for _ in range(n):
            op = self.g.ch(ops)
            if not self.objs and op not in ('new', 'derive', 'registry', 'named', 'doctext'):
                op = 'derive'
            getattr(self, op)()
        while self.open:
            self.leave()
        return self.s


def c06(seed, sid):
    m = Lattice(seed, sid, ['ok', 'fires', 'heap', 'kind', 'undefined'], raises=.1, nlis=4, nested=.15, cdfl=0, newreg=0, doc=0, spoil=.1,
                kinds=('int', 'int', 'str', 'list'), defaults=.4, required=.4, sprob=.1).setup()
    return m.run(dict(set=12, dele=2, reset=1, validate=2, new=3, listen=2, derive=2), 34)


def c12(seed, sid):
    m = Lattice(seed, sid, ['ok', 'kind', 'heap', 'value', 'fires', 'undefined'], raises=0, nlis=1, nested=.1, cdfl=.5, newreg=0, doc=0, spoil=.15,
                kinds=('int', 'str', 'list', 'dict', 'set', 'float', 'bool', 'inst', 'list'), defaults=.8, required=.4, sprob=.2, obs=.3)
    setup_insts(m.g, m.s, 1)
    m.setup()
    return m.run(dict(new=10, reset=8, set=4, dele=4, poke=6, grab=2, mutate=4, get=2, derive=3), 34)


def c13(seed, sid):
    m = Lattice(seed, sid, ['ok', 'kind', 'heap', 'value', 'undefined'], raises=0, nlis=1, nested=0, cdfl=.15, newreg=.15, doc=0, spoil=.3, dupname=.25,
                kinds=('int', 'str', 'list', 'bool', 'float'), defaults=.5, required=.5, sprob=.3).setup()
    return m.run(dict(derive=6, registry=3, named=4, new=3, set=5, get=5, dele=1), 26)
