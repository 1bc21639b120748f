"""More scenarios for exhaustive exploration: serialization, special properties, defaults, classes, containers, links, unions, arrays."""
from .explore import op
from .gen import body_prop, klass
from .hp import P
from .scen import (CH2, EQVALS, NUMS, OTHERS, TEXTS, allowed, at, boxes, cont_descs, cont_values, cv, grid, h_of, lis, obs, scalar_descs, simple, sets,
                   stable, three)
from .terms import B, D, DT, F, H, I, L, N, S, SE, TU, UND


def J(cls=None, **kw):
    """a serialized object"""
    ps = [(S('__class__'), S(cls))] if cls else []
    return D(*(ps + [(S(n), v) for n, v in kw.items()]))


def arr(kind, shape, *xs, **kw):
    return ['a', kw.get('cls', 'ndarray'), kind, list(shape), list(xs)]


def fs(*xs):
    return [F(x) for x in xs]


# -----------------------------------------------------------------------------
# serialization
def writes(d, v):
    """values whose text the specification settles"""
    t = str(v)
    if d['k'] == 'complex':
        return v[0] == 'c' and v[1][2] == 0 and v[2][2] == 0 or v[0] in ('i', 'b') or v[0] == 'f' and v[2] == 0
    if d['k'] == 'prop':
        return v[0] in ('i', 's', 'b', 'f', 'inf')
    return "'npb'" not in t


def C09():
    follow = ('ser', 'copy')
    out = []
    for n, d in scalar_descs().items():
        if not stable(d):
            continue
        vals = [v for v in NUMS + TEXTS + OTHERS if allowed(d, v) and writes(d, v)]
        if d['k'] in ('color', 'choice', 'url', 'datetime', 'str'):
            vals = [v for v in vals if v[0] in ('s', 't', 'l', 'o') or v[0] == 'dt']
        out.append(('c09-' + n, grid(d, vals, follow, laws=['round'])))
    for n, d in cont_descs().items():
        if 'prop' in (d.get('prop') or {}).get('k', '') or n in ('dict', 'tuple-inst'):
            continue
        if "'N'" in n or 'coerce' in n:
            continue
        vals = [v for v in cont_values(None) if "'none'" not in str(v) and "['o'," not in str(v) and v[0] in ('l', 't', 'S', 'd', 'h') and 'My' not in str(v) and not (v[0] == 'S' and str(v).count("'h'") > 1)]
        out.append(('c09-' + n, grid(d, vals, follow, boxes, laws=['round'])))
    for n, (d, vals) in ARRS.items():
        out.append(('c09-' + n, grid(d, vals, follow, laws=['round'])))
    for n, (d, vals) in UNIS.items():
        out.append(('c09-' + n, grid(d, vals, follow, boxes, laws=['round'])))
    wrapped = {'int': (P('int', ser='wrap'), [I(1), F(2)]), 'str': (P('str', ser='wrap', ccase='upper'), [S('a'), S('')]), 'float': (P('float', ser='wrap'), [I(1), ['inf', 1]]),
               'inst': (P('inst', cls='C0', ser='wrap'), [H('h1'), H('h2')])}
    for n, (d, vals) in wrapped.items():
        if n != 'inst':
            out.append(('c09-wrap-' + n, grid(d, vals, follow, boxes, laws=['round'])))

    def graph(s):
        s.do('defclass', d=klass('A', [body_prop('v', P('int', req=False)), body_prop('nxt', P('inst', cls='Root', req=False)),
                                       body_prop('l', P('list', prop=P('inst', cls='Root'), req=False, obs=True)),
                                       body_prop('d', P('dict', kprop=P('str'), vprop=P('inst', cls='Root'), req=False))]))
        s.do('defclass', d=klass('B', [body_prop('w', P('float', req=True))], bases=['A']))
        s.do('new', c='A', kw=[['v', I(1)]])
        s.do('new', c='B', kw=[['w', F(.5)]])
        ops = at('h1', 'nxt', H('h2'), H('h1')) + at('h2', 'nxt', H('h1')) + at('h1', 'l', L(H('h2'), H('h2')), L()) + at('h2', 'd', D((S('a'), H('h2'))), D((S('a'), H('h1')))) + \
            [op('del', h='h1', n='nxt'), op('del', h='h2', n='w')]
        ops += [op('copy', h=h) for h in ('h1', 'h2')] + [op('ser', h=h, ic=ic, dyn=False) for h in ('h1', 'h2') for ic in (True, False)]
        return {'ops': ops, 'depth': (3, 4), 'laws': ['typed'], 'steplaws': ['pure', 'apart']}
    out.append(('c09-graph', graph))
    return out


# -----------------------------------------------------------------------------
def options(c, vals, both=True):
    return [op('deser', c=c, v=v, tr=tr, strict=st, av=av) for v in vals for tr in (False, True) for st in (False, True) for av in (False, True)]


def C10():
    out = []
    body = [body_prop('a', P('int', min=I(0))), body_prop('b', P('str', req=False)), body_prop('c', P('list', prop=P('int'), req=False))]

    def classes(s):
        s.do('defclass', d=klass('A', body + [obs('w', 'WA', 'observe_set', (), every=True)]))
        s.do('defclass', d=klass('A1', [body_prop('e', P('bool', req=False)), cv('k', 'K1', [['nop']])], bases=['A']))
        s.do('defclass', d=klass('X', [body_prop('a', P('int')), body_prop('z', P('int', req=False))]))
        s.do('defclass', d=klass('R', [body_prop('a', P('int'))], newreg=True))

    flat = [J(), J('A'), J('A', a=I(1)), J(a=I(1), b=S('t')), J('A1', a=I(1), e=B(True)), J('A1', a=I(1), e=S('yes')), J('A1', e=B(False)), J('X', a=I(1)), J('X', z=I(2)), J('Nope', a=I(1)),
            J('A', a=I(-1)), J('A', a=S('q')), J('A', a=I(1), zz=I(2)), J('A', zz=I(2), yy=I(3)), J('A1', a=I(1), z=I(3)), J('A', a=I(1), c=L(I(1), I(2))),
            J('A', a=I(1), c=L(I(1), S('x'))), J('A', a=I(1), c=I(3)), J('A', a=I(1), b=I(4)), J('A', a=S('q'), b=I(4), zz=I(1)), J('R', a=I(1)), J(e=B(True), a=I(2)),
            D((S('__class__'), I(3)), (S('a'), I(1))), I(3), S('A'), L(), N(), J('Root', a=I(1)), J('A', a=S('3')), J('A', a=F(2)), J('A', a=F(2.5)),
            J('A', a=N())]
    for c in ('A', 'A1', 'X', 'R', 'Root'):
        def build(s, c=c):
            classes(s)
            ops = options(c, flat)
            return {'ops': ops, 'depth': (1, 1), 'grid': len(ops), 'steplaws': ['apart'], 'length': 24}
        out.append(('c10-flat-' + c, build))

    def holder(s):
        classes(s)
        s.do('defclass', d=klass('H', [body_prop('i', P('inst', cls='A', req=False)), body_prop('l', P('list', prop=P('inst', cls='A'), req=False)),
                                       body_prop('d', P('dict', kprop=P('str'), vprop=P('inst', cls='A'), req=False)),
                                       body_prop('t', P('tuple', prop=P('inst', cls='A1'), req=False, maxl=1)),
                                       body_prop('u', P('union', props=[P('int'), P('inst', cls='A')], req=False)), body_prop('q', P('int', req=True)), cv('k', 'KH', [['nop']])]))

    ok, sub, bad, unk, other, late = J('A', a=I(1)), J('A1', a=I(2), e=B(True)), J('A', a=S('q')), J('A', a=I(1), zz=I(1)), J('X', a=I(1)), J('A', b=S('x'))
    deep = [J('H', q=I(1), i=x) for x in (ok, sub, bad, unk, other, late, J(a=I(1)), J(), I(3), J('Nope', a=I(1)), J('R', a=I(1)))] + \
        [J('H', q=I(1), l=L(*x)) for x in ((), (ok,), (ok, sub), (ok, bad), (ok, unk), (sub, late), (ok, other), (J(a=I(1)), I(3)))] + \
        [J('H', q=I(1), d=D(*[(S('k%d' % j), x) for j, x in enumerate(xs)])) for xs in ((), (ok, sub), (ok, bad), (unk,), (other,))] + \
        [J('H', q=I(1), t=L(*x)) for x in ((sub,), (ok,), (sub, sub), (J(e=B(True)),))] + \
        [J('H', q=I(1), u=x) for x in (I(3), ok, unk, sub, S('z'))] + [J('H', i=ok), J('H', i=ok, l=L(sub), zz=I(1)), J('H', q=S('x'), i=bad)]
    n = len(deep) // 2
    for nm, vs in (('1', deep[:n]), ('2', deep[n:])):
        def build(s, vs=vs):
            holder(s)
            ops = options('H', vs)
            return {'ops': ops, 'depth': (1, 1), 'grid': len(ops), 'steplaws': ['apart'], 'length': 24}
        out.append(('c10-deep' + nm, build))

    subs = [J('H1', q=I(1), i=x) for x in (ok, sub, unk, other, late)] + [J('H1', q=I(1), l=L(sub, unk)), J('H1', q=I(1), d=D((S('k'), unk))), J('H1', q=I(1), u=unk), J('H1', q=I(1), h=J('H1', q=I(2), i=unk)),
            J('H1', q=I(1), h=J('H', q=I(2), i=sub)), J('H1', i=ok), J('H1', q=I(1), zz=I(1))]
    for c in ('H', 'Root'):
        def build(s, c=c):
            holder(s)
            s.do('defclass', d=klass('H1', [body_prop('h', P('inst', cls='H', req=False))], bases=['H']))
            ops = options(c, subs)
            return {'ops': ops, 'depth': (1, 1), 'grid': len(ops), 'steplaws': ['apart'], 'length': 24}
        out.append(('c10-sub-' + c, build))

    def special(s):
        s.do('defclass', d=klass('A', [body_prop('p', P('int', req=False)), body_prop('g', P('gettable', dflt=['val', I(3)])), body_prop('rn', P('ren', new='p')),
                                       body_prop('dy', P('dyn', prop=P('int', max=I(5)), get=['get', 'p'], set=[['copy', 'self', 'p']])), body_prop('ro', P('dyn', prop=P('int'), get=['const', I(4)])),
                                       body_prop('w', P('int', ser='wrap', req=False)), obs('o', 'O', 'observe_change', ['p'])]))
        vs = [J('A', g=I(3)), J('A', g=I(4)), J('A', rn=I(1)), J('A', rn=S('x')), J('A', p=I(1), rn=I(2)), J('A', rn=I(2), p=I(1)), J('A', dy=I(1)), J('A', dy=I(9)), J('A', ro=I(4)), J('A', ro=I(5)),
              J('A', w=L(I(1))), J('A', w=I(1)), J('A', w=L(S('x'))), J('A', p=I(1), dy=I(2)), J('A', dy=I(2), p=I(1)), J('A', g=I(3), zz=I(1)), J('A', o=I(1)), J('A', validate=I(1)), J('A', _props=I(1))]
        ops = options('A', vs)
        return {'ops': ops, 'depth': (1, 1), 'grid': len(ops), 'steplaws': ['apart'], 'length': 24}
    out.append(('c10-special', special))

    def listening(s):
        s.do('defclass', d=klass('A', [body_prop('p', P('int', req=False, max=I(5))), body_prop('q', P('int', req=True)), obs('v', 'V', 'validate', ['p'], [['when', I(2), [['raise', 'ValueError']]], ['when', I(3), [['put', I(4)]]]]),
                                       obs('o', 'O', 'observe_set', (), every=True), obs('c', 'C', 'observe_change', ['p'], [['when', I(1), [['set', 'self', 'q', I(7)]]]]),
                                       cv('k', 'K', [['le', 'p', 'q', 'ValueError']])]))
        ops = []
        for x, t in (('a', ['all']), ('v', ['validate']), ('o', ['observe_change', 'observe_set'])):
            ops += [op('enter', x=x, types=t, max=1), op('exit', x=x, exc=False)]
        ops += [op('deser', c='A', v=v, tr=False, strict=False, av=av) for v in (J('A', p=I(1)), J('A', p=I(2)), J('A', p=I(3), q=I(4)), J('A', q=I(3), p=I(4)), J('A', p=I(9)), J('A', q=I(1))) for av in (False, True)]
        return {'ops': ops, 'depth': (3, 4), 'steplaws': ['apart'], 'laws': ['scoped']}
    out.append(('c10-scopes', listening))
    return out


# -----------------------------------------------------------------------------
def C11():
    p = P('int', req=False, max=I(5), dflt=['val', I(1)])
    out = []
    dyns = {'ro': P('dyn', prop=P('int'), get=['const', I(4)]), 'bad': P('dyn', prop=P('int', max=I(5)), get=['const', I(9)]), 'none': P('dyn', prop=P('int'), get=['const', N()]),
            'get': P('dyn', prop=P('int', max=I(3)), get=['get', 'p']), 'set': P('dyn', prop=P('int', max=I(3)), get=['get', 'p'], set=[['copy', 'self', 'p']]),
            'del': P('dyn', prop=P('int'), get=['get', 'p'], set=[['copy', 'self', 'p']], dele=[['del', 'self', 'p']]),
            'list': P('dyn', prop=P('list', prop=P('int', max=I(3))), get=['list', ['p', 'q']]), 'cast': P('dyn', prop=P('float', cast=True), get=['get', 'p'], set=[['set', 'self', 'p', I(3)]]),
            'upper': P('dyn', prop=P('str', ccase='upper'), get=['const', S('ab')], set=[['nop']]), 'raise': P('dyn', prop=P('int'), get=['get', 'p'], set=[['raise', 'ValueError']], dele=[['raise', 'KeyError']])}
    for n, d in dyns.items():
        nset = [I(2), I(4), S('x'), UND, N()] if n != 'upper' else [S('x'), I(2)]
        ops = at('h1', 'p', I(2), I(4), UND) + at('h1', 'q', I(1), S('z')) + at('h1', 'dy', *nset) + \
            [op('get', h='h1', n='dy'), op('del', h='h1', n='dy'), op('reset', h='h1', n='dy'), op('new', c='A', kw=[['dy', nset[0]]]), op('new', c='A', kw=[['p', I(3)], ['dy', nset[0]]]),
             op('ser', h='h1', ic=True, dyn=True), op('ser', h='h1', ic=False, dyn=False), op('validate', h='h1'), op('copy', h='h1')] + ([op('equal', a=H('h1'), b=H('h2'))] if n in ('ro', 'none', 'cast', 'upper') else [])
        out.append(('c11-dyn-' + n, simple([body_prop('p', p), body_prop('q', P('int', req=False, max=I(4))), body_prop('dy', d), obs('w', 'W', 'observe_set', (), every=True), obs('x', 'X', 'validate', ['p'])],
                                           [[], []], ops, (2, 3))))
    for n, g in (('val', P('gettable', dflt=['val', I(3)])), ('call', P('gettable', dflt=['call', L(I(1))])), ('undef', P('gettable')), ('uuid', P('uuid'))):
        ops = at('h1', 'g', I(3), I(4), UND, S('x')) + [op('get', h='h1', n='g'), op('del', h='h1', n='g'), op('reset', h='h1', n='g'), op('new', c='A', kw=[['g', I(3)]]), op('new', c='A', kw=[['g', I(4)], ['p', I(1)]]),
                                                        op('new', c='A', kw=[]), op('validate', h='h1')] + at('h1', 'p', I(2))
        if n != 'uuid':
            ops += [op('ser', h='h1', ic=True, dyn=True), op('equal', a=H('h1'), b=H('h2')), op('copy', h='h1')]
        out.append(('c11-get-' + n, simple([body_prop('g', g), body_prop('p', p), obs('w', 'W', 'observe_set', (), every=True)], [[], []], ops, (2, 2))))
    for w in (False, True):
        def build(s, w=w):
            s.do('defclass', d=klass('A', [body_prop('p', p), body_prop('rn', P('ren', new='p', warn=w)), body_prop('l', P('list', prop=P('int'), obs=True, dflt=['call', L()])), body_prop('rl', P('ren', new='l', warn=w)),
                                           obs('w', 'W', 'observe_set', (), every=True), obs('x', 'X', 'validate', ['p'], [['when', I(4), [['raise', 'ValueError']]]])]))
            s.do('defclass', d=klass('B', [body_prop('p', P('str', req=False)), body_prop('r2', P('ren', new='rn', warn=w)) if False else body_prop('z', P('int', req=False))], bases=['A']))
            s.do('new', c='A', kw=[])
            s.do('new', c='B', kw=[])
            ops = at('h1', 'rn', I(2), I(4), I(9), S('x'), UND) + at('h2', 'rn', S('x'), I(2)) + at('h1', 'p', I(3)) + at('h1', 'rl', L(I(1)), L(S('q')))
            ops += [op('get', h=h, n='rn') for h in ('h1', 'h2')] + [op('del', h='h1', n='rn'), op('reset', h='h1', n='rn'), op('validate', h='h1'), op('copy', h='h1'), op('ser', h='h1', ic=True, dyn=False),
                                                                    op('ser', h='h1', ic=True, dyn=True), op('equal', a=H('h1'), b=H('h1')), op('grab', x='k', h='h1', n='l'), op('mut', x='k', m='append', args=[I(5)]),
                                                                    op('mut', x='k', m='append', args=[S('x')]), op('get', h='h1', n='l')]
            ops += [op('new', c='A', kw=kw) for kw in ([['rn', I(2)]], [['rn', I(9)]], [['p', I(1)], ['rn', I(2)]], [['rn', I(2)], ['p', I(1)]])] + [op('new', c='B', kw=[['rn', S('s')]])]
            ops += [op('deser', c='A', v=v, tr=False, strict=st, av=False) for v in (J(rn=I(2)), J(rn=S('x')), J(rn=I(2), p=I(3))) for st in (False, True)]
            return {'ops': ops, 'depth': (2, 3), 'laws': ['typed'], 'steplaws': ['pure']}
        out.append(('c11-ren-' + ('loud' if w else 'quiet'), build))
    return out


# -----------------------------------------------------------------------------
def C12():
    out = []
    kinds = {'int': P('int', req=False, dflt=['val', I(2)]), 'zero': P('int', req=False, dflt=['val', I(0)]), 'call': P('int', req=True, dflt=['call', I(2)]), 'none': P('int', req=True),
             'list': P('list', prop=P('int'), dflt=['call', L()], req=False), 'listv': P('list', prop=P('int'), dflt=['val', L(I(1))], req=False), 'lobs': P('list', prop=P('int'), dflt=['val', L(I(1))], obs=True),
             'sobs': P('set', prop=P('int'), dflt=['call', SE(I(1))], obs=True), 'dobs': P('dict', kprop=P('str'), vprop=P('int'), dflt=['val', D((S('a'), I(1)))], obs=True),
             'str': P('str', req=False, ccase='upper', dflt=['val', S('a')]), 'empty': P('str', dflt=['val', S('')], req=False), 'false': P('bool', dflt=['val', B(False)]), 'inst': P('inst', cls='C', dflt=['cls', 'C']),
             'instu': P('inst', cls='C', req=False), 'union': P('union', props=[P('int', dflt=['val', I(5)]), P('str')]), 'unionu': P('union', props=[P('str'), P('int', dflt=['val', I(5)])]),
             'vec': P('vec3', dflt=['val', S('x')]), 'choice': P('choice', choices=CH2, dflt=['val', S('X')]), 'color': P('color', dflt=['val', S('red')]), 'opt': P('float', req=False, dflt=['val', F(.5)])}
    subd = {'int': [['val', I(7)], ['undef'], ['call', I(0)]], 'list': [['val', L(I(4))], ['call', L()]], 'lobs': [['call', L(I(4))]], 'str': [['val', S('q')], ['undef']], 'inst': [['cls', 'D'], ['undef']],
            'instu': [['cls', 'C']], 'zero': [['val', I(5)]], 'none': [['val', I(0)]], 'opt': [['undef']], 'call': [['val', I(1)]], 'union': [['val', S('t')], ['undef']], 'false': [['val', B(True)]], 'sobs': [['val', SE(I(2))]] if False else [],
            'dobs': [['call', D()]], 'listv': [['undef']], 'empty': [['val', S('e')]]}
    newv = {'int': I(9), 'zero': I(9), 'call': I(9), 'none': I(9), 'list': L(I(9)), 'listv': L(I(9)), 'lobs': L(I(9)), 'sobs': SE(I(9)), 'dobs': D((S('z'), I(9))), 'str': S('z'), 'empty': S('z'), 'false': B(True),
            'inst': D((S('v'), I(9))), 'instu': D((S('v'), I(9))), 'union': S('z'), 'unionu': I(9), 'vec': S('y'), 'choice': S('c'), 'color': S('k'), 'opt': F(2)}
    pokes = {'list': L(I(8)), 'listv': L(I(8))}
    grabs = {'lobs': ('append', [I(8)]), 'sobs': ('add', [I(8)]), 'dobs': ('__setitem__', [S('y'), I(8)])}
    for n, d in kinds.items():
        for j, dd in enumerate([None] + subd.get(n, [])):
            def build(s, n=n, d=d, dd=dd):
                s.do('defclass', d=klass('C', [body_prop('v', P('int', dflt=['val', I(1)]))]))
                s.do('defclass', d=klass('D', [body_prop('l', P('list', prop=P('int'), dflt=['call', L()]))], bases=['C']))
                s.do('defclass', d=klass('A', [body_prop('p', d), obs('w', 'W', 'observe_set', (), every=True), obs('x', 'X', 'validate', ['p'])]))
                s.do('defclass', d=klass('B', [], bases=['A'], dflts=[['p', dd]] if dd else []))
                s.do('defclass', d=klass('E', [body_prop('q', P('int', req=False))], bases=['B']))
                hs = [h_of(s.do('new', c=c, kw=[])) for c in 'ABE']
                ops = [op('new', c=c, kw=kw) for c in 'ABE' for kw in ([], [['p', newv[n]]])]
                for h in hs:
                    ops += at(h, 'p', newv[n]) + [op('reset', h=h, n='p'), op('del', h=h, n='p')]
                    if n in pokes:
                        ops.append(op('poke', h=h, n='p', v=pokes[n]))
                    if n in grabs:
                        ops += [op('grab', x='k' + h, h=h, n='p'), op('mut', x='k' + h, m=grabs[n][0], args=grabs[n][1])]
                    if n in ('inst',) or dd and dd[0] == 'cls':
                        ops.append(op('get', h=h, n='p'))
                ops += [op('validate', h=hs[1])]
                return {'ops': ops, 'depth': (2, 3), 'laws': ['typed'], 'steplaws': ['pure', 'apart']}
            out.append(('c12-%s%s' % (n, j or ''), build))

    def diamond(s):
        s.do('defclass', d=klass('A', [body_prop('p', P('int', dflt=['val', I(1)])), body_prop('q', P('int', dflt=['val', I(2)]))]))
        s.do('defclass', d=klass('B', [], bases=['A'], dflts=[['p', ['val', I(3)]]]))
        s.do('defclass', d=klass('C', [body_prop('p', P('int', dflt=['val', I(4)]))], bases=['A'], dflts=[['q', ['call', I(5)]]]))
        ops, n = [], 0
        for bases in (['B', 'C'], ['C', 'B'], ['B'], ['C']):
            for dflts in ([], [['q', ['val', I(8)]]], [['p', ['undef']]], [['zz', ['val', I(1)]]], [['p', ['val', S('x')]]], [['p', ['val', I(6)]], ['q', ['undef']]]):
                for body in ([], [body_prop('p', P('int'))], [body_prop('p', P('str', dflt=['val', S('t')], req=False))]):
                    if body and dflts and dflts[0][0] == 'p' and body[0][2]['k'] == 'str':
                        continue
                    n += 1
                    ops.append(op('defclass', d=klass('D%d' % n, body, bases=bases, dflts=dflts)))
                    ops.append(op('new', c='D%d' % n, kw=[]))
        return {'ops': ops, 'depth': (2, 2), 'laws': [], 'steplaws': ['pure']}
    out.append(('c12-diamond', diamond))
    return out


# -----------------------------------------------------------------------------
def C13():
    out = []
    i, st = P('int', req=False), P('str', req=False)
    heads = {'over': [body_prop('p', st)], 'none': [], 'plain': [['plain', 'p', {}, '']], 'ren': [body_prop('r', P('ren', new='p'))], 'badren': [body_prop('r', P('ren', new='nope'))],
             'lis': [obs('l', 'LX', 'observe_set', ['p'])], 'badlis': [obs('l', 'LX', 'observe_set', ['nope'])], 'order': [body_prop('z', i), body_prop('a', i)], 'cvp': [cv('p', 'KX', [['nop']])],
             'dyn': [body_prop('dy', P('dyn', prop=P('int'), get=['get', 'p']))], 'get': [body_prop('p', P('gettable', dflt=['val', I(1)]))], 'lisimm': [body_prop('p', P('gettable', dflt=['val', I(1)])), obs('l', 'LX', 'observe_set', ['p'])]}
    kws = {'': {}, 'reg': {'newreg': True}, 'name': {'name': 'A'}, 'ordbad': {'docord': ['list', ['nope']]}, 'privbad': {'docpriv': ['bad']}, 'dfl': {'dflts': [['p', ['val', I(3)]]]}, 'dflbad': {'dflts': [['nope', ['val', I(3)]]]}}

    def pre(s):
        s.do('defclass', d=klass('A', [body_prop('p', i), body_prop('q', i), obs('l', 'LA', 'validate', ['p'])]))
        s.do('defclass', d=klass('B', [body_prop('p', st), body_prop('b', i)], bases=['A']))
        s.do('defclass', d=klass('C', [body_prop('q', P('list', prop=P('int'), req=False)), ['plain', 'l', {}, '']], bases=['A']))
        s.do('defclass', d=klass('M', [body_prop('p', P('bool', req=False)), body_prop('m', i)]))
    for hn, body in heads.items():
        def build(s, hn=hn, body=body):
            pre(s)
            ops, n = [], 0
            for bases in (['A'], ['B', 'C'], ['C', 'B'], ['B', 'M'], ['M', 'A'], ['C', 'M', 'A'], ['A', 'B'], ['Root'], ['B', 'Root'], ['M']):
                for kn, kw in kws.items():
                    if kn == 'dfl' and (hn != 'none' or bases[0] != 'A') or kn and hn in ('lis', 'order', 'dyn', 'cvp', 'lisimm') or kn.endswith('bad') and hn.startswith('bad'):
                        continue
                    if kn == 'dflbad' and hn not in ('none',) or kn in ('ordbad', 'privbad') and hn in ('lisimm',) or bases == ['A', 'B'] and kn:
                        continue
                    if hn in ('ren', 'lis', 'dyn') and 'Root' in bases and len(bases) == 1:
                        continue
                    n += 1
                    c = 'D%d' % n
                    ops.append(op('defclass', d=klass(c, body, bases=bases, **kw)))
            k = len(ops)
            ops += [op('registry', c='A'), op('registry', c='Root'), op('props', c='A')]
            return {'ops': ops, 'depth': (1, 1), 'grid': k, 'every': 6, 'steplaws': ['pure'], 'length': 30}
        out.append(('c13-' + hn, build))

    def chain(s):
        pre(s)
        ops = [op('defclass', d=klass('D', [], bases=['B', 'C'])), op('defclass', d=klass('E', [body_prop('p', i)], bases=['D'])), op('defclass', d=klass('F', [['plain', 'q', {}, '']], bases=['D'])),
               op('defclass', d=klass('G', [], bases=['E', 'F'])), op('defclass', d=klass('X', [], bases=['D'], name='A', newreg=True)), op('defclass', d=klass('Y', [], bases=['X'], name='B')),
               op('defclass', d=klass('Z', [body_prop('r', P('ren', new='q'))], bases=['F'])), op('registry', c='A'), op('registry', c='M')]
        ops += [op(o, c=c) for c in ('D', 'E', 'F', 'G', 'X', 'Y') for o in ('props',)] + [op('registry', c='X'), op('registry', c='Y')]
        ops += [op('new', c=c, kw=[['p', v]]) for c in ('D', 'E', 'G') for v in (I(1), S('x'))] + [op('new', c='F', kw=[['q', I(1)]])]
        ops += [op('deser', c='A', v=J(x), tr=True, strict=False, av=False) for x in ('A', 'B', 'D', 'E')]
        return {'ops': ops, 'depth': (3, 4), 'steplaws': ['pure'], 'laws': ['typed']}
    out.append(('c13-chain', chain))
    return out


# -----------------------------------------------------------------------------
def C14():
    out = []
    lm = [('append', [I(2)]), ('append', [I(9)]), ('append', [['f', 2048, 4]]), ('insert', [I(0), I(1)]), ('insert', [I(-5), S('x')]), ('extend', [L(I(3), I(1))]), ('extend', [TU(I(9))]), ('extend', [I(3)]), ('pop', []), ('pop', [I(0)]),
          ('pop', [I(7)]), ('remove', [I(1)]), ('remove', [I(8)]), ('clear', []), ('reverse', []), ('sort', []), ('__setitem__', [I(0), I(3)]), ('__setitem__', [I(0), I(9)]), ('__setitem__', [I(5), I(1)]), ('__delitem__', [I(0)]),
          ('__delitem__', [I(6)]), ('setslice', [I(0), I(1), L(I(3), I(2))]), ('setslice', [I(1), I(1), L(S('x'))]), ('delslice', [I(0), I(1)])]
    sm = [('add', [I(2)]), ('add', [I(1)]), ('add', [I(9)]), ('add', [S('x')]), ('discard', [I(1)]), ('discard', [I(7)]), ('remove', [I(1)]), ('remove', [I(7)]), ('pop', []), ('clear', []), ('update', [L(I(2), I(3))]), ('update', [SE(I(9))]),
          ('intersection_update', [L(I(2))]), ('difference_update', [L(I(1))]), ('symmetric_difference_update', [L(I(1), I(3))]), ('symmetric_difference_update', [L(I(9))])]
    dm = [('__setitem__', [S('a'), I(2)]), ('__setitem__', [S('b'), I(9)]), ('__setitem__', [I(1), I(1)]), ('__setitem__', [S('b'), I(1)]), ('__delitem__', [S('a')]), ('__delitem__', [S('z')]), ('pop', [S('a')]), ('pop', [S('z')]), ('pop', [S('z'), I(4)]),
          ('popitem', []), ('clear', []), ('update', [D((S('a'), I(3)), (S('c'), I(1)))]), ('update', [D((S('a'), I(9)))]), ('update', [L(TU(S('q'), I(2)))]), ('setdefault', [S('a'), I(3)]), ('setdefault', [S('e'), I(3)]), ('setdefault', [S('e'), I(9)])]
    augs = {'list': [('__iadd__', L(I(2))), ('__iadd__', L(I(9))), ('__iadd__', TU(I(1))), ('__imul__', I(2)), ('__imul__', I(0)), ('__iadd__', I(3))],
            'set': [('__ior__', SE(I(2))), ('__ior__', SE(I(9))), ('__iand__', SE(I(1), I(2))), ('__isub__', SE(I(1))), ('__ixor__', SE(I(1), I(3))), ('__ior__', L(I(2)))],
            'dict': [('__ior__', D((S('b'), I(2)))), ('__ior__', D((S('b'), I(9)))), ('__ior__', L(TU(S('q'), I(1))))]}
    opers = {'list': [('copy', []), ('__add__', [L(I(2))]), ('__add__', [L(S('x'))]), ('__radd__', [L(I(2))]), ('__mul__', [I(2)]), ('__rmul__', [I(0)])],
             'set': [('copy', []), ('__or__', [SE(I(2))]), ('__and__', [SE(I(1))]), ('__xor__', [SE(I(1), I(2))]), ('__sub__', [SE(I(1))]), ('union', [L(I(9))]), ('__ror__', [SE(I(2))]), ('difference', [L(I(1))])],
             'dict': [('copy', []), ('__or__', [D((S('b'), I(2)))]), ('__ror__', [D((S('b'), S('x')))])]}
    vals = {'list': (L(I(1)), L(I(2), I(3)), P('list', prop=P('int', max=I(5)), obs=True, req=False)), 'set': (SE(I(1)), SE(I(2), I(3)), P('set', prop=P('int', max=I(5)), obs=True, req=False)),
            'dict': (D((S('a'), I(1))), D((S('b'), I(2))), P('dict', kprop=P('str'), vprop=P('int', max=I(5)), obs=True, req=False))}
    muts = {'list': lm, 'set': sm, 'dict': dm}
    look = [obs('w', 'W', 'observe_set', (), every=True), obs('c', 'C', 'observe_change', ['p'])]
    for k, (v1, v2, d) in vals.items():
        ms = [op('mut', x='x', m=m, args=a) for m, a in muts[k]]
        gx = op('grab', x='x', h='h1', n='p')

        def all_(s, k=k, v1=v1, d=d, ms=ms):
            s.do('defclass', d=klass('A', [body_prop('p', d)] + look))
            s.do('new', c='A', kw=[['p', v1]])
            s.do('grab', x='x', h='h1', n='p')
            return {'ops': ms + [op('aug', h='h1', n='p', m=m, args=[a]) for m, a in augs[k]] + [op('validate', h='h1')], 'depth': (2, 3), 'laws': ['typed', 'tracked'], 'steplaws': ['pure']}
        out.append(('c14-%s-all' % k, all_))

        def hold(s, k=k, v1=v1, v2=v2, d=d):
            s.do('defclass', d=klass('A', [body_prop('p', d), body_prop('q', d)] + look))
            s.do('new', c='A', kw=[['p', v1]])
            s.do('new', c='A', kw=[])
            add = {'list': 'append', 'set': 'add', 'dict': '__setitem__'}[k]
            a = {'list': [I(2)], 'set': [I(2)], 'dict': [S('b'), I(2)]}[k]
            bad = {'list': [S('x')], 'set': [S('x')], 'dict': [S('b'), S('x')]}[k]
            ops = [op('grab', x=x, h=h, n=n) for x, h, n in (('x', 'h1', 'p'), ('y', 'h1', 'q'), ('z', 'h2', 'p'))]
            ops += [op('mut', x=x, m=add, args=v) for x in 'xyz' for v in (a, bad)] + [op('mut', x='x', m='clear', args=[])]
            ops += at('h1', 'p', v1, v2) + at('h1', 'q', v1) + at('h2', 'p', v2) + [op('del', h='h1', n='p'), op('reset', h='h1', n='p')]
            ops += [op('oper', x='x', m=m, args=a, y='o') for m, a in opers[k][:3]] + [op('mut', x='o', m=add, args=bad)]
            return {'ops': ops, 'depth': (4, 5), 'laws': ['tracked'], 'steplaws': ['pure']}
        out.append(('c14-%s-hold' % k, hold))

        def oper(s, k=k, v1=v1, d=d):
            s.do('defclass', d=klass('A', [body_prop('p', d)] + look))
            s.do('new', c='A', kw=[['p', v1]])
            s.do('grab', x='x', h='h1', n='p')
            ops = [op('oper', x='x', m=m, args=a, y='o') for m, a in opers[k]] + [op('mut', x=x, m=m, args=a) for x in 'xo' for m, a in muts[k][:6]] + [op('oper', x='o', m=m, args=a, y='o') for m, a in opers[k][:2]]
            return {'ops': ops, 'depth': (3, 4), 'laws': ['tracked'], 'steplaws': ['pure']}
        out.append(('c14-%s-oper' % k, oper))
        progs = {'put': [], 'raise': [obs('v', 'V', 'validate', ['p'], [['when', {'list': L(I(1), I(2)), 'set': SE(I(1), I(2)), 'dict': D((S('a'), I(2)))}[k], [['raise', 'ValueError']]]])],
                 'mutset': [body_prop('n', P('int', req=False, dflt=['val', I(0)])), obs('v', 'V', 'observe_change', ['p'], [['set', 'self', 'n', I(1)]])],
                 'max': []}
        for pn, extra in progs.items():
            if pn == 'put' or pn == 'max' and k == 'dict':
                continue
            dd = dict(d, maxl=2) if pn == 'max' else d

            def prog(s, dd=dd, extra=extra, ms=ms, gx=gx, v1=v1, k=k):
                s.do('defclass', d=klass('A', [body_prop('p', dd)] + extra + look))
                s.do('new', c='A', kw=[['p', v1]])
                sc = [op('enter', x='a', types=['all'], max=1), op('exit', x='a', exc=False), op('enter', x='b', types=['validate'], max=1), op('exit', x='b', exc=False)]
                return {'ops': [gx] + ms[:8] + sc + [op('aug', h='h1', n='p', m=m, args=[a]) for m, a in augs[k][:2]] + [op('validate', h='h1')], 'depth': (3, 4), 'laws': [], 'steplaws': ['pure']}
            out.append(('c14-%s-%s' % (k, pn), prog))
    nest = P('list', prop=P('list', prop=P('int', max=I(5)), obs=True), obs=True, req=False)
    del nest

    def insts(s):
        boxes(s)
        s.do('defclass', d=klass('A', [body_prop('p', P('list', prop=P('inst', cls='C0'), obs=True, req=False)), body_prop('d', P('dict', kprop=P('str', ccase='upper'), vprop=P('inst', cls='C0'), obs=True, req=False))] + look))
        s.do('new', c='A', kw=[['p', L(H('h1'))], ['d', D((S('a'), H('h1')))]])
        ops = [op('grab', x='x', h='h4', n='p'), op('grab', x='y', h='h4', n='d')]
        ops += [op('mut', x='x', m=m, args=a) for m, a in (('append', [H('h2')]), ('append', [D((S('v0'), I(3)))]), ('append', [D((S('v0'), I(-3)))]), ('append', [I(1)]), ('remove', [H('h1')]), ('__setitem__', [I(0), D((S('v0'), I(4)))]), ('extend', [L(H('h3'), D())]))]
        ops += [op('mut', x='y', m=m, args=a) for m, a in (('__setitem__', [S('b'), H('h2')]), ('__setitem__', [S('a'), D((S('v0'), I(3)))]), ('update', [D((S('a'), H('h2')))]), ('setdefault', [S('a'), H('h3')]), ('pop', [S('A')]))]
        return {'ops': ops, 'depth': (3, 3), 'laws': ['typed'], 'steplaws': ['pure']}
    out.append(('c14-insts', insts))
    return out


# -----------------------------------------------------------------------------
def C15():
    out = []

    def lk(k, a, b, now=False, chg=True, tr='id', **kw):
        return op('links', ls=[[k, a, b]], now=now, chg=chg, tr=tr, **kw)

    def sym(ks, items, now=False, chg=True):
        ls, n = [], 0
        for x in range(len(items)):
            for y in range(len(items)):
                if x != y:
                    ls.append([ks + str(n), items[x], items[y]])
                    n += 1
        return op('links', ls=ls, now=now, chg=chg, tr='id', sym=items), [l[0] for l in ls]
    a, b, c = ['h1', 'p'], ['h2', 'p'], ['h2', 'q']
    body = [body_prop('p', P('int', req=False, max=I(4))), body_prop('q', P('int', req=False, dflt=['val', I(1)]))]

    def base(s, extra=()):
        s.do('defclass', d=klass('A', body + list(extra)))
        s.do('new', c='A', kw=[])
        s.do('new', c='A', kw=[['p', I(2)]])
    svals = at('h1', 'p', I(1), I(2), I(9)) + at('h2', 'p', I(3)) + at('h2', 'q', I(1), I(4))
    for tr in ('id', 'neg', 'inc', 'const'):
        for chg in (True, False):
            def one(s, tr=tr, chg=chg):
                base(s, [obs('w', 'W', 'observe_set', (), every=True)])
                ops = [lk('K', a, b, False, chg, tr), lk('K', a, b, True, chg, tr)] + [op(o, ks=['K']) for o in ('unlink', 'relink')] + svals + [op('del', h='h1', n='p'), op('reset', h='h2', n='q')]
                return {'ops': ops, 'depth': (4, 5), 'laws': [], 'steplaws': ['pure']}
            out.append(('c15-one-%s%s' % (tr, '' if chg else '-set'), one))

    def chain(s):
        base(s)
        ops = [lk('K', a, b), lk('M', b, c, tr='neg'), lk('O', c, a)] + [op(o, ks=[k]) for k in 'KMO' for o in ('unlink', 'relink')] + svals
        return {'ops': ops, 'depth': (5, 6), 'laws': [], 'steplaws': ['pure']}
    out.append(('c15-chain', chain))
    for chg in (True, False):
        for now in (True, False):
            def both(s, chg=chg, now=now):
                base(s, [obs('w', 'W', 'observe_change', (), every=True)])
                o1, k1 = sym('K', [a, b], now, chg)
                o2, k2 = sym('M', [a, b, c], now, chg)
                ops = [o1, o2] + [op(o, ks=k) for k in (k1, k2) for o in ('unlink', 'relink')] + svals + [op('del', h='h1', n='p')]
                return {'ops': ops, 'depth': (4, 5), 'laws': [], 'steplaws': ['pure']}
            out.append(('c15-both%s%s' % ('' if chg else '-set', '-now' if now else ''), both))

    def bad(s):
        base(s)
        s.do('mktrait')
        ops = [lk('K%d' % j, x, y, now=w) for j, (x, y, w) in enumerate([(a, ['h1', 'nope'], False), (['h1', 'nope'], a, False), (['nobody', 'p'], a, False), (a, ['nobody', 'p'], False), (a, a, False), (a, a, True), (['h3', 'zz'], a, False), (a, ['h3', 'zz'], True),
                                                                        (b, a, True), (a, ['h3', 'a'], True), (['h3', 'a'], a, True), (['h3', 'a'], ['h3', 'b'], False)])]
        ops += at('h1', 'p', I(1), I(3)) + at('h2', 'p', I(1)) + at('h3', 'a', I(3), S('x'), I(7)) + at('h3', 'b', I(2)) + [op('unlink', ks=['K%d' % j]) for j in (4, 9, 10)]
        ops += [sym('S', [a, b, ['h1', 'nope']])[0], sym('T', [a, b, ['nobody', 'p']])[0], sym('U', [b, a, b])[0], sym('V', [a, b, ['h3', 'zz']], True)[0]]
        return {'ops': ops, 'depth': (3, 4), 'laws': [], 'steplaws': ['pure']}
    out.append(('c15-ends', bad))

    def listening(s):
        base(s, [obs('v', 'V', 'validate', ['p'], [['when', I(2), [['raise', 'ValueError']]], ['when', I(3), [['put', I(0)]]]]), obs('w', 'W', 'observe_set', ['q', 'p'])])
        sc = [op('enter', x='a', types=['all'], max=1), op('exit', x='a', exc=False), op('enter', x='b', types=['validate'], max=1), op('exit', x='b', exc=False),
              op('enter', x='o', types=['observe_change', 'observe_set'], max=1), op('exit', x='o', exc=False)]
        ops = [lk('K', a, b), lk('M', c, a, chg=False)] + sc + svals + [op('unlink', ks=['K']), op('relink', ks=['K']), op('relink', ks=['M'])]
        return {'ops': ops, 'depth': (4, 5), 'laws': [], 'steplaws': ['pure']}
    out.append(('c15-listen', listening))
    return out


# -----------------------------------------------------------------------------
RED = [S('red'), L(I(1), I(2), I(3))]
_i, _s, _f, _b = P('int', max=I(5)), P('str', regex=['pre', 'a']), P('float'), P('bool')
UVALS = [I(1), I(9), F(2), F(2.5), ['f', 2048, 4], S('a'), S('b'), S('3'), S('red'), S('2020/02/29'), B(True), B(False), L(), L(I(1)), L(S('a')), L(I(9)), L(I(1), I(2), I(3)), TU(I(1)), SE(I(1)), D(), D((S('a'), I(1))), D((S('v0'), I(1))),
         D((S('v0'), I(-1))), D((S('w'), L(I(1)))), H('h1'), H('h2'), H('h3'), DT(2020, 2, 29, 1), ['o', 'o1'], UND]
_c0, _c1 = P('inst', cls='C0'), P('inst', cls='C1')
UDESCS = {
    'int-str': [_i, _s], 'str-int': [_s, _i], 'float-int': [_f, _i], 'int-float': [_i, _f], 'bool-int': [_b, _i], 'int-bool': [_i, _b], 'list-int': [P('list', prop=_i), _i], 'int-list': [_i, P('list', prop=_i)],
    'list-list': [P('list', prop=_i), P('list', prop=_s)], 'inst-int': [_c0, _i], 'inst-inst': [_c0, _c1], 'sub-inst': [_c1, _c0], 'str-inst': [_s, _c1], 'tuple-list': [P('tuple', prop=_i), P('list', prop=_i)],
    'dict-inst': [P('dict', kprop=P('str'), vprop=_i), _c0], 'dt-int': [P('datetime'), _i], 'choice-int': [P('choice', choices=[['a', []], ['b', []]], cs=True), _i], 'three': [_i, _s, P('list', prop=_s)], 'nested': [P('union', props=[_i, _s]), P('list', prop=_i)],
    'set-int': [P('set', prop=_i), _i], 'inst-list': [P('list', prop=_c0), _c0], 'min-max': [P('int', max=I(1)), P('int', min=I(5))]}
UNIS = {'union-' + n: (P('union', props=ps), [v for v in UVALS if v[0] != 'o' and v != UND]) for n, ps in UDESCS.items() if n not in ('tuple-list',)}


def C19():
    out = []
    for n, ps in UDESCS.items():
        for strict in (False, True):
            if strict and 'inst' not in n:
                continue
            d = P('union', props=ps, strict=strict)
            vals = [v for v in UVALS if v != UND]
            out.append(('c19-%s%s' % (n, '-strict' if strict else ''), grid(d, vals, ('validate', 'ser', 'equal'), boxes, laws=['typed'])))
            if n == 'tuple-list':
                out[-1] = (out[-1][0], grid(d, vals, ('validate', 'equal'), boxes, laws=['typed']))

            def load(s, d=d, n=n):
                boxes(s)
                s.do('defclass', d=klass('A', [body_prop('p', dict(d, req=False)), body_prop('l', P('list', prop=d, req=False))]))
                js = [I(1), I(9), F(2.5), S('a'), S('b'), B(True), L(), L(I(1)), L(S('a')), L(I(9)), J('C0', v0=I(1)), J('C1', v0=I(1)), J('C1', v0=I(1), w=L(I(2))), J('C0', v0=I(-1)), J('C0', v0=I(1), zz=I(1)), J(v0=I(1)), J('Nope', v0=I(1)), J()]
                if 'dict' in n or 'inst' not in n:
                    js = [v for v in js if v[0] != 'd' or v == J()]
                if n in ('bool-int', 'int-bool', 'dt-int') or 'bool' in n:
                    js = [v for v in js if v[0] in ('i', 'b')]
                if n in ('list-int', 'int-list', 'list-list', 'tuple-list', 'three', 'nested', 'set-int', 'inst-list'):
                    js = [v for v in js if v[0] != 's']
                ops = [op('deser', c='A', v=J(p=v), tr=tr, strict=st, av=False) for v in js for tr in (False, True) for st in (False, True)]
                ops += [op('deser', c='A', v=J(l=L(v, v)), tr=True, strict=False, av=False) for v in js[::3]]
                return {'ops': ops, 'depth': (1, 1), 'grid': len(ops), 'steplaws': ['apart'], 'length': 24}
            out.append(('c19-load-%s%s' % (n, '-strict' if strict else ''), load))
    return out


# -----------------------------------------------------------------------------
_V = [S('x'), S('X'), S('-x'), S('East'), S('up'), S('-z'), S('zero'), S('bad'), S(''), L(I(1), I(2)), L(I(1), I(2), I(2)), TU(F(1), F(2), F(2)), L(I(0), I(0), I(0)), L(I(0), I(0)), TU(I(3), I(4)), L(S('a'), I(0), I(0)), L(I(1), I(2), I(3), I(4)),
      L(L(I(1), I(2), I(2))), arr('f', [3], *fs(3, 4, 0)), arr('f', [2], *fs(3, 4)), arr('f', [3], *fs(0, 0, 2), cls='Vector3'), arr('f', [2], *fs(0, 2), cls='Vector2'), arr('i', [3], I(1), I(2), I(2)), arr('f', [1, 3], *fs(1, 2, 2)),
      N(), I(1), L(), L(B(True), B(False), B(False)), arr('f', [3], ['nan'], F(0), F(0)), arr('f', [2], ['inf', 1], F(0))]
_VA = [S('x'), L(), L(S('x')), L(S('x'), S('-y')), L(S('x'), S('bad')), L(S('up')), L(S('ZERO'), L(I(1), I(2), I(2))), L(L(I(1), I(2), I(2))), L(L(I(3), I(4)), TU(I(0), I(-2))), TU(S('west'), L(I(3), I(4))), L(L(I(1), I(2)), L(I(1), I(2), I(2))),
       L(I(1), I(2), I(2)), L(L(I(1), I(2), I(2)), L(I(0), I(0), I(2))), arr('f', [2, 3], *fs(3, 4, 0, 0, 0, 2)), arr('f', [2, 2], *fs(3, 4, 0, 2)), arr('f', [1, 3], *fs(3, 4, 0), cls='Vector3Array'), arr('f', [1, 2], *fs(3, 4), cls='Vector2Array'),
       arr('i', [2, 3], I(1), I(2), I(2), I(2), I(0), I(0)), N(), L(L(S('a'), I(1), I(1))), L(L(L(I(1), I(2), I(2)))), arr('f', [1, 3], ['nan'], F(0), F(0))]
_A = [L(I(1)), L(I(1), I(2)), L(F(1.5), F(2)), L(I(1), F(2)), L(), L(L(I(1), I(2)), L(I(3), I(4))), L(L(I(1)), L(I(2))), L(B(True), B(False)), L(['c', F(1), F(2)]), L(S('a')), TU(I(1), I(2)), I(1), F(2), N(), S('a'), arr('i', [2], I(1), I(2)),
      arr('f', [2], *fs(1, 2)), arr('f', [1], F(2)), arr('b', [2], B(True), B(False)), arr('c', [1], ['c', F(1), F(0)]), arr('f', [2, 2], *fs(1, 2, 3, 4)), arr('i', [0]), arr('f', [0, 2]), arr('f', [2], ['nan'], F(1)), arr('f', [1], ['inf', -1]),
      arr('f', [2, 1, 2], *fs(1, 2, 3, 4)), arr('f', []  , F(3)), arr('i', [3], I(1), I(2), I(3))]
_DIRS = [f(x) for x in ('x', 'y', 'z', '-x', '-y', '-z', 'up', 'down', 'east', 'west', 'north', 'south', 'zero') for f in (str, str.upper, str.title)] + ['--x', 'xy', ' x', '-up', '-zero', 'x ', 'zeros', '-', '']
_V += [S(x) for x in _DIRS if S(x) not in _V]
_VA += [L(S(x)) for x in _DIRS[::2] if L(S(x)) not in _VA] + [S(x) for x in _DIRS[1::5] if S(x) not in _VA] + [L(L(I(1), I(2)), S(x)) for x in _DIRS[::7]] + [L(S(x), L(I(1), I(2), I(2))) for x in _DIRS[2::7]]
VECD = {}
for _k in ('vec3', 'vec2', 'vec3a', 'vec2a'):
    VECD[_k] = P(_k)
    VECD[_k + '-len'] = P(_k, length=F(5))
    VECD[_k + '-raw'] = P(_k, coerce=False)
VECD['vec3a-shape'] = P('vec3a', shape=[[2, 3]])
VECD['vec2a-shape'] = P('vec2a', shape=[[1, 2], [2, 2]])
ARRD = {'arr': P('array'), 'arr-f': P('array', dtype=['float']), 'arr-i': P('array', dtype=['int']), 'arr-b': P('array', dtype=['bool']), 'arr-c': P('array', dtype=['complex']), 'arr-if': P('array', dtype=['int', 'float']), 'arr-fc': P('array', dtype=['float', 'complex']),
        'arr-2': P('array', shape=[[2]]), 'arr-22': P('array', shape=[[-1, 2]]), 'arr-or': P('array', shape=[[2], [2, 2]]), 'arr-any': P('array', shape=[]), 'arr-raw': P('array', coerce=False), 'arr-raw-i': P('array', coerce=False, dtype=['int']),
        'arr-3d': P('array', shape=[[2, -1, 2]])}


def _arrfit(d, v):
    t = str(v)
    if d['k'] == 'array':
        if 'complex' in d['dtype'] and ("'nan'" in t or "'inf'" in t):
            return False
        if d['dtype'] == ['bool'] and "'s'" in t:
            return False
    return True


ARRS = {}
for _n, _d in list(VECD.items()) + list(ARRD.items()):
    _vs = _V if _d['k'] in ('vec3', 'vec2') else _VA if _d['k'] in ('vec3a', 'vec2a') else _A
    if '-len' not in _n:
        ARRS[_n] = (_d, [v for v in _vs if _arrfit(_d, v) and not (v[0] == 'a' and 0 in v[3] and len(v[3]) > 1) and v != L()])


def C20():
    out = []
    for n, d in list(VECD.items()) + list(ARRD.items()):
        vals = _V if d['k'] in ('vec3', 'vec2') else _VA if d['k'] in ('vec3a', 'vec2a') else _A
        vals = [v for v in vals if _arrfit(d, v) and not ('-len' in n and ("'nan'" in str(v) or "'inf'" in str(v)))]
        out.append(('c20-' + n, grid(d, vals, ('validate', 'equal') if '-len' in n else ('validate', 'ser', 'equal'), laws=['typed'])))

        def load(s, d=d, n=n):
            s.do('defclass', d=klass('A', [body_prop('p', dict(d, req=False))]))
            js = [v for v in ((_V if d['k'] in ('vec3', 'vec2') else _VA if d['k'] in ('vec3a', 'vec2a') else _A)) if v[0] in ('l', 's', 'i', 'f') and "'c'" not in str(v) and "'t'" not in str(v)]
            js += [L(S('nan'), F(1)), L(S('inf'), S('-inf')), L(L(F(1)), L(F(2), F(3)))]
            js = [v for v in js if _arrfit(d, v) and not (d['k'] == 'array' and d['dtype'] == ['bool']) and not ('-len' in n and ("'nan'" in str(v) or "'inf'" in str(v)))]
            if d['k'] == 'array' and 'complex' in d['dtype']:
                js = [v for v in js if "'s'" not in str(v)]
            ops = [op('deser', c='A', v=J(p=v), tr=False, strict=False, av=av) for v in js for av in (False, True)]
            return {'ops': ops, 'depth': (1, 1), 'grid': len(ops), 'steplaws': ['apart'], 'length': 24}
        out.append(('c20-load-' + n, load))

        def pair(s, d=d, vals=vals):
            s.do('defclass', d=klass('A', [body_prop('p', dict(d, req=False))]))
            for _ in 'ab':
                s.do('new', c='A', kw=[])
            return {'ops': at('h1', 'p', *vals[::2]) + at('h2', 'p', *vals[::2]) + [op('equal', a=H('h1'), b=H('h2')), op('equal', a=H('h2'), b=H('h1'))], 'depth': (3, 3), 'laws': ['eq', 'eqself', 'eqdef'], 'steplaws': ['pure'], 'length': 60}
        if '-len' not in n and d['k'] in ('vec3', 'vec2a', 'array') and n in ('vec3', 'vec2a', 'arr', 'arr-any', 'arr-fc'):
            out.append(('c20-eq-' + n, pair))
    return out


# -----------------------------------------------------------------------------
def C21():
    out = []
    lis2 = [obs('v', 'V', 'validate', ['p'], [['when', I(2), [['raise', 'ValueError']]], ['when', I(3), [['raisev', 'because', 'p']]], ['when', I(4), [['raise', 'KeyError']]]])]
    for n, extra in (('cv', [cv('k', 'K', [['le', 'p', 'q', 'raisev']])]), ('cv2', [cv('k', 'K', [['le', 'p', 'q', 'ValueError']]), cv('k2', 'K2', [['le', 'q', 'p', 'false']])]), ('plain', []),
                     ('odd', [cv('k', 'K', [['le', 'p', 'q', 'RuntimeError']])])):
        body = [body_prop('p', P('int', max=I(5))), body_prop('q', P('int', req=True)), body_prop('l', P('list', prop=P('int', max=I(5)), minl=1, req=False)), body_prop('s', P('str', regex=['pre', 'a'], req=False))] + lis2 + list(extra)
        kws = [[], [['p', I(9)]], [['p', I(9)], ['q', S('x')]], [['q', I(1)], ['p', I(2)]], [['p', I(3)], ['s', S('b')]], [['l', L(I(9), S('x'))]], [['zz', I(1)]], [['zz', I(1)], ['p', S('x')]], [['p', I(1)], ['q', I(0)]], [['p', I(4)]], [['l', L()], ['s', I(3)], ['q', N()]]]
        ops = at('h1', 'p', I(1), I(2), I(3), I(4), I(9), S('x')) + at('h1', 'q', I(0), I(3), S('x')) + at('h1', 'l', L(I(1)), L(I(9)), L(I(9), S('x')), L(), I(3)) + at('h1', 's', S('b'), I(1), S('a')) + \
            [op('del', h='h1', n='q'), op('poke', h='h1', n='l', v=L(I(9))), op('poke', h='h1', n='l', v=L()), op('validate', h='h1')] + [op('new', c='A', kw=kw) for kw in kws] + \
            [op('deser', c='A', v=J(**dict(kw)), tr=False, strict=st, av=av) for kw in kws[1:] if "'none'" not in str(kw) for st in (False, True) for av in (False, True)]
        out.append(('c21-' + n, simple(body, [[]], ops, (2, 3), laws=())))

    def nested(s):
        s.do('defclass', d=klass('B', [body_prop('v', P('int', max=I(5))), body_prop('w', P('str', req=True)), cv('k', 'KB', [['nop']])]))
        s.do('defclass', d=klass('A', [body_prop('i', P('inst', cls='B')), body_prop('l', P('list', prop=P('inst', cls='B'), req=False)), body_prop('d', P('dict', kprop=P('str'), vprop=P('int', max=I(5)), req=False)),
                                       body_prop('t', P('tuple', prop=P('list', prop=P('int', max=I(5))), req=False))]))
        s.do('new', c='B', kw=[['v', I(1)], ['w', S('x')]])
        s.do('new', c='B', kw=[])
        s.do('new', c='A', kw=[])
        bad = D((S('v'), I(9)))
        ops = at('h3', 'i', H('h1'), H('h2'), bad, D((S('zz'), I(1))), I(3), D((S('v'), I(9)), (S('w'), I(1)))) + at('h3', 'l', L(H('h1')), L(H('h1'), H('h2')), L(bad, H('h1')), L(H('h1'), bad, bad), L(I(1)), I(1)) + \
            at('h3', 'd', D((S('a'), I(1))), D((S('a'), I(9)), (S('b'), I(10))), D((I(1), I(9))), I(1)) + at('h3', 't', TU(L(I(1)), L(I(9))), TU(L(S('x')), L(I(9))), TU(I(1))) + \
            at('h2', 'v', I(1)) + at('h1', 'v', I(9)) + [op('del', h='h1', n='v'), op('validate', h='h3'), op('validate', h='h2')] + \
            [op('deser', c='A', v=v, tr=True, strict=st, av=av) for v in (J('A', i=J('B', v=I(9))), J('A', i=J('B', v=I(1), zz=I(1))), J('A', l=L(J('B', v=I(1)), J('B', v=S('q')))), J('A', i=J('A')), J('A', d=J(a=I(9)))) for st in (False, True) for av in (False, True)] + \
            [op('new', c='A', kw=[['i', bad], ['l', L(bad)]]), op('new', c='A', kw=[['d', D((S('a'), I(9)))]])]
        return {'ops': ops, 'depth': (2, 2), 'laws': [], 'steplaws': ['pure']}
    out.append(('c21-nested', nested))
    for n, d in list(scalar_descs().items())[::3]:
        vals = [v for v in NUMS[::4] + TEXTS[::5] + OTHERS[::2] if allowed(d, v)]
        out.append(('c21-' + n, grid(d, vals, ())))
    for n, d in list(cont_descs().items())[::2]:
        vals = [v for v in cont_values(None)[::5] if "'none'" not in str(v)]
        if not d['coerce'] and 'union' not in n:
            out.append(('c21-' + n, grid(d, [v for v in vals if not (d['k'] == 'set' and d['prop']['k'] == 'prop')], (), boxes)))
    for n in ('vec3', 'vec2a', 'arr', 'arr-2', 'vec3-raw', 'arr-raw'):
        d = dict(VECD, **ARRD)[n]
        out.append(('c21-' + n, grid(d, [v for v in (_V if d['k'] == 'vec3' else _VA if d['k'] == 'vec2a' else _A) if _arrfit(d, v)], ())))
    return out


# -----------------------------------------------------------------------------
def C22():
    out = []
    i = P('int', req=False)
    descs = dict(scalar_descs(), **{n: d for n, d in cont_descs().items()})
    descs.update(VECD)
    descs.update(ARRD)
    descs.update({'u-' + n: P('union', props=ps) for n, ps in UDESCS.items()})
    descs.update({'get': P('gettable', dflt=['val', I(1)]), 'uuid': P('uuid')})
    names = list(descs)
    for k in range(0, len(names), 5):
        def build(s, part=names[k:k + 5]):
            boxes(s)
            ops = []
            for j, n in enumerate(part):
                for r in (True, False):
                    d = descs[n]
                    if d['k'] in ('gettable', 'uuid'):
                        r = True
                    c = 'K%d%s' % (j, 'r' if r else 'o')
                    if c not in s.classes:
                        s.do('defclass', d=klass(c, [body_prop('p', dict(d, req=r), 'the ' + n), body_prop('q', i)]))
                        ops.append(op('doc', c=c))
            return {'ops': ops, 'depth': (1, 1), 'grid': len(ops), 'laws': [], 'steplaws': ['pure'], 'length': 40}
        out.append(('c22-types%d' % (k // 5), build))
    kws = [{'docpriv': ['flag', False]}, {'docpriv': ['flag', True]}, {}, {'docpriv': ['bad']}]
    ords = [['unset'], ['none'], ['list', ['p', 'q', 'g']], ['list', ['g', 'q', 'p']], ['list', ['p', 'q', 'g', '_h']], ['list', ['_h', 'g', 'p', 'q']], ['list', ['p']], ['list', []], ['list', ['p', 'p', 'q', 'g']], ['list', ['p', 'q', 'g', 'nope']], ['bad']]
    for dt in ('A class', '', 'Two\n\nparts'):
        for kj, kw in enumerate(kws):
            for j, o in enumerate(ords):
                if kw.get('docpriv') == ['bad'] and (o[0] == 'bad' or j > 5):
                    continue

                def build(s, dt=dt, kw=kw, o=o):
                    s.do('defclass', d=klass('A', [body_prop('q', P('int', dflt=['val', I(3)])), body_prop('p', P('str', dflt=['val', S('a')], req=False)), body_prop('_h', i), body_prop('g', P('gettable', dflt=['val', I(1)]))]))
                    ops = [op('doc', c='A')]

                    def define(d):
                        s.do('defclass', d=d)
                        if d['cid'] in s.classes:
                            ops.append(op('doc', c=d['cid']))
                    for bj, body in enumerate(([], [body_prop('p', P('list', prop=P('int'), dflt=['call', L()]))])):
                        c = 'B%d' % bj
                        define(klass(c, body, bases=['A'], doc=dt, docord=o, **kw))
                        if c in s.classes:
                            for m, (b2, k2) in enumerate((([body_prop('z', i)], {}), ([], {'docord': ['none']}), ([], {'docpriv': ['flag', True]}), ([body_prop('p', P('bool'))], {'docpriv': ['flag', False]}))):
                                define(klass(c + 'C%d' % m, b2, bases=[c], doc='', **k2))
                    return {'ops': ops, 'depth': (1, 1), 'grid': len(ops), 'laws': [], 'steplaws': ['pure'], 'length': 40}
                out.append(('c22-set%d-%d-%d' % (kj, len(dt), j), build))
    return out


# -----------------------------------------------------------------------------
def C25():
    out = []

    def base(s):
        s.do('defclass', d=klass('A', [body_prop('p', P('int', req=False)), body_prop('q', P('list', prop=P('int'), req=False)), body_prop('g', P('gettable', dflt=['val', I(1)])), body_prop('rn', P('ren', new='p')), body_prop('_h', P('int', req=False)), body_prop('__u', P('gettable', dflt=['val', I(1)])),
                                       obs('l', 'L', 'observe_set', ['p']), cv('k', 'K', [['nop']]), ['plain', 'x', {}, '']]))
        s.do('defclass', d=klass('B', [['plain', 'p', {}, ''], body_prop('l', P('int', req=False)), body_prop('g', P('int', req=False))], bases=['A']))
        s.do('defclass', d=klass('C', [body_prop('u', P('uuid')), body_prop('p', P('gettable', dflt=['val', I(2)]))], bases=['A']))
        s.do('defclass', d=klass('Dy', [body_prop('dr', P('dyn', prop=P('int'), get=['const', I(1)])), body_prop('dw', P('dyn', prop=P('int'), get=['get', 'p'], set=[['copy', 'self', 'p']]))], bases=['A']))
        for c in ('A', 'B', 'C', 'Dy'):
            s.do('new', c=c, kw=[])
    keys = ['p', 'q', 'g', 'rn', 'l', 'k', 'x', 'zz', '_props', 'validate', '__class__', '', 'u', 'dr', 'dw', '_h', '__u']
    for c, h in (('A', 'h1'), ('B', 'h2'), ('C', 'h3'), ('Dy', 'h4')):
        def build(s, c=c, h=h):
            base(s)
            ops = []
            for n in keys:
                for imm in (True, False):
                    ops.append(op('filter', c=c, v=D((S(n), I(1))), imm=imm))
            for j, ks in enumerate([keys, keys[::-1], keys[:4], keys[::2], keys[1::3], [], ['g', 'p', 'zz', 'q'], ['zz', 'yy']]):
                v = D(*[(S(n), [I(1), S('a'), N(), L(I(1)), UND][m % 5]) for m, n in enumerate(ks)])
                for imm in (True, False):
                    ops.append(op('filter', c=c, v=v, imm=imm))
                    ops.append(op('filter', c=c, v=v, imm=imm, inst=h))
                ops.append(op('filter', c=c, v=v, imm=True, dflt=True))
            ops += [op('filter', c=c, v=D((k, I(1)), (S('p'), I(2))), imm=True) for k in (I(1), N(), TU(S('p')), B(True))]
            return {'ops': ops, 'depth': (1, 1), 'grid': len(ops), 'steplaws': ['pure'], 'length': 40}
        out.append(('c25-' + c, build))
    return out


# -----------------------------------------------------------------------------
# a property type defined by the user of the library (hp.Label)
def C27():
    out = []
    vals = [S(x) for x in ('', 'a', 'ab', 'AB', 'aB', 'abc', 'ABC', 'abcd', '3', 'L:a', 'q', 'qa', 'Qa', 'QA')] + [I(0), I(3), I(9), I(10), I(-1), B(True), F(3), N(), UND, L(S('a')), D(), ['o', 'o1']]
    own, dft = P('own'), P('own', dflt=['val', S('Dft')])
    elems = [S('ab'), S('AB'), S('abcd'), I(3), I(12), S('qa')]
    poss = {'plain': (own, vals), 'default': (dft, vals), 'call': (P('own', dflt=['call', S('Dft')]), vals), 'given': (P('own', dflt=['val', S('x')]), vals), 'wrap': (P('own', ser='wrap'), vals)}
    for k, mk in (('list', L), ('tuple', TU), ('set', SE)):
        for c in (False, True):
            poss['%s%d' % (k, c)] = (P(k, prop=own, coerce=c), [mk(*e) for e in [[]] + [[x] for x in elems] + [[elems[0], x] for x in elems[1:]]] + [S('ab'), S('abcd'), I(3), TU(S('ab')), L(S('ab')), L(I(12)), N(), UND])
    poss['nest'] = (P('list', prop=P('tuple', prop=own)), [L(), L(TU(S('ab'))), L(TU(S('AB'))), L(TU(I(3)), TU()), L(TU(S('abcd'))), L(L(S('a')))])
    poss['dict'] = (P('dict', kprop=own, vprop=own), [D()] + [D((a, b)) for a in (S('a'), S('A'), I(3), S('abcd'), I(12)) for b in (S('b'), S('B'), I(4), S('bcde'))] + [D((S('a'), S('b')), (S('A'), S('c'))), D((I(3), S('b')), (S('3'), S('c')))])
    poss['union'] = (P('union', props=[P('bool'), own]), vals)
    poss['union2'] = (P('union', props=[P('list', prop=own), own]), [L(S('ab')), L(I(3)), L(S('abcd')), S('ab'), I(3), S('abcd'), I(12)])
    for n, (d, vs) in poss.items():
        vs = [v for v in vs if not (n.startswith('union') and v[0] == 'l' and n == 'union')]
        rt = ['typed'] if n in ('wrap', 'default', 'call', 'given') else ['typed', 'round']
        out.append(('c27-' + n, grid(d, vs, ('ser', 'copy', 'validate'), laws=rt)))
        out.append(('c27-watch-' + n, simple([body_prop('p', dict(d, req=False))] + three(['p']), [[]], at('h1', 'p', *[v for v in vs if v not in (N(),)][:14]) + [op('del', h='h1', n='p'), op('reset', h='h1', n='p')], (2, 3))))

        def eq(s, d=d, vs=vs):
            s.do('defclass', d=klass('A', [body_prop('p', dict(d, req=False))]))
            for j in range(2):
                s.do('new', c='A', kw=[])
            good = [v for v in vs if 'abcd' not in str(v) and '12' not in str(v)][:9]
            return {'ops': at('h1', 'p', *good) + at('h2', 'p', *good) + [op('equal', a=H(x), b=H(y)) for x in ('h1', 'h2') for y in ('h1', 'h2')] + [op('validate', h='h1')],
                    'depth': (3, 3), 'laws': ['eq', 'eqdef', 'eqself'], 'steplaws': ['pure']}
        out.append(('c27-equal-' + n, eq))
        if n in ('plain', 'list0', 'dict', 'tuple0'):
            def eqdyn(s, d=d, eq=eq):
                r = eq(s)
                s.do('defclass', d=klass('E', [body_prop('dy', P('dyn', prop=d, get=['get', 'p']))], bases=['A']))
                for j in range(2):
                    s.do('new', c='E', kw=[])
                return dict(r, ops=[dict(o, h={'h1': 'h3', 'h2': 'h4'}[o['h']]) for o in r['ops'] if 'h' in o] + [op('equal', a=H(x), b=H(y)) for x, y in (('h3', 'h4'), ('h4', 'h3'), ('h3', 'h3'))])
            out.append(('c27-equal-dyn-' + n, eqdyn))
        js = [J('A', p=v) for v in (S('L:ab'), S('ab'), S(''), I(3), S('L:abcd'), S('L:'), N(), L(S('L:ab')), L(S('ab')), L(S('L:abcd')), D((S('L:a'), S('L:b'))), D((S('L:a'), S('b'))), D((S('a'), S('L:b'))), L(L(S('L:a'))))]

        def load(s, d=d, n=n, js=js):
            s.do('defclass', d=klass('A', [body_prop('p', dict(d, req=False)), body_prop('rn', P('ren', new='p'))]))
            s.do('new', c='A', kw=[])
            js = [v for v in js if not (n.startswith('union')) and not (v[2][1][1][0] == 's' and d['k'] not in ('own',))]
            return {'ops': [op('deser', c='A', v=v, tr=False, strict=False, av=av) for v in js for av in (False, True)] + [op('validate', h='h1')], 'depth': (1, 1), 'grid': 2 * len(js), 'laws': [], 'steplaws': ['pure', 'apart'], 'length': 60}
        if not n.startswith('union') and n not in ('wrap',):
            out.append(('c27-load-' + n, load))

    # special properties around it
    def special(s):
        s.do('defclass', d=klass('A', [body_prop('p', P('own', req=False)), body_prop('rn', P('ren', new='p')), body_prop('q', P('own', req=False)),
                                       body_prop('dr', P('dyn', prop=own, get=['get', 'q'])), body_prop('dw', P('dyn', prop=own, get=['const', S('L:')], set=[['copy', 'self', 'q']], dele=[['del', 'self', 'q']])),
                                       body_prop('g', P('gettable', dflt=['val', S('x')]))] + three(['p', 'q'])))
        s.do('new', c='A', kw=[])
        ops = [op('set', h='h1', n=n, v=v) for n in ('p', 'rn', 'dw', 'dr') for v in (S('ab'), S('AB'), S('abcd'), I(3))] + [op(o, h='h1', n=n) for n in ('rn', 'dw', 'dr') for o in ('get', 'del')]
        ops += [op('ser', h='h1', ic=True, dyn=dyn) for dyn in (False, True)] + [op('copy', h='h1'), op('validate', h='h1')]
        return {'ops': ops, 'depth': (2, 3), 'laws': ['typed'], 'steplaws': ['pure']}
    out.append(('c27-special', special))

    # defaults: of the type, of the property, of the class
    def defaults(s):
        s.do('defclass', d=klass('A', [body_prop('p', dft), body_prop('q', P('own', req=False)), body_prop('c', P('own', dflt=['call', S('Dft')])), body_prop('u', P('union', props=[P('int'), dft, own]))] + [obs('w', 'W', 'observe_set', (), every=True)]))
        ops = []
        for j, df in enumerate([[], [['p', ['val', S('x')]]], [['p', ['undef']]], [['q', ['val', I(3)]]], [['q', ['call', S('Dft')]]], [['c', ['val', S('abcd')]]], [['u', ['val', S('ab')]]], [['q', ['val', I(12)]]]]):
            ops.append(op('defclass', d=klass('B%d' % j, [], bases=['A'], dflts=df)))
            for kw in ([], [['p', I(3)]], [['q', S('abcd')]]):
                ops.append(op('new', c='B%d' % j, kw=kw))
        for j, b in enumerate([dft, own, P('own', dflt=['val', S('abcd')]), P('own', dflt=['val', I(3)])]):
            ops.append(op('defclass', d=klass('D%d' % j, [body_prop('q', b)], bases=['A'])))
            ops.append(op('new', c='D%d' % j, kw=[]))
        return {'ops': ops, 'depth': (2, 2), 'laws': ['typed'], 'steplaws': ['pure'], 'length': 40}
    out.append(('c27-defaults', defaults))

    muts = {'list': [('append', [S('ab')]), ('append', [I(3)]), ('append', [S('abcd')]), ('extend', [L(S('AB'), I(12))]), ('extend', [L(S('AB'), I(1))]), ('__setitem__', [I(0), S('AB')]), ('__setitem__', [I(0), I(12)]), ('remove', [S('ab')]), ('pop', []), ('clear', [])],
            'set': [('add', [S('ab')]), ('add', [S('AB')]), ('add', [I(3)]), ('add', [S('abcd')]), ('discard', [S('ab')]), ('update', [L(S('x'), I(12))]), ('clear', [])],
            'dict': [('__setitem__', [S('a'), S('AB')]), ('__setitem__', [I(3), S('x')]), ('__setitem__', [S('a'), S('abcd')]), ('__setitem__', [S('abcd'), S('a')]), ('update', [D((S('a'), I(2)))]), ('__delitem__', [S('a')]), ('setdefault', [S('b'), I(12)])]}
    for k, v in (('list', L(S('ab'))), ('set', SE(S('ab'))), ('dict', D((S('a'), S('ab'))))):
        def held(s, k=k, v=v):
            d = P('dict', kprop=own, vprop=own, obs=True, req=False) if k == 'dict' else P(k, prop=own, obs=True, req=False)
            s.do('defclass', d=klass('A', [body_prop('p', d)] + three(['p'])))
            s.do('new', c='A', kw=[['p', v]])
            s.do('grab', x='x', h='h1', n='p')
            return {'ops': [op('mut', x='x', m=m, args=a) for m, a in muts[k]] + [op('validate', h='h1')], 'depth': (3, 4), 'laws': ['typed', 'tracked'], 'steplaws': ['pure']}
        out.append(('c27-observed-' + k, held))

    def linked(s):
        s.do('defclass', d=klass('A', [body_prop('p', P('own', req=False)), body_prop('q', P('str', req=False))] + three(['p', 'q'])))
        for j in range(2):
            s.do('new', c='A', kw=[])
        ops = [op('links', ls=[['K', ['h1', 'p'], ['h2', 'p']]], now=False, chg=c, tr='id') for c in (True, False)] + [op('links', ls=[['M', ['h2', 'p'], ['h1', 'q']], ['N', ['h1', 'q'], ['h2', 'p']]], now=True, chg=True, tr='id', sym=[['h2', 'p'], ['h1', 'q']])]
        ops += at('h1', 'p', S('ab'), S('AB'), I(3), S('abcd')) + at('h2', 'p', S('x')) + at('h1', 'q', S('ab'), S('abcd')) + [op('unlink', ks=['K'])]
        return {'ops': ops, 'depth': (3, 4), 'laws': [], 'steplaws': ['pure']}
    out.append(('c27-linked', linked))

    def put(s):
        s.do('defclass', d=klass('A', [body_prop('p', P('own', req=False)), body_prop('l', P('list', prop=own, req=False)), obs('pv', 'PV', 'validate', ['p'], [['when', S('x'), [['put', S('qa')]]]])] + three(['p', 'l'])))
        s.do('new', c='A', kw=[])
        ops = at('h1', 'p', S('x'), S('QA'), S('qa'), S('y')) + at('h1', 'l', L(S('Qa')), L(S('a'))) + [op('poke', h='h1', n='l', v=L(S('qa'))), op('poke', h='h1', n='l', v=L(S('abcd'))), op('poke', h='h1', n='l', v=L(I(3)))]
        ops += [op('validate', h='h1'), op('ser', h='h1', ic=False, dyn=False), op('copy', h='h1')]
        return {'ops': ops, 'depth': (3, 4), 'laws': [], 'steplaws': ['pure']}
    out.append(('c27-put', put))

    def docs(s):
        ops = []
        for j, (n, (d, vs)) in enumerate(sorted(poss.items())[:12]):
            s.do('defclass', d=klass('K%d' % j, [body_prop('p', dict(d, req=bool(j % 2)), 'the ' + n), body_prop('dy', P('dyn', prop=own, get=['const', S('a')]))]))
            ops.append(op('doc', c='K%d' % j))
        return {'ops': ops, 'depth': (1, 1), 'grid': len(ops), 'laws': [], 'steplaws': ['pure']}
    out.append(('c27-docs', docs))
    return out


# -----------------------------------------------------------------------------
# options and further keywords of serialize, deserialize and copy, at every depth
def C28():
    out = []
    own = P('own', req=False)
    a, ab = S('a'), S('AB')
    pos = {'plain': (own, ab), 'wrap': (P('int', ser='wrap', req=False), I(2)), 'bare': (P('int', ser='bare', req=False), I(2)), 'ownwrap': (P('own', ser='wrap', req=False), ab),
           'list': (P('list', prop=own, req=False), L(a, ab)), 'tuple': (P('tuple', prop=own, req=False), TU(a)), 'set': (P('set', prop=own, req=False), SE(a)),
           'dict': (P('dict', kprop=own, vprop=own, req=False), D((a, ab), (S('b'), I(3)))), 'union': (P('union', props=[P('int'), own], req=False), ab),
           'unionl': (P('union', props=[P('list', prop=own), P('int')], req=False), L(a)), 'nest': (P('dict', kprop=P('str'), vprop=P('list', prop=P('tuple', prop=own)), req=False), D((S('k'), L(TU(a), TU())))),
           'uniond': (P('dict', kprop=P('str'), vprop=P('union', props=[P('bool'), own]), req=False), D((S('k'), a), (S('l'), B(True)))),
           'listw': (P('list', prop=P('int', ser='wrap'), req=False), L(I(1), I(2)))}
    inst = lambda h: {'inst': (P('inst', cls='A', req=False), H(h)), 'list': (P('list', prop=P('inst', cls='A'), req=False), L(H(h), H(h))), 'dict': (P('dict', kprop=own, vprop=P('inst', cls='A'), req=False), D((a, H(h)))),
                      'union': (P('union', props=[P('int'), P('inst', cls='A')], req=False), H(h)), 'unionl': (P('union', props=[P('list', prop=P('inst', cls='A')), P('int')], req=False), L(H(h))),
                      'tuple': (P('tuple', prop=P('union', props=[P('inst', cls='A'), P('int')]), req=False), TU(H(h), I(3))),
                      'unions': (P('union', props=[P('int'), P('inst', cls='A2'), P('inst', cls='A')], strict=True, req=False), H(h))}
    sers = [dict(ic=i, dyn=d, mk=m) for i in (True, False) for d in (True, False) for m in ('', 'M')]
    desers = [dict(tr=t, strict=x, av=v, mk=m) for t in (True, False) for x in (True, False) for v in (True, False) for m in ('', 'M', 'N')]
    copies = [{}] + [{k: v} for k, v in (('ic', False), ('dyn', True), ('tr', False), ('strict', True), ('av', True), ('mk', 'M'))]
    copies += [dict(mk='M', dyn=True), dict(mk='M', tr=False), dict(ic=False, strict=True), dict(tr=False, strict=True), dict(tr=True, strict=True, av=True, mk='M'), dict(ic=True, tr=True), dict(dyn=True, strict=True), dict(tr=False, av=True)]

    def ops(h, c, texts):
        o = [op('ser', h=h, **k) for k in sers] + [op('copy', h=h, **k) for k in copies]
        return o + [op('deser', c=c, v=v, **k) for j, v in enumerate(texts) for k in desers[j % 3::1 if len(texts) < 4 else 2]]

    def texts(s, h, *more):
        got = [s.do('ser', h=h, ic=ic, dyn=dyn, mk=m) for ic, dyn, m in ((True, True, ''), (True, False, 'M'), (False, False, 'M'))]
        return [e['res']['v'] for e in got if e['res']['ok']] + list(more)
    for n, (d, v) in sorted(pos.items()):
        def build(s, d=d, v=v):
            s.do('defclass', d=klass('A', [body_prop('p', d), body_prop('q', P('own', req=True, dflt=['val', S('x')])), body_prop('dy', P('dyn', prop=P(*[d['k']], **{k: x for k, x in d.items() if k in ('prop', 'kprop', 'vprop', 'props', 'ser')}), get=['get', 'p']))]))
            s.do('defclass', d=klass('A2', [body_prop('z', own)], bases=['A']))
            s.do('new', c='A2', kw=[['p', v], ['z', a]])
            o = ops('h1', 'A', texts(s, 'h1', J('Nope', p=v), J('A', q=S('L:a'), p=v, y=I(1))))
            return {'ops': o, 'depth': (1, 1), 'grid': len(o), 'laws': [], 'steplaws': ['pure', 'apart'], 'length': 40}
        out.append(('c28-' + n, build))
    for n in sorted(inst('h1')):
        def build(s, n=n):
            s.do('defclass', d=klass('A', [body_prop('q', P('own', req=True)), body_prop('w', P('int', ser='wrap', req=False)), body_prop('dy', P('dyn', prop=P('own'), get=['get', 'q'])), body_prop('rq', P('ren', new='q'))]))
            s.do('defclass', d=klass('A2', [body_prop('z', P('list', prop=own, req=False))], bases=['A']))
            s.do('new', c='A2', kw=[['q', a], ['w', I(2)], ['z', L(ab)]])
            s.do('defclass', d=klass('B', [body_prop('b', inst('h1')[n][0]), body_prop('rb', P('ren', new='b')), body_prop('db', P('dyn', prop=P('own'), get=['const', a]))] +
                                     ([body_prop('di', P('dyn', prop=dict(inst('h1')[n][0], req=True), get=['get', 'b']))] if n in ('inst', 'list', 'union') else [])))
            s.do('defclass', d=klass('C', [body_prop('c', P('list', prop=P('inst', cls='B'), req=False))]))
            s.do('new', c='B', kw=[['b', inst('h1')[n][1]]])
            s.do('new', c='C', kw=[['c', L(H('h2'), H('h2'))]])
            hurt = {'inst': J('B', b=J('A2')), 'union': J('B', b=J('A2', y=I(1))), 'unions': J('B', b=J('A', w=L(I(1)))), 'list': J('B', b=L(J('A'), J('A2', q=S('L:a'))))}.get(n)
            o = ops('h2', 'B', texts(s, 'h2', *([hurt] if hurt else []))) + ops('h3', 'C', texts(s, 'h3'))
            return {'ops': o, 'depth': (1, 1), 'grid': len(o), 'laws': [], 'steplaws': ['pure', 'apart'], 'length': 40}
        out.append(('c28-held-' + n, build))
    return out


SCENARIOS = {'C28': (C28, ['ok', 'kind', 'value', 'heap', 'args', 'undefined']),
             'C27': (C27, ['ok', 'kind', 'value', 'heap', 'fires', 'cont', 'args', 'undefined']),
             'C09': (C09, ['ok', 'kind', 'value', 'heap', 'fires', 'undefined']),
             'C10': (C10, ['ok', 'kind', 'value', 'heap', 'args', 'fires', 'undefined']),
             'C11': (C11, ['ok', 'kind', 'value', 'heap', 'warns', 'undefined']),
             'C12': (C12, ['ok', 'kind', 'heap', 'value', 'fires', 'undefined']),
             'C13': (C13, ['ok', 'kind', 'heap', 'value', 'undefined']),
             'C14': (C14, ['ok', 'kind', 'value', 'heap', 'cont', 'fires', 'undefined']),
             'C15': (C15, ['ok', 'kind', 'heap', 'fires', 'undefined']),
             'C19': (C19, ['ok', 'kind', 'value', 'heap', 'undefined']),
             'C20': (C20, ['ok', 'kind', 'value', 'heap', 'args', 'undefined']),
             'C21': (C21, ['tups', 'hooks', 'kind', 'undefined']),
             'C22': (C22, ['ok', 'kind', 'value', 'undefined']),
             'C25': (C25, ['ok', 'kind', 'value', 'args', 'undefined'])}
