"""Scenarios for exhaustive exploration (see vf/explore.py), per property."""
import os
import re

from .explore import op
from .gen import COLORS, DATES, NUMTEXT, URLS, WORDS, body_prop, klass
from .hp import ALL, P
from .terms import B, D, DT, F, H, I, L, N, S, SE, TU, UND

O1 = ['o', 'o1']


def h_of(e):
    return e['res']['v'][1]


def sets(h, n, vals):
    return [op('set', h=h, n=n, v=v) for v in vals]


def lis(lid, mode, names, prog=None, every=False):
    return {'lid': lid, 'mode': mode, 'all': every, 'names': [] if every else list(names), 'prog': prog or [['nop']]}


def obs(name, lid, mode, names, prog=None, every=False):
    return ['obs', name, lis(lid, mode, names, prog, every), '']


def cv(name, lid, prog):
    return ['cv', name, {'lid': lid, 'prog': prog}, '']


# -----------------------------------------------------------------------------
# descriptors x values
CH1 = [['a', []], ['b', []]]
CH2 = [['AB', ['x', 'y']], ['Mid', ['ba']], ['c', []]]
CH3 = [['a', ['x']], ['A', ['X']], ['Ab', ['aB']]]


def scalar_descs():
    out = {'prop': P('prop'), 'bool': P('bool'), 'bool-cast': P('bool', cast=True),
           'complex': P('complex'), 'complex-cast': P('complex', cast=True), 'color': P('color'), 'datetime': P('datetime'),
           'url': P('url'), 'url-p': P('url', rmp=True), 'url-f': P('url', rmf=True), 'url-pf': P('url', rmp=True, rmf=True),
           'choice': P('choice', choices=CH1), 'choice-cs': P('choice', choices=CH1, cs=True), 'choice-alt': P('choice', choices=CH2),
           'choice-alt-cs': P('choice', choices=CH3, cs=True), 'choice-d': P('choice', choices=CH2, descs=['d0', 'd1', 'd2'])}
    for k in ('int', 'float'):
        out[k] = P(k)
        out[k + '-cast'] = P(k, cast=True)
        out[k + '-min0'] = P(k, min=I(0))
        out[k + '-max0'] = P(k, max=I(0))
        out[k + '-2-5'] = P(k, min=I(2), max=I(5))
        out[k + '-cast-2-2'] = P(k, cast=True, min=I(2), max=I(2))
    out['float-half'] = P('float', min=F(-.5), max=F(2.5))
    for i, rx in enumerate((['has', 'b'], ['pre', 'a'], ['full', 'ab'], ['one', 'b1'])):
        out['str-rx%d' % i] = P('str', regex=rx)
    for i, (st, cc) in enumerate(((' ', 'unchanged'), ('-', 'upper'), ('', 'lower'), ('a', 'unchanged'), (' ', 'upper'))):
        out['str-%d' % i] = P('str', strip=st, ccase=cc)
    out['str'] = P('str')
    out['str-rxs'] = P('str', regex=['has', 'b'], strip='-', ccase='upper')
    return out


NUMS = [I(n) for n in (-3, -1, 0, 1, 2, 3, 5, 6)] + \
    [['f', n, e] for n, e in ((0, 0), (0, 4), (0, -4), (0, 11), (0, -11), (2048, 0), (2048, 4), (2048, -4), (2048, 9), (2048, -9), (2048, 11), (2048, -11),
                              (2048, 300), (5120, 4), (5120, -4), (5120, 9), (5120, 11), (512, 0), (-512, 0), (2560, 0), (2560, 4), (-512, -4))] + \
    [B(True), B(False), ['inf', 1], ['inf', -1], ['nan'], ['npi', 2], ['npi', -1], ['npf', 2048, 0], ['npf', 2560, 0], ['npf', 2048, 11],
     ['npb', True], ['npb', False], ['c', F(1), F(2)], ['c', F(2), F(0)], ['c', F(-.5), F(0)], ['c', ['f', 1024, 4], F(0)]]
TEXTS = [S(t) for t in dict.fromkeys(WORDS + NUMTEXT + URLS + [c for c in COLORS if c.lower() != 'random'] + DATES + ['true', 'No', 'Y', 'off', 'x', 'X', 'mid', 'BA'])]
OTHERS = [N(), O1, DT(2020, 2, 29, 1), DT(1999, 1, 1), L(), L(I(1)), L(I(1), I(2), I(3)), L(S('a')), TU(), TU(I(0), I(255), I(7)), TU(I(0), I(255), I(256)),
          TU(I(-1), I(0), I(0)), L(I(0), I(0)), L(F(1), I(2), I(3)), TU(B(True), I(0), I(0)), TU(S('1'), I(0), I(0)), L(I(1), I(2), I(3), cls='MyList'),
          SE(), SE(I(1)), SE(I(0), I(1), I(2)), D(), D((S('a'), I(1))), D((S('a'), I(1)), cls='MyDict'), ['by', 'ab'],
          ['uuid', '12345678-1234-1234-1234-1234567890ab'], ['I', 1, '1' + '0' * 12], ['I', -1, '1' + '0' * 20], ['I', 1, '1' + '0' * 400],
          ['a', 'ndarray', 'i', [2], [I(1), I(2)]], ['a', 'ndarray', 'i', [1], [I(1)]], ['a', 'ndarray', 'f', [0], []]]


def allowed(d, v):
    """combinations the specification leaves open (see DESIGN.md) are not generated"""
    k = d['k']
    text = v[1] if v[0] == 's' else ''
    bounded = d['min'] != N() or d['max'] != N()
    if k == 'float':
        return not (bounded and (v[0] == 'nan' or 'nan' in text)) and v[0] != 'I' and v[0] != 'uuid'
    if k == 'int':
        return v[0] not in ('uuid', 'by') and not (v[0] == 'nan' and bounded)
    if k == 'complex':
        return v[0] not in ('inf', 'nan', 'I') and 'n' not in text
    if k == 'prop':
        return v[0] not in ('a', 'I')
    if k == 'bool':
        return v[0] != 'a' or not d['cast']
    return True


def stable(d):
    return d['k'] not in ('str', 'url') or d['regex'][0] == 'none' or (d['strip'] == '' and d['ccase'] == 'unchanged')


def grid(d, vals, follow=(), pre=None, every=1, laws=None):
    """one property, many values"""
    def build(s):
        if pre:
            pre(s)
        s.do('defclass', d=klass('A', [body_prop('p', dict(d, req=False))]))
        h = h_of(s.do('new', c='A', kw=[]))
        ops = sets(h, 'p', vals(s) if callable(vals) else vals)
        n = len(ops)
        ops += [op(f, **({'h': h} if f != 'ser' else {'h': h, 'ic': True, 'dyn': False})) for f in follow]
        if 'equal' in follow:
            ops = [dict(o, a=H(h), b=H(h)) if o['op'] == 'equal' else o for o in ops]
        return {'ops': ops, 'depth': (1, 2), 'grid': n, 'every': every, 'laws': (['typed'] if stable(d) else []) if laws is None else laws,
                'steplaws': ['pure', 'atomic'], 'length': 60}
    return build


with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'HPColors.tla')) as _f:
    NAMES = re.findall(r'<<"(\w+)", "[0-9A-F]{6}">>', _f.read())
# whole tables, for some descriptors only
TABLES = {
    'color': [S(n) for n in NAMES] + [S(n.upper() if j % 2 else n.title()) for j, n in enumerate(NAMES) if j % 3 == 0] +
             [S(t) for t in ('#123', '109', '#000', '999', '123', '#f0a', 'FaB', '#9a0', '12', '1', '#1234', '12345', '1234567', '#12345678', '0g0', '#abcdeg', '#000000', '012345', '#00ff7f', 'fffffe', '###012', '#red', 'red#', 're d')] +
             [TU(*[I(n) for n in x]) for x in ((0, 0, 0), (255, 255, 255), (256, 0, 0), (0, 256, 0), (0, 0, 256), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 2), (1, 2, 3, 4), (128, 64, 32))],
    'bool-cast': [S(t) for t in ('true', 'TRUE', 'True', 'y', 'Y', 'yes', 'YES', 'on', 'oN', 'On', 'false', 'False', 'n', 'N', 'no', 'off', 'OFF', 't', 'f', '1', '0', 'none', 'yess', 'nope', '')],
    'datetime': [S('%d/%02d/%02d' % (y, m, d)) for y in (1900, 2000, 2019, 2020, 2100) for m in range(0, 14) for d in (0, 1, 28, 29, 30, 31, 32) if m == 2 or (y == 2019 and (d > 29 or d < 2))] +
                [S('2020-06-15T%sZ' % t) for t in ('00:00:00', '23:59:59', '24:00:00', '12:60:00', '12:00:60', '12:00:61', '12:00:62', '12:30:15')],
    'str': [S(t) for t in ('a b', '\t', 'A' * 40, '0')],
}
TABLES['bool'] = TABLES['bool-cast']


def C01():
    return [('c01-' + n, grid(d, [v for v in NUMS + TEXTS + OTHERS + TABLES.get(n, []) if allowed(d, v)], ('validate',) if stable(d) else (), every=4)) for n, d in scalar_descs().items()]



# -----------------------------------------------------------------------------
def boxes(s):
    """classes C0 (v0: small integer, required; v1: text) and C1 < C0, with instances h1: C0, h2: C1, h3: C0 without values"""
    s.do('defclass', d=klass('C0', [body_prop('v0', P('int', min=I(0))), body_prop('v1', P('str', req=False))]))
    s.do('defclass', d=klass('C1', [body_prop('w', P('list', prop=P('int'), req=False))], bases=['C0']))
    s.do('new', c='C0', kw=[['v0', I(1)]])
    s.do('new', c='C1', kw=[['v0', I(2)], ['w', L(I(1))]])
    s.do('new', c='C0', kw=[])


def cont_descs():
    i = P('int', min=I(0))
    st = P('str', ccase='upper')
    inst = P('inst', cls='C0')
    out = {}
    for k in ('list', 'tuple', 'set'):
        out[k] = P(k)
        out[k + '-int'] = P(k, prop=i)
        out[k + '-int-coerce'] = P(k, prop=i, coerce=True)
        out[k + '-str-len'] = P(k, prop=st, minl=1, maxl=2)
        out[k + '-float-len0'] = P(k, prop=P('float'), minl=0, maxl=0)
        out[k + '-inst'] = P(k, prop=inst)
    out['list-int-obs'] = P('list', prop=i, obs=True)
    out['set-int-obs'] = P('set', prop=i, obs=True)
    out['list-list'] = P('list', prop=P('list', prop=i))
    out['list-list-coerce'] = P('list', prop=P('list', prop=i, coerce=True), coerce=True)
    out['tuple-list'] = P('tuple', prop=P('list', prop=i, maxl=2))
    out['list-set'] = P('list', prop=P('set', prop=st))
    out['list-dict'] = P('list', prop=P('dict', kprop=P('str'), vprop=i))
    out['set-tuple'] = P('set', prop=P('tuple', prop=i))
    out['list-union'] = P('list', prop=P('union', props=[i, st]))
    out['dict'] = P('dict')
    out['dict-str-int'] = P('dict', kprop=P('str'), vprop=i)
    out['dict-upper-int'] = P('dict', kprop=st, vprop=i)
    out['dict-int-list'] = P('dict', kprop=P('int'), vprop=P('list', prop=i, maxl=1))
    out['dict-str-inst'] = P('dict', kprop=P('str'), vprop=inst)
    out['dict-obs'] = P('dict', kprop=P('str'), vprop=i, obs=True)
    out['dict-dict'] = P('dict', vprop=P('dict', kprop=P('str'), vprop=i))
    out['inst'] = inst
    out['inst-sub'] = P('inst', cls='C1')
    return out


def cont_values(s):
    a, b = S('a'), S('B')
    base = [[], [I(1)], [I(1), I(2)], [I(-1)], [I(1), I(-1)], [['f', 1024, 4], I(2)], [a], [a, b], [a, b, S('c')], [I(1), a], [N()], [F(.5)],
            [TU()], [TU(I(1))], [TU(I(-1))], [H('h1')], [H('h2'), H('h1')], [H('h3')], [O1]]
    out = []
    for xs in base:
        out += [L(*xs), TU(*xs), L(*xs, cls='MyList')]
        if all(x[0] != 'none' for x in xs) and len({x[0] for x in xs}) < 2:
            out += [SE(*xs), SE(*xs, cls='MySet')] if len(xs) < 3 else []
    out += [L(L(I(1)), L()), L(L(I(1)), L(I(-1))), L(TU(I(1))), TU(L(I(1), I(2)), L(I(3))), L(L(I(1), I(2), I(3))), L(L(a)), L(L(I(1)), I(1)),
            L(SE(a), SE()), L(SE(a, b)), L(SE(I(1))), L(SE(I(1)), SE(a)), L(D((a, I(1)))), L(D((a, I(-1)))), L(D((I(1), I(1)))), L(D()), TU(TU(I(1)), cls='MyTuple'),
            I(1), a, N(), O1, H('h1'), H('h2'), H('h3')]
    d = [[], [(a, I(1))], [(a, I(1)), (b, I(2))], [(a, I(-1))], [(a, I(1)), (b, I(-1))], [(I(1), I(1))], [(a, a)], [(a, N())], [(a, H('h1'))], [(a, H('h1')), (b, a)],
         [(I(1), L(I(1)))], [(I(1), L(I(1), I(2)))], [(I(1), L(I(-1)))], [(I(1), TU(I(1)))], [(a, D((b, I(1))))], [(a, D((b, I(-1))))], [(a, D((I(1), I(1))))],
         [(a, D((S('v0'), I(3))))], [(a, D((S('v0'), I(-3))))], [(a, S('x')), (S('A'), S('y'))], [(a, I(1)), (S('A'), I(2))], [(TU(I(1)), I(1))]]
    for ps in d:
        out += [D(*ps), D(*ps, cls='MyDict')]
        if len(ps) != 1:
            out.append(L(*[TU(x, y) for x, y in ps]))
    kw = [[(S('v0'), I(3))], [(S('v0'), I(-3))], [(S('v0'), I(3)), (S('v1'), S('t'))], [(S('v1'), S('t'))], [(S('nope'), I(1))], [(S('v0'), I(1)), (S('nope'), I(1))],
          [(S('w'), L(I(1)))], [(S('w'), L(S('q'))), (S('v0'), I(1))], [(I(1), I(2))]]
    out += [D(*ps) for ps in kw] + [D(*ps, cls='MyDict') for ps in kw[:2]] + [L(D(*ps)) for ps in kw[:6]] + [L(H('h1'), D(*kw[1])), L(D(*kw[0]), D(*kw[0])), TU(D(*kw[0]), H('h2'))]
    return out


def C02():
    def fit(d, v):
        if d['coerce'] and v[0] == 'd' and d['k'] != 'dict':
            return False
        if v[0] in 'ltSd' and d['k'] in ('list', 'tuple', 'set', 'dict') and 'prop' in (d.get('prop', d.get('vprop')) or P('int'))['k'] and "'none'" in str(v):
            return False
        return not (d['k'] == 'set' and d['prop']['k'] == 'prop' and v[0] == 'S' and len(v[2]) > 1)
    return [('c02-' + n, grid(d, [v for v in cont_values(None) if fit(d, v)], ('validate',), boxes, 3)) for n, d in cont_descs().items()]



# -----------------------------------------------------------------------------
RAISE2 = [['when', I(2), [['raise', 'ValueError']]]]
RAISEV2 = [['when', I(2), [['raisev', 'because', 'p']]]]


def simple(body, new=(), ops=(), depth=(3, 4), laws=('typed',), steplaws=('pure',), more=None, **kw):
    """class A with a body, instances h1, h2, ..."""
    def build(s):
        s.do('defclass', d=klass('A', body, **kw))
        for k in new:
            s.do('new', c='A', kw=[list(x) for x in k])
        if more:
            more(s)
        return {'ops': list(ops), 'depth': depth, 'laws': list(laws), 'steplaws': list(steplaws)}
    return build


def at(h, n, *vals):
    return sets(h, n, vals)


def C03():
    watch = obs('w', 'W', 'observe_set', (), every=True)
    pint = body_prop('p', P('int', min=I(0), req=False, dflt=['val', I(2)]))
    q = body_prop('q', P('int', req=False))
    out = []
    for nm, pr in (('raise', RAISE2), ('raisev', RAISEV2), ('other', [['when', I(2), [['raise', 'RuntimeError']]]]),
                   ('after', [['set', 'self', 'q', I(7)], ['when', I(2), [['raise', 'KeyError']]]]),
                   ('put', [['when', I(2), [['put', I(5)]]], ['when', I(5), [['raise', 'TypeError']]]]),
                   ('inner', [['when', I(3), [['set', 'self', 'p', I(4)], ['raise', 'ValueError']]]]),
                   ('delinner', [['when', I(3), [['del', 'self', 'p'], ['raise', 'ValueError']]]]),
                   ('try', [['when', I(3), [['try', [['set', 'self', 'p', I(-9)]]]]]])):
        out.append(('c03-' + nm, simple([pint, q, obs('v', 'V', 'validate', ['p'], pr), watch], [[]],
                                        at('h1', 'p', I(1), I(2), I(3), I(5), I(-1), S('x'), UND) + at('h1', 'q', I(1), S('x')) +
                                        [op('del', h='h1', n='p'), op('reset', h='h1', n='p'), op('new', c='A', kw=[['p', I(1)], ['q', S('x')]]),
                                         op('new', c='A', kw=[['p', I(2)]]), op('validate', h='h1')], (4, 6), laws=())))
    out.append(('c03-delete', simple([pint, q, obs('v', 'V', 'validate', ['p', 'q'], [['when', UND, [['raise', 'ValueError']]]]), watch], [[]],
                                     at('h1', 'p', I(1), I(2), UND) + at('h1', 'q', I(1), S('x')) + [op('del', h='h1', n='p'), op('del', h='h1', n='q')], (4, 6),
                                     steplaws=('pure', 'atomic'))))
    cont = [body_prop('l', P('list', prop=P('int', max=I(3)), maxl=2, obs=True, req=False)), body_prop('s', P('set', prop=P('int', max=I(3)), obs=True, req=False)),
            body_prop('d', P('dict', kprop=P('str'), vprop=P('int', max=I(3)), obs=True, req=False)),
            obs('v', 'V', 'validate', ['l', 's', 'd'], [['when', L(I(1), I(1)), [['raise', 'ValueError']]], ['when', SE(I(1), I(2)), [['raise', 'ValueError']]],
                                                        ['when', D((S('a'), I(2))), [['raise', 'ValueError']]]]), watch]
    new = [['l', L(I(1))]], [['s', SE(I(1))]], [['d', D((S('a'), I(1)))]]
    for n, ms in (('l', [('append', [I(1)]), ('append', [I(9)]), ('append', [S('x')]), ('insert', [I(0), I(2)]), ('extend', [L(I(2), I(9))]), ('pop', []), ('clear', []),
                         ('__setitem__', [I(0), I(9)]), ('__setitem__', [I(0), I(2)]), ('reverse', [])]),
                  ('s', [('add', [I(2)]), ('add', [I(9)]), ('update', [L(I(3), I(9))]), ('discard', [I(1)]), ('remove', [I(7)]), ('clear', [])]),
                  ('d', [('__setitem__', [S('a'), I(2)]), ('__setitem__', [S('b'), I(9)]), ('__setitem__', [S('b'), I(3)]), ('update', [D((S('a'), I(3)), (S('c'), I(9)))]),
                         ('setdefault', [S('z'), I(9)]), ('pop', [S('a')]), ('clear', [])])):
        h = {'l': 'h1', 's': 'h2', 'd': 'h3'}[n]
        augs = {'l': [('__iadd__', L(I(9))), ('__iadd__', L(I(2))), ('__imul__', I(2))], 's': [('__ior__', SE(I(9))), ('__ior__', SE(I(2))), ('__isub__', SE(I(1)))],
                'd': [('__ior__', D((S('a'), I(9)))), ('__ior__', D((S('b'), I(2))))]}[n]
        out.append(('c03-cont-' + n, simple(cont, new, [op('grab', x='k', h=h, n=n)] + [op('mut', x='k', m=m, args=a) for m, a in ms] +
                                            [op('aug', h=h, n=n, m=m, args=[a]) for m, a in augs] + [op('validate', h=h), op('del', h=h, n=n)],
                                            (3, 4), steplaws=('pure', 'atomic'))))

    def nested(s):
        s.do('defclass', d=klass('B', [body_prop('i', P('inst', cls='A', req=False)), body_prop('li', P('list', prop=P('inst', cls='A'), req=False)),
                                       obs('w', 'WB', 'observe_set', (), every=True)]))
        s.do('new', c='B', kw=[['i', D((S('p'), I(1)))]])
    vals = [D((S('p'), I(1))), D((S('p'), I(2))), D((S('p'), I(-1))), D((S('p'), I(1)), (S('q'), S('x'))), D((S('zz'), I(1))), H('h1'), I(3), N()]
    out.append(('c03-kw', simple([pint, q, obs('v', 'V', 'validate', ['p'], RAISE2), watch], [[['p', I(4)]]],
                                 at('h2', 'i', *vals) + at('h2', 'li', *[L(H('h1'), v) for v in vals] + [D((S('p'), I(1)))]) + at('h1', 'p', I(1), I(2)) +
                                 [op('new', c='B', kw=[['i', vals[2]]]), op('new', c='B', kw=[['li', L(vals[0], vals[3])]])],
                                 (2, 3), more=nested)))

    def linked(s):
        s.do('new', c='A', kw=[])
        s.do('links', ls=[['K0', ['h1', 'p'], ['h2', 'p']]], now=False, chg=True, tr='id')
    out.append(('c03-link', simple([pint, q, obs('v', 'V', 'validate', ['q'], RAISE2), watch], [[]],
                                   at('h1', 'p', I(1), I(2), I(3), I(-1)) + at('h2', 'p', I(1), I(4)) + at('h1', 'q', I(1), I(2)) +
                                   [op('links', ls=[['K1', ['h1', 'q'], ['h2', 'q']]], now=True, chg=False, tr='inc'), op('unlink', ks=['K0']), op('relink', ks=['K0']),
                                    op('del', h='h1', n='q') if False else op('validate', h='h1')], (4, 5), more=linked, laws=())))
    return out


# -----------------------------------------------------------------------------
def three(ns, sfx='', prog=None):
    return [obs('v' + sfx, 'V' + sfx, 'validate', ns, prog), obs('c' + sfx, 'C' + sfx, 'observe_change', ns), obs('s' + sfx, 'S' + sfx, 'observe_set', ns)]


EQVALS = {
    'float': (P('float'), [I(1), ['f', 1024, 4], ['f', 1024, -4], ['f', 1024, 11], ['nan'], ['inf', 1], ['inf', -1], S('x')]),
    'int': (P('int'), [I(1), ['f', 1024, 4], ['f', 1024, 11], I(2), B(True), I(0)]),
    'bool': (P('bool', cast=True), [B(True), I(1), I(0), B(False), S('')]),
    'complex': (P('complex'), [['c', F(1), F(2)], ['c', ['f', 1024, 4], F(2)], ['c', ['f', 1024, 3000], F(2)], I(1), ['c', F(1), F(0)]]),
    'str': (P('str', ccase='upper'), [S('a'), S('A'), S('b'), S('')]),
    'choice': (P('choice', choices=CH2), [S('AB'), S('x'), S('Y'), S('mid'), S('ba'), S('q')]),
    'list': (P('list', prop=P('float')), [L(), L(I(1)), L(['f', 1024, 4]), L(['f', 1024, 11]), L(I(1), I(2)), L(I(2), I(1)), L(I(1), cls='MyList')]),
    'tuple': (P('tuple', prop=P('int')), [TU(), TU(I(1)), TU(B(True)), TU(I(1), I(2)), TU(I(1), cls='MyTuple')]),
    'set': (P('set', prop=P('int')), [SE(), SE(I(1)), SE(I(1), I(2)), SE(I(2), I(3)), SE(I(1), cls='MySet')]),
    'dict': (P('dict', kprop=P('str'), vprop=P('float')), [D(), D((S('a'), I(1))), D((S('a'), ['f', 1024, 4])), D((S('a'), I(1)), (S('b'), I(2))), D((S('b'), I(2)), (S('a'), I(1))),
                                                           D((S('b'), I(1)))]),
    'prop': (P('prop'), [I(1), F(1), B(True), S('1'), O1, ['o', 'o2'], L(I(1)), L(F(1)), D()]),
    'datetime': (P('datetime'), [S('2020/02/29'), DT(2020, 2, 29), S('2020-02-29T00:00:00Z'), DT(2020, 2, 28)]),
    'color': (P('color'), [S('red'), S('#f00'), TU(I(255), I(0), I(0)), TU(I(255), B(False), I(0)), S('Red')]),
    'union': (P('union', props=[P('int'), P('float'), P('list', prop=P('float'))]), [I(1), F(1), ['f', 1024, 4], F(1.5), ['f', 1536, 4], L(I(1)), L(['f', 1024, 4]), S('x')]),
    'array': (P('array', shape=[[-1], [1, 2]]), [L(I(1), I(2)), L(F(1), F(2)), L(L(I(1), I(2))), ['a', 'ndarray', 'f', [2], [F(1), ['nan']]], L(), L(F(1), ['f', 2048, 4])]),
    'vec3': (P('vec3'), [S('x'), L(I(1), I(0), I(0)), S('EAST'), L(I(2), I(0), I(0)), L(['f', 1024, 4], I(0), I(0))]),
}


def C04():
    out = []
    for n, (d, vals) in EQVALS.items():
        out.append(('c04-eq-' + n, simple([body_prop('p', dict(d, req=False))] + three(['p']), [[]], at('h1', 'p', *vals) + [op('del', h='h1', n='p')], (3, 4))))
    ps = [body_prop('p', P('int', req=False, dflt=['val', I(1)])), body_prop('q', P('int', req=False)), body_prop('r', P('int', max=I(5), req=False))]
    base = at('h1', 'p', I(1), I(2), I(3)) + at('h1', 'q', I(1), I(2)) + [op('del', h='h1', n='p'), op('reset', h='h1', n='p')]
    ev = [obs('ev', 'EV', 'validate', (), every=True), obs('es', 'ES', 'observe_set', (), every=True)]
    progs = {
        'put': [obs('a', 'A1', 'validate', ['p'], [['when', I(2), [['put', I(3)]]]]), obs('b', 'A2', 'validate', ['p'], [['when', I(3), [['put', I(1)]]]])],
        'cascade': [obs('a', 'A1', 'observe_change', ['p'], [['copy', 'self', 'q']]), obs('b', 'A2', 'observe_change', ['q'], [['copy', 'self', 'r']])],
        'echo': [obs('a', 'A1', 'observe_change', ['p'], [['copy', 'self', 'q']]), obs('b', 'A2', 'observe_change', ['q'], [['copy', 'self', 'p']])],
        'inval': [obs('a', 'A1', 'validate', ['p'], [['copy', 'self', 'q']]), obs('b', 'A2', 'validate', ['q'], [['when', I(2), [['raise', 'ValueError']]]])],
        'selfset': [obs('a', 'A1', 'observe_set', ['p'], [['when', I(2), [['set', 'self', 'p', I(3)]]]])],
        'selfval': [obs('a', 'A1', 'validate', ['p'], [['when', I(2), [['set', 'self', 'p', I(3)]]]])],
        'selfchg': [obs('a', 'A1', 'observe_change', ['p'], [['when', I(2), [['set', 'self', 'p', I(1)]]]])],
        'deleter': [obs('a', 'A1', 'observe_set', ['p'], [['when', I(3), [['del', 'self', 'q']]]]), obs('b', 'A2', 'observe_change', ['q'], [['when', UND, [['set', 'self', 'r', I(4)]]]])],
        'resetter': [obs('a', 'A1', 'observe_change', ['q'], [['reset', 'self', 'p']])],
        'raiser': [obs('a', 'A1', 'observe_change', ['p'], [['when', I(2), [['raise', 'ValueError']]]]), obs('b', 'A2', 'observe_set', ['p'], [['copy', 'self', 'q']])],
        'within': [obs('a', 'A1', 'observe_set', ['p'], [['within', ['all'], [['copy', 'self', 'q']]]])],
        'withinv': [obs('a', 'A1', 'observe_set', ['p'], [['within', ['validate'], [['copy', 'self', 'q']]], ['set', 'self', 'r', I(1)]])],
        'many': [obs('a', 'A1', 'observe_set', ['p', 'q']), obs('b', 'A2', 'observe_change', ['q', 'p', 'r']), obs('c', 'A3', 'validate', ['r', 'p'])],
    }
    for n, ls in progs.items():
        out.append(('c04-' + n, simple(ps + ls + ev, [[]], base + at('h1', 'r', I(4), I(9)), (4, 6), laws=())))
    out.append(('c04-order', simple(ps + three(['p'], '1') + three(['p', 'q'], '2'), [[], []],
                                    at('h1', 'p', I(1), I(2)) + at('h2', 'p', I(1)) +
                                    [op('listen', h='h1', **lis('I%d' % i, m, ['p'])) for i, m in enumerate(('validate', 'observe_set', 'observe_change'))] +
                                    [op('listen', h='h1', **lis('I3', 'observe_set', [], every=True)), op('listen', h='h2', **lis('I4', 'validate', ['p', 'q'], [['put', I(2)]]))],
                                    (4, 5))))

    def other(s):
        s.do('listen', h='h1', **lis('X', 'observe_change', ['p'], [['copy', 'h2', 'p']]))
        s.do('listen', h='h2', **lis('Y', 'observe_change', ['p'], [['copy', 'h1', 'q']]))
    out.append(('c04-two', simple(ps + three(['q']), [[], []], base + at('h2', 'p', I(1), I(2)), (4, 5), more=other)))
    return out


def C05():
    body = [body_prop('p', P('int', max=I(5), req=False)), body_prop('n', P('int', req=True))] + three(['p']) + \
        [obs('r', 'R', 'validate', ['p'], [['when', I(3), [['raise', 'ValueError']]]]), cv('k', 'K', [['when', N(), []]] if False else [['nop']])]
    out = []
    kinds = {'all': ['all'], 'val': ['validate'], 'obs': ['observe_change', 'observe_set'], 'chg': ['observe_change'], 'mix': ['validate', 'observe_set'], 'set': ['observe_set']}
    ops = at('h1', 'p', I(1), I(3), I(9)) + at('h2', 'p', I(1))
    names = list(kinds)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            sc = []
            for x, t in ((a, kinds[a]), (b, kinds[b])):
                sc += [op('enter', x=x, types=t, max=2), op('exit', x=x, exc=False)]
            out.append(('c05-%s-%s' % (a, b), simple(body, [[], []], sc + ops, (5, 7), laws=('scoped',), steplaws=('pure',))))
    sc = [op('enter', x='a', types=['all'], max=3), op('exit', x='a', exc=False), op('exit', x='a', exc=True), op('enter', x='b', types=['validate'], max=1), op('exit', x='b', exc=True)]
    out.append(('c05-make', simple(body, [[]], sc + [op('new', c='A', kw=[['p', I(1)]]), op('new', c='A', kw=[['p', I(9)]]), op('new', c='A', kw=[['p', I(3)]]), op('new', c='A', kw=[['zz', I(3)]]),
                                                     op('deser', c='A', v=D((S('p'), I(1))), tr=False, strict=False, av=False), op('deser', c='A', v=D((S('p'), S('x'))), tr=False, strict=False, av=False),
                                                     op('deser', c='A', v=D((S('p'), I(3))), tr=False, strict=True, av=True), op('set', h='h1', n='p', v=I(3)), op('set', h='h1', n='p', v=I(1)),
                                                     op('validate', h='h1'), op('set', h='h1', n='n', v=I(1)), op('copy', h='h1')], (4, 5), laws=('scoped',))))
    inner = [obs('a', 'A1', 'observe_set', ['p'], [['within', ['all'], [['set', 'self', 'n', I(1)]]], ['set', 'self', 'n', I(2)]]),
             obs('b', 'A2', 'validate', ['p'], [['try', [['within', ['validate'], [['raise', 'ValueError']]]]]]), obs('c', 'A3', 'observe_set', ['n']), obs('d', 'A4', 'validate', ['n'])]
    out.append(('c05-inner', simple([body_prop('p', P('int', req=False)), body_prop('n', P('int', req=False))] + inner, [[]],
                                    at('h1', 'p', I(1), I(2)) + at('h1', 'n', I(1)) + sc[:2] + sc[3:], (4, 6), laws=('scoped',))))
    return out


def C06():
    a = [body_prop('p', P('int', req=False)), body_prop('q', P('int', req=False)), obs('l', 'LA', 'observe_set', ['p']), obs('m', 'MA', 'validate', ['p', 'q']),
         obs('e', 'EA', 'observe_change', (), every=True), cv('k', 'KA', [['nop']])]
    subs = {
        'none': [], 'redefine': [obs('l', 'LB', 'observe_set', ['q'])], 'mode': [obs('l', 'LB', 'validate', ['p'], [['put', I(7)]])], 'plain': [['plain', 'l', {}, '']],
        'plaincv': [['plain', 'k', {}, '']], 'cvtoobs': [obs('k', 'KB', 'observe_set', ['p'])], 'obstocv': [cv('l', 'LB', [['raise', 'ValueError']])],
        'prop': [body_prop('l', P('int', req=False))], 'newprop': [body_prop('r', P('int', req=False)), obs('n', 'NB', 'observe_set', (), every=True)],
        'overprop': [body_prop('p', P('str', req=False))], 'gone': [body_prop('p', P('int', req=False)), obs('m', 'MB', 'validate', ['p'])],
        'cv2': [cv('k', 'KB', [['raise', 'ValueError']]), cv('k2', 'KB2', [['nop']])], 'evplain': [['plain', 'e', {}, '']],
        'private': [body_prop('_y', P('int', req=False)), obs('n', 'NB', 'validate', ['_y'], [['put', I(3)]]), obs('_n', 'PB', 'observe_set', ['_y', 'p'])],
        'evover': [obs('e', 'EB', 'observe_set', ['q', 'p'])], 'immut': [body_prop('u', P('gettable', dflt=['val', I(3)]))],
    }
    out = []
    for n, body in subs.items():
        def build(s, body=body):
            s.do('defclass', d=klass('A', a))
            s.do('defclass', d=klass('B', body, bases=['A']))
            s.do('defclass', d=klass('C', [body_prop('z', P('int', req=False))], bases=['B']))
            for c in 'ABC':
                s.do('new', c=c, kw=[])
            ops = []
            for h, c in zip(('h1', 'h2', 'h3'), 'ABC'):
                ops += at(h, 'p', I(1)) + at(h, 'q', I(2)) + [op('validate', h=h)]
            ops += at('h2', '_y', I(1)) + at('h3', '_y', I(2)) if any(b[1] == '_y' for b in body) else []
            ops += at('h2', 'r', I(1)) if any(b[1] == 'r' for b in body) else []
            ops += at('h3', 'z', I(1)) + at('h2', 'l', I(1)) * any(b[1] == 'l' and b[0] == 'prop' for b in body)
            ops += [op('listen', h='h2', **lis('I0', 'observe_set', ['p'])), op('listen', h='h3', **lis('I1', 'validate', [], every=True)), op('del', h='h2', n='p')]
            return {'ops': ops, 'depth': (2, 3), 'laws': ['typed'], 'steplaws': ['pure']}
        out.append(('c06-' + n, build))

    def bad(s):
        s.do('defclass', d=klass('A', a + [body_prop('u', P('gettable', dflt=['val', I(3)])), body_prop('dy', P('dyn', prop=P('int'), get=['const', I(1)])), body_prop('rn', P('ren', new='p'))]))
        ops = []
        for i, ns in enumerate((['p'], ['zz'], ['u'], ['dy'], ['rn'], ['p', 'zz'], ['l'], ['q', 'p'])):
            for m in ('validate', 'observe_set'):
                ops.append(op('defclass', d=klass('B%d%s' % (i, m[0]), [obs('x', 'X', m, ns)], bases=['A'])))
                ops.append(op('defclass', d=klass('R%d%s' % (i, m[0]), [body_prop('p', P('int')), body_prop('q', P('int')), obs('x', 'X', m, ns)])))
        return {'ops': ops, 'depth': (1, 1), 'grid': len(ops)}
    out.append(('c06-names', bad))
    return out


def node(extra=(), cvs=True):
    return [body_prop('v', P('int', max=I(3))), body_prop('l', P('list', prop=P('int', max=I(3)), minl=1, maxl=2, req=False)),
            body_prop('nxt', P('inst', cls='Root', req=False)), body_prop('ns', P('list', prop=P('inst', cls='Root'), req=False)),
            obs('o', 'O', 'validate', ['v'], [['when', I(2), [['raise', 'ValueError']]]])] + \
        ([cv('k', 'K', [['le', 'w', 'v', 'raisev']]), body_prop('w', P('int', req=False))] if cvs else []) + list(extra)


def C07():
    hs = ['h1', 'h2']
    new = [[['v', I(1)]], [['v', I(1)]]]
    val = [op('validate', h=h) for h in hs]
    out = [('c07-own', simple(node(), new[:1], at('h1', 'v', I(1), I(3)) + at('h1', 'w', I(0), I(3)) + at('h1', 'l', L(), L(I(1)), L(I(1), I(2), I(3))) +
                              [op('poke', h='h1', n='l', v=L(I(9))), op('poke', h='h1', n='l', v=L(S('x'))), op('poke', h='h1', n='l', v=L(I(1), I(1))), op('del', h='h1', n='v'), val[0]],
                              (3, 4), laws=())),
           ('c07-graph', simple(node(), new, at('h1', 'nxt', H('h1'), H('h2'), UND) + at('h2', 'nxt', H('h1'), UND) + at('h1', 'ns', L(H('h2')), L(H('h2'), H('h1')), L()) +
                                at('h2', 'v', I(1)) + [op('del', h='h2', n='v'), op('del', h='h1', n='v')] + val, (4, 5), laws=())),
           ('c07-mixed', simple(node(), new, at('h1', 'nxt', H('h2')) + at('h2', 'nxt', H('h1')) + at('h2', 'l', L(I(1)), L()) + at('h2', 'w', I(0), I(2)) +
                                [op('poke', h='h2', n='l', v=L(I(9))), op('poke', h='h2', n='l', v=L(I(3))), op('del', h='h1', n='v'), op('del', h='h2', n='v')] + at('h1', 'v', I(1)) + val,
                                (4, 5), laws=()))]
    sc = [op('enter', x='a', types=['validate'], max=1), op('exit', x='a', exc=False)]
    out.append(('c07-off', simple(node(), new[:1], sc + at('h1', 'v', I(1), I(2), I(3)) + at('h1', 'w', I(3)) + [op('del', h='h1', n='v'), op('reset', h='h1', n='l'), val[0]], (4, 5), laws=())))
    kinds = {'tuple': P('tuple', prop=P('inst', cls='B')), 'dict': P('dict', vprop=P('inst', cls='B')), 'union': P('union', props=[P('int'), P('inst', cls='B')]),
             'deep': P('list', prop=P('dict', kprop=P('str'), vprop=P('list', prop=P('inst', cls='B')))), 'utup': P('list', prop=P('union', props=[P('inst', cls='B'), P('str')]))}
    wrapv = {'tuple': lambda *x: TU(*x), 'dict': lambda *x: D(*[(S('k%d' % i), v) for i, v in enumerate(x)]), 'union': lambda *x: x[0],
             'deep': lambda *x: L(D((S('a'), L(*x)))), 'utup': lambda *x: L(S('s'), *x)}
    for n, d in kinds.items():
        def build(s, n=n, d=d):
            s.do('defclass', d=klass('B', [body_prop('v', P('int', max=I(3))), body_prop('m', P('list', prop=P('int', max=I(3)), req=False)), cv('k', 'KB', [['nop']])]))
            s.do('defclass', d=klass('A', [body_prop('p', dict(d, req=True)), body_prop('p2', dict(d, req=False))]))
            s.do('new', c='B', kw=[['v', I(1)], ['m', L(I(1))]])
            s.do('new', c='B', kw=[])
            s.do('new', c='A', kw=[])
            w = wrapv[n]
            return {'ops': at('h3', 'p', w(H('h1')), w(H('h2')), w(H('h1'), H('h2')), UND) + at('h3', 'p2', w(H('h2')), UND) + at('h2', 'v', I(1)) + at('h1', 'v', I(2)) +
                    [op('del', h='h1', n='v'), op('poke', h='h1', n='m', v=L(I(9))), op('validate', h='h3'), op('validate', h='h1')], 'depth': (3, 4), 'steplaws': ['pure']}
        out.append(('c07-' + n, build))
    return out


def C08():
    out = []
    for n, (d, vals) in EQVALS.items():
        vals = [v for v in vals if v not in (S('x'), S('q'))] if n not in ('vec3', 'choice', 'str') else [v for v in vals if v != S('q')]

        def build(s, d=d, vals=vals):
            s.do('defclass', d=klass('A', [body_prop('p', dict(d, req=False)), body_prop('z', P('int', req=False))]))
            s.do('defclass', d=klass('B', [], bases=['A']))
            for c in 'AAB':
                s.do('new', c=c, kw=[])
            ops = [o for h in ('h1', 'h2') for o in at(h, 'p', *vals)] + at('h3', 'p', vals[0]) + [op('del', h='h1', n='p')]
            ops += [op('equal', a=H(a), b=H(b)) for a, b in (('h1', 'h2'), ('h2', 'h1'), ('h1', 'h1'), ('h1', 'h3'))]
            return {'ops': ops, 'depth': (3, 3), 'laws': ['eq', 'eqself', 'eqdef'], 'steplaws': ['pure'], 'length': 60}
        out.append(('c08-' + n, build))

    def graph(s):
        s.do('defclass', d=klass('A', [body_prop('v', P('int', req=False)), body_prop('nxt', P('inst', cls='Root', req=False)),
                                       body_prop('l', P('list', prop=P('inst', cls='Root'), req=False))]))
        s.do('defclass', d=klass('B', [], bases=['A']))
        for c in 'AAB':
            s.do('new', c=c, kw=[])
        hs = ['h1', 'h2', 'h3']
        ops = [op('set', h=a, n='nxt', v=H(b)) for a in hs[:2] for b in hs] + at('h1', 'l', L(H('h2'), H('h3')), L(H('h3'), H('h2')), L(H('h1'))) + at('h2', 'l', L(H('h2'), H('h3')), L()) + \
            at('h1', 'v', I(1)) + at('h2', 'v', I(1)) + [op('equal', a=H(a), b=H(b)) for a, b in (('h1', 'h2'), ('h2', 'h1'), ('h1', 'h3'), ('h1', 'h1'))]
        return {'ops': ops, 'depth': (4, 5), 'laws': ['eq', 'eqself', 'eqdef'], 'steplaws': ['pure'], 'length': 60}
    out.append(('c08-graph', graph))

    inst = P('inst', cls='C')
    for n, d, mk in (('set', P('set', prop=inst, req=False), lambda *hs: SE(*map(H, hs))), ('list', P('list', prop=inst, req=False), lambda *hs: L(*map(H, hs))),
                     ('dict', P('dict', vprop=inst, req=False), lambda *hs: D(*[(S('k%d' % j), H(h)) for j, h in enumerate(hs)]))):
        def items(s, d=d, mk=mk):
            s.do('defclass', d=klass('C', [body_prop('v', P('int', req=False))]))
            s.do('defclass', d=klass('A', [body_prop('p', d)]))
            for c in 'CCCAA':
                s.do('new', c=c, kw=[])
            ops = at('h4', 'p', mk(), mk('h1'), mk('h1', 'h2'), mk('h1', 'h2', 'h3')) + at('h5', 'p', mk('h1', 'h3'), mk('h3', 'h2'), mk('h2')) + at('h2', 'v', I(1)) + at('h3', 'v', I(1)) + \
                [op('equal', a=H(a), b=H(b)) for a, b in (('h4', 'h5'), ('h5', 'h4'))]
            return {'ops': ops, 'depth': (4, 5), 'laws': ['eq', 'eqself', 'eqdef'], 'steplaws': ['pure'], 'length': 60}
        out.append(('c08-items-' + n, items))
    return out


SCENARIOS = {'C01': (C01, ['ok', 'kind', 'heap', 'value', 'undefined']),
             'C02': (C02, ['ok', 'kind', 'heap', 'args', 'value', 'undefined']),
             'C03': (C03, ['ok', 'heap', 'fires', 'cont', 'kind', 'undefined']),
             'C04': (C04, ['fires', 'heap', 'ok', 'kind', 'undefined']), 'C05': (C05, ['fires', 'ok', 'heap', 'undefined']),
             'C06': (C06, ['ok', 'fires', 'heap', 'kind', 'undefined']),
             'C07': (C07, ['ok', 'tups', 'value', 'heap', 'kind', 'fires', 'undefined']),
             'C08': (C08, ['ok', 'value', 'heap', 'undefined'])}
