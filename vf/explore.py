"""Exhaustive exploration of the object machine, and walks of the real library over every explored transition.

A scenario is a function build(s): it performs a prelude in the session s and
returns the operations a client may perform afterwards, the depths (quick,
thorough) and the laws to check.  TLC (spec/HPExplore.tla) enumerates every
state reachable with those operations; the harness then performs, with the
real library, walks that together take every printed transition, and TLC
judges the recordings like any other session.
"""
import concurrent.futures
import copy
import json
import os
import random
import re
import shutil
import time

from . import hp, tlc

STEP = re.compile(r'<<"X", (\d+), (-?\d+), (\d+), (-?\d+)>>')


def op(name, **kw):
    """an operation record for the alphabet"""
    e = dict(kw, op=name)
    e['res'] = {'ok': True, 'v': ['none'], 'kinds': [], 'tups': []}
    if name == 'enter':
        e.setdefault('max', 2)
    return e


def _shard(args):
    scs, workdir, idx = args
    path = os.path.join(workdir, 'sc%d.ndjson' % idx)
    with open(path, 'w') as f:
        for s in scs:
            f.write(json.dumps(s, ensure_ascii=True) + '\n')
    rc, out = tlc.tlc('HPExplore.tla', 'HPExplore.cfg', {'TRACE': path, 'VERDICT': path + '.v'}, workdir, heap='3g')
    if rc != 0:
        at = out.find('Error:')
        raise tlc.MachineryError('exploration failed: {}\n...\n{}'.format(out[at:at + 3000], out[-1500:]))
    g, d = tlc.counts(out)
    edges = {}
    for line in out.splitlines():
        m = STEP.match(line)
        if m:
            k, a, j, b = [int(x) for x in m.groups()]
            edges.setdefault(k - 1, {}).setdefault(a, []).append((j - 1, b))
    n = sum(len(x) for e in edges.values() for x in e.values())
    if n < g - 2 * len(scs):     # an initial state and a prelude per scenario
        raise tlc.MachineryError('transitions are missing from the output of TLC: {} of {}'.format(n, g))
    first = {}
    for line in out.splitlines():
        m = STEP.match(line)
        if m:
            first.setdefault(int(m.group(1)) - 1, int(m.group(2)))
    return g, d, edges, first


def walks(edges, start, length, rnd, limit):
    """walks from start that take every edge (unless the limit is reached first)"""
    left = {a: list(range(len(es))) for a, es in edges.items()}
    for xs in left.values():
        rnd.shuffle(xs)
    todo = sum(len(x) for x in left.values())
    total = 0

    def near(a):
        """shortest path to a state with an edge not taken"""
        seen, queue = {a: None}, [a]
        while queue:
            nxt = []
            for s in queue:
                if left.get(s):
                    path = []
                    while seen[s] is not None:
                        s, j = seen[s]
                        path.append(j)
                    return path[::-1]
                for j, b in edges.get(s, ()):
                    if b not in seen:
                        seen[b] = (s, j)
                        nxt.append(b)
            queue = nxt
        return None
    while todo and total < limit:
        at, ops = start, []
        while len(ops) < length and todo:
            if left.get(at):
                es = edges[at][left[at].pop()]
                todo -= 1
                ops.append(es[0])
                at = es[1]
                continue
            path = near(at)
            if path is None or len(ops) + len(path) >= length and len(ops) > 0:
                break
            for j in path:
                ops.append(j)
                at = [b for x, b in edges[at] if x == j][0]
        if not ops:
            break
        total += len(ops)
        yield ops
    if todo:
        yield None


def listed(sc, rnd, edges, start):
    """the first operations of a scenario; the others after those which changed the state"""
    xs = list(range(sc['grid']))
    rnd.shuffle(xs)
    moved = {j for j, b in edges.get(start, ()) if b != start}
    out, n = [], 0
    for j in xs:
        out.append(j)
        if j in moved:
            out += list(range(sc['grid'], len(sc['ops']))) if n % sc['every'] == 0 else []
            n += 1
        if len(out) >= sc['length']:
            yield out
            out = []
    if out:
        yield out


def explore(r, scenarios, scope, length=30, limit=(40000, 200000), budget=600):
    """explore the scenarios, walk and judge; limit bounds the operations replayed"""
    q = 0 if r.tier == 'quick' else 1
    t0 = time.time()
    pres, ready = [], []
    for name, build in scenarios:
        s = hp.Session('x-' + name, scope)
        try:
            plan = build(s)
        except Exception as err:  # pylint: disable=broad-except
            r.errors.append('{}: {!r}'.format(name, err))
            s.close()
            continue
        for e in plan['ops']:
            if e['op'] not in ('defclass', 'listen'):
                s.settle(e)
        s.close()
        depth = plan['depth'][1] if isinstance(plan['depth'], tuple) else plan['depth']
        if plan.get('grid'):
            depth = plan['depth'][q] if isinstance(plan['depth'], tuple) else plan['depth']
        else:
            depth += q
        pres.append(s.record())
        ready.append(dict(s.record(), ops=plan['ops'], depth=depth, laws=plan.get('laws', []), steplaws=plan.get('steplaws', ['pure']),
                          length=plan.get('length', length), grid=plan.get('grid', 0), every=plan.get('every', 1)))
    bad = r.judge('HPTrace', pres)
    failed = {b['id'] for b in bad}
    ready = [x for x in ready if x['id'] not in failed]
    if not ready:
        return
    workdir = tlc.tmpdir()
    try:
        order = sorted(ready, key=lambda x: -(len(x['ops']) ** min(x['depth'], 3)))
        parts = [order[n::tlc.WORKERS] for n in range(tlc.WORKERS)]
        jobs = [(p, workdir, n) for n, p in enumerate(parts) if p]
        recs, gen, dist, lost = [], 0, 0, 0
        rnd = random.Random(r.seed)
        share = limit[q] // len(ready)
        with concurrent.futures.ThreadPoolExecutor(max_workers=tlc.WORKERS) as ex:
            for (p, _, _), (g, d, edges, first) in zip(jobs, ex.map(_shard, jobs)):
                gen += g
                dist += d
                for k, sc in enumerate(p):
                    if k not in edges:
                        continue
                    tour = listed(sc, rnd, edges[k], first[k]) if sc['grid'] and q == 0 else walks(edges[k], first[k], sc['length'], rnd, share)
                    for n, js in enumerate(tour):
                        if js is None:
                            lost += 1
                            break
                        ops = [{a: b for a, b in sc['ops'][j].items() if a != 'max'} for j in js]
                        recs.append((sc, '{}-{}'.format(sc['id'], n), ops))
        wall = time.time() - t0
        out = []
        for sc, sid, ops in recs:
            out.append(hp.replay(sid, sc['evs'] + ops, scope).record())
        r.models.append({'model': 'HPExplore', 'states': dist, 'transitions': gen, 'wall_s': round(wall, 1), 'scenarios': [x['id'] for x in ready],
                         'depths': sorted({x['depth'] for x in ready}), 'walks': len(out), 'replayed': sum(len(o) for _, _, o in recs),
                         'scenarios_not_fully_walked': lost, 'laws': sorted({y for x in ready for y in x['laws'] + x['steplaws']})})
        r.judge('HPTrace', out)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
