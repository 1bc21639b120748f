"""The small worlds: operations on real objects, recorded for the specification.

A world executes operation records of one specification module (spec/Uid.tla
and the like, run by spec/MiniRun.tla) against the library and projects its
state.  Histories come from exhaustive exploration of the specification or
from a seeded driver; either way TLC judges what was recorded.
"""
import copy
import json
import random
import re
import signal
import warnings

from . import hp, tlc

NONE, UNDEF = ['none'], ['undef']


class World(object):
    """base of the worlds; a subclass defines `module`, start(), the operations op_<name>(e) and project()"""

    module = None
    keep = None      # the harness object whose events a failed driver has recorded

    def __init__(self, sid, cfg):
        hp.Session.current = self
        self.id, self.cfg, self.evs, self.scope = sid, cfg, [], []
        self.argsame = True
        self.start()

    def start(self):
        pass

    def project(self):
        return {}

    def do(self, op, **kw):
        e = dict(kw, op=op)
        self.argsame = True
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                signal.setitimer(signal.ITIMER_REAL, hp.OP_SECONDS)
                v = getattr(self, 'op_' + op)(e)
                res = {'ok': True, 'v': NONE if v is None else v, 'kinds': []}
            except hp.HarnessError:
                raise
            except hp.Hang:
                res = {'ok': False, 'v': NONE, 'kinds': ['Hang']}
            except Exception as err:  # pylint: disable=broad-except
                res = {'ok': False, 'v': NONE, 'kinds': [c.__name__ for c in type(err).__mro__]}
                self.failed(e, err, res)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            e['res'] = res
            e['post'] = self.project()
            e['argsame'] = self.argsame      # projecting the state may find that an argument has changed
        self.evs.append(json.loads(json.dumps(e)))
        return e

    def failed(self, e, err, res):
        pass

    def close(self):
        hp.Session.current = None

    def record(self):
        return {'id': self.id, 'cfg': self.cfg, 'evs': self.evs, 'scope': self.scope}

    def same(self, before, after):
        if before != after:
            self.argsame = False


def replay(world, rec):
    """execute a recorded or generated history again"""
    w = world(rec['id'], rec['cfg'])
    for e in rec['evs']:
        w.do(**{k: copy.deepcopy(v) for k, v in e.items() if k not in ('res', 'post', 'argsame')})
    w.close()
    return w


def explore(run, world, depth, limit, **kw):
    """check a model exhaustively to some depth, replay the explored histories into the library, judge the recordings

    depth and limit (how many histories are replayed) are pairs: quick, thorough.
    """
    q = 0 if run.tier == 'quick' else 1
    res = run.model(world.module, cfg='MiniExplore', env={'DEPTH': str(depth[q])}, workers=1, **kw)
    run.models[-1].update(model=world.module, depth=depth[q])
    lines = [line for line in res['out'].splitlines() if line.startswith('"{')]
    total = len(lines)
    if total < run.models[-1]['transitions'] - 1 - 50:
        raise tlc.MachineryError('histories are missing from the output of TLC')
    rnd = random.Random(run.seed)
    rnd.shuffle(lines)
    recs, seen = [], set()
    for line in lines:
        if len(recs) >= limit[q]:
            break
        d = json.loads(json.loads(line))
        keys = [json.dumps(e, sort_keys=True) for e in d['ops']]
        c = json.dumps(d['cfg'], sort_keys=True)
        if (c,) + tuple(keys) in seen:          # a history already replayed extends this one
            continue
        for n in range(len(keys)):
            seen.add((c,) + tuple(keys[:n + 1]))
        recs.append(replay(world, {'id': 'x-{}-{}'.format(world.module, len(recs)), 'cfg': d['cfg'], 'evs': d['ops']}).record())
    run.models[-1].update(histories=total, covered=len(seen), replayed=len(recs))
    run.judge(world.module, recs)
