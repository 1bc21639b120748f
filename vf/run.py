"""Runs the sessions and models of one property and reports the verdict."""
import collections
import hashlib
import json
import os
import time
import traceback

from . import hp, tlc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.txt')


def known_findings(prop):
    """signatures of recorded, unrepaired defects: lines `finding: property=<id> sig=<signature> <text>`"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith('finding: property={} '.format(prop)):
                    rest = line.split(' ', 2)[2].strip()
                    sig, text = rest.split(' ', 1)
                    out[sig[len('sig='):]] = text
    return out


class Run(object):
    """one run of one check"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.sessions = {}
        self.notes = []
        self.ops = collections.Counter()
        self.distinct = set()
        self.nsessions = self.nevents = 0
        self.trace_states = 0
        self.models = []
        self.samples = []
        self.violations = []     # (session record or text, note)
        self.errors = []
        self.known = known_findings(prop)
        self.known_hit = set()

    # -- recording
    def record(self, module, driver, seeds, label):
        """run one driver over seeds, judge, keep what failed"""
        recs, meta = [], {}
        for sd in seeds:
            sid = '{}-{}'.format(label, sd)
            try:
                s = driver(sd, sid)
            except Exception:  # pylint: disable=broad-except
                self.errors.append('{}: {}'.format(sid, traceback.format_exc()[-1500:]))
                s = hp.Session.current
                hp.Session.current = None
            if s is None:
                continue
            s.close()
            rec = s.record()
            recs.append(rec)
            meta[sid] = sd
        self.judge(module, recs)

    def judge(self, module, recs):
        by = {r['id']: r for r in recs}
        bad, states = tlc.judge(module, recs)
        self.trace_states += states
        self.nsessions += len(recs)
        for r in recs:
            self.nevents += len(r['evs'])
            for e in r['evs']:
                self.ops['{}:{}'.format(e['op'], 'ok' if e['res']['ok'] else 'err')] += 1
                self.distinct.add(event_key(e))
        if recs and len(self.samples) < 4:
            r = recs[len(recs) // 2]
            self.samples.append({'session': r['id'], 'events': len(r['evs']),
                                 'last': [slim(e) for e in r['evs'][-3:]]})
        for b in bad:
            if b['relevant']:
                rec = by[b['id']]
                sig = signature(rec, b)
                if sig in self.known:
                    self.known_hit.add(sig)
                else:
                    self.violations.append((module, rec, b))
            else:
                self.notes.append({'session': b['id'], 'at': b['at'], 'clauses': b['clauses']})
        return bad

    # -- models
    def model(self, name, cfg=None, env=None, check=None, **kw):
        res = tlc.model_check(name, cfg, env, **kw)
        ok = res['rc'] == 0
        self.models.append({'model': cfg or name, 'states': res['distinct'], 'transitions': res['generated'], 'wall_s': round(res['wall'], 1)})
        if not ok:
            raise tlc.MachineryError('model {} does not hold:\n{}'.format(cfg or name, res['out'][-4000:]))
        return res

    # -- finishing
    def finish(self, plan):
        viol = []
        if self.violations:
            os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
            for module, rec, b in self.violations[:5]:
                path = os.path.join(EVID, 'replay', '{}-{}.json'.format(self.prop, b['id'].replace('/', '_')))
                evs = rec['evs'][:b['at']] if b['at'] else rec['evs']
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'module': module, 'note': b,
                               'session': dict(rec, evs=evs)}, f, indent=1)
                viol.append((path, b))
        states = sum(m['states'] for m in self.models)
        trans = sum(m['transitions'] for m in self.models)
        cov = {
            'states': states, 'transitions': trans, 'traces_validated_against_impl': self.nsessions,
            'samples': self.samples or [{'none': True}],
            'evaluations': self.nevents, 'distinct_nontrivial': len(self.distinct),
            'rule': 'recorded library operations judged against the specification; distinct by operation, arguments and outcome, '
                    'class definitions and no-ops not counted',
            'operations': dict(self.ops), 'models': self.models, 'trace_states': self.trace_states,
            'out_of_scope_notes': self.notes[:20], 'out_of_scope_count': len(self.notes), 'driver_errors': self.errors[:5],
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': plan['level'], 'coverage': cov,
              'assumptions': plan.get('assumptions', []), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for sig in sorted(self.known_hit):
            print('KNOWN-FINDING: property={} {}'.format(self.prop, self.known[sig]))
        for path, b in viol:
            print('VIOLATION property={} replay={}'.format(self.prop, path))
            print('  session {} event {}: clauses {}'.format(b['id'], b['at'], ','.join(b['relevant'])))
        if viol:
            return 1
        if self.errors:     # never on the unchanged tree: the library did what no client of it is prepared for
            path = os.path.join(EVID, 'replay', '{}-client.txt'.format(self.prop))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as f:
                f.write('\n'.join(self.errors))
            print('VIOLATION property={} replay={}'.format(self.prop, path))
            print('  a client of the library failed:\n' + '\n'.join(self.errors[:3]))
            return 1
        print('{}: held on {} sessions, {} operations, {} model states ({:.1f} s)'.format(
            self.prop, self.nsessions, self.nevents, states, time.time() - self.t0))
        return 0


SLIM = ('op', 'mk', 'h', 'c', 'n', 'v', 'kw', 'x', 'm', 'args', 'types', 'ls', 'ks', 'mode', 'names', 'lid', 'tr', 'strict', 'av', 'a', 'b', 'ic',
        'dyn', 'imm', 'd')


def slim(e):
    out = {k: e[k] for k in SLIM if k in e}
    out['ok'] = e['res']['ok']
    if not e['res']['ok']:
        out['kind'] = e['res']['kinds'][0]
    return out


def event_key(e):
    if e['op'] in ('defclass', 'nop'):
        return None
    return hashlib.md5(json.dumps(slim(e), sort_keys=True).encode()).digest()


def signature(rec, b):
    """identifies a failing history: its operations up to the failure and the clauses"""
    evs = rec['evs'][:b['at']] if b['at'] else rec['evs']
    body = json.dumps([[{k: e[k] for k in SLIM if k in e} for e in evs], sorted(b['relevant'])], sort_keys=True)
    return hashlib.md5(body.encode()).hexdigest()[:16]
