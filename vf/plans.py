"""Which sessions and models decide which property."""
import json
import time

from . import drivers, drivers2, drivers3, explore, hp, mini, run, scen, scen2, worlds, worlds2, worlds3, worlds4

TRUST = ['TLC evaluates the specification correctly', 'the harness encodes values and outcomes faithfully (vf/terms.py, vf/hp.py)',
         'recorded operations go through the public interface only']

# property: [(specification module, driver, sessions in a quick run, sessions per round of a thorough run)]
SESSIONS = {
    'C01': [('HPTrace', 'c01', 600, 600)],
    'C02': [('HPTrace', 'c02', 400, 400)],
    'C03': [('HPTrace', 'c03', 300, 300)],
    'C04': [('HPTrace', 'c04', 300, 300)],
    'C05': [('HPTrace', 'c05', 300, 300)],
    'C06': [('HPTrace', 'c06', 300, 300)],
    'C07': [('HPTrace', 'c07', 300, 300)],
    'C08': [('HPTrace', 'c08', 200, 200)],
    'C09': [('HPTrace', 'c09', 200, 200)],
    'C10': [('HPTrace', 'c10', 300, 300)],
    'C11': [('HPTrace', 'c11', 300, 300)],
    'C12': [('HPTrace', 'c12', 300, 300)],
    'C13': [('HPTrace', 'c13', 300, 300)],
    'C14': [('HPTrace', 'c14', 300, 300)],
    'C15': [('HPTrace', 'c15', 300, 300)],
    'C16': [('UidRun', 'c16', 300, 300)],
    'C17': [('SinglesRun', 'c17', 300, 300)],
    'C18': [('TasksRun', 'c18', 200, 300)],
    'C19': [('HPTrace', 'c19', 200, 300)],
    'C20': [('HPTrace', 'c20', 300, 300)],
    'C21': [('HPTrace', 'c21', 300, 300)],
    'C22': [('HPTrace', 'c22', 300, 300)],
    'C23': [('PointersRun', 'c23', 300, 300)],
    'C24': [('FilesRun', 'c24', 200, 300)],
    'C25': [('HPTrace', 'c25', 300, 300)],
    'C26': [('DeclRun', 'c26', 300, 300)],
    'C27': [('HPTrace', 'c27', 420, 420)],
    'C28': [('HPTrace', 'c28', 300, 300)],
}


def explored(world, *rounds):
    """exhaustive exploration of a small world; a round: depths and numbers of replayed histories, (quick, thorough) each"""
    return [lambda r, d=d, n=n: mini.explore(r, world, depth=d, limit=n) for d, n in rounds]


MODELS = {
    'C16': explored(worlds.UidWorld, ((5, 6), (1500, 12000))),
    'C17': explored(worlds2.SinglesWorld, ((4, 5), (1500, 12000))),
    'C18': explored(worlds2.TasksWorld, ((1, 2), (1200, 30000))),
    'C23': explored(worlds2.PointersWorld, ((5, 6), (1500, 12000))),
    'C24': explored(worlds3.FilesWorld, ((3, 4), (1500, 12000))),
    'C26': explored(worlds4.DeclWorld, ((1, 1), (5000, 5000)), ((2, 3), (5000, 30000))),
}
for _p, (_f, _scope) in list(scen.SCENARIOS.items()) + list(scen2.SCENARIOS.items()):
    MODELS[_p] = [lambda r, f=_f, scope=_scope: explore.explore(r, f(), scope)] + MODELS.get(_p, [])
WORLDS = {w.module: w for w in (worlds.UidWorld, worlds2.SinglesWorld, worlds2.TasksWorld, worlds2.PointersWorld, worlds3.FilesWorld, worlds4.DeclWorld)}
PLANS = {p: dict(parts=s, models=MODELS.get(p, [])) for p, s in SESSIONS.items()}
for _p in PLANS.values():
    _p.setdefault('level', 'model_checking' if _p['models'] else 'exploration')
    _p.setdefault('technique', 'TLA+ specification; TLC judges recorded executions of the library' +
                  (' and exhaustively checked models whose transitions are replayed into it' if _p['models'] else ''))
    _p.setdefault('note', 'every operation of seeded random sessions through the public interface is compared by TLC with what the TLA+ '
                  'specification prescribes (result, error, stored values, notifications); bounded by the generated classes and values')
    _p.setdefault('assumptions', TRUST)

BUDGET = 600


def driver(name):
    for m in (drivers, drivers2, drivers3):
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def check(prop, tier, seed):
    plan = PLANS[prop]
    r = run.Run(prop, tier, seed)
    for m in plan['models']:
        m(r)
    for module, name, nq, nt in plan['parts']:
        r.record(module, driver(name), [seed * 1000003 + i for i in range(nq)], name)
    if tier == 'thorough' and not r.violations:
        k = 0
        while time.time() - r.t0 < BUDGET and not r.violations:
            for module, name, nq, nt in plan['parts']:
                base = seed * 1000003 + nq + k * nt
                r.record(module, driver(name), [base + i for i in range(nt)], name)
                if time.time() - r.t0 > BUDGET or r.violations:
                    break
            k += 1
    return r.finish(plan)


def replay(prop, path):
    with open(path) as f:
        data = json.load(f)
    rec = data['session']
    r = run.Run(prop, 'quick', 0)
    if data['module'] in WORLDS:
        s = mini.replay(WORLDS[data['module']], rec)
    else:
        s = hp.replay(rec['id'], rec['evs'], rec['scope'])
    r.judge(data['module'], [s.record()])
    for module, rec, b in r.violations:
        print('VIOLATION property={} replay={}'.format(prop, path))
        print(json.dumps(b, indent=1))
    if not r.violations:
        print('{}: the recorded history is accepted'.format(prop))
    return 1 if r.violations else 0
