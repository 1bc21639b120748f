"""Running TLC."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
WORKERS = min(8, os.cpu_count() or 4)
SHORT = os.environ.get('VF_JIT', '1') == '1'


class MachineryError(Exception):
    """TLC (not the code under test) failed"""


def tmpdir():
    return tempfile.mkdtemp(prefix='vf-')


def tlc(module, cfg, env, workdir, workers=1, heap='2g', timeout=800, extra=()):
    meta = tempfile.mkdtemp(prefix='meta-', dir=workdir)
    # short runs spend more on the optimizing compiler than it gains
    jit = ['-XX:TieredStopAtLevel=1'] if SHORT else []
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'] + jit + ['-Xmx' + heap, '-Xss64m',
           '-Djava.io.tmpdir=' + workdir, '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env)
    e.pop('JAVA_TOOL_OPTIONS', None)
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise MachineryError('TLC timed out after {} s on {}'.format(timeout, module))
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out


def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def _judge_shard(args):
    module, sessions, workdir, idx = args
    todo, bad, states, crashes = sessions, [], 0, 0
    while todo:
        base = os.path.join(workdir, 'shard{}-{}'.format(idx, crashes))
        with open(base + '.ndjson', 'w') as f:
            for s in todo:
                f.write(json.dumps(s, ensure_ascii=True) + '\n')
        if os.path.exists(base + '.json'):
            os.remove(base + '.json')
        rc, out = tlc(module + '.tla', ('MiniTrace' if module.endswith('Run') else module) + '.cfg', {'TRACE': base + '.ndjson', 'VERDICT': base + '.json'}, workdir)
        states += counts(out)[0]
        verdict = None
        if os.path.exists(base + '.json'):
            with open(base + '.json') as f:
                verdict = json.load(f)
        os.remove(base + '.ndjson')
        if rc == 0 and verdict and verdict.get('done'):
            bad += verdict['bad']
            return bad, states
        at = re.findall(r'<<"AT", (\d+)>>', out)
        if not at or 'OutOfMemory' in out or 'heap space' in out:
            raise MachineryError('TLC failed on {}:\n{}'.format(module, out[-3000:]))
        k = int(at[-1]) - 1
        err = out[out.find('Error:'):][:1500] + '\n...\n' + out[-2500:] if 'Error:' in out else out[-2500:]
        ev = re.findall(r'/\\ i = (\d+)', out)
        bad.append({'id': todo[k]['id'], 'at': int(ev[-1]) if ev else 0, 'clauses': ['undefined'], 'relevant': ['undefined'], 'want': {'error': err}})
        todo = todo[:k] + todo[k + 1:]
        crashes += 1
        if crashes >= 4:
            return bad, states
    return bad, states


def judge(module, sessions, shards=None):
    """judge recorded sessions against trace module; returns (bad, states)"""
    if not sessions:
        return [], 0
    shards = shards or min(WORKERS, 1 + sum(len(s['evs']) for s in sessions) // 300)
    workdir = tmpdir()
    try:
        # balance shards by number of events
        order = sorted(range(len(sessions)), key=lambda n: -len(sessions[n]['evs']))
        parts = [[] for _ in range(min(shards, len(sessions)))]
        for n, j in enumerate(order):
            parts[n % len(parts)].append(sessions[j])
        jobs = [(module, p, workdir, n) for n, p in enumerate(parts) if p]
        bad, states = [], 0
        with concurrent.futures.ThreadPoolExecutor(max_workers=WORKERS) as ex:
            for b, s in ex.map(_judge_shard, jobs):
                bad += b
                states += s
        return bad, states
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def model_check(module, cfg=None, env=None, workers=None, heap='6g', timeout=800, extra=()):
    """exhaustively check a model; returns (generated, distinct, output)"""
    workdir = tmpdir()
    t0 = time.time()
    try:
        rc, out = tlc(module + '.tla', (cfg or module) + '.cfg', env or {}, workdir, workers or WORKERS, heap, timeout, extra)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    g, d = counts(out)
    return {'rc': rc, 'generated': g, 'distinct': d, 'out': out, 'wall': time.time() - t0}
