"""check.py <property> [--replay FILE]: decide one property of the library in /repo.

Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
Exit 0: held on everything explored; 1: violation (VIOLATION line printed);
anything else: the machinery failed.
"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or not sys.flags.dont_write_bytecode:
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = ['/repo', HERE]


def main(argv):
    from vf import plans
    prop = argv[0]
    if len(argv) > 2 and argv[1] == '--replay':
        return plans.replay(prop, argv[2])
    return plans.check(prop, os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')))


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
