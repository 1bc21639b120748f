"""nothing to build: parses the specification once and checks that the tools are there"""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE]
from vf import tlc
for f in sorted(glob.glob(os.path.join(tlc.SPEC, '*.tla'))):
    p = subprocess.run(['java', '-cp', tlc.CP, 'tla2sany.SANY', os.path.basename(f)], cwd=tlc.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    if p.returncode:
        print(p.stdout)
        sys.exit(1)
print('specification parsed')
