"""Builds seeded/<id>/ from tools/seeds.py: patch.diff, demo.sh, demo.py, meta.json; verifies tests and demo in a scratch copy."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDS = runpy.run_path(os.path.join(HERE, 'seeds.py'))['SEEDS']
OUT = '/verif/seeded'
PRE = '''import numpy as np, warnings
warnings.simplefilter('ignore')
from astropy import units as u
import vspec_vsm as vsm
from vspec_vsm.config import MSH
'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" JAX_PLATFORMS=cpu MPLBACKEND=Agg
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def flex(old):
    return re.compile(r'\s*'.join(re.escape(x) for x in re.sub(r'\s+', '', old)))


def run(root, d):
    env = dict(os.environ, PATH=os.environ['PATH'])
    return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=root, capture_output=True, text=True, timeout=300)


for s in SEEDS:
    if len(sys.argv) > 1 and s['id'] not in sys.argv[1:]:
        continue
    d = os.path.join(OUT, s['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed.', dir='/tmp/w')
    try:
        root = t + '/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', root], check=True)
        open(d + '/demo.py', 'w').write(PRE + s['demo'])
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r0 = run(root, d)
        for f, old, new in s['edits']:
            p = root + '/vspec_vsm/' + f
            x = open(p).read()
            assert len(flex(old).findall(x)) == 1, (s['id'], f, old)
            x = flex(old).sub(lambda m: new, x)
            open(p, 'w').write(x)
        diff = subprocess.run(['git', 'diff'], cwd=root, capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        r1 = run(root, d)
        env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu', MPLBACKEND='Agg',
                   NPY_DISABLE_CPU_FEATURES='AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL')
        tt = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', 'test', '-p', 'no:cacheprovider', '-x'], cwd=root, env=env, capture_output=True, text=True)
        e2 = dict(os.environ, VSA_REPO=root, VSA_EVID=t, VERIF_SEED='1')
        c = subprocess.run(['python3-vt', '-m', 'vsa.check', s['prop'], '--tier', 'quick'], cwd='/verif', env=e2, capture_output=True, text=True)
        print('%s clean %d mutated %d (%s) tests %d check %d' % (s['id'], r0.returncode, r1.returncode, r1.stderr.strip()[-90:].replace('\n', ' '), tt.returncode, c.returncode),
              '' if r0.returncode == 0 else r0.stderr[-300:], flush=True)
    finally:
        shutil.rmtree(t)
