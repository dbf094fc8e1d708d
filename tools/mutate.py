"""Development aid: applies mutants (tools/mutants/*.py) to scratch copies of /repo, optionally runs the tests on them,
and runs the static checks on them.  python3 tools/mutate.py FILE [ids...] [--tests] [--checks own|all|C01,C02] [--seed N]
A mutants file defines M = [dict(id, prop, edits=[(file, old, new)], kind='bug'|'same', note)].  Whitespace in `old` is flexible."""
import argparse, ast, textwrap, os, re, runpy, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor

ap = argparse.ArgumentParser()
ap.add_argument('file')
ap.add_argument('ids', nargs='*')
ap.add_argument('--tests', action='store_true')
ap.add_argument('--checks', default='own')
ap.add_argument('--seed', default='1')
ap.add_argument('-j', type=int, default=4)
ap.add_argument('-v', action='store_true')
ap.add_argument('--scale', default='1')
a = ap.parse_args()
M = runpy.run_path(a.file)['M']
ALL = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]


def flex(old):
    return re.compile(r'\s*'.join(re.escape(x) for x in re.sub(r'\s+', '', old)))


def replace_def(s, old, new):
    """'DEF Class.func' replaces the whole definition (decorators included); 'AFTERIMPORTS' inserts module-level code"""
    tree, lines = ast.parse(s), s.split('\n')
    if old == 'AFTERIMPORTS':
        at = max(n.end_lineno for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom)))
        return '\n'.join(lines[:at] + ['', ''] + textwrap.dedent(new).strip('\n').split('\n') + [''] + lines[at:])
    node = tree
    for part in old[4:].split('.'):
        c = [n for n in node.body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part]
        if len(c) != 1:
            raise ValueError('%d definitions of %s' % (len(c), old))
        node = c[0]
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    body = textwrap.indent(textwrap.dedent(new).strip('\n'), ' ' * node.col_offset)
    return '\n'.join(lines[:first - 1] + body.split('\n') + lines[node.end_lineno:])


def apply(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, 'vspec_vsm', f)
        s = open(p).read()
        if old.startswith('DEF ') or old.startswith('AFTERIMPORTS'):
            s = replace_def(s, old, new)
            compile(s, p, 'exec')
            open(p, 'w').write(s)
            continue
        rx = flex(old)
        hits = rx.findall(s)
        if len(hits) != 1:
            raise ValueError('%d hits in %s for %r' % (len(hits), f, old))
        s = rx.sub(lambda m: new, s)
        compile(s, p, 'exec')
        open(p, 'w').write(s)


def one(m):
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp/w')
    out = []
    try:
        root = os.path.join(d, 'repo')
        os.makedirs(root)
        for n in ('vspec_vsm', 'test'):
            shutil.copytree('/repo/' + n, root + '/' + n, ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copy('/repo/pyproject.toml', root)
        apply(root, m['edits'])
        if a.tests:
            env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu', MPLBACKEND='Agg',
                       NPY_DISABLE_CPU_FEATURES='AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL')
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', 'test', '-p', 'no:cacheprovider', '--timeout=300'], cwd=root, env=env, capture_output=True, text=True)
            out.append('tests ' + ('ok' if r.returncode == 0 else 'FAIL: ' + '; '.join(re.findall(r'FAILED (\S+)', r.stdout))[:200]))
        props = ALL if a.checks == 'all' else [m['prop']] if a.checks == 'own' else a.checks.split(',') if a.checks != 'none' else []
        hit, blind = [], []
        for c in props:
            e2 = dict(os.environ, VSA_REPO=root, VSA_EVID=d, VERIF_SEED=a.seed)
            r = subprocess.run(['python3-vt', '-m', 'vsa.check', c, '--tier', 'quick', '-j', '4', '--scale', a.scale], cwd='/verif', env=e2, capture_output=True, text=True)
            blind += [c + '/' + x for x in re.findall(r'note: harness (\w+) decided nothing', r.stdout)]
            if r.returncode == 1:
                k = re.findall(r'REFUTED (\[\w+\] .*)', r.stdout)
                hit.append(c + (' {%s}' % '; '.join(k[:2]) if a.v or c == m['prop'] else ''))
            elif r.returncode:
                hit.append(c + '!rc%d %s' % (r.returncode, r.stdout[-200:] + r.stderr[-300:]))
        out.append('caught by ' + ', '.join(hit) if hit else 'QUIET')
        if blind:
            out.append('blind ' + ' '.join(blind))
        own = any(h.startswith(m['prop']) for h in hit)
    finally:
        shutil.rmtree(d)
    tag = '' if not props else (('ok   ' if own else 'MISS ') if m.get('kind', 'bug') == 'bug' else ('ok   ' if not hit else 'ALARM'))
    return '%s %s [%s] %s' % (tag, m['id'], m['prop'], ' | '.join(out))


sel = [m for m in M if not a.ids or m['id'] in a.ids]
with ThreadPoolExecutor(a.j) as ex:
    def safe(m):
        try:
            return one(m)
        except (ValueError, SyntaxError) as e:
            return 'BAD   %s %s' % (m['id'], e)
    for line in ex.map(safe, sel):
        print(line, flush=True)
