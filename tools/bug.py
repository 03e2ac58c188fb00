"""Development tool (no check uses it): build a planted bug in a scratch copy, confirm it, keep it in seeded/.
usage: bug.py SPEC.py   SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text; exit 0 = holds)"""
import json, os, re, runpy, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
DEMOSH = '''#!/bin/bash
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def main(spec, notest=False):
    d = runpy.run_path(spec)
    out = os.path.join(V, 'seeded', d['ID'])
    m = tempfile.mkdtemp(prefix='mb', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo/.', m])
        native = False
        for f, old, new in d['EDITS']:
            p = os.path.join(m, 'src/skmultiflow', f)
            s = open(p, newline='').read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w', newline='').write(s.replace(old, new))
            native |= not f.endswith('.py')
        os.makedirs(out, exist_ok=True)
        diff = subprocess.check_output(['git', '-C', m, 'diff'])
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMOSH)
        open(os.path.join(out, 'demo.py'), 'w').write(d['DEMO'].lstrip())
        json.dump(dict(property=d['PROP'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        if native:
            t = open('/opt/vp/native.sh').read().replace('/repo', m)
            subprocess.check_call(['bash', '-c', t], env=ENV)
        a = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd='/repo', env=ENV, capture_output=True, text=True)
        b = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=m, env=ENV, capture_output=True, text=True)
        print('%s demo clean rc=%d, patched rc=%d' % (d['ID'], a.returncode, b.returncode), (a.stdout + a.stderr)[-300:] if a.returncode else '', (b.stdout + b.stderr)[-200:])
        ok = a.returncode == 0 and b.returncode != 0
        if ok and not notest:
            rep = tempfile.mkdtemp(prefix='skmf', dir='/tmp')
            subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-W', 'ignore', '-n', '8', '--timeout=300',
                            '--basetemp=' + rep + '/tmp', '-o', 'junit_family=xunit2', '--junitxml=' + rep + '/junit.xml', 'tests'],
                           cwd=m, env=dict(ENV, PYTHONPATH=m + '/src'), capture_output=True)
            subprocess.check_call(['/usr/bin/python3', '/opt/vp/results.py', rep + '/o.json', 'junit:' + rep + '/junit.xml'], stdout=subprocess.DEVNULL)
            r = json.load(open(rep + '/o.json'))
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            passed = set(r.get('passed', []))
            miss = base - passed
            print('   tests broken:', sorted(miss)[:5] if miss else 'none')
            ok = not miss
            shutil.rmtree(rep)
        # own check
        c = subprocess.run(['bash', os.path.join(V, 'run.sh'), d['PROP']], env=dict(ENV, PV_REPO=m), capture_output=True, text=True)
        print('   check rc=%d' % c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'violated' in l or l.startswith('failed')][:4])
        print('   KEPT' if ok else '   NOT VALID')
        if not ok and '--keep' not in sys.argv:
            shutil.rmtree(out)
    finally:
        shutil.rmtree(m)


for sp in [a for a in sys.argv[1:] if not a.startswith('-')]:
    main(sp, '--notest' in sys.argv)
