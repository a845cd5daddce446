"""Maintain /verif/seeded: tools_seed.py [--check] ID...

For each planted bug: applies it to /repo, builds, runs the tests and the
demonstration, optionally its property's quick check, and undoes it.
"""
import json
import pathlib
import subprocess
import sys

SEEDED = pathlib.Path(__file__).resolve().parent / 'seeded'
REPO = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          cwd=REPO, **kw)


def build():
    p = sh('bash /opt/vp/build.sh')
    if p.returncode:
        return 'build failed: ' + (p.stdout + p.stderr)[-600:]
    sh('bash /opt/vp/test.sh /tmp/seed.json')
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('tests') or base
    got = json.load(open('/tmp/seed.json'))
    passed = set(got.get('passed', []))
    missing = [t for t in (stable if isinstance(stable, list) else
                           stable.get('passed', [])) if t not in passed]
    return 'tests failing: %s' % missing[:5] if missing else ''


def demo(folder):
    return sh(f'bash {folder}/demo.sh', timeout=300)


def main():
    args = sys.argv[1:]
    check = '--check' in args
    ids = [a for a in args if not a.startswith('--')] or sorted(
        p.name for p in SEEDED.iterdir())
    for i in ids:
        folder = SEEDED / i
        prop = json.loads((folder / 'meta.json').read_text())['property']
        if sh('git status --porcelain').stdout.strip():
            sys.exit('/repo is not clean')
        d0 = demo(folder)
        a = sh(f'git apply {folder}/patch.diff')
        if a.returncode:
            print(i, 'does not apply', a.stderr)
            continue
        try:
            why = build()
            d1 = demo(folder)
            caught = ''
            if check:
                c = subprocess.run(
                    ['python3-vt', 'check.py', prop, 'quick'],
                    cwd=SEEDED.parent, capture_output=True, text=True)
                caught = f'check exit {c.returncode} ' + '; '.join(
                    x for x in c.stdout.splitlines() if 'VIOLATION' in x)
        finally:
            sh('git checkout -- .')
        print(f'{i} [{prop}] demo clean={d0.returncode} '
              f'patched={d1.returncode} {why or "tests ok"} {caught}',
              flush=True)
        if d0.returncode:
            print(d0.stdout[-500:], d0.stderr[-1500:])
    build()


main()
