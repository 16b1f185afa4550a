#!/usr/bin/env python3
"""Development tool (not used by any check): evaluate a source change in a scratch copy of /repo.

evalpatch.py [--checks all|none|C01,C02] [--jobs N] SEEDED_ID...
For each id: copy /repo to /tmp/evalpatch.<pid>.<id>, apply /verif/seeded/<id>/patch.diff, run the stable
tests, the demo with and without the patch, and the quick checks; print one line per id.
"""
import argparse, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
VDIR = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set()


def baseline():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('passed', 'stable', 'tests', 'stable_pass'):
        if k in b:
            return set(b[k])
    raise SystemExit('no baseline list')


def scratch(tag):
    d = f'/tmp/evalpatch.{os.getpid()}.{tag}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/pp')
    shutil.copytree('/repo', d + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    os.symlink(d + '/repo/src', d + '/pp/dice_calc')
    return d


def env_for(d):
    e = dict(os.environ)
    e.update(PYTHONPATH=d + '/pp', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0')
    return e


def run_tests(d):
    e = env_for(d)
    x = d + '/junit.xml'
    p = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=120', '--ignore=test/test_fetch.py',
                        '-o', 'junit_family=xunit2', '--junitxml=' + x, 'test'], cwd=d + '/repo', env=e, capture_output=True, text=True)
    return p.returncode, p.stdout[-600:]


def run_checks(d, ids, jobs, seed='1', tier='quick', timeout=900):
    caught, bad = [], []
    for c in ids:
        e = dict(os.environ)
        e.pop('PYTHONPATH', None)
        e.update(VERIF_REPO=d + '/repo', VERIF_NO_EVIDENCE='1', VERIF_REPLAY_DIR=d + '/replay', VERIF_JOBS=str(jobs), VERIF_SEED=seed, VERIF_TIER=tier)
        try:
            p = subprocess.run(['python3', VDIR + '/check.py', c], cwd=VDIR, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            bad.append(c + ':timeout')
            continue
        if p.returncode == 1 and f'VIOLATION property={c}' in p.stdout:
            caught.append(c)
        elif p.returncode != 0:
            bad.append(f'{c}:rc{p.returncode}')
            open(f'/tmp/bad.{c}.log', 'w').write(p.stdout + p.stderr)
    return caught, bad


def evaluate(sid, checks, jobs):
    sd = f'/verif/seeded/{sid}'
    meta = json.load(open(sd + '/meta.json'))
    d = scratch(sid)
    try:
        e = env_for(d)
        before = subprocess.run(['bash', sd + '/demo.sh'], cwd=d + '/repo', env=e, capture_output=True, text=True)
        ap = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d + '/repo', sd + '/patch.diff'], cwd='/', capture_output=True, text=True)
        if ap.returncode:
            ap = subprocess.run(['patch', '-p1', '-s', '-i', sd + '/patch.diff'], cwd=d + '/repo', capture_output=True, text=True)
        after = subprocess.run(['bash', sd + '/demo.sh'], cwd=d + '/repo', env=e, capture_output=True, text=True)
        trc, tout = run_tests(d)
        ids = checks if checks is not None else [meta['property']]
        caught, bad = run_checks(d, ids, jobs) if ids else ([], [])
        ok = ap.returncode == 0 and before.returncode == 0 and after.returncode != 0 and trc == 0
        line = dict(id=sid, property=meta['property'], valid=ok, apply=ap.returncode, demo_before=before.returncode, demo_after=after.returncode,
                    tests=trc, caught=caught, bad=bad)
        if before.returncode:
            line['before_err'] = (before.stdout + before.stderr)[-300:]
        if trc:
            line['tests_tail'] = tout[-300:]
        return line
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('--checks', default='own')
    ap.add_argument('--par', type=int, default=4)
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('ids', nargs='*')
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir('/verif/seeded'))
    allc = [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    checks = {'own': None, 'all': allc, 'none': []}.get(a.checks, a.checks.split(','))
    with ThreadPoolExecutor(a.par) as ex:
        for r in ex.map(lambda s: evaluate(s, checks, a.jobs), ids):
            print(json.dumps(r), flush=True)
