#!/usr/bin/env python3
"""catch.py [ID...] [--checks C01,C02|own|all]: runs checks against scratch
copies of /repo with each planted change, three copies at a time, and prints
which checks caught it."""
import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(args):
    bug, checks, seed = args
    where = os.path.join(VERIF, 'seeded', bug)
    with open(os.path.join(where, 'meta.json')) as f:
        own = json.load(f)['property']
    scratch = tempfile.mkdtemp(prefix='catch-')
    res = {}
    try:
        repo = os.path.join(scratch, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--',
                               '.'])
        subprocess.check_call(['git', '-C', repo, 'apply', os.path.join(
            where, 'patch.diff')])
        verif = os.path.join(scratch, 'verif')
        os.mkdir(verif)
        for name in ('gm', 'compat', 'check.sh', 'known_findings.json'):
            src = os.path.join(VERIF, name)
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(
                src, os.path.join(verif, name))
        for c in (checks or [own]):
            env = dict(os.environ, GM_REPO=repo, VERIF_SEED=str(seed),
                       VERIF_TIER='quick', GM_WORKERS='4')
            p = subprocess.run(['bash', 'check.sh', c], cwd=verif, env=env,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            text = p.stdout.decode('utf-8', 'replace')
            res[c] = (p.returncode, text.strip().splitlines()[:2])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return bug, own, res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('bugs', nargs='*')
    ap.add_argument('--checks', default='own')
    ap.add_argument('--seed', default=1, type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    bugs = a.bugs or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    checks = None
    if a.checks == 'all':
        checks = sorted(n[:-3].upper() for n in os.listdir(os.path.join(
            VERIF, 'gm', 'checks')) if n.startswith('c'))
    elif a.checks != 'own':
        checks = a.checks.split(',')
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        for bug, own, res in pool.map(one, [(b, checks, a.seed)
                                            for b in bugs]):
            hit = [c for c, (rc, _) in res.items() if rc == 1]
            odd = ['%s=%d' % (c, rc) for c, (rc, _) in res.items()
                   if rc not in (0, 1)]
            print('%-8s %s %s caught by: %s %s' % (
                bug, own, 'CAUGHT' if own in hit else 'MISSED',
                ' '.join(hit) or '-', ' '.join(odd)), flush=True)
            if a.v:
                for c in hit + [o.split('=')[0] for o in odd]:
                    print('      ', c, res[c][1])


if __name__ == '__main__':
    main()
