#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes seeded/<id>/ from a list BUGS of dicts
(id, property, edits=[(file, old, new)], demo, needs, what_it_breaks), after
confirming in a scratch copy that the stable tests pass with the change and
that the demonstration fails with it and passes without."""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IGNORE = '''tests/datastructures/test_p2p.py
tests/datastructures/test_promissory.py tests/datastructures/test_tasks.py
tests/factories tests/message tests/test_basic.py tests/test_cryptography.py
tests/test_helpers.py tests/test_idgenerator.py tests/test_serializer.py
tests/test_utils.py'''.split()
BASE = '48cab82'
DEMO_SH = '''#!/bin/bash
# Exit 0: the property held.  Run in the root of the repository.
HERE=$(cd "$(dirname "$0")" && pwd)
export GM_REPO=$PWD PYTHONPATH=$HERE/compat PYTHONDONTWRITEBYTECODE=1
exec /opt/venv-pypy/bin/python -B "$HERE/demo.py"
'''


def demo(where, repo):
    return subprocess.run(['bash', os.path.join(where, 'demo.sh')], cwd=repo,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=300)


def tests(repo):
    plugin = repo + '.plugin'
    os.mkdir(plugin)
    with open('/opt/vp/plugin/golem_scope.py') as f:
        text = f.read()
    assert "'/repo" in text
    with open(plugin + '/golem_scope.py', 'w') as f:
        f.write(text.replace("'/repo", "'" + repo))
    env = dict(os.environ, PYTHONPATH=plugin, PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1')
    xml = repo + '.xml'
    subprocess.run(
        ['/opt/venv-pypy/bin/python', '-B', '-m', 'pytest', '-q', '-p',
         'golem_scope', '-p',
         'no:cacheprovider', '--timeout=300',
         '--continue-on-collection-errors']
        + ['--ignore=' + i for i in IGNORE]
        + ['--deselect',
           'tests/test_conformance.py::PEP8TestCase::test_lint',
           '-o', 'junit_family=xunit2', '--junitxml=' + xml, 'tests'],
        cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    import xml.etree.ElementTree as ET
    good = bad = 0
    names = []
    for case in ET.parse(xml).iter('testcase'):
        if case.find('failure') is not None or case.find('error') is not None:
            bad += 1
            names.append(case.get('classname') + '.' + case.get('name'))
        elif case.find('skipped') is None:
            good += 1
    os.unlink(xml)
    return good, bad, names


def changes_original(repo, diff):
    """Lines that /repo's own commits added do not count as planted in."""
    was, removed = {}, []
    for line in diff.decode('utf-8', 'replace').splitlines():
        if line.startswith('--- a/'):
            name = line[6:].strip()
            show = subprocess.run(
                ['git', '-C', repo, 'show', BASE + ':' + name],
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            was = {n.strip() for n in show.stdout.decode().splitlines()}
        elif line.startswith('-') and line[1:].strip():
            removed.append(line[1:].strip() in was)
    return not removed or any(removed)


def make(bug):
    scratch = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(scratch, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        git = ['git', '-C', repo]
        subprocess.check_call(git + ['checkout', '-q', '--', '.'])
        for name, old, new in bug['edits']:
            path = os.path.join(repo, name)
            with open(path, 'rb') as f:
                data = f.read()
            old, new = old.encode(), new.encode()
            if b'\r\n' in data:
                old = old.replace(b'\n', b'\r\n')
                new = new.replace(b'\n', b'\r\n')
            if data.count(old) != 1:
                return bug['id'], 'edit of %s matches %d times' % (
                    name, data.count(old))
            with open(path, 'wb') as f:
                f.write(data.replace(old, new))
        diff = subprocess.check_output(git + ['diff'])
        if not changes_original(repo, diff):
            return bug['id'], 'changes only lines that fixes added'
        out = os.path.join(scratch, 'seed')
        os.mkdir(out)
        shutil.copytree(os.path.join(VERIF, 'compat'),
                        os.path.join(out, 'compat'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write(DEMO_SH)
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write('import bootstrap  # noqa: F401\n' +
                    bug['demo'].strip() + '\n')
        with open(os.path.join(out, 'patch.diff'), 'wb') as f:
            f.write(diff)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': bug['property'], 'needs': bug['needs'],
                       'what_it_breaks': bug['what_it_breaks']}, f, indent=1)
            f.write('\n')
        good, bad, names = tests(repo)
        if (good, bad) != (48, 0):
            return bug['id'], 'stable tests: %d pass, %s fail' % (good, names)
        with_patch = demo(out, repo)
        if with_patch.returncode == 0:
            return bug['id'], 'demo passes with the patch: %s' % (
                with_patch.stdout.decode()[-500:],)
        if b'AssertionError' not in with_patch.stdout and \
                not bug.get('any_error'):
            return bug['id'], 'demo fails oddly with the patch: %s' % (
                with_patch.stdout.decode()[-1500:],)
        subprocess.check_call(git + ['checkout', '-q', '--', '.'])
        without = demo(out, repo)
        if without.returncode != 0:
            return bug['id'], 'demo fails without the patch: %s' % (
                without.stdout.decode()[-1500:],)
        subprocess.check_call(git + ['apply', '--check',
                                     os.path.join(out, 'patch.diff')])
        dest = os.path.join(VERIF, 'seeded', bug['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(out, dest,
                        ignore=shutil.ignore_patterns('__pycache__'))
        return bug['id'], 'ok'
    except Exception as e:
        return bug['id'], 'failed: %r' % e
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if sys.argv[2:]:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(6) as pool:
        for id_, verdict in pool.map(make, bugs):
            print(id_, verdict, flush=True)


if __name__ == '__main__':
    main()
