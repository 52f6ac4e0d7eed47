#!/usr/bin/env python3
"""mutate.py list [FILE...] | run [--sample N] [--seed N] [--budget S] [FILE...]

Plants small mechanical changes (one at a time, in scratch copies of the
package) and runs the checks in one process each for a few seconds per check,
until one objects.  Prints the survivors: places to look at by hand.  Only a
means of finding blind spots; nothing here is part of a check."""
import argparse
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PYTHON = '/opt/venv-pypy/bin/python'
FIRST = {
    'cryptography.py': ['C28', 'C06', 'C08', 'C03'],
    'datastructures/masking.py': ['C24'],
    'datastructures/stats.py': ['C21', 'C22'],
    'datastructures/p2p.py': ['C35', 'C21', 'C29'],
    'datastructures/tasks.py': ['C20', 'C21', 'C29'],
    'datastructures/promissory.py': ['C19'],
    'datastructures/__init__.py': ['C22', 'C21'],
    'helpers.py': ['C27'], 'idgenerator.py': ['C23'],
    'utils.py': ['C28', 'C05'], 'validators.py': ['C34'],
    'register.py': ['C25'], 'serializer.py': ['C26'],
    'shortcuts.py': ['C01', 'C07', 'C05'], 'exceptions.py': ['C34', 'C11'],
    'message/base.py': ['C02', 'C04', 'C03', 'C13', 'C12', 'C09', 'C10',
                        'C36', 'C31', 'C29'],
    'message/p2p.py': ['C01', 'C29', 'C25'],
    'message/tasks.py': ['C17', 'C18', 'C16', 'C14', 'C15', 'C19'],
    'message/concents.py': ['C32', 'C18', 'C16', 'C14'],
    'message/resources.py': ['C25', 'C01'],
}
GENERAL = 'C01 C02 C11 C13 C29 C30 C31 C33 C36'.split()
FLIP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
        ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
        ast.NotIn: 'in'}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*',
       ast.Div: '*', ast.Mod: '+', ast.BitAnd: '|', ast.BitOr: '&',
       ast.BitXor: '|', ast.LShift: '>>', ast.RShift: '<<', ast.Pow: '*'}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(True)
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1] + len(line.encode()))
        self.raw = src.encode()
        self.out = []           # (line, start, end, replacement, label)

    def span(self, n):
        return (self.starts[n.lineno - 1] + n.col_offset,
                self.starts[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def put(self, n, new, label):
        a, b = self.span(n)
        self.out.append((n.lineno, a, b, new, label))

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            op = FLIP.get(type(n.ops[0]))
            if op:
                self.put(n, '(%s %s %s)' % (
                    self.text(n.left), op, self.text(n.comparators[0])),
                    'compare ' + op)
        else:
            for i in range(len(n.ops)):
                parts = [self.text(n.left)]
                for j, (o, c) in enumerate(zip(n.ops, n.comparators)):
                    a = self.span(n.left if not j else n.comparators[j - 1])
                    b = self.span(c)
                    op = self.raw[a[1]:b[0]].decode().strip().strip('\\')
                    parts += [FLIP[type(o)] if i == j else op, self.text(c)]
                self.put(n, '(%s)' % ' '.join(parts), 'compare %d' % i)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.put(n, '(%s)' % op.join('(%s)' % self.text(v)
                                     for v in n.values), 'bool' + op)
        for i in range(len(n.values)):
            keep = [v for j, v in enumerate(n.values) if j != i]
            old = ' and ' if isinstance(n.op, ast.And) else ' or '
            self.put(n, '(%s)' % old.join('(%s)' % self.text(v)
                                          for v in keep), 'drop operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.put(n, '(%s)' % self.text(n.operand), 'drop unary')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        op = OPS.get(type(n.op))
        if op and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            self.put(n, '(%s %s %s)' % (self.text(n.left), op,
                                        self.text(n.right)), 'op ' + op)
        self.generic_visit(n)

    def visit_If(self, n):
        for v in ('True', 'False'):
            self.put(n.test, v, 'if ' + v)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        for v in ('True', 'False'):
            self.put(n.test, v, 'ifexp ' + v)
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, str(not v), 'const')
        elif isinstance(v, int):
            self.put(n, str(v + 1), 'const')
        elif v is None:
            pass
        elif isinstance(v, (str, bytes)):
            if self.text(n)[:1] in '\'"b' and '\n' not in self.text(n):
                self.put(n, repr(v + (b'x' if isinstance(v, bytes)
                                      else 'x')), 'const str')

    def visit_JoinedStr(self, n):
        pass

    def visit_Raise(self, n):
        self.put(n, 'pass', 'no raise')

    def visit_Return(self, n):
        if n.value is not None and self.text(n.value) not in ('None',):
            self.put(n, 'return None', 'return None')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        t = self.text(n)
        if t.startswith('logger') or t.startswith('warnings'):
            return
        self.put(n, 'pass', 'drop statement')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if self.depth:
            self.put(n, 'pass', 'drop assignment')
        self.generic_visit(n)

    def visit_Call(self, n):
        for i, k in enumerate(n.keywords):
            if k.arg is None:
                continue
            a = self.span(k.value)
            start = self.raw.rfind(k.arg.encode(), 0, a[0])
            end = a[1]
            rest = self.raw[end:end + 200].decode('utf-8', 'ignore')
            m = len(rest) - len(rest.lstrip())
            if rest.lstrip().startswith(','):
                end += m + 1
            self.out.append((n.lineno, start, end, '', 'drop ' + k.arg))
        plain = [a for a in n.args if not isinstance(a, ast.Starred)]
        if len(plain) == len(n.args) and len(plain) >= 2:
            x, y = plain[0], plain[1]
            a, b = self.span(x), self.span(y)
            self.out.append((n.lineno, a[0], b[1], '%s, %s' % (
                self.text(y), self.text(x)), 'swap args'))
        self.generic_visit(n)

    def visit_List(self, n):
        if len(n.elts) > 1:
            for e in (n.elts[0], n.elts[-1]):
                keep = [x for x in n.elts if x is not e]
                self.put(n, '[%s]' % ', '.join(self.text(x) for x in keep),
                         'drop element')
        self.generic_visit(n)

    def visit_Tuple(self, n):
        if len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
            keep = n.elts[:-1]
            self.put(n, '(%s,)' % ', '.join(self.text(x) for x in keep),
                     'drop element')
        self.generic_visit(n)

    depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        for s in n.body:
            self.visit(s)
        self.depth -= 1

    def visit_ClassDef(self, n):
        keep, self.depth = self.depth, 0
        for s in n.body:
            self.visit(s)
        self.depth = keep


def mutants(rel):
    with open(os.path.join(REPO, 'golem_messages', rel), newline='') as f:
        src = f.read()
    fd = Finder(src)
    fd.visit(ast.parse(src))
    out, seen = [], set()
    for line, a, b, new, label in fd.out:
        text = (fd.raw[:a] + new.encode() + fd.raw[b:]).decode()
        if text in seen or text == src:
            continue
        seen.add(text)
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        out.append((rel, line, label, fd.raw[a:b].decode()[:60], new[:60],
                    text))
    return out


RUNNER = r'''
import importlib, json, os, sys, time
sys.path.insert(0, os.path.join(%(verif)r, 'compat'))
sys.path.insert(0, %(verif)r)
import bootstrap
from gm.core import Ctx
budget = float(sys.argv[1])
seed = int(sys.argv[2])
for name in sys.argv[3:]:
    mod = importlib.import_module('gm.checks.' + name.lower())
    ctx = Ctx(name, 'quick', seed)
    known = [f['mechanism'] for f in json.load(open(os.path.join(
        %(verif)r, 'known_findings.json')))['findings']]
    t0 = time.process_time()
    n = 0
    pos = dict.fromkeys((s.name for s in mod.SCENARIOS), 0)
    left = True
    while left and time.process_time() - t0 < budget:
        left = False
        for sc in mod.SCENARIOS:
            if sc.name == 'crowd':
                continue
            for _ in range(4):
                if pos[sc.name] < sc.quick:
                    # spread over the whole range
                    i = pos[sc.name] * 7919 %% sc.quick
                    ctx.run_case(sc, i)
                    pos[sc.name] += 1
                    left = True
        bad = [v for v in ctx.violations if v['mechanism'] not in known]
        if bad:
            print('KILLED', name, bad[0]['text'][:200])
            sys.exit(0)
print('SURVIVED')
'''


def run_one(args):
    m, budget, seed, checks, only = args
    rel, line, label, old, new, text = m
    d = tempfile.mkdtemp(prefix='mutant-')
    try:
        shutil.copytree(os.path.join(REPO, 'golem_messages'),
                        os.path.join(d, 'golem_messages'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        with open(os.path.join(d, 'golem_messages', rel), 'w',
                  newline='') as f:
            f.write(text)
        runner = os.path.join(d, 'runner.py')
        with open(runner, 'w') as f:
            f.write(RUNNER % {'verif': VERIF})
        first = FIRST.get(rel, ['C33'] if rel.startswith('factories') else [])
        order = first + [c for c in checks if c not in first
                         and (only or c in GENERAL)]
        try:
            p = subprocess.run(
                [PYTHON, '-B', runner, str(budget), str(seed)] + order,
                env=dict(os.environ, GM_REPO=d, PYTHONHASHSEED='0',
                         GM_VERSION='2.24.3'),
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=1500)
        except subprocess.TimeoutExpired:
            return m, 'TIMEOUT'
        out = p.stdout.decode().strip().splitlines()
        if p.returncode or not out:
            return m, 'KILLED import ' + p.stderr.decode()[-150:].replace(
                '\n', ' ')
        return m, out[-1]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('what', choices=['list', 'run'])
    ap.add_argument('files', nargs='*')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=6)
    ap.add_argument('--out', default='/tmp/mutants.jsonl')
    ap.add_argument('--only', help='checks, comma separated')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    files = a.files or sorted(FIRST)
    todo = [m for f in files for m in mutants(f)]
    if a.sample:
        todo = random.Random(a.seed).sample(todo, min(a.sample, len(todo)))
    if a.what == 'list':
        for m in todo:
            print(*m[:5], sep=' | ')
        print(len(todo))
        return
    checks = a.only.split(',') if a.only else sorted(
        n[:-3].upper() for n in os.listdir(os.path.join(VERIF, 'gm', 'checks'))
        if n.startswith('c'))
    killed = 0
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as pool, \
            open(a.out, 'a') as f:
        for m, verdict in pool.map(run_one, [
                (m, a.budget, a.seed, checks, a.only) for m in todo]):
            f.write(json.dumps(list(m[:5]) + [verdict]) + '\n')
            f.flush()
            if verdict.startswith('KILLED'):
                killed += 1
            else:
                print(verdict, *m[:5], sep=' | ', flush=True)
    print('%d of %d killed' % (killed, len(todo)))


if __name__ == '__main__':
    main()
