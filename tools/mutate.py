#!/usr/bin/env python3
"""Try every small change of a file of the code against the checks, to see which changes nothing notices

    mutate.py list FILE...               how many changes there are
    mutate.py run OUT.jsonl [-j N] FILE... [-- CNN...]

Each change is tried on a copy of the package in /tmp/mutate, first with few cases of each check. Changes which are not noticed are
for a person to judge: many of them do not change the behaviour.
"""
import ast
import concurrent.futures as cf
import json
import os
import shutil
import subprocess as sp
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path('/repo')
WORK = Path('/tmp/mutate')
LOOKS = [int(x) for x in os.environ.get("LOOKS", "24").split()]
CHECKS = {  # Most likely to notice first
    'models/base.py': 'C01 C04 C02 C03 C05 C12 C06',
    'models/ecm/utils.py': 'C06 C10 C05 C11 C03',
    'models/ecm/components.py': 'C10 C06 C11 C05 C03',
    'models/ecm/advancedSOH.py': 'C10 C03 C05 C06 C01',
    'models/ecm/transient.py': 'C10 C04 C11 C21',
    'models/ecm/ins_outs.py': 'C10 C04',
    'models/ecm/__init__.py': 'C07 C08 C09 C10 C11 C12',
    'models/thevenin/__init__.py': 'C29',
    'models/thevenin/state.py': 'C29 C04',
    'models/thevenin/components.py': 'C29 C05',
    'models/thevenin/ins_outs.py': 'C29 C04',
    'models/utils.py': 'C12 C21',
    'simulator.py': 'C12 C13 C11',
    'extractors/ecm.py': 'C28',
    'extractors/base.py': 'C28',
    'interface/__init__.py': 'C23 C25 C24',
    'interface/hdf5.py': 'C24 C25 C23',
    'estimators/online/__init__.py': 'C19 C21 C22 C23 C24 C20',
    'estimators/online/joint.py': 'C19 C21 C18 C20 C15',
    'estimators/online/dual.py': 'C19 C22 C18 C20 C15',
    'estimators/online/utils/model.py': 'C21 C22 C19 C18 C20',
    'estimators/online/filters/base.py': 'C14 C18 C20 C19',
    'estimators/online/filters/conversions.py': 'C16 C17 C18',
    'estimators/online/filters/distributions.py': 'C17 C14 C18 C19',
    'estimators/online/filters/kalman/unscented.py': 'C14 C15 C21 C20',
    'estimators/online/filters/kalman/utils.py': 'C15 C14',
    'estimators/offline/scipy.py': 'C27',
    'estimators/offline/__init__.py': 'C27',
    'estimators/offline/loss.py': 'C26 C27',
}
COMPARE = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
           ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.MatMult: None, ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: '*'}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.again = src, [], set()
        self.starts = [0]
        for line in src.encode().split(b'\n'):
            self.starts.append(self.starts[-1] + len(line) + 1)

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def put(self, n, new, why):
        a, b = self.span(n)
        self.out.append((n.lineno, a, b, new, why))

    def visit_FunctionDef(self, n):
        a = n.args
        known = [x.arg for x in a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v]]
        for x in ast.walk(n):
            if isinstance(x, (ast.Assign, ast.For)):
                known += [t.id for t in (x.targets if isinstance(x, ast.Assign) else [x.target]) if isinstance(t, ast.Name)]
        self.again = {k for k in known if known.count(k) > 1}
        for d in n.body:
            self.visit(d)
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call) and self.text(n.value.func).startswith('logger'):
            return
        self.put(n, 'pass', 'statement removed')
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.put(n, 'pass', 'raise removed')

    def visit_Assert(self, n):
        self.put(n, 'pass', 'assert removed')

    def visit_Assign(self, n):
        if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            self.put(n, 'pass', 'assignment removed')
        elif len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in self.again \
                and not isinstance(n.value, ast.Constant):
            # A variable which is assigned before: leave its old value
            self.put(n, f'{n.targets[0].id} = locals().get({n.targets[0].id!r}, {self.text(n.value)})', 'reassignment removed')
        self.visit(n.value)

    def visit_AugAssign(self, n):
        self.put(n, 'pass', 'assignment removed')
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_If(self, n):
        self.put(n.test, 'True', 'always')
        self.put(n.test, 'False', 'never')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, self.text(n.body), 'always first')
        self.put(n, self.text(n.orelse), 'always second')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in COMPARE:
            self.put(n, f'({self.text(n.left)} {COMPARE[type(n.ops[0])]} {self.text(n.comparators[0])})', 'comparison')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        new = BIN.get(type(n.op))
        if new:
            self.put(n, f'({self.text(n.left)} {new} {self.text(n.right)})', f'operator {new}')
        if not isinstance(n.op, ast.Mod):
            self.put(n, self.text(n.left), 'left only')
            self.put(n, self.text(n.right), 'right only')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.put(n, f'({self.text(n.operand)})', 'sign or not removed')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.put(n, '(' + op.join(f'({self.text(v)})' for v in n.values) + ')', 'and/or')
        for v in n.values:
            self.put(n, f'({self.text(v)})', 'one condition only')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.put(n, str(not n.value), 'constant')
        elif isinstance(n.value, (int, float)):
            self.put(n, repr(n.value + 1), 'constant + 1')
            if n.value:
                self.put(n, '0', 'constant 0')

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ('copy', 'model_copy', 'flatten', 'squeeze', 'item', 'tolist', 'astype', 'transpose') or \
                isinstance(f, ast.Attribute) and f.attr in ('T',):
            self.put(n, self.text(f.value), f'.{f.attr}() removed')
        if self.text(f) in ('deepcopy', 'copy', 'np.array', 'np.copy', 'np.atleast_2d', 'np.atleast_1d', 'abs', 'np.abs', 'sorted', 'reversed', 'list',
                            'tuple', 'float', 'int', 'np.squeeze', 'np.asarray') and n.args:
            self.put(n, f'({self.text(n.args[0])})', f'{self.text(f)} removed')
        for i, k in enumerate(n.keywords):
            if k.arg is not None:
                rest = [self.text(a) for a in n.args] + [(f'{o.arg}=' if o.arg else '**') + self.text(o.value) for j, o in enumerate(n.keywords) if j != i]
                self.put(n, f'{self.text(f)}({", ".join(rest)})', f'without {k.arg}')
        if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            self.put(n, f'{self.text(f)}({self.text(n.args[1])}, {self.text(n.args[0])})', 'arguments swapped')
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if n.attr == 'T':
            self.put(n, self.text(n.value), 'not transposed')
        self.generic_visit(n)

    def visit_Slice(self, n):
        if n.lower is not None:
            self.put(n.lower, '', 'no lower')
        if n.upper is not None:
            self.put(n.upper, '', 'no upper')
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.put(n, 'pass', 'continue removed')

    def visit_Break(self, n):
        self.put(n, 'pass', 'break removed')


def changes(path):
    src = (REPO / 'moirae' / path).read_bytes().decode()
    f = Finder(src)
    f.visit(ast.parse(src))
    out, seen = [], set()
    for line, a, b, new, why in f.out:
        raw = src.encode()
        text = (raw[:a] + new.encode() + raw[b:]).decode()
        if text in seen or text == src:
            continue
        try:
            if ast.dump(ast.parse(text)) == ast.dump(ast.parse(src)):
                continue
        except SyntaxError:
            continue
        seen.add(text)
        out.append({'path': path, 'line': line, 'old': raw[a:b].decode(), 'new': new, 'why': why, 'text': text})
    return out


def attempt(job):
    i, m, checks = job
    tree = WORK / f'm{i}'
    shutil.rmtree(tree, ignore_errors=True)
    tree.mkdir(parents=True)
    shutil.copytree(REPO / 'moirae', tree / 'moirae', ignore=shutil.ignore_patterns('__pycache__'))
    (tree / 'moirae' / m['path']).write_bytes(m['text'].encode())
    rec = {k: v for k, v in m.items() if k != 'text'}
    rec['caught'] = None
    try:
        for look in LOOKS:
            for pid in checks:
                try:
                    r = sp.run([str(ROOT / 'check'), pid, '--workers', '1'], env=dict(os.environ, MC_REPO=str(tree), MC_LOOK=str(look)),
                               capture_output=True, text=True, timeout=600)
                except sp.TimeoutExpired:
                    rec['caught'] = f'{pid} (time)'
                    return rec
                if r.returncode != 0:
                    lines = r.stdout.splitlines()
                    rec['caught'] = pid
                    rec['how'] = (lines[1] if len(lines) > 1 else r.stderr[-200:])[:200]
                    return rec
    finally:
        shutil.rmtree(tree, ignore_errors=True)
    return rec


def main():
    what, rest = sys.argv[1], sys.argv[2:]
    only = None
    if '--' in rest:
        only = rest[rest.index('--') + 1:]
        rest = rest[:rest.index('--')]
    if what == 'list':
        for p in rest or CHECKS:
            print(len(changes(p)), p)
        return
    out, rest = rest[0], rest[1:]
    n = 8
    if '-j' in rest:
        n = int(rest[rest.index('-j') + 1])
        del rest[rest.index('-j'):rest.index('-j') + 2]
    done = set()
    if os.path.exists(out):
        with open(out) as fp:
            done = {(r['path'], r['line'], r['old'], r['new']) for r in map(json.loads, fp)}
    jobs = []
    for p in rest or CHECKS:
        for m in changes(p):
            if (p, m['line'], m['old'], m['new']) not in done:
                jobs.append((len(jobs), m, only or CHECKS[p].split()))
    print(len(jobs), 'to try', flush=True)
    with cf.ThreadPoolExecutor(n) as pool, open(out, 'a') as fp:
        for rec in pool.map(attempt, jobs):
            fp.write(json.dumps(rec) + '\n')
            fp.flush()
    shutil.rmtree(WORK, ignore_errors=True)


if __name__ == '__main__':
    main()
