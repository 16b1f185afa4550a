#!/usr/bin/env python3
"""Development tool (not used by any check): AST mutation testing of /repo/src in scratch copies.

mutate.py list FILE...            print the mutants
mutate.py run OUT.jsonl [--par N] [--seed S] [--sample K] FILE...
Each mutant: stable tests with -x; survivors: quick checks in the order most likely to catch, until one does.
"""
import argparse, ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor, as_completed
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import evalpatch as E

ALL = ['C%02d' % i for i in range(1, 27)]
ORDER = {
    'randvar.py': ['C02', 'C01', 'C04', 'C06', 'C07', 'C10', 'C23', 'C13', 'C22', 'C14', 'C03', 'C21'],
    'roller.py': ['C03', 'C26', 'C23', 'C12', 'C07', 'C14', 'C16', 'C21', 'C22'],
    'decorators.py': ['C05', 'C15', 'C07', 'C06', 'C17'],
    'seq.py': ['C09', 'C22', 'C02', 'C16', 'C05'],
    'settings.py': ['C13', 'C15'],
    'output.py': ['C11', 'C26', 'C14'],
    'funclib.py': ['C08'],
    'string_rvs.py': ['C22'],
    'blackrv.py': ['C07'],
    'factory.py': ['C09', 'C01', 'C07', 'C22', 'C05'],
    'utils.py': ['C16', 'C09', 'C08', 'C06'],
    'altcast.py': ['C03'],
    'myparser.py': ['C18', 'C25', 'C16', 'C19', 'C17', 'C20'],
    'python_resolver.py': ['C20', 'C17', 'C16', 'C19', 'C18'],
    'parse_and_exec.py': ['C17', 'C18', 'C19', 'C20', 'C25', 'C26'],
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Div: '*', ast.Mod: '*', ast.Pow: '*'}


def mutants(path):
    src = open(path, encoding='utf8').read()
    tree = ast.parse(src)
    lines = src.encode().splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def add(n, text, kind):
        s, e = span(n)
        out.append((kind, n.lineno, s, e, text))
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                skip.add(n.body[0])
            for a in ast.walk(n.args):
                if isinstance(a, ast.arg) and a.annotation is not None:
                    for x in ast.walk(a.annotation):
                        skip.add(x)
            if n.returns is not None:
                for x in ast.walk(n.returns):
                    skip.add(x)
        if isinstance(n, ast.AnnAssign):
            for x in ast.walk(n.annotation):
                skip.add(x)
        if isinstance(n, ast.JoinedStr):
            for x in ast.walk(n):
                skip.add(x)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'logger':
            for x in ast.walk(n):
                skip.add(x)
            skip.add(parents.get(n))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and 'verbose' in n.test.id:
            for x in ast.walk(n):
                skip.add(x)
        if isinstance(n, ast.Assert) and n.msg is not None:
            for x in ast.walk(n.msg):
                skip.add(x)
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, 'lineno'):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP.get(type(n.ops[0]))
            if op:
                add(n, f'{seg(n.left)} {op} {seg(n.comparators[0])}', 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, f'({seg(n.left)}) {BIN[type(n.op)]} ({seg(n.right)})', 'bin')
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [f'({seg(v)})' for j, v in enumerate(n.values) if j != i]
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', f'dropcond{i}')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, seg(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), 'int+1')
                if n.value > 0:
                    add(n, str(n.value - 1), 'int-1')
        elif isinstance(n, ast.If):
            add(n.test, f'not ({seg(n.test)})', 'negif')
            add(n.test, 'False', 'if0')
            add(n.test, 'True', 'if1')
        elif isinstance(n, ast.IfExp):
            add(n, f'({seg(n.body)})', 'ifexp1')
            add(n, f'({seg(n.orelse)})', 'ifexp0')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, 'return None', 'retnone')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Assert, ast.Continue)) and not isinstance(parents.get(n), ast.Module):
            if len(getattr(parents.get(n), 'body', [])) >= 1 and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(n, 'pass', 'del')
        elif isinstance(n, ast.Call):
            f = seg(n.func)
            if f in ('tuple', 'list', 'sorted', 'abs', 'int', 'str', 'round', 'set', 'reversed', 'bool') and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.GeneratorExp, ast.Starred)):
                add(n, f'({seg(n.args[0])})', 'unwrap')
            if f in ('min', 'max'):
                add(n.func, 'max' if f == 'min' else 'min', 'minmax')
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                add(n, f'{f}({seg(n.args[1])}, {seg(n.args[0])})', 'swapargs')
    uniq = {}
    for kind, line, s, e, t in out:
        nb = b[:s] + t.encode() + b[e:]
        try:
            compile(nb, path, 'exec')
        except SyntaxError:
            continue
        uniq.setdefault(nb, (kind, line, b[s:e].decode(), t))
    return [(nb,) + v for nb, v in uniq.items()]


def work(job):
    i, rel, nb, kind, line, old, new, jobs = job
    d = E.scratch(f'm{i}')
    rec = dict(file=rel, line=line, kind=kind, old=old[:160], new=new[:160])
    try:
        open(f'{d}/repo/src/{rel}', 'wb').write(nb)
        trc, _ = E.run_tests(d)
        rec['tests'] = trc
        if trc != 0:
            rec['status'] = 'killed by tests'
            return rec
        base = os.path.basename(rel)
        order = ORDER.get(base) or ALL       # the other checks only see this file indirectly
        bad = []
        for c in order:
            caught, b = E.run_checks(d, [c], jobs)
            bad += b
            if caught:
                rec['status'] = 'caught ' + c
                rec['bad'] = bad
                return rec
        rec['status'] = 'SURVIVED'
        rec['bad'] = bad
        return rec
    except Exception as e:
        rec['status'] = f'error {e!r}'
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('args', nargs='*')
    ap.add_argument('--par', type=int, default=6)
    ap.add_argument('--jobs', type=int, default=1)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--sample', type=int, default=0)
    a = ap.parse_intermixed_args()
    if a.cmd == 'list':
        for f in a.args:
            ms = mutants('/repo/src/' + f)
            print(f, len(ms))
        sys.exit()
    outp, files = a.args[0], a.args[1:]
    todo = []
    for f in files:
        for m in mutants('/repo/src/' + f):
            todo.append((f,) + m)
    random.Random(a.seed).shuffle(todo)
    if a.sample:
        todo = todo[:a.sample]
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['kind'], r['old'], r['new']))
    jobs = [(i,) + t + (a.jobs,) for i, t in enumerate(todo) if (t[0], t[3], t[2], t[4][:160], t[5][:160]) not in done]
    print(len(jobs), 'mutants', flush=True)
    with ThreadPoolExecutor(a.par) as ex, open(outp, 'a') as o:
        for f in as_completed([ex.submit(work, j) for j in jobs]):
            r = f.result()
            o.write(json.dumps(r) + '\n')
            o.flush()
