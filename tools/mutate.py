#!/usr/bin/env python3
"""Mutation test of the checks: AST mutants of /repo/src/sloth in scratch copies, analysed statically by the rules that reach the mutated function.

  mutate.py list FILE...            number of mutants
  mutate.py run OUT.jsonl [-k n] [-s seed] FILE...   sample n mutants (all without -k)
  mutate.py one ROOT RULES          (internal) run the rules on ROOT until one reports a violation
"""
import ast
import copy
import glob
import json
import os
import random
import subprocess
import sys
import time
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SKIP_KW = {'description', 'latex_text'}
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}
NAMES = {'all': 'any', 'any': 'all', 'min': 'max', 'max': 'min', 'is_linear': 'is_nonlinear', 'is_nonlinear': 'is_differential', 'is_differential': 'is_nonlinear', 'input': 'output', 'output': 'input', 'lhs': 'rhs', 'rhs': 'lhs',
         'symbolic_map': 'variable_map', 'variable_map': 'symbolic_map', 'symbolic_object': 'repr_symbolic', 'repr_symbolic': 'symbolic_object', 'linear': 'nonlinear', 'nonlinear': 'linear', 'differential': 'nonlinear', 'name': 'description',
         'other_obj': 'self', 'sorted': 'list', 'keys': 'values', 'variables': 'parameters', 'parameters': 'variables', 'x': 'y'}


def blocks(node):
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(node, f, None)
        if isinstance(b, list):
            yield b


def mutants(tree):
    """yield (qualname, line, description, apply, undo)"""
    out = []

    def visit(node, qual, quiet):
        for b in blocks(node):
            for i, st in enumerate(b):
                q = qual + [st.name] if isinstance(st, (ast.FunctionDef, ast.ClassDef)) else qual
                name = '.'.join(q)
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and getattr(st.value.func, 'id', '') == 'print':
                    continue
                if isinstance(st, (ast.Import, ast.ImportFrom)):
                    continue
                if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)):
                    out.append((name, st.lineno, 'delete: ' + ast.unparse(st)[:90], (b, i, ast.copy_location(ast.Pass(), st))))
                if isinstance(st, ast.Return) and st.value is not None:
                    out.append((name, st.lineno, 'return None: ' + ast.unparse(st)[:90], (b, i, ast.copy_location(ast.Return(value=ast.Constant(value=None)), st))))
                if isinstance(st, (ast.If, ast.While)):
                    for v in (True, False):
                        c = copy.copy(st)
                        c.test = ast.Constant(value=v)
                        if isinstance(st, ast.While) and v:
                            continue
                        out.append((name, st.lineno, 'condition %s: %s' % (v, ast.unparse(st.test)[:90]), (b, i, c)))
                visit(st, q, quiet)
        if isinstance(node, ast.Try):
            for h in node.handlers:
                visit(h, qual, quiet)
        for f, v in ast.iter_fields(node):
            if f in ('body', 'orelse', 'finalbody', 'handlers', 'annotation', 'decorator_list'):
                if isinstance(node, (ast.Lambda, ast.IfExp)) and not isinstance(v, list):
                    expr(node, f, None, v, qual)
                continue
            if isinstance(v, ast.AST):
                expr(node, f, None, v, qual)
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        expr(node, f, i, x, qual)

    def expr(parent, f, i, e, qual):
        if isinstance(parent, ast.Raise) or isinstance(e, (ast.expr_context, ast.operator, ast.cmpop, ast.boolop, ast.unaryop)):
            return
        if isinstance(e, ast.Call) and getattr(e.func, 'id', '') == 'print':
            return
        if isinstance(e, ast.keyword) and e.arg in SKIP_KW:
            return
        name = '.'.join(qual)
        at = getattr(e, 'lineno', getattr(parent, 'lineno', 0))

        def put(new, d):
            tgt = getattr(parent, f) if i is not None else parent
            key = i if i is not None else f
            out.append((name, at, d, (tgt, key, ast.copy_location(new, e))))
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            for o in CMP.get(type(e.ops[0]), []):
                c = copy.copy(e)
                c.ops = [o()]
                put(c, '%s -> %s' % (ast.unparse(e)[:80], ast.unparse(ast.fix_missing_locations(c))[:80]))
        if isinstance(e, ast.BinOp):
            for o in BIN.get(type(e.op), []):
                if isinstance(e.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(e.left, 'value', ''), str) or isinstance(e.right, ast.Constant) and isinstance(e.right.value, str):
                    break
                c = copy.copy(e)
                c.op = o()
                put(c, '%s -> %s' % (ast.unparse(e)[:80], ast.unparse(ast.fix_missing_locations(c))[:80]))
            if type(e.op) in (ast.Sub, ast.Div, ast.Pow):
                c = copy.copy(e)
                c.left, c.right = e.right, e.left
                put(c, 'swap: ' + ast.unparse(e)[:80])
        if isinstance(e, ast.BoolOp):
            c = copy.copy(e)
            c.op = ast.Or() if isinstance(e.op, ast.And) else ast.And()
            put(c, '%s -> %s' % (ast.unparse(e)[:80], 'or' if isinstance(e.op, ast.And) else 'and'))
            for k in range(len(e.values)):
                c = copy.copy(e)
                c.values = e.values[:k] + e.values[k + 1:]
                put(c if len(c.values) > 1 else c.values[0], 'drop operand %d: %s' % (k, ast.unparse(e)[:80]))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Not, ast.USub)):
            put(e.operand, 'drop %s: %s' % (type(e.op).__name__, ast.unparse(e)[:80]))
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                put(ast.Constant(value=not e.value), '%s -> %s' % (e.value, not e.value))
            elif isinstance(e.value, (int, float)):
                put(ast.Constant(value=e.value + 1), '%s -> %s' % (e.value, e.value + 1))
            elif isinstance(e.value, str) and e.value in NAMES:
                put(ast.Constant(value=NAMES[e.value]), '%r -> %r' % (e.value, NAMES[e.value]))
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and e.id in NAMES:
            put(ast.Name(id=NAMES[e.id], ctx=ast.Load()), '%s -> %s' % (e.id, NAMES[e.id]))
        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load) and e.attr in NAMES:
            c = copy.copy(e)
            c.attr = NAMES[e.attr]
            put(c, '%s -> .%s' % (ast.unparse(e)[:60], c.attr))
        if isinstance(e, ast.Call):
            if len(e.args) >= 2 and not any(isinstance(a, ast.Starred) for a in e.args) and ast.unparse(e.func).split('.')[-1] not in ('isinstance', 'format', 'replace', 'createVariable', 'createParameter', 'createEquation', 'hasattr', 'getattr'):
                c = copy.copy(e)
                c.args = [e.args[1], e.args[0]] + e.args[2:]
                put(c, 'swap arguments: ' + ast.unparse(e)[:80])
            for k, kw in enumerate(e.keywords):
                if kw.arg in SKIP_KW:
                    continue
                c = copy.copy(e)
                c.keywords = e.keywords[:k] + e.keywords[k + 1:]
                put(c, 'drop keyword %s: %s' % (kw.arg, ast.unparse(e)[:80]))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for k, g in enumerate(e.generators):
                for m in range(len(g.ifs)):
                    c = copy.deepcopy(e)
                    del c.generators[k].ifs[m]
                    put(c, 'drop filter: ' + ast.unparse(e)[:80])
        if isinstance(e, ast.IfExp):
            put(e.body, 'always then: ' + ast.unparse(e)[:80])
            put(e.orelse, 'always else: ' + ast.unparse(e)[:80])
        if isinstance(e, (ast.List, ast.Tuple)) and len(e.elts) > 1 and isinstance(e.ctx, ast.Load):
            for k in range(len(e.elts)):
                c = copy.copy(e)
                c.elts = e.elts[:k] + e.elts[k + 1:]
                put(c, 'drop element %d: %s' % (k, ast.unparse(e)[:80]))
        if isinstance(e, ast.Dict) and len(e.keys) >= 1:
            for k in range(len(e.keys)):
                c = copy.copy(e)
                c.keys, c.values = e.keys[:k] + e.keys[k + 1:], e.values[:k] + e.values[k + 1:]
                put(c, 'drop entry %d: %s' % (k, ast.unparse(e)[:80]))
        visit(e, qual, False)

    visit(tree, [], False)
    return out


def source(path, k):
    with open(os.path.join(REPO, path)) as f:
        tree = ast.parse(f.read())
    ms = mutants(tree)
    name, line, d, (tgt, key, new) = ms[k]
    if isinstance(tgt, list):
        tgt[key] = new
    else:
        setattr(tgt, key, new)
    return ast.unparse(ast.fix_missing_locations(tree))


def rule_map():
    """function -> rules whose evidence reaches it, cheapest first"""
    m, cost = {}, {}
    for p in glob.glob(os.path.join(HERE, 'evidence', 'P*.json')):
        ev = json.load(open(p))
        pid = ev['property']
        cost[pid] = ev['wall_s']
        for f in ev['coverage']['functions']:
            path, q = eval(f) if f.startswith('(') else (f, '')
            m.setdefault((path, q), set()).add(pid)
            m.setdefault((path, ''), set()).add(pid)
    return m, cost


def one(root, rules):
    import importlib
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    from sa.scenario import Analysis, Vanished
    K = json.load(open(os.path.join(HERE, 'KNOWN_FINDINGS.json')))['findings']
    keys = {(k['property'], k['key']) for k in K}

    class Stop(Exception):
        pass

    class A(Analysis):
        def record(self, oid, status, detail='', at='', kind=''):
            if status == 'violated' and (self.pid, oid + ('|' + kind if kind else '')) not in keys:
                raise Stop('%s %s' % (self.pid, oid))
            if status == 'undecided':
                und.append('%s %s: %s' % (self.pid, oid, detail[:100]))
    und = []
    for pid in rules:
        try:
            an = A(root)
            an.pid = pid
            importlib.import_module('rules.' + pid).run(an, 'quick')
        except Stop as e:
            print(json.dumps({'caught': str(e)[:200], 'und': len(und)}))
            return
        except Vanished as e:
            und.append('%s vanished %s' % (pid, e))
        except Exception as e:
            und.append('%s crashed %s %s' % (pid, type(e).__name__, e))
    print(json.dumps({'caught': None, 'und': len(und), 'first': und[:3]}))


def killed(root):
    """the stable tests (those that need no missing library) fail on the mutant"""
    if not os.path.isdir(root + '/tests'):
        subprocess.run(['cp', '-a', REPO + '/tests', root + '/'], check=True)
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', 'tests/test_constant.py', 'tests/test_parameter.py', 'tests/test_variable.py'], cwd=root, capture_output=True,
                       env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': '/opt/mplconfig'})
    return r.returncode != 0


def work(task):
    path, k, name, line, d, rules = task
    root = '/tmp/mu/w%d' % os.getpid()
    if not os.path.isdir(root):
        os.makedirs(root)
        subprocess.run(['cp', '-a', REPO + '/src', root + '/'], check=True)
    t0 = time.time()
    tgt = os.path.join(root, path)
    try:
        with open(tgt, 'w') as f:
            f.write(source(path, k))
        if '/core/' in path and killed(root):
            return {'file': path, 'k': k, 'function': name, 'line': line, 'what': d, 'caught': 'tests', 's': round(time.time() - t0, 1)}
        try:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), 'one', root] + rules, capture_output=True, text=True, timeout=500)
            res = json.loads(r.stdout.strip().split('\n')[-1]) if r.stdout.strip() else {'caught': None, 'error': r.stderr[-300:]}
        except subprocess.TimeoutExpired:
            res = {'caught': None, 'error': 'timeout'}
    finally:
        subprocess.run(['cp', '-a', os.path.join(REPO, path), tgt])
    return {'file': path, 'k': k, 'function': name, 'line': line, 'what': d, **res, 's': round(time.time() - t0, 1)}


def main():
    cmd = sys.argv[1]
    if cmd == 'one':
        return one(sys.argv[2], sys.argv[3:])
    args = sys.argv[2:]
    out = args.pop(0) if cmd == 'run' else None
    n, seed = None, 1
    while args and args[0] in ('-k', '-s'):
        o = args.pop(0)
        v = int(args.pop(0))
        n, seed = (v, seed) if o == '-k' else (n, v)
    rm, cost = rule_map()
    tasks = []
    for path in args:
        ms = mutants(ast.parse(open(os.path.join(REPO, path)).read()))
        for k, (name, line, d, _) in enumerate(ms):
            parts = name.split('.')
            rules = set()
            for j in range(len(parts), 0, -1):
                rules = rm.get((path, '.'.join(parts[:j])), set())
                if rules:
                    break
            tasks.append((path, k, name, line, d, sorted(rules, key=lambda p: cost[p])))
        print(path, len(ms))
    if cmd == 'list':
        return
    random.seed(seed)
    random.shuffle(tasks)
    tasks = tasks[:n] if n else tasks
    import multiprocessing as mp
    with mp.Pool(int(os.environ.get('JOBS', '7'))) as pool, open(out, 'a') as f:
        for r in pool.imap_unordered(work, tasks):
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
