#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo's sources, for testing that the checks stay quiet (development only).
refactor.py OUTDIR TRANSFORM [FILE:FUNC ...]   writes a copy of /repo with the transform applied everywhere (or in the functions given)."""
import ast
import copy
import os
import shutil
import sys

SKIP = {'teste_usage.py', 'parameter_array.py'}


def has(node, *types):
    return any(isinstance(n, types) for n in ast.walk(node))


class T(ast.NodeTransformer):
    only = None
    n = 0
    count = 0

    def fresh(self, p):
        T.n += 1
        return '%s_%d_' % (p, T.n)

    def generic_stmts(self, f):
        pass


def blocks(node):
    for n in ast.walk(node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            yield n


def each_stmt(fn, rewrite):
    """rewrite: stmt -> list of stmts or None"""
    k = 0
    for n, f, b in list(blocks(fn)):
        out = []
        for s in b:
            r = rewrite(s)
            if r is None:
                out.append(s)
            else:
                out += r
                k += 1
        b[:] = out
    return k


def parse(src):
    return ast.parse(src).body


# each transform: function node -> number of sites changed
def retvar(fn):
    def rw(s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            return [ast.Assign([ast.Name('result_', ast.Store())], s.value), ast.Return(ast.Name('result_', ast.Load()))]
    return each_stmt(fn, rw)


def swapif(fn):
    def rw(s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
    return each_stmt(fn, rw)


def swapif2(fn):
    """also chains"""
    def rw(s):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
    return each_stmt(fn, rw)


def addelse(fn):
    def rw(s):
        if isinstance(s, ast.If) and not s.orelse:
            return [ast.If(s.test, s.body, [ast.Pass()])]
    return each_stmt(fn, rw)


def ifvar(fn):
    def rw(s):
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
            v = 'cond_%d_' % id(s)
            v = T().fresh('cond')
            return [ast.Assign([ast.Name(v, ast.Store())], s.test), ast.If(ast.Name(v, ast.Load()), s.body, s.orelse)]
    # elif tests are evaluated lazily: only the leading if of a chain is hoisted, orelse chains become nested
    return each_stmt(fn, rw)


def guard(fn):
    """else after an exit is dropped"""
    def rw(s):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
            return [ast.If(s.test, s.body, [])] + s.orelse
    k = 0
    while True:
        j = each_stmt(fn, rw)
        k += j
        if not j:
            return k


def comploop(fn):
    """x = [e for ...] at statement level becomes a loop (single generator)"""
    def rw(s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1:
            c = s.value
            g = c.generators[0]
            v = T().fresh('acc')
            ren = {}
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    ren[n.id] = T().fresh(n.id)
            first = g.iter
            for part in [g.target] + g.ifs + ([c.elt] if isinstance(c, ast.ListComp) else [c.key, c.value]):
                for n in ast.walk(part):
                    if isinstance(n, ast.Name) and n.id in ren:
                        n.id = ren[n.id]
            if isinstance(c, ast.ListComp):
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), 'append', ast.Load()), [c.elt], []))]
                init = ast.List([], ast.Load())
            else:
                body = [ast.Assign([ast.Subscript(ast.Name(v, ast.Load()), c.key, ast.Store())], c.value)]
                init = ast.Dict([], [])
            for t in reversed(g.ifs):
                body = [ast.If(t, body, [])]
            s.value = ast.Name(v, ast.Load())
            return [ast.Assign([ast.Name(v, ast.Store())], init), ast.For(g.target, first, body, []), s]
    return each_stmt(fn, rw)


def loopcomp(fn):
    """for over x -> indexed by enumerate"""
    def rw(s):
        if isinstance(s, ast.For) and not s.orelse:
            return [ast.For(ast.Tuple([ast.Name(T().fresh('i'), ast.Store()), s.target], ast.Store()), ast.Call(ast.Name('enumerate', ast.Load()), [s.iter], []), s.body, [])]
    return each_stmt(fn, rw)


def whileloop(fn):
    def rw(s):
        if isinstance(s, ast.For) and not s.orelse and not has(s, ast.Continue, ast.Break):
            l, i = T().fresh('seq'), T().fresh('i')
            return parse('%s = list(%s)\n%s = 0' % (l, ast.unparse(s.iter), i)) + [
                ast.While(ast.parse('%s < len(%s)' % (i, l), mode='eval').body, [ast.Assign([s.target], ast.parse('%s[%s]' % (l, i), mode='eval').body)] + s.body + parse('%s += 1' % i), [])]
    return each_stmt(fn, rw)


def ternary(fn):
    def rw(s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test, [ast.Assign(copy.deepcopy(s.targets), v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])]
    return each_stmt(fn, rw)


def toternary(fn):
    def rw(s):
        if (isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign)
                and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], (ast.Name, ast.Attribute))):
            return [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) and s.body[0].value and s.orelse[0].value:
            return [ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
    return each_stmt(fn, rw)


class IsInst(T):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Or) and all(isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'isinstance' for v in n.values) and len({ast.dump(v.args[0]) for v in n.values}) == 1:
            T.count += 1
            els = []
            for v in n.values:
                els += v.args[1].elts if isinstance(v.args[1], ast.Tuple) else [v.args[1]]
            return ast.Call(ast.Name('isinstance', ast.Load()), [n.values[0].args[0], ast.Tuple(els, ast.Load())], [])
        return n


class NoneCmp(T):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            T.count += 1
            n.ops = [ast.Is() if isinstance(n.ops[0], ast.Eq) else ast.IsNot()]
        return n


class DictMerge(T):
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(k is None for k in n.keys):
            T.count += 1
            # dict(chain of items)
            out = ast.Call(ast.Name('dict', ast.Load()), [n.values[0]], [])
            for v in n.values[1:]:
                out = ast.BinOp(out, ast.BitOr(), ast.Call(ast.Name('dict', ast.Load()), [v], []))
            return out
        return n


class DictMerge2(T):
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(k is None for k in n.keys):
            T.count += 1
            gens, = [[ast.comprehension(ast.Name('m_', ast.Store()), ast.Tuple(n.values, ast.Load()), [], 0),
                      ast.comprehension(ast.Tuple([ast.Name('k_', ast.Store()), ast.Name('v_', ast.Store())], ast.Store()),
                                        ast.Call(ast.Attribute(ast.Name('m_', ast.Load()), 'items', ast.Load()), [], []), [], 0)]]
            return ast.DictComp(ast.Name('k_', ast.Load()), ast.Name('v_', ast.Load()), gens)
        return n


class Join(T):
    """"".join([a, b]) -> a + "" + b ; str(a) kept"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and isinstance(n.func.value, ast.Constant) and len(n.args) == 1 and isinstance(n.args[0], ast.List):
            T.count += 1
            vals = []
            for i, e in enumerate(n.args[0].elts):
                if i and n.func.value.value:
                    vals.append(n.func.value)
                vals.append(ast.FormattedValue(e, -1, None))
            return ast.JoinedStr(vals)
        return n


class Concat(T):
    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.Add):
            parts = []

            def flat(x):
                if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                    flat(x.left)
                    flat(x.right)
                else:
                    parts.append(x)
            flat(n)
            if any(isinstance(p, ast.Constant) and isinstance(p.value, str) for p in parts) and not any(isinstance(p, ast.BinOp) for p in parts):
                T.count += 1
                return ast.JoinedStr([p if isinstance(p, ast.Constant) else ast.FormattedValue(self.visit(p), -1, None) for p in parts])
        self.generic_visit(n)
        return n


class Keys(T):
    """x in d.keys() -> x in d ; list(d.keys()) -> list(d); len(x)==0 kept"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        c = n.comparators[0]
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'keys':
            T.count += 1
            n.comparators = [c.func.value]
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('list', 'len', 'sorted') and len(n.args) == 1 and isinstance(n.args[0], ast.Call) and isinstance(n.args[0].func, ast.Attribute) and n.args[0].func.attr == 'keys':
            T.count += 1
            n.args = [n.args[0].func.value]
        return n


class ListComp(T):
    """[e for x in y] -> list(map(lambda x: e, y)) for one name, no condition"""
    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators
        if len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Name):
            T.count += 1
            return ast.Call(ast.Name('list', ast.Load()), [ast.Call(ast.Name('map', ast.Load()), [ast.Lambda(ast.arguments([], [ast.arg(g[0].target.id)], None, [], [], None, []), n.elt), g[0].iter], [])], [])
        return n


class DeMorgan(T):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        T.count += 1
        op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
        return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))

    def visit_Assign(self, n):
        return n if not has(n.value, ast.Compare) else self.generic_visit(n)


class EqTrue(T):
    """x == True -> x is True not equivalent in general; comparisons flipped instead: a == b -> b == a for constants"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        fl = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in fl and isinstance(n.comparators[0], ast.Constant):
            T.count += 1
            return ast.Compare(n.comparators[0], [fl[type(n.ops[0])]()], [n.left])
        return n


def visitor(V):
    def f(fn):
        T.count = 0
        for i, s in enumerate(fn.body):
            fn.body[i] = V().visit(s)
        return T.count
    return f


def unpack(fn):
    """multiple targets: self.a = x; self.b = y adjacent -> swapped where independent (attribute of self := name/constant)"""
    k = 0

    def simple(s):
        return (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name)
                and (isinstance(s.value, (ast.Name, ast.Constant)) or isinstance(s.value, (ast.List, ast.Dict)) and not has(s.value, ast.Attribute, ast.Call)))
    for n, f, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            if simple(b[i]) and simple(b[i + 1]) and ast.dump(b[i].targets[0]) != ast.dump(b[i + 1].targets[0]):
                b[i], b[i + 1] = b[i + 1], b[i]
                k += 1
                i += 2
            else:
                i += 1
    return k


def rename(fn):
    """local names (assigned in the function, not parameters, no nested function or global use) get another name"""
    if has(fn, ast.Global, ast.Nonlocal):
        return 0
    params = {a.arg for n in ast.walk(fn) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs + n.posonlyargs + ([n.vararg] if n.vararg else []) + ([n.kwarg] if n.kwarg else [])}
    loc = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
    nested = {n.name for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn}
    loc -= nested
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in loc:
            n.id = n.id + '_r'
    for n in ast.walk(fn):
        if isinstance(n, ast.ExceptHandler) and n.name in loc:
            n.name += '_r'
    return len(loc)


def impl(fn, cls=None):
    pass


def extract_impl(tree):
    """every method f of a class delegates to _f_impl with the same parameters"""
    k = 0
    for c in ast.walk(tree):
        if not isinstance(c, ast.ClassDef):
            continue
        out = []
        for s in c.body:
            out.append(s)
            if isinstance(s, ast.FunctionDef) and s.args.args and s.args.args[0].arg == 'self' and not s.decorator_list and not has(s, ast.Yield) and 'super' not in ast.dump(s) and '__class__' not in [n.id for n in ast.walk(s) if isinstance(n, ast.Name)]:
                a = s.args
                h = copy.deepcopy(s)
                h.name = '_' + s.name.strip('_') + '_impl'
                h.args.defaults, h.args.kw_defaults = [], [None for _ in h.args.kw_defaults]
                call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), h.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args[1:]] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                                [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
                s.body = [ast.Return(call)]
                out.append(h)
                k += 1
        c.body = out
    return k


def extract_module(tree):
    """every method f of a class delegates to a module function"""
    k = 0
    new = []
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            fs = []
            for s in c.body:
                if isinstance(s, ast.FunctionDef) and s.args.args and s.args.args[0].arg == 'self' and not s.decorator_list and 'super' not in ast.dump(s) and '__class__' not in [n.id for n in ast.walk(s) if isinstance(n, ast.Name)] and not s.args.vararg and not s.args.kwarg and not s.args.kwonlyargs:
                    h = copy.deepcopy(s)
                    h.name = '_%s_%s' % (c.name.lower(), s.name.strip('_'))
                    h.args.defaults = []
                    s.body = [ast.Return(ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in s.args.args], []))]
                    fs.append(h)
                    k += 1
            new += fs
        new.append(c)
    tree.body = new
    return k


def split_if_chain(fn):
    """each branch body of an if/elif chain of >= 3 statements goes to a nested function when it only reads names and ends by return"""
    k = 0

    def rw(s):
        nonlocal k
        if isinstance(s, ast.If) and len(s.body) >= 1 and isinstance(s.body[-1], ast.Return) and not has(s.body[-1], ast.Yield):
            nm = T().fresh('branch')
            f = ast.FunctionDef(nm, ast.arguments([], [], None, [], [], None, []), s.body, [], None, None, [])
            stores = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            loads_before = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            if has(s, ast.Nonlocal, ast.Global) or 'super' in loads_before or any(n in params for n in stores) or any(n in outer for n in stores):
                return None
            return [ast.If(s.test, [f, ast.Return(ast.Call(ast.Name(nm, ast.Load()), [], []))], s.orelse)]
    params = {a.arg for a in fn.args.args}
    outer = set()
    cnt = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            cnt[n.id] = cnt.get(n.id, 0) + 1
    outer = {x for x, c in cnt.items() if c > 1}
    return each_stmt(fn, rw)


def noop(fn):
    i = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body[i:i] = parse('_unused_ = 0')
    return 1


def kwargs_temp(fn):
    """arguments of calls at statement level are put into variables first"""
    def rw(s):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call):
            c = s.value
            if isinstance(c.func, ast.Name) and c.func.id in ('super', 'isinstance', 'locals', 'exec', 'eval', 'Exception'):
                return None
            pre = []
            for i, a in enumerate(c.args):
                if isinstance(a, (ast.Call, ast.BinOp, ast.ListComp, ast.Dict, ast.List, ast.Subscript)):
                    v = T().fresh('arg')
                    pre.append(ast.Assign([ast.Name(v, ast.Store())], a))
                    c.args[i] = ast.Name(v, ast.Load())
            for kx in c.keywords:
                if isinstance(kx.value, (ast.Call, ast.BinOp, ast.ListComp, ast.Dict, ast.List, ast.Subscript)):
                    v = T().fresh('arg')
                    pre.append(ast.Assign([ast.Name(v, ast.Store())], kx.value))
                    kx.value = ast.Name(v, ast.Load())
            return pre + [s] if pre else None
    return each_stmt(fn, rw)


def augassign(fn):
    """x.update(y) at statement level -> loop"""
    def rw(s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'update' and len(s.value.args) == 1 and not s.value.keywords:
            d = s.value.func.value
            k, v = T().fresh('k'), T().fresh('v')
            a = s.value.args[0]
            if not has(d, ast.Call):
                return parse('for %s, %s in dict(%s).items():\n    %s[%s] = %s' % (k, v, ast.unparse(a), ast.unparse(d), k, v))
    return each_stmt(fn, rw)


def setdefault(fn):
    """dict literal assigned -> built key by key"""
    def rw(s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Dict) and len(s.value.keys) > 1 and all(k is not None for k in s.value.keys) and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and len(s.targets) == 1:
            t = ast.unparse(s.targets[0])
            v = T().fresh('d')
            return parse('%s = {}' % v + ''.join('\n%s[%s] = %s' % (v, ast.unparse(k), ast.unparse(x)) for k, x in zip(s.value.keys, s.value.values)) + '\n%s = %s' % (t, v))
    return each_stmt(fn, rw)


def anyloop(fn):
    """v = all(...)/any(...) in if tests -> loop with a flag before"""
    def rw(s):
        if isinstance(s, (ast.Assign, ast.Return, ast.If)):
            c = s.test if isinstance(s, ast.If) else s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('all', 'any') and len(c.args) == 1 and isinstance(c.args[0], (ast.GeneratorExp, ast.ListComp)) and len(c.args[0].generators) == 1:
                g = c.args[0].generators[0]
                v = T().fresh('flag')
                test = c.args[0].elt if c.func.id == 'any' else ast.UnaryOp(ast.Not(), c.args[0].elt)
                for t in reversed(g.ifs):
                    test = ast.BoolOp(ast.And(), [t, test])
                ren = {n.id: T().fresh(n.id) for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for part in (g.target, test):
                    for n in ast.walk(part):
                        if isinstance(n, ast.Name) and n.id in ren:
                            n.id = ren[n.id]
                if isinstance(s, ast.If):
                    s.test = ast.Name(v, ast.Load())
                else:
                    s.value = ast.Name(v, ast.Load())
                return parse('%s = %s' % (v, c.func.id == 'all')) + [ast.For(g.target, g.iter, [ast.If(test, parse('%s = %s' % (v, c.func.id == 'any')) + [ast.Break()], [])], []), s]
    return each_stmt(fn, rw)


FN = {'retvar': retvar, 'swapif': swapif, 'swapif2': swapif2, 'addelse': addelse, 'ifvar': ifvar, 'guard': guard, 'comploop': comploop, 'enumerate': loopcomp, 'whileloop': whileloop, 'ternary': ternary,
      'toternary': toternary, 'isinst': visitor(IsInst), 'nonecmp': visitor(NoneCmp), 'dictmerge': visitor(DictMerge), 'dictmerge2': visitor(DictMerge2), 'join': visitor(Join), 'concat': visitor(Concat), 'keys': visitor(Keys), 'map': visitor(ListComp),
      'demorgan': visitor(DeMorgan), 'yoda': visitor(EqTrue), 'swapassign': unpack, 'rename': rename, 'branchfn': split_if_chain, 'noop': noop, 'argtemp': kwargs_temp, 'updloop': augassign, 'dictbuild': setdefault, 'anyloop': anyloop}
TREE = {'impl': extract_impl, 'modfn': extract_module, 'unparse': lambda t: 1}


def main():
    out, name, sel = sys.argv[1], sys.argv[2], set(sys.argv[3:])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree('/repo', out, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    total = 0
    for d, _, fs in os.walk(os.path.join(out, 'src', 'sloth')):
        for f in sorted(fs):
            if not f.endswith('.py') or f in SKIP:
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, os.path.join(out, 'src', 'sloth'))
            tree = ast.parse(open(p).read())
            if name in TREE:
                if sel and rel not in sel:
                    continue
                k = TREE[name](tree)
            else:
                k = 0
                for fn in list(functions(tree)):
                    if sel and rel not in sel and '%s:%s' % (rel, fn.name) not in sel:
                        continue
                    k += FN[name](fn)
            if k:
                ast.fix_missing_locations(tree)
                src = ast.unparse(tree)
                compile(src, p, 'exec')
                open(p, 'w').write(src + '\n')
                total += k
    print(name, total, 'sites')


if __name__ == '__main__':
    main()
