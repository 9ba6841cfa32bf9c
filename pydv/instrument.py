"""Mechanical instrumentation of the real source: control flow, stores and builtin calls are routed to the executor.

Nothing is dropped or re-ordered: every statement of the input is present in the output, wrapped by executor calls.
"""
import ast

BUILTINS = {'len', 'range', 'enumerate', 'zip', 'isinstance', 'abs', 'max', 'min', 'sum', 'any', 'all', 'hasattr', 'getattr',
            'setattr', 'int', 'float', 'bool', 'sorted', 'list', 'tuple', 'set', 'print', 'reversed', 'map', 'round',
            'dict', 'str', 'filter', 'iter', 'next', 'divmod', 'pow', 'callable', 'complex', 'type', 'vars', 'delattr'}
MUTATORS = {'append', 'extend', 'update', 'pop', 'insert', 'remove', 'clear', 'setdefault', 'popitem', 'add', 'discard',
            'sort', 'reverse'}
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@'}


def name(n, store=False):
    return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())


def pv(fn, *args, keywords=()):
    return ast.Call(func=ast.Attribute(value=name('_pv'), attr=fn, ctx=ast.Load()), args=list(args), keywords=list(keywords))


def meth(obj, fn, *args):
    return ast.Call(func=ast.Attribute(value=name(obj), attr=fn, ctx=ast.Load()), args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


def names_tuple(ns):
    return ast.Tuple(elts=[const(n) for n in ns], ctx=ast.Load())


def lam(body, args=()):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[], kw_defaults=[],
                                         defaults=[]), body=body)


def scoped_walk(nodes):
    """walk without entering nested function / class scopes"""
    st = list(nodes)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(n))


def assigned(nodes):
    out = []

    def walk(n, comp):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if not comp and n.name not in out:
                out.append(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.iter_child_nodes(n):
                walk(c, True)
            return
        if isinstance(n, ast.NamedExpr):
            if n.target.id not in out:
                out.append(n.target.id)
            walk(n.value, comp)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not comp:
            if n.id not in out:
                out.append(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name and n.name not in out:
            pass
        for c in ast.iter_child_nodes(n):
            walk(c, comp)
    for n in nodes:
        walk(n, False)
    return [n for n in out if not n.startswith('_pvt')]


def escapes(nodes):
    """return / raise / yield anywhere, break / continue of an enclosing loop"""
    def walk(n, inloop):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return False
        if isinstance(n, (ast.Return, ast.Raise, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Delete)):
            return True
        if isinstance(n, (ast.Break, ast.Continue)):
            return not inloop
        il = inloop or isinstance(n, (ast.For, ast.While))
        return any(walk(c, il) for c in ast.iter_child_nodes(n))
    return any(walk(n, False) for n in nodes)


def has_walrus(n):
    return any(isinstance(x, ast.NamedExpr) for x in ast.walk(n))


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.k = 0
        self.fn_depth = 0
        self.loops = []       # names of enclosing loop objects in this function
        self.shadow = [set()]

    def tmp(self, p='t'):
        self.k += 1
        return f'_pvt_{p}{self.k}'

    def loc(self, node):
        return const(f'{self.mod}:{node.lineno}:{node.col_offset}')

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out += r if isinstance(r, list) else [r]
        return out or [ast.Pass()]

    # ---- scopes
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        sv = self.loops
        self.loops = []
        self.fn_depth += 1
        args = [a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs]
        self.shadow.append(set(assigned(node.body)) | set(args))
        node.body = self.block(node.body)
        self.shadow.pop()
        self.fn_depth -= 1
        self.loops = sv
        return node

    def visit_Lambda(self, node):
        sv = self.loops
        self.loops = []
        self.shadow.append({a.arg for a in node.args.args})
        node.body = self.visit(node.body)
        self.shadow.pop()
        self.loops = sv
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.Pass()
        return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))

    # ---- statements
    def visit_If(self, node):
        if not self.fn_depth:
            return self.generic_visit(node)
        test = self.visit(node.test)
        if escapes(node.body) or escapes(node.orelse):
            node.test = pv('truth', test)
            node.body = self.block(node.body)
            node.orelse = self.block(node.orelse) if node.orelse else []
            return node
        ns = assigned(node.body + node.orelse)
        m = self.tmp('m')
        inner = ast.If(test=ast.Attribute(value=name(m), attr='side', ctx=ast.Load()), body=self.block(node.body),
                       orelse=self.block(node.orelse) if node.orelse else [])
        body = []
        body.append(ast.Try(body=[inner], handlers=[ast.ExceptHandler(
            type=name('Exception'), name='_pvt_e', body=[ast.Expr(meth(m, 'exc', name('_pvt_e')))])], orelse=[], finalbody=[]))
        body.append(ast.Expr(meth(m, 'leave', ast.Call(func=name('locals'), args=[], keywords=[]))))
        return [ast.Assign(targets=[name(m, True)], value=pv('mif', test, self.loc(node))),
                ast.While(test=meth(m, 'step', ast.Call(func=name('locals'), args=[], keywords=[])),
                          body=self.restore(m, ns) + body, orelse=[])] + self.restore(m, ns, 'result')

    def restore(self, m, ns, fn='restore'):
        if not ns:
            return [ast.Expr(meth(m, fn, names_tuple(ns)))]
        return [ast.Assign(targets=[ast.Tuple(elts=[name(n, True) for n in ns], ctx=ast.Store())],
                           value=meth(m, fn, names_tuple(ns)))]

    def visit_For(self, node):
        if not self.fn_depth:
            return self.generic_visit(node)
        it = self.visit(node.iter)
        ns = assigned(node.body + [node.target])
        m = self.tmp('l')
        self.loops.append(m)
        tgt = self.store(node.target, ast.Attribute(value=name(m), attr='item', ctx=ast.Load()))
        body = tgt + self.block(node.body)
        self.loops.pop()
        tr = ast.Try(body=body, handlers=[ast.ExceptHandler(
            type=name('Exception'), name='_pvt_e', body=[ast.Expr(meth(m, 'exc', name('_pvt_e')))])], orelse=[], finalbody=[])
        orelse = self.block(node.orelse) if node.orelse else []
        return [ast.Assign(targets=[name(m, True)], value=pv('loop', it, self.loc(node))),
                ast.While(test=meth(m, 'step', ast.Call(func=name('locals'), args=[], keywords=[])),
                          body=self.restore(m, ns) + [tr], orelse=orelse)] + self.restore(m, ns, 'result')

    def visit_While(self, node):
        if not self.fn_depth or node.orelse:
            if self.fn_depth:
                node.test = pv('truth', self.visit(node.test))
                self.loops.append(None)
                node.body = self.block(node.body)
                self.loops.pop()
                node.orelse = self.block(node.orelse) if node.orelse else []
                return node
            return self.generic_visit(node)
        ns = assigned(node.body + [node.test])
        m = self.tmp('w')
        self.loops.append(m)
        test = self.visit(node.test)
        body = self.block(node.body)
        self.loops.pop()
        tr = ast.Try(body=body, handlers=[ast.ExceptHandler(
            type=name('Exception'), name='_pvt_e', body=[ast.Expr(meth(m, 'exc', name('_pvt_e')))])], orelse=[], finalbody=[])
        guard = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=meth(m, 'test', test)), body=[ast.Break()], orelse=[])
        again = ast.If(test=ast.Attribute(value=name(m), attr='again', ctx=ast.Load()), body=[ast.Continue()], orelse=[])
        return [ast.Assign(targets=[name(m, True)], value=pv('wloop', self.loc(node))),
                ast.While(test=meth(m, 'step', ast.Call(func=name('locals'), args=[], keywords=[])),
                          body=self.restore(m, ns) + [guard, again, tr], orelse=[])] + self.restore(m, ns, 'result')

    def visit_Return(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        for m in reversed(self.loops):
            if m:
                node.value = meth(m, 'ret', node.value or const(None))
        return node

    def visit_Break(self, node):
        if self.loops and self.loops[-1]:
            return [ast.Expr(meth(self.loops[-1], 'brk')), node]
        return node

    # ---- stores
    def store(self, target, value):
        """statements storing `value` (already transformed) in target"""
        if isinstance(target, ast.Name):
            return [ast.Assign(targets=[target], value=value)]
        if isinstance(target, ast.Attribute):
            return [ast.Expr(pv('setattr_', self.visit(target.value), const(target.attr), value))]
        if isinstance(target, ast.Subscript):
            return [ast.Expr(pv('setitem', self.visit(target.value), self.visit(target.slice), value))]
        if isinstance(target, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in target.elts):
                return [ast.Assign(targets=[target], value=value)]
            ts = []
            after = []
            for e in target.elts:
                if isinstance(e, ast.Name):
                    ts.append(e)
                else:
                    t = self.tmp()
                    ts.append(name(t, True))
                    after += self.store(e, name(t))
            return [ast.Assign(targets=[ast.Tuple(elts=ts, ctx=ast.Store())],
                               value=pv('unpack', value, const(len(ts))))] + after
        return [ast.Assign(targets=[target], value=value)]

    def visit_Assign(self, node):
        if not self.fn_depth:
            return self.generic_visit(node)
        value = self.visit(node.value)
        if len(node.targets) == 1:
            return self.store(node.targets[0], value)
        t = self.tmp()
        out = [ast.Assign(targets=[name(t, True)], value=value)]
        for x in node.targets:
            out += self.store(x, name(t))
        return out

    def visit_AugAssign(self, node):
        if not self.fn_depth:
            return self.generic_visit(node)
        op = const(OPS[type(node.op)]) if type(node.op) in OPS else None
        if op is None:
            return self.generic_visit(node)
        v = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            return ast.Assign(targets=[t], value=pv('iop', op, name(t.id), v))
        if isinstance(t, ast.Attribute):
            return ast.Expr(pv('augattr', self.visit(t.value), const(t.attr), op, v))
        return ast.Expr(pv('augitem', self.visit(t.value), self.visit(t.slice), op, v))

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Attribute):
                out.append(ast.Expr(pv('b_delattr', self.visit(t.value), const(t.attr))))
            elif isinstance(t, ast.Subscript):
                out.append(ast.Expr(pv('delitem', self.visit(t.value), self.visit(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_Assert(self, node):
        node.test = pv('truth', self.visit(node.test))
        return node

    # ---- expressions
    def visit_Slice(self, node):
        self.generic_visit(node)
        return ast.Call(func=name('slice'), args=[node.lower or const(None), node.upper or const(None),
                                                  node.step or const(None)], keywords=[])

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load) and self.fn_depth:
            return pv('getitem', self.visit(node.value), self.visit(node.slice))
        if not self.fn_depth:
            return node
        node.value = self.visit(node.value)
        node.slice = self.visit(node.slice)
        return node

    def visit_BoolOp(self, node):
        if not self.fn_depth or any(has_walrus(v) for v in node.values):
            return self.generic_visit(node)
        vs = [self.visit(v) for v in node.values]
        fn = 'and_' if isinstance(node.op, ast.And) else 'or_'
        return pv(fn, vs[0], *[lam(v) for v in vs[1:]])

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not) and self.fn_depth:
            return pv('not_', node.operand)
        return node

    def visit_IfExp(self, node):
        if not self.fn_depth or has_walrus(node):
            return self.generic_visit(node)
        return pv('ifexp', self.visit(node.test), lam(self.visit(node.body)), lam(self.visit(node.orelse)), self.loc(node))

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.fn_depth:
            return node
        if len(node.ops) == 1:
            o = node.ops[0]
            if isinstance(o, ast.In):
                return pv('in_', node.left, node.comparators[0])
            if isinstance(o, ast.NotIn):
                return pv('not_', pv('in_', node.left, node.comparators[0]))
            if isinstance(o, (ast.Eq, ast.NotEq)):
                return pv('eq' if isinstance(o, ast.Eq) else 'ne', node.left, node.comparators[0])
            return node
        if has_walrus(node):
            return node
        ops = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in',
               ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
        return pv('chain', ast.List(elts=[const(ops[type(o)]) for o in node.ops], ctx=ast.Load()),
                  ast.List(elts=[node.left] + node.comparators, ctx=ast.Load()))

    def _comp(self, node, kind):
        if not self.fn_depth or len(node.generators) != 1 or has_walrus(node):
            return self.generic_visit(node)
        g = node.generators[0]
        if isinstance(g.target, ast.Name):
            args, unpack = [g.target.id], 0
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            args, unpack = [e.id for e in g.target.elts], len(g.target.elts)
        else:
            return self.generic_visit(node)
        if len(set(args)) != len(args):
            return self.generic_visit(node)
        it = self.visit(g.iter)
        self.shadow.append(set(args))
        if isinstance(node, ast.DictComp):
            elt = ast.Tuple(elts=[self.visit(node.key), self.visit(node.value)], ctx=ast.Load())
        else:
            elt = self.visit(node.elt)
        ifs = [self.visit(i) for i in g.ifs]
        self.shadow.pop()
        cond = const(None)
        if ifs:
            cond = lam(ifs[0] if len(ifs) == 1 else pv('and_', ifs[0], *[lam(i) for i in ifs[1:]]), args)
        return pv('comp', const(kind), it, lam(elt, args), cond, const(unpack))

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'list')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    def visit_DictComp(self, node):
        return self._comp(node, 'dict')

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in BUILTINS and not any(f.id in s for s in self.shadow):
            node.func = ast.Attribute(value=name('_pv'), attr='b_' + f.id, ctx=ast.Load())
            return pv('new', node) if f.id in ('dict', 'list', 'set') and self.fn_depth else node
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS and self.fn_depth:
            return ast.Call(func=ast.Attribute(value=name('_pv'), attr='mcall', ctx=ast.Load()),
                            args=[f.value, const(f.attr)] + node.args, keywords=node.keywords)
        if self.fn_depth and isinstance(f, ast.Name) and f.id[:1].isupper():
            return pv('new', node)
        return node

    def _literal(self, node):
        self.generic_visit(node)
        if self.fn_depth and isinstance(getattr(node, 'ctx', ast.Load()), ast.Load):
            return pv('new', node)
        return node

    visit_Dict = visit_List = visit_Set = _literal

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else const('')
                parts.append(pv('fmt', val, spec, const(v.conversion)))
            else:
                parts.append(v)
        return pv('fstr', *parts)


def instrument(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Instrument(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')
