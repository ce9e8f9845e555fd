"""Python 2 syntax trees (JSON, from Jython's parser) -> instrumented Python 3 code.

Stage 1 (Conv) rebuilds Python 3 `ast` nodes.  Stage 2 (Instr) redirects every
operation whose meaning depends on Python 2 or on symbolic operands to the
`_sx_*` hooks of sx.runtime.
"""
import ast

OPS = {'Add': ast.Add, 'Sub': ast.Sub, 'Mult': ast.Mult, 'Div': ast.Div, 'Mod': ast.Mod,
       'Pow': ast.Pow, 'LShift': ast.LShift, 'RShift': ast.RShift, 'BitOr': ast.BitOr,
       'BitXor': ast.BitXor, 'BitAnd': ast.BitAnd, 'FloorDiv': ast.FloorDiv,
       'And': ast.And, 'Or': ast.Or, 'Not': ast.Not, 'USub': ast.USub, 'UAdd': ast.UAdd,
       'Invert': ast.Invert, 'Eq': ast.Eq, 'NotEq': ast.NotEq, 'Lt': ast.Lt, 'LtE': ast.LtE,
       'Gt': ast.Gt, 'GtE': ast.GtE, 'Is': ast.Is, 'IsNot': ast.IsNot, 'In': ast.In,
       'NotIn': ast.NotIn}
CTX = {'Load': ast.Load, 'Store': ast.Store, 'Del': ast.Del, 'Param': ast.Store,
       'AugStore': ast.Store, 'AugLoad': ast.Load}


def _int(v):
    if isinstance(v, dict):
        return int(v['v'])
    return v or 0


class Conv(object):
    """JSON -> Python 3 ast."""

    def __init__(self):
        self.uid = 0

    def fresh(self, base):
        self.uid += 1
        return '_sx_%s%d' % (base, self.uid)

    def name(self, ident, ctx=None):
        if ident == 'None' and not isinstance(ctx, ast.Store):
            return ast.Constant(None)
        if ident in ('True', 'False') and not isinstance(ctx, ast.Store):
            return ast.Constant(ident == 'True')
        if ident in ('None', 'True', 'False'):
            ident = '_sx_shadow_' + ident
        if ident in ('async', 'await', 'nonlocal'):
            ident = '_sx_kw_' + ident
        return ast.Name(ident, ctx or ast.Load())

    def c(self, n):
        if n is None or isinstance(n, (bool, str)):
            return n
        if isinstance(n, list):
            return [self.c(x) for x in n]
        t = n['t']
        m = getattr(self, 'c_' + t, None)
        if m is None:
            if t in OPS:
                return OPS[t]()
            if t in CTX:
                return CTX[t]()
            raise NotImplementedError('AST node %s at line %s' % (t, n.get('l')))
        r = m(n)
        if isinstance(r, ast.AST) and 'l' in n:
            r.lineno = r.end_lineno = n['l']
            r.col_offset = r.end_col_offset = 0
        elif isinstance(r, list):
            for x in r:
                x.lineno = x.end_lineno = n['l']
                x.col_offset = x.end_col_offset = 0
        return r

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.c(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]

    # -- module level
    def c_Module(self, n):
        return ast.Module(self.body(n['body']), [])

    # -- statements
    def args(self, a, pre):
        """Returns ast.arguments; tuple parameters are unpacked in `pre`."""
        args = []
        for x in a['args'] or []:
            if x['t'] == 'Name':
                args.append(ast.arg(x['id'], None))
            else:
                nm = self.fresh('tup')
                args.append(ast.arg(nm, None))
                tgt = self.c(x)
                for y in ast.walk(tgt):
                    if hasattr(y, 'ctx'):
                        y.ctx = ast.Store()
                pre.append(ast.Assign([tgt], ast.Name(nm, ast.Load())))
        va = ast.arg(a['vararg'], None) if a['vararg'] else None
        kw = ast.arg(a['kwarg'], None) if a['kwarg'] else None
        return ast.arguments([], args, va, [], [], kw, [self.c(d) for d in a['defaults'] or []])

    def c_FunctionDef(self, n):
        pre = []
        args = self.args(n['args'], pre)
        return ast.FunctionDef(n['name'], args, pre + self.body(n['body']),
                               [self.c(d) for d in n['decorator_list'] or []], None, None, [])

    def c_ClassDef(self, n):
        return ast.ClassDef(n['name'], [self.c(b) for b in n['bases'] or []], [],
                            self.body(n['body']),
                            [self.c(d) for d in n['decorator_list'] or []], [])

    def c_Return(self, n):
        return ast.Return(self.c(n['value']))

    def c_Delete(self, n):
        return ast.Delete(self.c(n['targets']))

    def c_Assign(self, n):
        return ast.Assign(self.c(n['targets']), self.c(n['value']))

    def c_AugAssign(self, n):
        t = self.c(n['target'])
        t.ctx = ast.Store()
        return ast.AugAssign(t, self.c(n['op']), self.c(n['value']))

    def c_Print(self, n):
        dest = self.c(n['dest']) or ast.Constant(None)
        vals = [self.c(v) for v in n['values'] or []]
        return ast.Expr(ast.Call(ast.Name('_sx_print', ast.Load()),
                                 [dest, ast.Constant(bool(n['nl']))] + vals, []))

    def c_For(self, n):
        return ast.For(self.c(n['target']), self.c(n['iter']), self.body(n['body']),
                       self.body(n['orelse']) if n['orelse'] else [])

    def c_While(self, n):
        return ast.While(self.c(n['test']), self.body(n['body']),
                         self.body(n['orelse']) if n['orelse'] else [])

    def c_If(self, n):
        return ast.If(self.c(n['test']), self.body(n['body']),
                      self.body(n['orelse']) if n['orelse'] else [])

    def c_With(self, n):
        if 'items' in n and n['items']:
            items = [ast.withitem(self.c(i['context_expr']), self.c(i['optional_vars']))
                     for i in n['items']]
        else:
            items = [ast.withitem(self.c(n['context_expr']), self.c(n['optional_vars']))]
        return ast.With(items, self.body(n['body']))

    def c_Raise(self, n):
        exc = self.c(n.get('type') or n.get('exc'))
        inst = self.c(n.get('inst'))
        if exc is None:
            return ast.Raise(None, None)
        return ast.Raise(ast.Call(ast.Name('_sx_raise', ast.Load()),
                                  [exc] + ([inst] if inst is not None else []), []), None)

    def handler(self, h):
        typ = self.c(h['type'])
        nm = h['name']
        body = self.body(h['body'])
        tmp = self.fresh('exc')
        if nm is not None:
            tgt = self.c(nm) if isinstance(nm, dict) else ast.Name(nm, ast.Store())
            for y in ast.walk(tgt):
                if hasattr(y, 'ctx'):
                    y.ctx = ast.Store()
            body = [ast.Assign([tgt], ast.Name(tmp, ast.Load()))] + body
        if typ is None:
            typ = ast.Name('_sx_AnyException', ast.Load())
        else:
            typ = ast.Call(ast.Name('_sx_exctypes', ast.Load()), [typ], [])
        r = ast.ExceptHandler(typ, tmp, body)
        r.lineno = r.end_lineno = h.get('l', 1)
        r.col_offset = r.end_col_offset = 0
        return r

    def c_TryExcept(self, n):
        return ast.Try(self.body(n['body']), [self.handler(h) for h in n['handlers']],
                       self.body(n['orelse']) if n['orelse'] else [], [])

    def c_TryFinally(self, n):
        return ast.Try(self.body(n['body']), [], [], self.body(n['finalbody']))

    def c_Assert(self, n):
        return ast.Assert(self.c(n['test']), self.c(n['msg']))

    def c_Import(self, n):
        return ast.Import([ast.alias(a['name'], a['asname']) for a in n['names']])

    def c_ImportFrom(self, n):
        return ast.ImportFrom(n['module'] or None,
                              [ast.alias(a['name'], a['asname']) for a in n['names']],
                              _int(n['level']))

    def c_Exec(self, n):
        return ast.Expr(ast.Call(ast.Name('_sx_exec', ast.Load()), [], []))

    def c_Global(self, n):
        return ast.Global(n['names'])

    def c_Expr(self, n):
        return ast.Expr(self.c(n['value']))

    def c_Pass(self, n):
        return ast.Pass()

    def c_Break(self, n):
        return ast.Break()

    def c_Continue(self, n):
        return ast.Continue()

    # -- expressions
    def c_BoolOp(self, n):
        return ast.BoolOp(self.c(n['op']), self.c(n['values']))

    def c_BinOp(self, n):
        return ast.BinOp(self.c(n['left']), self.c(n['op']), self.c(n['right']))

    def c_UnaryOp(self, n):
        return ast.UnaryOp(self.c(n['op']), self.c(n['operand']))

    def c_Lambda(self, n):
        pre = []
        args = self.args(n['args'], pre)
        body = self.c(n['body'])
        if pre:
            gens = [ast.comprehension(s.targets[0], ast.List([s.value], ast.Load()), [], 0)
                    for s in pre]
            body = ast.Subscript(ast.ListComp(body, gens), ast.Constant(0), ast.Load())
        return ast.Lambda(args, body)

    def c_IfExp(self, n):
        return ast.IfExp(self.c(n['test']), self.c(n['body']), self.c(n['orelse']))

    def c_Dict(self, n):
        return ast.Dict(self.c(n['keys'] or []), self.c(n['values'] or []))

    def c_Set(self, n):
        return ast.Set(self.c(n['elts']))

    def comps(self, gens):
        return [ast.comprehension(self.c(g['target']), self.c(g['iter']),
                                  self.c(g['ifs'] or []), 0) for g in gens]

    def c_ListComp(self, n):
        return ast.ListComp(self.c(n['elt']), self.comps(n['generators']))

    def c_SetComp(self, n):
        return ast.SetComp(self.c(n['elt']), self.comps(n['generators']))

    def c_DictComp(self, n):
        return ast.DictComp(self.c(n['key']), self.c(n['value']), self.comps(n['generators']))

    def c_GeneratorExp(self, n):
        return ast.GeneratorExp(self.c(n['elt']), self.comps(n['generators']))

    def c_Yield(self, n):
        return ast.Yield(self.c(n['value']))

    def c_Compare(self, n):
        return ast.Compare(self.c(n['left']), self.c(n['ops']), self.c(n['comparators']))

    def c_Call(self, n):
        args = self.c(n['args'] or [])
        if n['starargs']:
            args.append(ast.Starred(self.c(n['starargs']), ast.Load()))
        kws = [ast.keyword(k['arg'], self.c(k['value'])) for k in n['keywords'] or []]
        if n['kwargs']:
            kws.append(ast.keyword(None, self.c(n['kwargs'])))
        return ast.Call(self.c(n['func']), args, kws)

    def c_Repr(self, n):
        return ast.Call(ast.Name('repr', ast.Load()), [self.c(n['value'])], [])

    def c_Num(self, n):
        v = n['n']
        if v['t'] == '$i':
            return ast.Constant(int(v['v']))
        return ast.Constant(float(v['v']))

    def c_Str(self, n):
        s = n['s']
        if isinstance(s, dict):
            return ast.Call(ast.Name('_sx_u', ast.Load()), [ast.Constant(s['v'])], [])
        return ast.Constant(s)

    def c_Attribute(self, n):
        return ast.Attribute(self.c(n['value']), n['attr'], self.c(n['ctx']))

    def c_Subscript(self, n):
        return ast.Subscript(self.c(n['value']), self.c(n['slice']), self.c(n['ctx']))

    def c_Index(self, n):
        return self.c(n['value'])

    def c_Slice(self, n):
        return ast.Slice(self.c(n['lower']), self.c(n['upper']), self.c(n['step']))

    def c_ExtSlice(self, n):
        return ast.Tuple(self.c(n['dims']), ast.Load())

    def c_Ellipsis(self, n):
        return ast.Constant(Ellipsis)

    def c_Name(self, n):
        return self.name(n['id'], self.c(n['ctx']))

    def c_List(self, n):
        return ast.List(self.c(n['elts'] or []), self.c(n['ctx']))

    def c_Tuple(self, n):
        return ast.Tuple(self.c(n['elts'] or []), self.c(n['ctx']))


CMP = {ast.Eq: '_sx_eq', ast.NotEq: '_sx_ne', ast.Lt: '_sx_lt', ast.LtE: '_sx_le',
       ast.Gt: '_sx_gt', ast.GtE: '_sx_ge', ast.In: '_sx_in', ast.NotIn: '_sx_notin',
       ast.Is: '_sx_is', ast.IsNot: '_sx_isnot'}
NOCALL = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', '_sx_print', '_sx_raise',
          '_sx_u', '_sx_exctypes'}
ATTRS = {'iteritems', 'iterkeys', 'itervalues', 'has_key', 'decode', 'func_name', 'func_code',
         'func_globals', 'func_defaults', 'func_dict', 'func_doc', 'func_closure', 'im_func',
         'im_self', 'im_class', 'message', 'next', 'sort', '__name__', '__nonzero__',
         '__class__'}


def _n(x):
    return ast.Name(x, ast.Load())


def _call(f, *a):
    return ast.Call(_n(f), list(a), [])


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.functions = []

    def visit_Module(self, n):
        self.generic_visit(n)
        return n

    def _func(self, n):
        self.stack.append(n.name)
        qn = '%s:%s' % (self.mod, '.'.join(self.stack))
        self.functions.append(qn)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        pre = []
        if n.args.kwarg:
            pre.append(ast.Assign([ast.Name(n.args.kwarg.arg, ast.Store())],
                                  _call('_sx_kw', _n(n.args.kwarg.arg))))
        pre.append(ast.Expr(_call('_sx_enter', ast.Constant(qn))))
        if body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) \
                and isinstance(n.body[0].value.value, str):
            pre.insert(0, body.pop(0))
        n.body = pre + body
        self.stack.pop()
        return n

    visit_FunctionDef = _func

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        explicit_hash = any(isinstance(s, ast.FunctionDef) and s.name == '__hash__' or
                            isinstance(s, ast.Assign) and any(
                                isinstance(t, ast.Name) and t.id == '__hash__'
                                for t in s.targets) for s in n.body)
        self.generic_visit(n)
        n.bases = [_n('_sx_hosttype') if isinstance(b, ast.Name) and b.id == 'type' else b
                   for b in n.bases]
        for s in n.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name) and s.targets[0].id == '__metaclass__':
                n.keywords = [ast.keyword('metaclass', s.value)]
        n.decorator_list = n.decorator_list + [_call('_sx_class', ast.Constant(explicit_hash))]
        if not n.bases:
            n.bases = [_n('object')]
        self.stack.pop()
        return n

    def _loop(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(_call('_sx_tick')))
        return n

    visit_While = _loop

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = _call('_sx_iter', n.iter)
        n.body.insert(0, ast.Expr(_call('_sx_tick')))
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = _call('_sx_iter', n.iter)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            return _call(CMP[type(n.ops[0])], n.left, n.comparators[0])
        items = [n.left]
        for op, c in zip(n.ops, n.comparators):
            items.append(ast.Tuple([
                _n(CMP[type(op)]),
                ast.Lambda(ast.arguments([], [], None, [], [], None, []), c)], ast.Load()))
        return _call('_sx_chain', *items)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return _call('_sx_mod', n.left, n.right)
        if isinstance(n.op, ast.Div):
            return _call('_sx_div', n.left, n.right)
        if isinstance(n.op, ast.Add):
            return _call('_sx_add', n.left, n.right)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Mod, ast.Div)) and isinstance(n.target, ast.Name):
            f = '_sx_mod' if isinstance(n.op, ast.Mod) else '_sx_div'
            return ast.Assign([n.target], _call(f, ast.Name(n.target.id, ast.Load()), n.value))
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return _call('_sx_not', n.operand)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return _call('_sx_dict', ast.List([
            ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load()))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return _call('_sx_dict', ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()),
                                              n.generators))

    def visit_Set(self, n):
        self.generic_visit(n)
        return _call('_sx_set', ast.List(n.elts, ast.Load()))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return _call('_sx_set', ast.ListComp(n.elt, n.generators))

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and n.attr in ATTRS:
            return _call('_sx_attr', n.value, ast.Constant(n.attr))
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            return _call('_sx_getitem', n.value, n.slice)
        return n

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id in NOCALL:
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        return ast.Call(_n('_sx_call'), [n.func] + n.args, n.keywords)


class CatchGuard(ast.NodeTransformer):
    """For code parsed by the host (formula files): bring handlers to the same shape."""

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = _n('_sx_AnyException')
        return n


def _fix(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.stmt, ast.expr, ast.excepthandler)):
            if not hasattr(n, 'lineno'):
                pass
    ast.fix_missing_locations(tree)
    return tree


def instrument(tree, modname, filename):
    ins = Instr(modname)
    tree = _fix(ins.visit(tree))
    return compile(tree, filename, 'exec'), ins.functions


def from_json(js, modname, filename):
    return instrument(Conv().c(js), modname, filename)


def from_source(src, modname, filename):
    return instrument(CatchGuard().visit(ast.parse(src, filename)), modname, filename)


def literal(n):
    """A literal expression of the JSON tree."""
    if isinstance(n, (str, bool)) or n is None:
        return n
    if n['t'] == 'Str':
        s = n['s']
        return s['v'] if isinstance(s, dict) else s
    if n['t'] == 'Num':
        return _int(n['n'])
    if n['t'] in ('List', 'Tuple'):
        return [literal(x) for x in n['elts']]
    if n['t'] == 'Dict':
        return {literal(k): literal(v) for k, v in zip(n['keys'], n['values'])}
    raise ValueError(n['t'])
