"""Loads /repo/vspec_vsm/*.py for symbolic execution, mechanically, on every run.

The source text of every module is parsed and executed as it stands; the only rewriting is
 - `for`/`while` loops and comprehensions are routed through the loop rules of seqs.py,
 - list/dict displays and f-strings build the symbolic containers,
 - generator functions collect their values eagerly,
 - numpy/astropy/jax/tinygp/warnings/math imports resolve to the symbolic stand-ins,
 - builtins (isinstance, len, range, zip, sum, ...) accept symbolic values.
Annotations and docstrings are kept (they have no effect)."""
import ast
import builtins
import contextlib
import math
import os
import sys
import types
from fractions import Fraction as F
from terms import *
import terms as T
from values import *
import values as V
import shim_units as U
import shim_np as NP
import seqs as S
from seqs import VList, VDict, SymSeq, GIter, Gen, LoopRunner
from shim_units import Quantity, Unit, Label, NumText, UnitText

REPO = os.environ.get('VC_REPO', '/repo')
MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'setdefault', 'pop', 'remove', 'clear', 'sort', 'reverse'}


class OpaqueStr(str):
    pass


# ------------------------------------------------------------------ AST pass
def _assigned(nodes):
    """names bound / mutated in a statement list (not inside nested functions)"""
    st, mut = [], []

    class Vis(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            st.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                st.append(n.id)

        def visit_Subscript(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                mut.append(n.value.id)
            self.generic_visit(n)

        def visit_Call(self, n):
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in MUTATORS:
                mut.append(n.func.value.id)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            t = n.target
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, ast.Name):
                mut.append(t.id)
            self.generic_visit(n)
    v = Vis()
    for n in nodes:
        v.visit(n)
    return list(dict.fromkeys(st)), list(dict.fromkeys(mut))


def _exposed(body):
    """names that an execution of the statements may read before it has assigned them"""
    out = set()

    def reads(n, defd):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)) and x.id not in defd:
                out.add(x.id)

    def block(stmts, defd):
        """-> names definitely assigned when the block ends normally (None: it never does)"""
        for s in stmts:
            if defd is None:
                return None
            defd = stmt(s, defd)
        return defd

    def meet(*ds):
        ds = [d for d in ds if d is not None]
        return set.intersection(*ds) if ds else None

    def names(t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def stmt(s, d):
        if isinstance(s, ast.Assign):
            reads(s.value, d)
            for t in s.targets:
                reads(t, d)
            return d | {n for t in s.targets for n in (names(t) if isinstance(t, (ast.Name, ast.Tuple, ast.List)) else ())}
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return d
            reads(s.value, d)
            reads(s.target, d)
            return d | names(s.target)
        if isinstance(s, ast.AugAssign):
            reads(s.value, d)
            if isinstance(s.target, ast.Name):
                if s.target.id not in d:
                    out.add(s.target.id)
            else:
                reads(s.target, d)
            return d
        if isinstance(s, ast.If):
            reads(s.test, d)
            return meet(block(s.body, set(d)), block(s.orelse, set(d)))
        if isinstance(s, ast.For):
            reads(s.iter, d)
            block(s.body, d | names(s.target))
            block(s.orelse, set(d))
            return d
        if isinstance(s, ast.While):
            reads(s.test, d)
            block(s.body, set(d))
            block(s.orelse, set(d))
            return d
        if isinstance(s, ast.With):
            for i in s.items:
                reads(i, d)
            block(s.body, set(d))
            return d
        if isinstance(s, ast.Try):
            block(s.body, set(d))
            for h in s.handlers:
                block(h.body, set(d))
            block(s.orelse, set(d))
            block(s.finalbody, set(d))
            return d
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            reads(s, d)
            return None
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            reads(s, d)
            return d | {s.name}
        reads(s, d)
        return d
    block(body, set())
    return out


def _p(src):
    return ast.parse(src).body


class Rewrite(ast.NodeTransformer):
    def __init__(self, fname):
        self.n = 0
        self.fname = fname
        self.fn = ['<module>']
        self.loops = []
        self.infn = 0
        self.gens = []

    def uid(self):
        self.n += 1
        return self.n

    # functions
    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.infn += 1
        saved, self.loops = self.loops, []
        isgen = _is_gen(node)
        self.gens.append(isgen)
        node.args = self.visit(node.args)
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r] if r is not None else []
        if isgen:
            body = _p('__gen = __vc__.VList()') + body + _p('return __vc__.giter(__gen)')
        node.body = body
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.returns = None
        self.gens.pop()
        self.loops = saved
        self.infn -= 1
        self.fn.pop()
        return node

    def visit_arguments(self, a):
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            x.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    def visit_AnnAssign(self, n):
        if n.value is None:
            if self.infn:
                return []
            return n
        if self.infn:
            n = ast.copy_location(ast.Assign([n.target], n.value), n)
            return self.visit(n)
        n.value = self.visit(n.value)
        return n

    def visit_Expr(self, n):
        if self.gens and self.gens[-1] and isinstance(n.value, ast.Yield):
            v = self.visit(n.value.value) if n.value.value else ast.Constant(None)
            r = _p('__gen.append(0)')[0]
            r.value.args = [v]
            return r
        if self.gens and self.gens[-1] and isinstance(n.value, ast.YieldFrom):
            r = _p('__gen.extend(0)')[0]
            r.value.args = [self.visit(n.value.value)]
            return r
        return self.generic_visit(n)

    def visit_Yield(self, n):
        return _call('__vc__.unsupported', [ast.Constant('yield expression')])

    visit_YieldFrom = visit_Await = visit_Yield

    def visit_Return(self, n):
        n = self.generic_visit(n)
        if self.gens and self.gens[-1]:
            return _p('return __vc__.giter(__gen)')
        out = [_p(f'__lp{k}.brk()')[0] for k in self.loops if k is not None]
        return out + [n]

    def visit_Break(self, n):
        if self.loops and self.loops[-1] is not None:
            return [_p(f'__lp{self.loops[-1]}.brk()')[0], n]
        return n

    def visit_ExceptHandler(self, n):
        n = self.generic_visit(n)
        if n.type is None:
            n.type = ast.Name('Exception', ast.Load())
        elif isinstance(n.type, ast.Name) and n.type.id == 'BaseException':
            n.type.id = 'Exception'
        return n

    # loops
    def visit_For(self, node):
        k = self.uid()
        where = f'{self.fname}:{".".join(self.fn[1:])}:{node.lineno}'
        it = self.visit(node.iter)
        self.loops.append(k)
        names, mut = _assigned(node.body)
        tnames, _ = _assigned([ast.Assign([node.target], ast.Constant(0))])
        allm = list(dict.fromkeys(names + mut))
        exposed = _exposed([ast.Assign([node.target], ast.Constant(0))] + node.body)
        step, fin = [], []
        for nm in allm:
            if nm in ('self', 'cls', 'np', 'u'):
                continue
            step += _p(f"try:\n    {nm} = __lp{k}.step('{nm}', {nm}, {nm in mut}, {nm in exposed})\nexcept NameError:\n    pass")
        for nm in list(dict.fromkeys(allm + tnames)):
            if nm in ('self', 'cls', 'np', 'u'):
                continue
            fin += _p(f"try:\n    {nm} = __lp{k}.fin('{nm}', {nm}, {nm in mut})\nexcept NameError:\n    pass")
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r] if r is not None else []
        self.loops.pop()
        a0 = ast.Assign([ast.Name(f'__lp{k}', ast.Store())], _call('__vc__.LoopRunner', [it, ast.Constant(where)]))
        pre = ast.If(ast.parse(f'__lp{k}.g', mode='eval').body, step + _p(f'__lp{k}.stepdone()'), [])
        asg = ast.Assign([node.target], ast.Name(f'__e{k}', ast.Load()))
        orelse = []
        for s in node.orelse:
            r = self.visit(s)
            orelse += r if isinstance(r, list) else [r] if r is not None else []
        loop = ast.For(ast.Name(f'__e{k}', ast.Store()), ast.Name(f'__lp{k}', ast.Load()), [pre, asg] + body, orelse)
        post = ast.If(ast.parse(f'__lp{k}.g', mode='eval').body, fin or [ast.Pass()], [])
        return [a0, loop, post]

    def visit_While(self, node):
        if isinstance(node.test, ast.Constant) and node.test.value is True and not node.orelse:
            jumps = [x for s in node.body for x in ast.walk(s) if isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield))]
            at = [i for i, s in enumerate(node.body) if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Break)]
            if len(jumps) == 1 and len(at) == 1:
                # while True: pre; if c: break; post   is   pre; while not c: post; pre
                i = at[0]
                pre, cond, post = node.body[:i], node.body[i].test, node.body[i + 1:]
                src = lambda ss: [x for s in ss for x in ast.parse(ast.unparse(s)).body]
                w = ast.While(ast.UnaryOp(ast.Not(), cond), src(post) + src(pre) or [ast.Pass()], [])
                for x in ast.walk(w):
                    if 'lineno' in x._attributes:
                        x.lineno = x.end_lineno = node.lineno
                        x.col_offset = x.end_col_offset = 0
                out = []
                for s in pre + [w]:
                    r = self.visit(s)
                    out += r if isinstance(r, list) else [r] if r is not None else []
                return out
        k = self.uid()
        where = f'{self.fname}:{".".join(self.fn[1:])}:{node.lineno}'
        names, mut = _assigned(node.body)
        test0 = ast.parse(ast.unparse(node.test), mode='eval').body
        allm = [n for n in dict.fromkeys(names + mut) if n not in ('self', 'cls', 'np', 'u')]
        t0 = self.visit(test0)
        t1 = self.visit(node.test)
        self.loops.append(None)
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r] if r is not None else []
        self.loops.pop()
        if any(isinstance(x, (ast.Break, ast.Return)) for s in node.body for x in ast.walk(s)):
            guard = _p(f'__wl{k}.nobreak()')
        else:
            guard = []
        a0 = ast.Assign([ast.Name(f'__wl{k}', ast.Store())], _call('__vc__.While', [ast.Constant(where), ast.Lambda(
            ast.arguments([], [], None, [], [], None, []), t0)]))
        step = []
        for nm in allm:
            step += _p(f"try:\n    {nm} = __wl{k}.step('{nm}', {nm})\nexcept NameError:\n    pass")
        pre = [a0] + guard + [ast.If(ast.parse(f'__wl{k}.sym', mode='eval').body, step + _p(f'__wl{k}.stepdone()'), [])]
        end = _p(f'if __wl{k}.sym:\n    __wl{k}.endbody()')
        for nm in allm:
            end[0].body[0:0] = _p(f"try:\n    __wl{k}.see('{nm}', {nm})\nexcept NameError:\n    pass")
        tick = _p(f'__wl{k}.tick()')
        loop = ast.While(_call(f'__wl{k}.test', [t1]), tick + body + end, [])
        if any(isinstance(x, ast.Continue) for s in node.body for x in ast.walk(s)):
            pre += _p(f'__wl{k}.nobreak()')
        if node.orelse:
            pre += _p(f'__wl{k}.nobreak()')
        return pre + [loop]

    # comprehensions
    def _comp(self, kind, node, elt):
        g = node.generators
        if len(g) == 1 and not g[0].is_async:
            t = g[0].target
            it = self.visit(g[0].iter)
            conds = [self.visit(c) for c in g[0].ifs]
            cond = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds) if conds else ast.Constant(True)
            if isinstance(t, ast.Name):
                args, star = [t.id], 0
            elif isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts):
                args, star = [x.id for x in t.elts], 1
            else:
                return _call('__vc__.unsupported', [ast.Constant('nested comprehension target')])

            def lam(b):
                return ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), b)
            return _call('__vc__.comp', [ast.Constant(kind), it, lam(self.visit(elt)), lam(cond), ast.Constant(star)])
        node = self.generic_visit(node)
        for gg in node.generators:
            gg.iter = _call('__vc__.native', [gg.iter])
        w = {'list': '__vc__.VList', 'dict': '__vc__.mkdict2', 'gen': '__vc__.GIterOf', 'set': '__vc__.mkset'}[kind]
        return _call(w, [node])

    def visit_ListComp(self, n):
        return self._comp('list', n, n.elt)

    def visit_GeneratorExp(self, n):
        return self._comp('gen', n, n.elt)

    def visit_SetComp(self, n):
        return self._comp('set', n, n.elt)

    def visit_DictComp(self, n):
        return self._comp('dict', n, ast.Tuple([n.key, n.value], ast.Load()))

    # displays and strings
    def visit_List(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            if any(isinstance(x, ast.Starred) for x in n.elts):
                return self._star('list', n)
            return _call('__vc__.mklist', [n])
        return n

    def visit_Tuple(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(x, ast.Starred) for x in n.elts):
            return self._star('tuple', n)
        return n

    def _star(self, kind, n):
        return _call('__vc__.stard', [ast.Constant(kind)] + [ast.Tuple([ast.Constant(int(isinstance(x, ast.Starred))), x.value if isinstance(x, ast.Starred) else x], ast.Load())
                                                             for x in n.elts])

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        items = [ast.Tuple([k if k is not None else ast.Name('__vc_spread__', ast.Load()), v], ast.Load())
                 for k, v in zip(n.keys, n.values)]
        return _call('__vc__.mkdict', [ast.List(items, ast.Load())])

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(ast.Tuple([ast.Constant('s'), v, ast.Constant(''), ast.Constant(-1)], ast.Load()))
            else:
                spec = ast.Constant('') if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple([ast.Constant('v'), self.visit(v.value), spec, ast.Constant(v.conversion)], ast.Load()))
        return _call('__vc__.fstr', [ast.List(parts, ast.Load())])

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = _call('__vc__.contains', [n.left, n.comparators[0]])
            return ast.UnaryOp(ast.Not(), r) if isinstance(n.ops[0], ast.NotIn) else r
        return n


def _call(fn, args):
    return ast.Call(ast.parse(fn, mode='eval').body, args, [])


def _is_gen(fn):
    for s in fn.body:
        for x in _walk_local(s):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def _walk_local(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for c in ast.iter_child_nodes(n):
        yield from _walk_local(c)


# ---------------------------------------------------------------- run time
class While:
    """while loops: concrete conditions run natively (few iterations); a symbolic condition is
    handled by the invariant rule (arbitrary state satisfying the invariant, one body, re-check)."""

    def __init__(self, where, cond):
        self.where = where
        self.ticks = 0
        self.init, self.hav, self.seen = {}, {}, {}
        self.noted_break = False
        c = V.ctx()
        n0 = c.ndecide
        try:
            v = cond()
        except NameError:
            raise Unsupported('while condition')
        self.sym = isinstance(v, SymBool) and not c.entails(v.f) and not c.entails(mk_not(v.f))
        if isinstance(v, SymBool) and not self.sym and c.entails(v.f) or v is True and c.ndecide > n0:
            self.sym = True
        self.spec = None

    def nobreak(self):
        if self.sym:
            raise Unsupported('break/return/continue in a symbolic while loop')

    def step(self, name, val):
        self.init[name] = val
        c = V.ctx()
        c.havocs += 1
        for sp in c.while_specs:
            r = sp.havoc(self, name, val)
            if r is not None:
                self.spec = sp
                self.hav[name] = r
                return r
        if isinstance(val, bool) or val is None or isinstance(val, str):
            r = val
        elif isnum(val) or isinstance(val, Sym):
            r = Sym(c.fresh(f'w_{name}'), isinstance(val, int) or getattr(val, 'isint', False))
        elif isinstance(val, Quantity):
            r = Quantity(self._hv(name, val.value), val.unit)
        elif isinstance(val, Array):
            r = self._hv(name, val)
        else:
            raise Unsupported(f'while loop carries a {type(val).__name__}')
        self.hav[name] = r
        return r

    def _hv(self, name, v):
        nm = V.ctx().fresh_name(f'w_{name}')
        if isinstance(v, Array):
            if v.kind == 'b':
                return Array(v.dims, lambda ix: BAtom(nm, ix), 'b')
            return Array(v.dims, lambda ix: var(nm, *ix))
        return Sym(var(nm))

    def stepdone(self):
        c = V.ctx()
        self.w0 = len(c.setattrs)
        if self.spec is not None:
            for nm, f in self.spec.init(self):
                c.oblige(nm + ' (loop entry)', f, 'inv')
            for nm, f in self.spec.inv(self, self.hav):
                c.assume(f)

    def test(self, v):
        if self.sym:
            r = bool(v)      # forks: body path / exit path
            self.inbody = r
            if not r:
                V.ctx().by_rule = True
            else:
                self.old_writes = V.ctx().writes
                V.ctx().writes = self.writes = []
                self.serial0 = V.Array.SERIAL
            return r
        if isinstance(v, SymBool) and not V.ctx().entails(v.f) and not V.ctx().entails(mk_not(v.f)):
            raise Unsupported('while condition became symbolic')
        return bool(v)

    def tick(self):
        self.ticks += 1
        if self.ticks > 8:
            raise Unsupported('while loop does not terminate within 8 iterations')

    def see(self, name, val):
        self.seen[name] = val

    def endbody(self):
        c = V.ctx()
        if self.inbody and getattr(self, 'writes', None) is not None:
            c.writes = self.old_writes
            hav = {id(x) for v in self.hav.values() for x in (v, getattr(v, 'value', None)) if isinstance(x, (Array, Quantity))}
            if any(w[1].serial <= self.serial0 and id(w[1]) not in hav for w in self.writes):
                raise Unsupported('array modified in place by a while loop through another name')
        if self.spec is not None:
            for nm, f in self.spec.inv(self, self.seen):
                c.oblige(nm + ' (preserved)', f, 'inv')
        else:
            own = {id(o) for (o, _n, _h, _old, _new, fresh) in c.setattrs[self.w0:] if fresh}
            for (o, n, had, old, new, _f) in c.setattrs[self.w0:]:
                if id(o) not in own and not (had and S.same_value(old, new)):
                    raise Unsupported(f'while loop writes attribute {n}')
            for n, h in self.hav.items():
                s = self.seen.get(n)
                if (isinstance(h, (bool, str)) or h is None) and s is not h:
                    raise Unsupported(f'while loop changes {n}')
                if type(s) is not type(h) and not (isinstance(s, (Sym, int, float)) and isinstance(h, (Sym, int, float))):
                    raise Unsupported('while loop changes the type of a variable')
                if isinstance(h, Quantity) and not h.unit.same_dims(s.unit):
                    raise Unsupported('while loop changes a unit')
        raise PathEnd()


def giter(l):
    return GIter(l.segs, 'gen')


def comp(kind, it, elt, cond, star):
    def call(f, e):
        if star:
            if isinstance(e, V.GenIndex):
                e = tuple(e)
            return f(*e)
        return f(e)
    out = VList()
    lp = LoopRunner(it, 'comp')
    incl = True
    for e in lp:
        if lp.g:
            lp.stepdone()
        c = call(cond, e)
        if isinstance(c, Array):
            bool(c)
        if c:
            out.append(call(elt, e))
    if lp.g:
        lp.fin('comp', out, True)
    if kind == 'list':
        return out
    if kind == 'gen':
        return GIter(out.segs, 'gen')
    if kind == 'dict':
        return mkdict2(out)
    return mkset(out)


def native(x):
    if S.is_generic_src(x):
        raise Unsupported('nested comprehension over a symbolic sequence')
    return x


def GIterOf(g):
    return GIter([('one', v) for v in g], 'gen')


def mklist(x):
    return VList(x)


def stard(kind, *items):
    """a display with starred elements"""
    segs = []
    for star, v in items:
        segs += list(S.gen_iter(v).segs) if star else [('one', v)]
    sq = SymSeq(segs, kind)
    if kind == 'list':
        return VList(segs=segs)
    return sq if sq.has_gen() else tuple(v for _, v in segs)


def mkset(x):
    raise Unsupported('set')


class _Spread:
    pass


SPREAD = _Spread()


def mkdict(items):
    d = VDict()
    for k, v in items:
        if k is SPREAD:
            d.update(v)
        else:
            d[k] = v
    return d


def mkdict2(pairs):
    if isinstance(pairs, dict):
        return mkdict(list(pairs.items()))
    if isinstance(pairs, SymSeq) and pairs.has_gen():
        if len(pairs.segs) == 1:
            g = pairs.segs[0]
            d = VDict()
            if not g.inc or g.filtered:
                raise Unsupported('dict of a filtered sequence')
            k, v = g.rep
            gm = S.GenMap(g, k, v, False)
            # last value wins; a table if keys are distinct (keys of another table)
            gm.table = getattr(g, 'distinct', False)
            d.gens.append(gm)
            return d
        raise Unsupported('dict of a mixed sequence')
    d = VDict()
    for k, v in pairs:
        d[k] = v
    return d


def fstr(parts):
    vals = [p for p in parts if p[0] == 'v']
    lab = [p for p in vals if isinstance(p[1], (Quantity, Sym, Label, Unit, SymBool, Array, SymSeq, VDict, V.Masked))]
    if not lab:
        out = ''
        for kind, v, spec, conv in parts:
            if kind == 's':
                out += v
            else:
                v = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[conv](v)
                out += format(v, spec)
        return out
    if len(parts) == 1 and parts[0][3] == -1:
        v, spec = parts[0][1], parts[0][2]
        if isinstance(v, Label) and spec == '':
            return v
        r = _label(v, spec)
        if r is not None:
            return r
    if len(parts) == 3 and parts[1][0] == 's' and parts[1][1] == ' ' and parts[0][0] == 'v' and isinstance(parts[2][1], Unit):
        r = _label(parts[0][1], parts[0][2])
        if r is not None and r.unit is None:
            return Label(r.value, parts[2][1], r.spec)
    return OpaqueStr('<text>')


def _label(v, spec):
    import re
    m = re.fullmatch(r'\.(\d+)f', spec)
    if not m:
        return None
    k = int(m.group(1))
    if isinstance(v, Quantity) and isinstance(v.value, (Sym, int, float)):
        return Label(NP.round(v.value, k), v.unit, spec)
    if isinstance(v, Sym):
        return Label(NP.round(v, k), None, spec)
    return None


def contains(a, b):
    if isinstance(b, VDict):
        return b.__contains__(a)
    if isinstance(b, SymSeq) and not b.has_gen():
        for _, v in b.segs:
            if v is a:
                return True
            r = v == a
            if r is NotImplemented:
                continue
            if bool(r):
                return True
        return False
    return a in b


def unsupported(why):
    raise Unsupported(why)


# ----------------------------------------------------------- builtins
def b_isinstance(x, t):
    if isinstance(t, tuple):
        for tt in t:
            if b_isinstance(x, tt):
                return True
        return False
    if isinstance(t, types.UnionType):
        return b_isinstance(x, t.__args__)
    if t is b_int or t is int:
        return (isinstance(x, int)) or (isinstance(x, Sym) and x.isint)
    if t is b_float or t is float:
        return isinstance(x, float) or (isinstance(x, Sym) and not x.isint)
    if t is b_bool or t is bool:
        return isinstance(x, (bool, SymBool))
    if t is b_tuple or t is tuple:
        return isinstance(x, tuple) or (isinstance(x, SymSeq) and x.kind == 'tuple')
    if t is b_list or t is list:
        return isinstance(x, (list, VList))
    if t is b_dict or t is dict:
        return isinstance(x, (dict, VDict))
    if t is b_str or t is str:
        return isinstance(x, (str, Label))
    if t is NP.ndarray:
        return isinstance(x, (Array, V.Masked)) or isinstance(x, Quantity)
    if t in (U.Unit, U.UnitFactory):
        return isinstance(x, Unit)
    import collections.abc as cabc
    import numbers
    if t in (cabc.Iterable, cabc.Sequence, cabc.Collection):
        return isinstance(x, (list, tuple, SymSeq)) or (t is not cabc.Sequence and isinstance(x, (Array, VDict)))
    if t in (numbers.Number, numbers.Real):
        return isinstance(x, (int, float, Sym))
    if t is numbers.Integral:
        return b_isinstance(x, int)
    return isinstance(x, t)


def b_len(x):
    if isinstance(x, SymSeq):
        return x.length()
    if isinstance(x, Array):
        if not x.dims:
            raise TypeError('len() of unsized object')
        return V.dim_val(x.dims[0])
    if isinstance(x, Quantity):
        return b_len(x.value)
    return len(x)


class _TypeShim(type):
    def __instancecheck__(cls, x):
        return b_isinstance(x, cls)


def b_int(x=0, *a):
    if isinstance(x, NumText):
        x = x.v
    if isinstance(x, Quantity):
        x = x.to_value(U.dimensionless_unscaled)
    if isinstance(x, SymBool):
        return x._s()
    if isinstance(x, Sym):
        return V.mksym(tmap(l_trunc, x.t), True)
    return int(x, *a)


def b_float(x=0.0):
    if isinstance(x, NumText):
        return x.v
    if isinstance(x, Label):
        if x.unit is None:
            return x.value
        raise ValueError('could not convert string to float')
    if isinstance(x, Quantity):
        return x.to_value(U.dimensionless_unscaled)
    if isinstance(x, SymBool):
        return x._s()
    if isinstance(x, Sym):
        return Sym(x.t, False)
    if isinstance(x, int) and not isinstance(x, bool):
        return float(x)
    return float(x)


def b_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def b_str(x=''):
    if isinstance(x, (Label, str)):
        return x
    if isinstance(x, (Quantity, Sym, Array, SymSeq, VDict)):
        return OpaqueStr('<text>')
    return str(x)


def b_round(x, k=None):
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return round(x) if k is None else round(x, k)
    if isinstance(x, Array):
        return NP.round(x, k or 0)
    return x.__round__(k)


def b_tuple(x=()):
    if isinstance(x, tuple):
        return x
    if isinstance(x, V.GenIndex):
        t = V.GenTuple(x)
        t.gi = x
        return t
    if isinstance(x, SymSeq) or S.is_generic_src(x):
        sq = S.gen_iter(x)
        if sq.has_gen():
            return SymSeq(sq.segs, 'tuple')
        return tuple(v for _, v in sq.segs)
    if isinstance(x, VDict):
        return tuple(x.keys())
    return tuple(x)


def b_list(x=()):
    if isinstance(x, (SymSeq,)) or S.is_generic_src(x):
        return VList(segs=list(S.gen_iter(x).segs))
    if isinstance(x, VDict):
        return b_list(x.keys())
    return VList(list(x))


def b_dict(*a, **kw):
    d = VDict()
    for x in a:
        if isinstance(x, VDict):
            d = x.copy()
        else:
            d2 = mkdict2(x)
            d = d2
    for k, v in kw.items():
        d[k] = v
    return d


def b_sum(it, start=0):
    if isinstance(it, (Array, Quantity)) and (it.shape and len(it.shape) == 1):
        return NP.sum(it) if not isinstance(start, Quantity) else NP.sum(it) + start
    lp = LoopRunner(it, 'sum')
    acc = start
    for e in lp:
        if lp.g:
            acc = lp.step('acc', acc, False)
            lp.stepdone()
        acc = acc + e
    if lp.g:
        acc = lp.fin('acc', acc, False)
    return acc


def _mm(which):
    f2 = NP.minimum if which == 'min' else NP.maximum

    def f(*a, key=None, default=None):
        if key is not None:
            raise Unsupported(f'{which} with key')
        xs = a
        if len(a) == 1:
            if isinstance(a[0], (Array, Quantity)):
                return NP.min(a[0]) if which == 'min' else NP.max(a[0])
            if S.is_generic_src(a[0]):
                raise Unsupported(f'{which} of a symbolic sequence')
            xs = list(S.gen_iter(a[0])) if isinstance(a[0], (SymSeq, VDict)) else list(a[0])
        if all(isinstance(x, (int, float)) for x in xs):
            return (min if which == 'min' else max)(*xs) if len(xs) > 1 else xs[0]
        r = xs[0]
        for y in xs[1:]:
            ints = all(isinstance(v, int) or isinstance(v, Sym) and v.isint for v in (r, y))
            r = f2(r, y)
            if ints and isinstance(r, Sym):
                r = Sym(r.t, True)
        return r
    return f


b_min, b_max = _mm('min'), _mm('max')


def b_any(it):
    if isinstance(it, Array):
        return NP.any(it)
    if S.is_generic_src(it):
        raise Unsupported('any() of a symbolic sequence')
    for x in it:
        if x:
            return True
    return False


def b_all(it):
    if isinstance(it, Array):
        return NP.all(it)
    if S.is_generic_src(it):
        raise Unsupported('all() of a symbolic sequence')
    for x in it:
        if not x:
            return False
    return True


def b_sorted(it, **kw):
    if S.is_generic_src(it) or kw:
        raise Unsupported('sorted')
    xs = list(it)
    if all(isinstance(x, (int, float, str)) for x in xs):
        return VList(sorted(xs))
    raise Unsupported('sorted of symbolic values')


def b_map(f, *its):
    it = its[0] if len(its) == 1 else S.vc_zip(*its)
    return comp('gen', it, f if len(its) == 1 else (lambda *a: f(*a)), lambda *a: True, 0 if len(its) == 1 else 1)


def b_filter(f, it):
    return comp('gen', it, lambda e: e, (lambda e: f(e)) if f is not None else (lambda e: e), 0)


def b_reversed(it):
    if S.is_generic_src(it):
        raise Unsupported('reversed')
    return reversed(list(it))


def b_iter(it):
    if S.is_generic_src(it):
        raise Unsupported('iter')
    return iter(it)


def b_abs(x):
    return NP.abs(x)


class VCMod:
    pass


vc = VCMod()
for _n, _v in dict(LoopRunner=LoopRunner, While=While, VList=VList, VDict=VDict, comp=comp, native=native, giter=giter,
                   GIterOf=GIterOf, mklist=mklist, stard=stard, mkset=mkset, mkdict=mkdict, mkdict2=mkdict2, fstr=fstr,
                   contains=contains, unsupported=unsupported).items():
    setattr(vc, _n, _v)


# ---------------------------------------------------------------- import shims
class Shim:
    def __init__(self, name, **kw):
        self.__dict__.update(kw)
        self.__dict__['_shim'] = name

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'{self._shim}.{n}')


def make_units():
    m = types.ModuleType('astropy.units')
    m.__dict__.update({k: v for k, v in U.__dict__.items() if not k.startswith('__')})
    m.Unit = U.UnitFactory
    m.IrreducibleUnit = m.UnitBase = m.CompositeUnit = U.Unit
    return m


class WarnShim(Shim):
    pass


def mk_warnings():
    def warn(*a, **k):
        V.ctx().events.append(('warn', a))
    cw = lambda *a, **k: contextlib.nullcontext([])
    return Shim('warnings', warn=warn, catch_warnings=cw, simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None,
                warn_explicit=warn)


class PyRandom(Shim):
    """the random module of python: global random state"""

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)

        def f(*a, **k):
            c = V.ctx()
            if c.unit is not None:
                c.nondet.append(f'global random.{n}')
            g = NP.Generator('global')
            if n == 'seed':
                return None
            if n in ('gauss', 'normalvariate'):
                return g.normal(*a)
            if n == 'expovariate':
                return g.exponential(1 / a[0])
            if n in ('random', 'uniform', 'choice'):
                return getattr(g, n)(*a)
            raise Unsupported(f'random.{n}')
        return f


class Clock(Shim):
    """time module: every reading is another unknown number"""
    _n = [0]

    def __getattr__(self, n):
        if n in ('time', 'perf_counter', 'monotonic', 'process_time', 'time_ns', 'perf_counter_ns', 'monotonic_ns'):
            def f():
                Clock._n[0] += 1
                return Sym(var(f'clock!{Clock._n[0]}', sign='nneg', isint=n.endswith('ns')), n.endswith('ns'))
            return f
        return Shim.__getattr__(self, n)


class JKernel:
    def __init__(self, *a, **k):
        pass


class JGP:
    """tinygp.GaussianProcess by contract: a draw has one value per abscissa, each a number or NaN"""

    def __init__(self, kernel, X, diag=None, mean=None, **kw):
        self.kernel, self.X, self.diag, self.mean, self.kw = kernel, X, diag, mean, kw
        V.ctx().events.append(('gp', self))

    def sample(self, key, shape=None, **kw):
        c = V.ctx()
        c.events.append(('gp.sample', self, key))
        nm = c.fresh_name('gp')
        if shape is not None:
            raise Unsupported('gp sample shape')
        c.notes.append('assumed contract: tinygp.GaussianProcess.sample (one float per abscissa, any value or NaN, determined by kernel, mean, abscissa and key)')
        x = self.X
        if not isinstance(x, Array):
            raise Unsupported('gp abscissa')
        return Array(x.dims, lambda ix: mk_ite(BAtom(nm + ':nan', ix), NAN, var(nm, *ix)), meta={'gp': self})


class JKey:
    def __init__(self, seed):
        self.seed = seed


def PRNGKey(seed):
    k = JKey(seed)
    V.ctx().events.append(('prngkey', seed))
    return k


def math_shim():
    d = {k: getattr(NP, k) for k in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'log10', 'log2', 'floor', 'ceil', 'hypot', 'fabs',
                                     'isnan', 'isfinite', 'isinf', 'radians', 'degrees', 'inf', 'nan', 'pi', 'e', 'trunc', 'log1p', 'expm1', 'acos', 'asin')}
    d['pow'] = lambda a, b: a ** b
    return Shim('math', **d)


class Program:
    """the modules under verification"""
    MODS = ['config', 'helpers', 'coordinate_grid', 'xoflares', 'granules', 'flares', 'faculae', 'spots', 'star']

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.dir = os.path.join(self.repo, 'vspec_vsm')
        self.mods = {}
        self.src = {}
        self.failed = {}
        self.np = NP
        self.u = make_units()
        self.const = Shim('astropy.constants', sigma_sb=Quantity(Sym(rat(F('5.6703744191844314e-8'))), U.W / U.m ** 2 / U.K ** 4))
        quant = Shim('astropy.units.quantity', Quantity=Quantity)
        self.u.quantity = quant
        self.u.core = Shim('astropy.units.core', UnitConversionError=U.UnitConversionError, UnitsError=U.UnitsError)
        astropy = Shim('astropy', units=self.u, constants=self.const)
        jnp = NP
        jax = Shim('jax', numpy=jnp, random=Shim('jax.random', PRNGKey=PRNGKey, key=PRNGKey))
        kern = Shim('tinygp.kernels', Kernel=JKernel)
        tinygp = Shim('tinygp', kernels=kern, GaussianProcess=JGP)
        self.shims = {'numpy': NP, 'astropy': astropy, 'jax': jax, 'tinygp': tinygp, 'warnings': mk_warnings(), 'math': math_shim()}
        self.sub = {'astropy.units': self.u, 'astropy.constants': self.const, 'astropy.units.quantity': quant, 'jax.numpy': jnp,
                    'tinygp.kernels': kern, 'jax.random': jax.random, 'numpy.random': NP.random}
        self.pkg = types.ModuleType('vspec_vsm')
        self.pkg.__path__ = [self.dir]
        set_ctx(Ctx())
        for m in self.MODS:
            if os.path.exists(os.path.join(self.dir, m + '.py')):
                self.load(m)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.dir, name + '.py')
        if not os.path.exists(path):
            alt = os.path.join(self.dir, name, '__init__.py')
            if os.path.exists(alt):
                path = alt
            else:
                raise ImportError(name)
        src = open(path).read()
        self.src[name] = src
        tree = ast.parse(src)
        tree = Rewrite(name).visit(tree)
        ast.fix_missing_locations(tree)
        mod = types.ModuleType('vspec_vsm.' + name)
        self.mods[name] = mod
        setattr(self.pkg, name, mod)
        setattr(self, name, mod)
        b = dict(builtins.__dict__)
        b.update(__import__=self.imp, isinstance=b_isinstance, len=b_len, range=S.vc_range, zip=S.vc_zip, enumerate=S.vc_enumerate,
                 int=b_int, float=b_float, round=b_round, tuple=b_tuple, list=b_list, dict=b_dict, sum=b_sum, min=b_min, max=b_max,
                 any=b_any, all=b_all, sorted=b_sorted, map=b_map, filter=b_filter, reversed=b_reversed, iter=b_iter, str=b_str,
                 bool=b_bool, abs=b_abs, print=lambda *a, **k: None)
        g = mod.__dict__
        g['__builtins__'] = b
        g['__vc__'] = vc
        g['__vc_spread__'] = SPREAD
        g['__package__'] = 'vspec_vsm'
        code = compile(tree, path, 'exec')
        exec(code, g)
        for v in list(g.values()):
            if isinstance(v, type) and v.__module__ == 'vspec_vsm.' + name:
                hook(v)
        return mod

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            if level > 1:
                raise Unsupported('relative import')
            if not name:
                for f in fromlist or ():
                    self.load(f)
                return self.pkg
            return self.load(name)
        if name == 'vspec_vsm' or name.startswith('vspec_vsm.'):
            parts = name.split('.')
            if len(parts) == 1:
                for f in fromlist or ():
                    if not hasattr(self.pkg, f):
                        self.load(f)
                return self.pkg
            m = self.load(parts[1])
            return m if fromlist else self.pkg
        top = name.split('.')[0]
        if top in ('random', 'time'):
            return PyRandom('random') if top == 'random' else Clock('time')
        if top in self.shims:
            if fromlist and '.' in name:
                if name in self.sub:
                    return self.sub[name]
                raise Unsupported(f'import {name}')
            return self.shims[top]
        if top in ('typing', '__future__', 'dataclasses', 'functools', 'itertools', 'operator', 'copy', 'abc', 'enum', 'contextlib',
                   'types', 'numbers', 'collections', 're', 'os', 'sys', 'logging'):
            if top == 'collections':
                m = Shim('collections', defaultdict=lambda f=None, *a: _dd(f), OrderedDict=b_dict, namedtuple=__import__('collections').namedtuple,
                         abc=__import__('collections.abc', fromlist=['x']))
                return m if '.' not in name or not fromlist else __import__(name, fromlist=['x'])
            return __import__(name, globals, locals, fromlist, level)
        return Shim(name)


def _dd(f):
    d = VDict()
    d.default = {b_float: lambda: 0, b_int: lambda: 0, b_list: lambda: VList(), None: None}.get(f, f)
    return d


def hook(cls):
    if cls.__dict__.get('_vc_hooked'):
        return
    cls._vc_hooked = True
    orig = cls.__setattr__

    def sa(self, n, v):
        c = V.ctx()
        try:
            d = self.__dict__
            c.setattrs.append((self, n, n in d, d.get(n), v, not d))
        except AttributeError:
            pass
        orig(self, n, v)
    cls.__setattr__ = sa
