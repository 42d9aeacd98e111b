"""pyvc: symbolic execution of the real Python functions (AST parsed from the source files on each run).

eval() returns a list of (state, value); a value may be Ctl(outcome) for exceptions and generator control.
exec_*() return a list of (state, outcome); outcomes: NORM, ('ret', v), BRK, CONT, ('exc', ExcVal), ('gen', tok, outcome).
"""
import ast
import builtins
import os
import types
import z3
from .values import *

NORM = ('norm',)
BRK = ('brk',)
CONT = ('cont',)
MAX_UNROLL = 400


class Ctl:
    __slots__ = ('out',)

    def __init__(self, out):
        self.out = out


def raise_(cls, note=''):
    return Ctl(('exc', ExcVal(cls, (), note)))


class Frame:
    __slots__ = ('vars', 'fn', 'cb', 'tok', 'rets')

    def __init__(self, vars, fn, cb=None, tok=None):
        self.vars, self.fn, self.cb, self.tok = vars, fn, cb, tok

    def clone(self):
        f = Frame(dict(self.vars), self.fn, self.cb, self.tok)
        return f


class State:
    __slots__ = ('pc', 'heap', 'frames', 'views', 'hints', 'approx', 'short', 'poison')

    def __init__(self):
        self.pc = ()
        self.heap = {}
        self.frames = []
        self.views = {}
        self.hints = ()
        self.approx = False
        self.short = False           # the record has turned out to be cut short
        self.poison = False          # left a loop early: only a refusal may follow

    def clone(self):
        s = State()
        s.pc = self.pc
        s.heap = dict(self.heap)
        s.frames = [f.clone() for f in self.frames]
        s.views = dict(self.views)
        s.hints = self.hints
        s.approx = self.approx
        s.short = self.short
        s.poison = self.poison
        return s

    def assume(self, *conds):
        s = self.clone()
        for c in conds:
            if c is True:
                continue
            s.pc = s.pc + (c,)
        return s

    def add(self, *conds):
        for c in conds:
            if c is True or (z3.is_expr(c) and z3.is_true(c)):
                continue
            if not any(c is p or c.eq(p) for p in self.pc[-12:]):
                self.pc = self.pc + (c,)

    def alloc(self, rec):
        i = fresh_id()
        self.heap[i] = rec
        return Ref(i)

    @property
    def vars(self):
        return self.frames[-1].vars


class Refuted(Exception):
    def __init__(self, what, state, cond=None):
        Exception.__init__(self, what)
        self.what, self.state, self.cond = what, state, cond


class FnInfo:
    __slots__ = ('fn', 'node', 'globals', 'qual', 'isgen', 'closure')

    def __init__(self, fn, node):
        self.fn, self.node = fn, node
        self.globals = fn.__globals__
        self.qual = fn.__module__ + '.' + fn.__qualname__
        self.isgen = _is_gen(node)
        self.closure = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    self.closure[n] = c.cell_contents
                except ValueError:
                    pass


def _is_gen(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Sources:
    """maps real function objects to the AST of their current source text"""

    def __init__(self, roots):
        self.roots = [os.path.realpath(r) for r in roots]
        self.files = {}
        self.cache = {}

    def owns(self, fn):
        code = getattr(fn, '__code__', None)
        if code is None:
            return False
        p = os.path.realpath(code.co_filename)
        return any(p.startswith(r + os.sep) for r in self.roots)

    def info(self, fn):
        r = self.cache.get(fn)
        if r is not None:
            return r
        path = os.path.realpath(fn.__code__.co_filename)
        if path not in self.files:
            with open(path, 'rb') as f:
                tree = ast.parse(f.read(), path)
            idx = {}
            for n in ast.walk(tree):
                if isinstance(n, ast.FunctionDef):
                    line = min([d.lineno for d in n.decorator_list] + [n.lineno])
                    idx[(n.name, line)] = n
            self.files[path] = idx
        node = self.files[path].get((fn.__name__, fn.__code__.co_firstlineno))
        if node is None:
            node = self.files[path].get((fn.__code__.co_name, fn.__code__.co_firstlineno))
        if node is None:
            raise Unsupported('no source for %s' % fn.__qualname__)
        r = FnInfo(fn, node)
        self.cache[fn] = r
        return r


def is_concrete(v):
    if isinstance(v, (SInt, SBool, SReal, SVal, SBytes, SRef, SObj, Ref, Union, STuple, SRange, SEnum, SIter, SPos,
                      GenCall, GenExp, Bound, Intrinsic, SuperProxy, LambdaVal, ExcVal, Ctx)) or v is HAVOC:
        return False
    if isinstance(v, (tuple, list)):
        return all(is_concrete(x) for x in v)
    return True


def int_term(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    return None


def real_term(v):
    if isinstance(v, SReal):
        return v.t
    if isinstance(v, float):
        from fractions import Fraction
        f = Fraction(v)
        return z3.Q(f.numerator, f.denominator)
    t = int_term(v)
    if t is not None:
        return z3.ToReal(t) if not z3.is_int_value(t) else z3.RealVal(t.as_long())
    return None


def mk_int(t, bits=None):
    if isinstance(t, int):
        return t
    if bits is None:
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
    return SInt(t, bits)


def mk_bool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def conj(cs):
    cs = list(cs)
    if not cs:
        return z3.BoolVal(True)
    if len(cs) == 1:
        return cs[0]
    return z3.And(*cs)


class NoMerge(Exception):
    pass


class Solver:
    def __init__(self, timeout_ms=8000):
        self.timeout = timeout_ms
        self.cache = {}
        self.queries = 0
        self.time = 0.0
        self.keep = []
        self.unknowns = 0

    def check(self, conds):
        """'sat' / 'unsat' / 'unknown'"""
        cs = []
        for c in conds:
            if z3.is_true(c):
                continue
            if z3.is_false(c):
                return 'unsat'
            cs.append(c)
        key = tuple(sorted(c.get_id() for c in cs))
        r = self.cache.get(key)
        if r is not None:
            return r
        import time
        t = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(*cs)
        r = str(s.check())
        self.queries += 1
        self.time += time.time() - t
        if r == 'unknown':
            self.unknowns += 1
        self.keep.append(cs)
        self.cache[key] = r
        return r

    def model(self, conds):
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(*conds)
        self.queries += 1
        if s.check() == z3.sat:
            return s.model()
        return None


from .prims import Prims  # noqa: E402  (mixin: builtins, containers, streams, codec contracts)


class Interp(Prims):
    optional = False                 # lists may get elements that are there in some cases only

    def __init__(self, sources, solver=None, merge=True):
        self.src = sources
        self.solver = solver or Solver()
        self.merge = merge
        self.marker = None           # segments -> goals of their markers, when markers are arbitrary
        self.cut = False             # records may be cut short
        self.used = set()          # qualified names of functions executed
        self.depth = 0
        self.contracts = {}        # function object -> handler(interp, st, args, kw) -> [(st, v)]
        self.loop_invariants = {}  # (qualname, ordinal) -> handler
        self.consts = {}

    # ------------------------------------------------------------ solver helpers
    def feasible(self, st, cond=None):
        cs = st.pc if cond is None else st.pc + (cond,)
        if cond is not None and z3.is_false(cond):
            return False
        return self.solver.check(cs) != 'unsat'

    def entails(self, st, goal):
        if goal is True:
            return True
        if goal is False:
            goal = z3.BoolVal(False)
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        for p in st.pc:
            if p.eq(goal):
                return True
        return self.solver.check(st.pc + (z3.Not(goal),)) == 'unsat'

    # ------------------------------------------------------------ plumbing
    def bind(self, results, f):
        out = []
        for s, v in results:
            if isinstance(v, Ctl):
                out.append((s, v))
            else:
                out.extend(f(s, v))
        return out

    def eval_list(self, nodes, st, f):
        """evaluate nodes left to right, call f(st, [values])"""
        def go(i, s, acc):
            if i == len(nodes):
                return f(s, acc)
            n = nodes[i]
            if isinstance(n, ast.Starred):
                return self.bind(self.eval(n.value, s),
                                 lambda s2, v: go(i + 1, s2, acc + list(self.unpack_all(s2, v))))
            return self.bind(self.eval(n, s), lambda s2, v: go(i + 1, s2, acc + [v]))
        return go(0, st, [])

    def unpack_all(self, st, v):
        if isinstance(v, STuple):
            return v.items
        if isinstance(v, (tuple, list)):
            return v
        if isinstance(v, Ref):
            r = st.heap[v.id]
            if isinstance(r, HList) and all(isinstance(p, One) for p in r.parts):
                return [p.v for p in r.parts]
        raise Unsupported('unpacking %r' % (v,))

    def fork(self, st, cond):
        """[(state, bool)] for the feasible outcomes of a z3 condition"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return [(st, True)]
        if z3.is_false(cond):
            return [(st, False)]
        out = []
        f = self.feasible(st, z3.Not(cond))
        t = self.feasible(st, cond)
        if t and not f:
            return [(st, True)]
        if f and not t:
            return [(st, False)]
        if t:
            out.append((st.assume(cond), True))
        if f:
            out.append((st.assume(z3.Not(cond)), False))
        return out

    def split_union(self, st, v):
        if not isinstance(v, Union):
            return [(st, v)]
        out = []
        for c, x in v.alts:
            if self.feasible(st, c):
                out.append((st.assume(c), x))
        res = []
        for s, x in out:
            res.extend(self.split_union(s, x))
        return res

    def with_alts(self, st, v, f):
        out = []
        for s, x in self.split_union(st, v):
            out.extend(f(s, x))
        return out

    # ------------------------------------------------------------ merging
    def merge_states(self, results):
        """merge (state, NORM) results where possible"""
        if not self.merge:
            return results
        norm = [r for r in results if r[1] is NORM]
        if len(norm) < 2:
            return results
        others = [r for r in results if r[1] is not NORM]
        acc = [norm[0][0]]
        for s, _ in norm[1:]:
            done = False
            for i, a in enumerate(acc):
                try:
                    acc[i] = self.merge2(a, s)
                    done = True
                    break
                except NoMerge:
                    pass
            if not done:
                acc.append(s)
        return [(s, NORM) for s in acc] + others

    def merge2(self, a, b):
        if a.short != b.short or a.poison != b.poison:
            raise NoMerge()
        n = 0
        m = min(len(a.pc), len(b.pc))
        while n < m and (a.pc[n] is b.pc[n] or a.pc[n].eq(b.pc[n])):
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        c = conj(ra)
        if len(a.frames) != len(b.frames):
            raise NoMerge()
        s = State()
        d = z3.simplify(z3.Or(conj(ra), conj(rb)))
        s.pc = a.pc[:n]
        if not z3.is_true(d):
            s.pc = s.pc + (d,)
        s.approx = a.approx or b.approx
        s.short = a.short
        s.poison = a.poison
        s.hints = a.hints
        s.views = dict(a.views)
        for k, v in b.views.items():
            s.views.setdefault(k, v)
        s.heap = {}
        self._mctx = (a, b, s, c)
        for i in a.heap:
            ra_ = a.heap[i]
            rb_ = b.heap.get(i)
            if rb_ is None or ra_ is rb_:
                s.heap[i] = ra_
            else:
                s.heap[i] = self.merge_rec(c, ra_, rb_, a, b)
        for i in b.heap:
            if i not in s.heap:
                s.heap[i] = b.heap[i]
        for fa, fb in zip(a.frames, b.frames):
            vs = {}
            for n_ in fa.vars:
                if n_ in fb.vars:
                    vs[n_] = self.merge_val(c, fa.vars[n_], fb.vars[n_])
                else:
                    vs[n_] = HAVOC
            for n_ in fb.vars:
                if n_ not in vs:
                    vs[n_] = HAVOC
            s.frames.append(Frame(vs, fa.fn, fa.cb, fa.tok))
        return s

    def merge_val(self, c, x, y):
        if x is y:
            return x
        if x is HAVOC or y is HAVOC:
            return HAVOC
        if is_concrete(x) and is_concrete(y) and type(x) is type(y):
            try:
                if x == y:
                    return x
            except Exception:
                pass
        if isinstance(x, Ref) and x == y:
            return x
        if isinstance(x, (SBool, bool)) and isinstance(y, (SBool, bool)):
            tx = x.t if isinstance(x, SBool) else z3.BoolVal(x)
            ty = y.t if isinstance(y, SBool) else z3.BoolVal(y)
            return mk_bool(z3.If(c, tx, ty))
        if isinstance(x, (SInt, int)) and isinstance(y, (SInt, int)) and not isinstance(x, bool) and not isinstance(y, bool):
            bits = None
            bx, by = int_bits(x), int_bits(y)
            if bx is not None and by is not None:
                bits = {}
                for i in set(bx) | set(by):
                    bits[i] = z3.simplify(z3.If(c, bx.get(i, z3.BoolVal(False)), by.get(i, z3.BoolVal(False))))
            return mk_int(z3.If(c, int_term(x), int_term(y)), bits)
        if isinstance(x, SVal) and isinstance(y, SVal) and x.sort == y.sort and x.kind == y.kind:
            if x.t.eq(y.t):
                return x
            return SVal(x.sort, z3.If(c, x.t, y.t), x.kind)
        if isinstance(x, (SReal, float)) and isinstance(y, (SReal, float)):
            return SReal(z3.If(c, real_term(x), real_term(y)))
        if isinstance(x, SRef) and isinstance(y, SRef):
            return SRef(mk_int(z3.If(c, int_term(x.idx), int_term(y.idx))), x.root)
        if isinstance(x, SObj) and isinstance(y, SObj):
            return SObj(mk_int(z3.If(c, int_term(x.idx), int_term(y.idx))))
        if isinstance(x, STuple) and isinstance(y, STuple) and len(x.items) == len(y.items):
            return STuple([self.merge_val(c, p, q) for p, q in zip(x.items, y.items)])
        xs = list(x.alts) if isinstance(x, Union) else [(z3.BoolVal(True), x)]
        ys = list(y.alts) if isinstance(y, Union) else [(z3.BoolVal(True), y)]
        alts = []
        for g, v in [(z3.And(c, g), v) for g, v in xs] + [(z3.And(z3.Not(c), g), v) for g, v in ys]:
            g = z3.simplify(g)
            if z3.is_false(g):
                continue
            for i, (g2, v2) in enumerate(alts):
                if self.same_val(v, v2):
                    alts[i] = (z3.simplify(z3.Or(g2, g)), v2)
                    break
            else:
                alts.append((g, v))
        if len(alts) == 1:
            return alts[0][1]
        return Union(alts)

    def same_val(self, x, y):
        if x is y:
            return True
        if isinstance(x, Ref):
            return x == y
        if is_concrete(x) and is_concrete(y):
            try:
                return type(x) is type(y) and bool(x == y)
            except Exception:
                return False
        if isinstance(x, SVal) and isinstance(y, SVal):
            return x.sort == y.sort and x.t.eq(y.t)
        return False

    def merge_rec(self, c, x, y, a, b):
        if type(x) is not type(y):
            raise NoMerge()
        if isinstance(x, HObj):
            attrs = {}
            for n in list(x.attrs) + [m for m in y.attrs if m not in x.attrs]:
                if n in x.attrs and n in y.attrs:
                    attrs[n] = self.merge_val(c, x.attrs[n], y.attrs[n])
                else:
                    attrs[n] = HAVOC
            return HObj(x.cls, attrs)
        if isinstance(x, HDict):
            ent = {}
            F = z3.BoolVal(False)
            for n in list(x.entries) + [m for m in y.entries if m not in x.entries]:
                px, vx = x.entries.get(n, (F, None))
                py, vy = y.entries.get(n, (F, None))
                if n not in x.entries:
                    v = vy
                elif n not in y.entries:
                    v = vx
                else:
                    v = self.merge_val(c, vx, vy)
                p = px if px is py else z3.simplify(z3.If(c, px, py))
                ent[n] = (p, v)
            if len(x.items) != len(y.items):
                raise NoMerge()
            items = []
            for p, q in zip(x.items, y.items):
                if p is q:
                    items.append(p)
                elif isinstance(p, One) and isinstance(q, One):
                    items.append(One(self.merge_val(c, p.v, q.v)))
                else:
                    raise NoMerge()
            attrs = x.attrs
            if x.attrs != y.attrs:
                attrs = {n: self.merge_val(c, x.attrs.get(n), y.attrs.get(n)) for n in set(x.attrs) | set(y.attrs)}
            return x.rep(entries=ent, items=items, attrs=attrs)
        if isinstance(x, HList):
            if self.optional:
                parts = self.merge_parts(c, x.parts, y.parts)
                return x.rep(parts=parts, attrs={n: self.merge_val(c, x.attrs.get(n), y.attrs.get(n))
                                                 for n in set(x.attrs) | set(y.attrs)})
            if len(x.parts) != len(y.parts):
                raise NoMerge()
            parts = []
            for p, q in zip(x.parts, y.parts):
                if p is q:
                    parts.append(p)
                elif isinstance(p, One) and isinstance(q, One):
                    parts.append(One(self.merge_val(c, p.v, q.v)))
                elif isinstance(p, Many) and isinstance(q, Many) and p.n.eq(q.n):
                    parts.append(self.merge_many(c, p, q))
                else:
                    raise NoMerge()
            return x.rep(parts=parts, attrs={n: self.merge_val(c, x.attrs.get(n), y.attrs.get(n))
                                             for n in set(x.attrs) | set(y.attrs)})
        if isinstance(x, HOut):
            n = 0
            m = min(len(x.segs), len(y.segs))
            while n < m and x.segs[n] is y.segs[n]:
                n += 1
            rx, ry = x.segs[n:], y.segs[n:]
            if not rx and not ry:
                return x
            return HOut(x.segs[:n] + (CondSeg([(c, rx), (z3.Not(c), ry)]),))
        if isinstance(x, HIn):
            px, py = self.norm_pos(a, x.pos), self.norm_pos(b, y.pos)
            if not same_pos(px, py):
                raise NoMerge()
            return HIn(px)
        raise NoMerge()

    def merge_parts(self, c, xs, ys):
        """parts of a list that has grown differently in two cases"""
        parts = []
        for p, q in zip(xs, ys):
            if p is q:
                parts.append(p)
            elif isinstance(p, Many) and isinstance(q, Many) and p.n.eq(q.n):
                parts.append(self.merge_many(c, p, q))
            elif isinstance(p, One) and isinstance(q, One) and not (
                    isinstance(p.v, Ref) and isinstance(q.v, Ref) and p.v != q.v):
                parts.append(One(self.merge_val(c, p.v, q.v)))
            elif isinstance(p, Opt) and isinstance(q, Opt) and p.c.eq(q.c) and p.v is q.v:
                parts.append(p)
            else:
                break
        for cond, rest in ((c, xs[len(parts):]), (z3.Not(c), ys[len(parts):])):
            if any(isinstance(p, Many) for p in rest):
                raise NoMerge()
            parts = parts + [Opt(z3.simplify(z3.And(cond, p.c) if isinstance(p, Opt) else cond), p.v) for p in rest]
        return parts

    def merge_many(self, c, p, q):
        def inst(st, idx, p=p, q=q, c=c):
            v1 = p.inst(st, idx)
            v2 = q.inst(st, idx)
            return self.deep_merge(st, c, v1, v2)
        return Many(p.n, inst, p.tag)

    def deep_merge(self, st, c, v1, v2):
        if isinstance(v1, Ref) and isinstance(v2, Ref) and v1 != v2:
            r1, r2 = st.heap[v1.id], st.heap[v2.id]
            if type(r1) is type(r2):
                if isinstance(r1, HObj) and r1.cls is r2.cls:
                    attrs = {}
                    for n in list(r1.attrs) + [m for m in r2.attrs if m not in r1.attrs]:
                        if n in r1.attrs and n in r2.attrs:
                            attrs[n] = self.deep_merge(st, c, r1.attrs[n], r2.attrs[n])
                        else:
                            attrs[n] = HAVOC
                    return st.alloc(HObj(r1.cls, attrs))
                if isinstance(r1, HDict) and not r1.items and not r2.items:
                    ent = {}
                    F = z3.BoolVal(False)
                    for n in list(r1.entries) + [m for m in r2.entries if m not in r1.entries]:
                        p1, x1 = r1.entries.get(n, (F, None))
                        p2, x2 = r2.entries.get(n, (F, None))
                        v = x2 if n not in r1.entries else x1 if n not in r2.entries else self.deep_merge(st, c, x1, x2)
                        ent[n] = (p1 if p1 is p2 else z3.simplify(z3.If(c, p1, p2)), v)
                    return st.alloc(r1.rep(entries=ent))
                if isinstance(r1, HList) and self.optional:
                    try:
                        return st.alloc(r1.rep(parts=self.merge_parts(c, r1.parts, r2.parts)))
                    except NoMerge:
                        return Union([(c, v1), (z3.Not(c), v2)])
                if isinstance(r1, HList) and len(r1.parts) == len(r2.parts):
                    parts = []
                    for p, q in zip(r1.parts, r2.parts):
                        if p is q:
                            parts.append(p)
                        elif isinstance(p, One) and isinstance(q, One):
                            parts.append(One(self.deep_merge(st, c, p.v, q.v)))
                        elif isinstance(p, Many) and isinstance(q, Many) and z3.simplify(p.n).eq(z3.simplify(q.n)):
                            parts.append(self.merge_many(c, p, q))
                        else:
                            return Union([(c, v1), (z3.Not(c), v2)])
                    return st.alloc(r1.rep(parts=parts))
        return self.merge_val(c, v1, v2)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        live = [st]
        out = []
        for n in stmts:
            nxt = []
            for s in live:
                for s2, o in self.exec_stmt(n, s):
                    if o is NORM:
                        nxt.append((s2, NORM))
                    else:
                        out.append((s2, o))
            nxt = self.merge_states(nxt)
            live = [s for s, _ in nxt]
            if not live:
                break
        return [(s, NORM) for s in live] + out

    def exec_stmt(self, n, st):
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(n).__name__)
        return m(n, st)

    @staticmethod
    def to_outcomes(results, f=None):
        out = []
        for s, v in results:
            if isinstance(v, Ctl):
                out.append((s, v.out))
            elif f is None:
                out.append((s, NORM))
            else:
                out.extend(f(s, v))
        return out

    def st_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, NORM)]
        return self.to_outcomes(self.eval(n.value, st))

    def st_Pass(self, n, st):
        return [(st, NORM)]

    def st_Break(self, n, st):
        return [(st, BRK)]

    def st_Continue(self, n, st):
        return [(st, CONT)]

    def st_Return(self, n, st):
        if n.value is None:
            return [(st, ('ret', None))]
        return self.to_outcomes(self.eval(n.value, st), lambda s, v: [(s, ('ret', v))])

    def st_Assign(self, n, st):
        def go(s, v):
            states = [(s, NORM)]
            for t in n.targets:
                nxt = []
                for s2, o in states:
                    if o is NORM:
                        nxt.extend(self.assign(t, s2, v))
                    else:
                        nxt.append((s2, o))
                states = nxt
            return states
        return self.to_outcomes(self.eval(n.value, st), go)

    def st_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, NORM)]
        return self.to_outcomes(self.eval(n.value, st), lambda s, v: self.assign(n.target, s, v))

    def st_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
        elif isinstance(t, ast.Attribute):
            load = ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
        else:
            load = ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
        return self.to_outcomes(
            self.bind(self.eval(load, st), lambda s, a: self.bind(
                self.eval(n.value, s), lambda s2, b: self.binop(s2, n.op, a, b, inplace=True))),
            lambda s, v: self.assign(t, s, v))

    def assign(self, t, st, v):
        """-> outcomes"""
        if isinstance(t, ast.Name):
            st = st.clone()
            st.vars[t.id] = v
            return [(st, NORM)]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for s, x in self.split_union(st, v):
                xs = list(self.unpack_iter(s, x))
                if len(xs) != len(t.elts):
                    out.append((s, ('exc', ExcVal(ValueError, (), 'unpack'))))
                    continue
                states = [(s, NORM)]
                for tt, xv in zip(t.elts, xs):
                    nxt = []
                    for s2, o in states:
                        nxt.extend(self.assign(tt, s2, xv) if o is NORM else [(s2, o)])
                    states = nxt
                out.extend(states)
            return out
        if isinstance(t, ast.Attribute):
            return self.to_outcomes(self.eval(t.value, st),
                                    lambda s, o: self.to_outcomes(self.setattr(s, o, t.attr, v)))
        if isinstance(t, ast.Subscript):
            return self.to_outcomes(self.eval(t.value, st), lambda s, o: self.to_outcomes(
                self.eval_index(t.slice, s), lambda s2, i: self.to_outcomes(self.setitem(s2, o, i, v))))
        raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack_iter(self, st, v):
        if isinstance(v, SBytes):
            raise Unsupported('unpack bytes')
        if isinstance(v, Ref) or isinstance(v, (STuple, tuple, list)):
            return self.unpack_all(st, v)
        raise Unsupported('unpack %r' % (v,))

    def st_Delete(self, n, st):
        res = [(st, NORM)]
        for t in n.targets:
            nxt = []
            for s, o in res:
                if o is not NORM:
                    nxt.append((s, o))
                elif isinstance(t, ast.Subscript):
                    nxt.extend(self.to_outcomes(self.eval(t.value, s), lambda s1, ob: self.to_outcomes(
                        self.eval_index(t.slice, s1), lambda s2, i: self.to_outcomes(self.delitem(s2, ob, i)))))
                elif isinstance(t, ast.Name):
                    s = s.clone()
                    s.vars.pop(t.id, None)
                    nxt.append((s, NORM))
                else:
                    raise Unsupported('del')
            res = nxt
        return res

    def st_If(self, n, st):
        def go(s, v):
            out = []
            for s2, b in self.truth(s, v):
                if isinstance(b, Ctl):
                    out.append((s2, b.out))
                else:
                    out.extend(self.exec_block(n.body if b else n.orelse, s2))
            return out
        return self.to_outcomes(self.eval(n.test, st), go)

    def st_Assert(self, n, st):
        def go(s, v):
            out = []
            for s2, b in self.truth(s, v):
                if isinstance(b, Ctl):
                    out.append((s2, b.out))
                elif b:
                    out.append((s2, NORM))
                else:
                    out.append((s2, ('exc', ExcVal(AssertionError, (), ast.unparse(n.test)))))
            return out
        return self.to_outcomes(self.eval(n.test, st), go)

    def st_Raise(self, n, st):
        if n.exc is None:
            for f in reversed(st.frames):
                if '__exc__' in f.vars:
                    return [(st, ('exc', f.vars['__exc__']))]
            return [(st, ('exc', ExcVal(RuntimeError)))]
        e = n.exc
        if isinstance(e, ast.Call):
            def go(s, c):
                if isinstance(c, type) and issubclass(c, BaseException):
                    # the message never matters; evaluate it only for its exceptions
                    try:
                        rs = self.eval_list(e.args, s, lambda s2, a: [(s2, tuple(a))])
                        outs = []
                        for s2, a in rs:
                            outs.append((s2, a.out if isinstance(a, Ctl) else ('exc', ExcVal(c, a, ast.unparse(e)))))
                        return outs
                    except Unsupported:
                        return [(s, ('exc', ExcVal(c, (), ast.unparse(e))))]
                return self.to_outcomes(self.eval(e, s), lambda s2, v: [(s2, ('exc', v))])
            return self.to_outcomes(self.eval(e.func, st), go)

        def go2(s, v):
            if isinstance(v, type):
                v = ExcVal(v)
            if isinstance(v, BaseException):
                v = ExcVal(type(v), v.args)
            return [(s, ('exc', v))]
        return self.to_outcomes(self.eval(e, st), go2)

    def st_Try(self, n, st):
        res = self.exec_block(n.body, st)
        out = []
        for s, o in res:
            if o[0] == 'exc':
                handled = False
                pend = s
                for h in n.handlers:
                    if h.type is None:
                        match = True
                    else:
                        cs = self.eval(h.type, pend)
                        c = cs[0][1]
                        if isinstance(c, STuple):
                            c = tuple(c.items)
                        match = issubclass(o[1].cls, c)
                    if match:
                        s2 = pend.clone()
                        if h.name:
                            s2.vars[h.name] = o[1]
                        s2.vars['__exc__'] = o[1]
                        for s3, o3 in self.exec_block(h.body, s2):
                            s3 = s3.clone()
                            s3.vars.pop('__exc__', None)
                            out.append((s3, o3))
                        handled = True
                        break
                if not handled:
                    out.append((s, o))
            elif o is NORM and n.orelse:
                out.extend(self.exec_block(n.orelse, s))
            else:
                out.append((s, o))
        if n.finalbody:
            fin = []
            for s, o in out:
                for s2, o2 in self.exec_block(n.finalbody, s):
                    fin.append((s2, o if o2 is NORM else o2))
            out = fin
        return out

    def st_With(self, n, st):
        if len(n.items) != 1:
            raise Unsupported('with')
        it = n.items[0]

        def go(s, v):
            res = [(s, NORM)]
            if it.optional_vars is not None:
                res = self.assign(it.optional_vars, s, v)
            out = []
            for s2, o in res:
                for s3, o3 in self.exec_block(n.body, s2):
                    out.append((self.with_exit(s3, v), o3))
            return out
        return self.to_outcomes(self.eval(it.context_expr, st), go)

    def with_exit(self, st, v):
        return st

    def st_FunctionDef(self, n, st):
        raise Unsupported('nested function')

    def st_Import(self, n, st):
        raise Unsupported('import')

    st_ImportFrom = st_Import

    def st_Global(self, n, st):
        raise Unsupported('global')

    def st_For(self, n, st):
        h = self.find_invariant(n, st)
        if h is not None:
            return h(self, n, st)

        def body(s, v):
            res = []
            for s2, o in self.assign(n.target, s, v):
                if o is NORM:
                    res.extend(self.exec_block(n.body, s2))
                else:
                    res.append((s2, o))
            return res

        def go(s, it):
            out = []
            for s2, o in self.iterate(s, it, body, n):
                if o is NORM:
                    out.extend(self.exec_block(n.orelse, s2) if n.orelse else [(s2, NORM)])
                elif o is BRK:
                    out.append((s2, NORM))
                else:
                    out.append((s2, o))
            return out
        return self.to_outcomes(self.eval(n.iter, st), go)

    def find_invariant(self, n, st):
        if not self.loop_invariants:
            return None
        fn = st.frames[-1].fn
        if fn is None:
            return None
        loops = [x for x in ast.walk(fn.node) if isinstance(x, (ast.For, ast.While))]
        loops.sort(key=lambda x: (x.lineno, x.col_offset))
        return self.loop_invariants.get((fn.qual, loops.index(n)))

    def st_While(self, n, st):
        h = self.find_invariant(n, st)
        if h is not None:
            return h(self, n, st)
        g = self.try_counter_while(n, st)
        if g is not None:
            return g
        pending = [st]
        out = []
        count = 0
        while pending:
            pending = [s for s, _ in self.merge_states([(s, NORM) for s in pending])]
            pending.sort(key=self.remaining, reverse=True)
            s = pending.pop(0)
            sp = self.split_head(s)
            if sp is not None:
                pending.extend(sp)
                continue
            count += 1
            if count > MAX_UNROLL:
                raise Unsupported('loop without invariant: %s' % ast.unparse(n.test))
            for s1, v in self.eval(n.test, s):
                if isinstance(v, Ctl):
                    out.append((s1, v.out))
                    continue
                for s2, b in self.truth(s1, v):
                    if isinstance(b, Ctl):
                        out.append((s2, b.out))
                    elif not b:
                        out.extend(self.exec_block(n.orelse, s2) if n.orelse else [(s2, NORM)])
                    else:
                        for s3, o in self.exec_block(n.body, s2):
                            if o is NORM or o is CONT:
                                pending.append(s3)
                            elif o is BRK:
                                out.append((s3, NORM))
                            else:
                                out.append((s3, o))
        return self.merge_states(out)

    def try_counter_while(self, n, st):
        """while i < count: body; i += 1   with a symbolic count -> one generic iteration"""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq))
                and isinstance(t.left, ast.Name)):
            return None
        i0 = st.vars.get(t.left.id)
        if i0 != 0 or isinstance(i0, bool) or not isinstance(i0, int):
            return None
        rs = self.eval(t.comparators[0], st)
        if len(rs) != 1 or isinstance(rs[0][1], Ctl) or not isinstance(rs[0][1], SInt):
            return None
        hi = rs[0][1]
        name = t.left.id
        if isinstance(t.ops[0], ast.NotEq) and not self.entails(st, hi.t >= 0):
            return None

        def body(s, v):
            s = s.clone()
            s.vars[name] = v
            res = []
            for s2, o in self.exec_block(n.body, s):
                if o is NORM:
                    nv = s2.vars.get(name)
                    if int_term(nv) is None or not self.entails(s2, int_term(nv) == int_term(v) + 1):
                        raise Unsupported('while loop counter')
                    r2 = self.eval(t.comparators[0], s2)
                    if len(r2) != 1 or isinstance(r2[0][1], Ctl) or int_term(r2[0][1]) is None or \
                            not self.entails(s2, int_term(r2[0][1]) == hi.t):
                        raise Unsupported('while loop bound changes')
                elif o is CONT:
                    raise Unsupported('continue in counting while loop')
                res.append((s2, o))
            return res
        out = []
        for s2, o in self.iterate(st, SRange(0, hi), body, n):
            if o is NORM:
                s2 = s2.clone()
                s2.vars[name] = mk_int(z3.If(hi.t > 0, hi.t, z3.IntVal(0)))
                out.extend(self.exec_block(n.orelse, s2) if n.orelse else [(s2, NORM)])
            elif o is BRK:
                out.append((s2, NORM))
            else:
                out.append((s2, o))
        return out

    # ------------------------------------------------------------ iteration
    def iterate(self, st, it, cb, node=None):
        """cb(st, value) -> outcomes of the loop body. Returns outcomes with NORM (exhausted) / BRK / others."""
        out = []
        for s, v in self.split_union(st, it):
            out.extend(self._iterate(s, v, cb, node))
        return self.merge_states(out)

    def _unroll(self, st, values, cb):
        live = [st]
        out = []
        n = 0
        for v in values:
            n += 1
            if n > MAX_UNROLL:
                raise Unsupported('long unrolled loop')
            nxt = []
            for s in live:
                for s2, o in cb(s, v):
                    if o is NORM or o is CONT:
                        nxt.append((s2, NORM))
                    else:
                        out.append((s2, o))
            live = [s for s, _ in self.merge_states(nxt)]
        return [(s, NORM) for s in live] + out

    def _iterate(self, st, it, cb, node):
        if isinstance(it, SRange):
            lo, hi = it.lo, it.hi
            if isinstance(lo, int) and isinstance(hi, int):
                return self._unroll(st, range(lo, hi), cb)
            n = z3.simplify(int_term(hi) - int_term(lo))
            lt = int_term(lo)
            return self.generic(st, n, lambda s, k: mk_int(lt + k), cb, node)
        if isinstance(it, SEnum):
            if isinstance(it.it, Ref) and isinstance(st.heap[it.it.id], HList) and not self.has_py_iter(st, it.it):
                return self.iter_list(st, it.it, lambda s, v, i: cb(s, STuple((i, v))), node, start=it.start)
            if isinstance(it.it, Ref) and self.has_py_iter(st, it.it):
                # enumerate over an object whose __iter__ is Python code: count along
                return self.iter_enum_py(st, it, cb, node)
            if is_concrete(it.it) or isinstance(it.it, STuple):
                vals = it.it.items if isinstance(it.it, STuple) else it.it
                return self._unroll(st, [STuple((i + it.start, v)) for i, v in enumerate(vals)], cb)
            if isinstance(it.it, GenCall):
                raise Unsupported('enumerate over generator')
            raise Unsupported('enumerate %r' % (it.it,))
        if isinstance(it, SIter):
            return self.iter_builtin(st, it, cb, node)
        if isinstance(it, GenCall):
            return self.run_generator(st, it, cb)
        if isinstance(it, GenExp):
            return self.run_genexp(st, it, cb, node)
        if isinstance(it, STuple):
            return self._unroll(st, it.items, cb)
        if isinstance(it, Ref):
            if self.has_py_iter(st, it):
                f = self.lookup_cls(st.heap[it.id].cls, '__iter__')
                out = []
                for s, v in self.call(st, Bound(f, it), [], {}):
                    if isinstance(v, Ctl):
                        out.append((s, v.out))
                    else:
                        out.extend(self._iterate(s, v, cb, node))
                return out
            rec = st.heap[it.id]
            if isinstance(rec, HList):
                return self.iter_list(st, it, lambda s, v, i: cb(s, v), node)
            if isinstance(rec, HDict):
                return self.iter_builtin(st, SIter(it, 'keys'), cb, node)
            raise Unsupported('iterating %r' % rec)
        if isinstance(it, SBytes) or isinstance(it, SVal) and it.sort == 'Bytes':
            s = st.clone()
            return self.iter_list(s, s.alloc(HList(list, self.byte_parts(s, it))), lambda s2, v, i: cb(s2, v), node)
        if is_concrete(it):
            try:
                vals = list(it)
            except TypeError:
                return [(st, ('exc', ExcVal(TypeError, (), 'not iterable')))]
            return self._unroll(st, vals, cb)
        return self.iterate_other(st, it, cb, node)

    def iterate_other(self, st, it, cb, node):
        raise Unsupported('iterating %r' % (it,))

    def has_py_iter(self, st, ref):
        cls = getattr(st.heap[ref.id], 'cls', None)
        if cls is None:
            return False
        f = self.lookup_cls(cls, '__iter__')
        return isinstance(f, types.FunctionType)

    def iter_enum_py(self, st, it, cb, node):
        rec = st.heap[it.it.id]
        if isinstance(rec, HList):
            # run the Python __iter__ with the position tracked by the list iteration below it
            f = self.lookup_cls(rec.cls, '__iter__')
            self._enum_stack = getattr(self, '_enum_stack', [])
            token = [it.it.id, None]
            self._enum_stack.append(token)
            try:
                def cb2(s, v):
                    if token[1] is None:
                        raise Unsupported('enumerate position')
                    return cb(s, STuple((self.binop_int_add(token[1], it.start), v)))
                out = []
                for s, v in self.call(st, Bound(f, it.it), [], {}):
                    if isinstance(v, Ctl):
                        out.append((s, v.out))
                    else:
                        out.extend(self._iterate(s, v, cb2, node))
                return out
            finally:
                self._enum_stack.pop()
        raise Unsupported('enumerate')

    @staticmethod
    def binop_int_add(a, b):
        if isinstance(a, int):
            return a + b
        return mk_int(a.t + b)

    def note_pos(self, lid, i):
        for tok in getattr(self, '_enum_stack', []):
            if tok[0] == lid:
                tok[1] = i

    def iter_list(self, st, ref, cb, node, start=0):
        rec = st.heap[ref.id]
        live = [st]
        out = []
        base = start
        for p in rec.parts:
            nxt = []
            for s in live:
                if isinstance(p, One):
                    self.note_pos(ref.id, base)
                    rs = self._unroll(s, [p.v], lambda s2, v: cb(s2, v, base))
                elif isinstance(p, Opt):
                    rs = []
                    for s2, b_ in self.fork(s, p.c):
                        rs += self._unroll(s2, [p.v], lambda s3, v: cb(s3, v, base)) if b_ else [(s2, NORM)]
                else:
                    b = base

                    def inst(s2, k, p=p, ref=ref, b=b):
                        return STuple((mk_int(int_term(b) + k), self.view(s2, ref, p, k)))

                    def cb2(s2, t, b=b):
                        self.note_pos(ref.id, mk_int(int_term(t.items[0]) - start) if start else t.items[0])
                        return cb(s2, t.items[1], t.items[0])
                    rs = self.generic(s, p.n, inst, cb2, node)
                for s2, o in rs:
                    if o is NORM:
                        nxt.append((s2, NORM))
                    else:
                        out.append((s2, o))
            live = [s for s, _ in self.merge_states(nxt)]
            base = base + 1 if isinstance(p, One) and isinstance(base, int) else mk_int(
                int_term(base) + (1 if isinstance(p, One) else z3.If(p.c, z3.IntVal(1), z3.IntVal(0)) if isinstance(p, Opt)
                                  else p.n))
        return [(s, NORM) for s in live] + out

    def view(self, st, ref, many, k):
        """element k of a symbolic list as one heap object per (list, index)"""
        key = (ref.id, z3.simplify(k).sexpr())
        if key in st.views:
            return st.views[key][0]
        before = set(st.heap)
        v = many.inst(st, k)
        snap = {i: st.heap[i] for i in st.heap if i not in before}
        st.views[key] = (v, snap, many, k)
        return v

    def run_generator(self, st, g, cb):
        tok = object()
        st = st.clone()
        st.frames.append(Frame(dict(g.locals), g.fn, cb, tok))
        self.used.add(g.fn.qual)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        try:
            res = self.exec_block(g.fn.node.body, st)
        finally:
            self.depth -= 1
        out = []
        for s, o in res:
            s = s.clone()
            s.frames.pop()
            if o is NORM or o[0] == 'ret':
                out.append((s, NORM))
            elif o[0] == 'gen' and o[1] is tok:
                out.append((s, o[2]))
            else:
                out.append((s, o))
        return out

    def ex_Yield(self, n, st):
        def go(s, v):
            fr = s.frames[-1]
            if fr.cb is None:
                raise Unsupported('yield outside generator')
            s2 = s.clone()
            s2.frames.pop()
            out = []
            for s3, o in fr.cb(s2, v):
                s3 = s3.clone()
                s3.frames.append(fr.clone())
                if o is NORM or o is CONT:
                    out.append((s3, None))
                else:
                    out.append((s3, Ctl(('gen', fr.tok, o))))
            return out
        if n.value is None:
            return go(st, None)
        return self.bind(self.eval(n.value, st), go)

    def ex_YieldFrom(self, n, st):
        def go(s, v):
            fr = s.frames[-1]

            def cb(s1, x):
                s2 = s1.clone()
                top = s2.frames.pop()
                out = []
                for s3, o in fr.cb(s2, x):
                    s3 = s3.clone()
                    s3.frames.append(top.clone())
                    out.append((s3, NORM if o is CONT or o is NORM else ('gen', fr.tok, o)))
                return out
            return [(s2, None if o is NORM else Ctl(o)) for s2, o in self.iterate(s, v, cb, n)]
        return self.bind(self.eval(n.value, st), go)

    def run_genexp(self, st, g, cb, node):
        return self.comp_loop(st, g.node.generators, 0, lambda s: self.to_outcomes(
            self.eval(g.node.elt, s), lambda s2, v: cb(s2, v)))

    def comp_loop(self, st, gens, i, body):
        if i == len(gens):
            return body(st)
        g = gens[i]

        def cb(s, v):
            out = []
            for s2, o in self.assign(g.target, s, v):
                if o is not NORM:
                    out.append((s2, o))
                    continue
                states = [(s2, True)]
                for cond in g.ifs:
                    nxt = []
                    for s3, b in states:
                        if b is not True:
                            nxt.append((s3, b))
                            continue
                        for s4, cv in self.eval(cond, s3):
                            if isinstance(cv, Ctl):
                                nxt.append((s4, cv))
                            else:
                                nxt.extend(self.truth(s4, cv))
                    states = nxt
                for s3, b in states:
                    if isinstance(b, Ctl):
                        out.append((s3, b.out))
                    elif b:
                        out.extend(self.comp_loop(s3, gens, i + 1, body))
                    else:
                        out.append((s3, NORM))
            return out
        return self.to_outcomes(self.eval(g.iter, st), lambda s, it: self.iterate(s, it, cb, None))

    # ------------------------------------------------------------ generic iteration
    def generic(self, st, n, inst, cb, node):
        n = z3.simplify(n)
        if z3.is_int_value(n):
            vals = []
            if n.as_long() > MAX_UNROLL:
                raise Unsupported('long loop')
            live = [st]
            out = []
            for i in range(max(0, n.as_long())):
                nxt = []
                for s in live:
                    s = s.clone()
                    v = inst(s, z3.IntVal(i))
                    for s2, o in cb(s, v):
                        if o is NORM or o is CONT:
                            nxt.append((s2, NORM))
                        else:
                            out.append((s2, o))
                live = [s for s, _ in self.merge_states(nxt)]
            return [(s, NORM) for s in live] + out
        if not self.feasible(st, n > 0):
            return [(st, NORM)]
        pre = st.clone()
        for i, r in pre.heap.items():
            if isinstance(r, HIn):
                pre.heap[i] = HIn(self.norm_pos(pre, r.pos))
        k = fresh_int('k')
        s0 = pre.clone()
        s0.pc = s0.pc + (k >= 0, k < n)
        marks = {}
        elem_goals = []
        for i, r in list(s0.heap.items()):
            if isinstance(r, HIn):
                r = HIn(self.norm_pos(s0, r.pos))
                s0.heap[i] = r
                if r.pos is not None:
                    segs, j, parent = r.pos
                    head = segs[j]
                    if isinstance(head, RepSeg):
                        if self.entails(s0, head.n == n):
                            mid = fresh_id()
                            pairs = [(head.k, k)]
                            body = tuple(subst_seg(x, pairs) for x in head.segs) + (Mark(mid),)
                            for f in head.facts:
                                s0.pc = s0.pc + (z3.substitute(f, *pairs),)
                            newpos = (body, 0, (segs, j + 1, parent))
                            marks[i] = (mid, newpos, r.pos)
                            s0.heap[i] = HIn(newpos)
                            if self.marker is not None:
                                elem_goals += self.marker(body)
                        else:
                            s0.hints = s0.hints + (head.n != n,)
        v = inst(s0, k)
        base_frames = [f.clone() for f in s0.frames]
        base_views = dict(s0.views)
        res = cb(s0, v)
        out = []
        norm = []
        for s, o in res:
            if o is NORM or o is CONT:
                norm.append((s, NORM))
            elif o[0] == 'exc':
                s = s.clone()
                s.approx = True
                out.append((s, o))
            elif o[0] == 'ret' and self.early(o[1]):
                s = s.clone()
                s.approx = s.poison = True
                out.append((s, o))
            else:
                if self.feasible(s):
                    raise Unsupported('early exit from a loop over symbolically many elements')
        norm = [(s, o) for s, o in norm if self.feasible(s)] or norm
        for s, o in norm:
            for g, what in elem_goals:
                if not s.short and not self.entails(s, g):
                    raise Refuted('an element with %s is accepted' % what, s, z3.Not(g))
        if not pre.short:
            out += [(self.short_exit(pre, s), NORM) for s, o in norm if s.short]
            norm = [(s, o) for s, o in norm if not s.short]
        if not norm:
            # every iteration raises: loop exits normally only if it has no iterations
            e = pre.clone()
            e.pc = e.pc + (n <= 0,)
            return [(e, NORM)] + out
        m_ = self.merge
        self.merge = True
        norm = self.merge_states(norm)
        self.merge = m_
        if len(norm) != 1:
            raise Unsupported('loop iteration ends in states that cannot be merged')
        m = norm[0][0]
        post = pre.clone()
        post.heap = dict(m.heap)
        # input streams
        for i, r in m.heap.items():
            if isinstance(r, HIn):
                p = self.norm_pos(m, r.pos)
                if i in marks:
                    mid, newpos, orig = marks[i]
                    if same_pos(p, newpos):
                        post.heap[i] = HIn(orig)
                        continue
                    if p is None or not (isinstance(p[0][p[1]], Mark) and p[0][p[1]].id == mid):
                        raise Refuted('a loop iteration does not consume exactly one stored element', m)
                    segs, j, parent = p
                    post.heap[i] = HIn(parent)
                elif not same_pos(p, pre.heap[i].pos):
                    raise Refuted('a loop reads from the record without a matching repetition', m)
        # views: element objects of symbolic lists that were changed in place
        changed_views = {}
        view_ids = set()
        for key, (val, snap, many, idx) in m.views.items():
            for i in snap:
                view_ids.add(i)
            if key in pre.views and all(pre.heap.get(i) is m.heap.get(i) for i in snap):
                continue                             # an element of an outer loop, not changed in this one
            if any(m.heap.get(i) is not snap[i] for i in snap) or self.view_dirty(m, val, snap):
                changed_views[key] = (val, snap, many, idx)
        for key, (val, snap, many, idx) in changed_views.items():
            lid = key[0]
            rec = post.heap[lid]
            if not (isinstance(rec, HList) and len(rec.parts) == 1 and isinstance(rec.parts[0], Many)):
                raise Unsupported('in-place change of elements')
            if not (z3.simplify(idx).eq(k) and self.entails(pre, n == rec.parts[0].n)):
                raise Unsupported('in-place change of some elements')
            post.heap[lid] = rec.rep(parts=[self.template(pre, m, k, n, val)])
        post.views = {kk: vv for kk, vv in pre.views.items()
                      if not any(kk[0] == ck[0] for ck in changed_views)}
        for i, r in m.heap.items():
            if i not in pre.heap or r is pre.heap[i]:
                continue
            old = pre.heap[i]
            if isinstance(r, HIn) or i in view_ids:
                continue
            if any(ck[0] == i for ck in changed_views):
                if len(r.parts) != len(old.parts) or any(a is not b for a, b in zip(r.parts, old.parts)):
                    raise Unsupported('a list and its elements change in a loop')
                continue
            if isinstance(r, HOut):
                ns = len(old.segs)
                if r.segs[:ns] != old.segs:
                    raise Unsupported('output changed non-monotonically in loop')
                delta = r.segs[ns:]
                if delta:
                    facts = m.pc[len(pre.pc):]
                    post.heap[i] = HOut(old.segs + (RepSeg(n, k, delta, facts),))
            elif isinstance(r, HList):
                if r.attrs != old.attrs and any(not self.same_val(r.attrs.get(x), old.attrs.get(x))
                                                for x in set(r.attrs) | set(old.attrs)):
                    raise Unsupported('list attributes changed in loop')
                no = len(old.parts)
                if len(r.parts) == no and all(a is b for a, b in zip(r.parts, old.parts)):
                    post.heap[i] = old
                elif len(r.parts) == no + 1 and all(a is b for a, b in zip(r.parts, old.parts)) \
                        and isinstance(r.parts[-1], One):
                    post.heap[i] = old.rep(parts=old.parts + (self.template(pre, m, k, n, r.parts[-1].v),))
                else:
                    raise Unsupported('list changed in loop other than by one append')
            elif isinstance(r, HDict):
                no = len(old.items)
                if r.entries.keys() == old.entries.keys() and all(
                        r.entries[x][0] is old.entries[x][0] and self.same_val(r.entries[x][1], old.entries[x][1])
                        for x in r.entries) and len(r.items) == no + 1 and isinstance(r.items[-1], One) and no == 0:
                    post.heap[i] = old.rep(items=(self.template(pre, m, k, n, r.items[-1].v),))
                elif self.same_dict(r, old):
                    post.heap[i] = old
                else:
                    post.heap[i] = self.loop_dict_change(pre, m, k, n, old, r)
            elif isinstance(r, HObj):
                ch = [x for x in set(r.attrs) | set(old.attrs)
                      if not self.same_val(r.attrs.get(x), old.attrs.get(x))]
                if ch:
                    attrs = dict(old.attrs)
                    for x in ch:
                        attrs[x] = HAVOC
                    post.heap[i] = HObj(old.cls, attrs)
                else:
                    post.heap[i] = old
            else:
                raise Unsupported('loop changes %r' % type(r))
        # locals
        for fi, f in enumerate(post.frames):
            fm = m.frames[fi]
            fb = pre.frames[fi]
            for name in set(fm.vars) | set(fb.vars):
                if name not in fm.vars:
                    f.vars.pop(name, None)
                elif name not in fb.vars:
                    f.vars[name] = HAVOC
                elif not self.same_val(fm.vars[name], fb.vars[name]):
                    f.vars[name] = HAVOC
        return [(post, NORM)] + out

    def early(self, v):
        """a value returned from inside a loop that means a refusal"""
        return False

    def short_exit(self, pre, s):
        """the state after a loop in one of whose iterations (ending in s) the record turned out to be cut short: what the loop
        changes is not known"""
        e = pre.clone()
        e.pc = s.pc
        e.short = e.approx = True
        for i, r in s.heap.items():
            old = pre.heap.get(i)
            if old is None or r is old:
                continue
            if isinstance(r, HIn):
                e.heap[i] = HIn(None)
            elif isinstance(r, HList):
                e.heap[i] = old.rep(parts=(Many(fresh_int('n'), lambda st, idx: HAVOC),))
            elif isinstance(r, HDict):
                ent = {x: (fresh_bool('pres'), HAVOC) for x in set(r.entries) | set(old.entries)
                       if not (x in old.entries and x in r.entries and r.entries[x][0] is old.entries[x][0] and
                               self.same_val(r.entries[x][1], old.entries[x][1]))}
                items = old.items if len(r.items) == len(old.items) and all(a is b for a, b in zip(r.items, old.items)) else (
                    Many(fresh_int('n'), lambda st, idx: HAVOC),)
                e.heap[i] = old.rep(entries=dict(old.entries, **ent), items=items)
            elif isinstance(r, HObj):
                at = {x: HAVOC for x in set(r.attrs) | set(old.attrs) if not self.same_val(r.attrs.get(x), old.attrs.get(x))}
                e.heap[i] = HObj(old.cls, dict(old.attrs, **at))
            else:
                raise Unsupported('loop over a record cut short')
        for f, fm in zip(e.frames, s.frames):
            for name in set(fm.vars) | set(f.vars):
                if name not in fm.vars:
                    f.vars.pop(name, None)
                elif name not in f.vars or not self.same_val(fm.vars[name], f.vars[name]):
                    f.vars[name] = HAVOC
        return e

    def view_dirty(self, m, val, snap):
        return False

    def same_dict(self, a, b):
        return (a.entries.keys() == b.entries.keys() and len(a.items) == len(b.items) and
                all(x is y for x, y in zip(a.items, b.items)) and
                all(z3.simplify(a.entries[x][0]).eq(z3.simplify(b.entries[x][0])) and
                    self.same_val(a.entries[x][1], b.entries[x][1]) for x in a.entries))

    def loop_dict_change(self, pre, m, k, n, old, r):
        ent = dict(old.entries)
        for x, (p, v) in r.entries.items():
            if x in old.entries and old.entries[x][0] is p and self.same_val(v, old.entries[x][1]):
                continue
            ent[x] = (fresh_bool('pres'), HAVOC)
        if len(r.items) != len(old.items):
            raise Unsupported('dict changed in loop')
        return old.rep(entries=ent)

    def template(self, pre, m, k, n, val):
        """Many(n) whose element idx is val (living in state m) with k := idx"""
        heap = m.heap
        outer = set(pre.heap)
        facts = m.pc[len(pre.pc):]

        def inst(st, idx):
            pairs = [(k, idx)]
            mp = {}
            for f in facts:
                st.add(z3.simplify(z3.substitute(f, *pairs)))
            return self.copy_sub(st, val, heap, outer, pairs, mp)
        return Many(n, inst)

    def copy_sub(self, st, v, heap, outer, pairs, mp):
        if isinstance(v, Ref):
            if v.id in outer:
                return v
            if v.id in mp:
                return mp[v.id]
            rec = heap[v.id]
            nid = fresh_id()
            nr = Ref(nid)
            mp[v.id] = nr
            st.heap[nid] = None
            st.heap[nid] = self.copy_rec(st, rec, heap, outer, pairs, mp)
            return nr
        return self.sub_val(st, v, heap, outer, pairs, mp)

    def copy_rec(self, st, rec, heap, outer, pairs, mp):
        cv = lambda x: self.copy_sub(st, x, heap, outer, pairs, mp)
        if isinstance(rec, HObj):
            return HObj(rec.cls, {a: cv(x) for a, x in rec.attrs.items()})
        if isinstance(rec, HDict):
            return rec.rep(entries={a: (z3.substitute(p, *pairs), cv(x)) for a, (p, x) in rec.entries.items()},
                           items=[self.sub_part(st, p, heap, outer, pairs, mp) for p in rec.items],
                           attrs={a: cv(x) for a, x in rec.attrs.items()})
        if isinstance(rec, HList):
            return rec.rep(parts=[self.sub_part(st, p, heap, outer, pairs, mp) for p in rec.parts],
                           attrs={a: cv(x) for a, x in rec.attrs.items()})
        raise Unsupported('copying %r' % rec)

    def sub_part(self, st, p, heap, outer, pairs, mp):
        if isinstance(p, One):
            return One(self.copy_sub(st, p.v, heap, outer, pairs, mp))
        if isinstance(p, Opt):
            return Opt(z3.substitute(p.c, *pairs) if pairs else p.c, self.copy_sub(st, p.v, heap, outer, pairs, mp))

        def inst(s2, idx, p=p):
            before = set(s2.heap)
            npc = len(s2.pc)
            v = p.inst(s2, idx)
            new = [i for i in s2.heap if i not in before]
            tmp = dict(s2.heap)
            s2.pc = s2.pc[:npc] + tuple(z3.substitute(f, *pairs) for f in s2.pc[npc:])
            mp2 = {}
            return self.copy_sub(s2, v, tmp, before, pairs, mp2)
        return Many(z3.substitute(p.n, *pairs), inst, p.tag)

    def sub_val(self, st, v, heap, outer, pairs, mp):
        f = lambda t: z3.substitute(t, *pairs) if z3.is_expr(t) else t
        if isinstance(v, SInt):
            bits = None if v.bits is None else {i: f(b) for i, b in v.bits.items()}
            return SInt(f(v.t), bits)
        if isinstance(v, SBool):
            return SBool(f(v.t))
        if isinstance(v, SReal):
            return SReal(f(v.t))
        if isinstance(v, SVal):
            return SVal(v.sort, f(v.t), v.kind)
        if isinstance(v, SRef):
            return SRef(self.sub_val(st, v.idx, heap, outer, pairs, mp), v.root)
        if isinstance(v, SObj):
            return SObj(self.sub_val(st, v.idx, heap, outer, pairs, mp))
        if isinstance(v, SBytes):
            return SBytes([subst_seg(s, pairs) for s in v.segs], v.kind)
        if isinstance(v, Union):
            return Union([(f(c), self.copy_sub(st, x, heap, outer, pairs, mp)) for c, x in v.alts])
        if isinstance(v, STuple):
            return STuple([self.copy_sub(st, x, heap, outer, pairs, mp) for x in v.items])
        return v

    # ------------------------------------------------------------ expressions
    def eval(self, n, st):
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, st)

    def ex_Constant(self, n, st):
        return [(st, n.value)]

    def ex_Name(self, n, st):
        fr = st.frames[-1]
        if n.id in fr.vars:
            v = fr.vars[n.id]
            if v is HAVOC:
                raise Unsupported('value of %s after a loop or merge' % n.id)
            return [(st, v)]
        return [(st, self.global_name(fr.fn, n.id))]

    def global_name(self, fn, name):
        if fn is not None:
            if name in fn.closure:
                return fn.closure[name]
            if name in fn.globals:
                return fn.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise Unsupported('name %s' % name)

    def ex_Tuple(self, n, st):
        return self.eval_list(n.elts, st, lambda s, vs: [(s, tuple(vs) if all(is_concrete(v) for v in vs)
                                                          else STuple(vs))])

    def ex_List(self, n, st):
        def go(s, vs):
            s = s.clone()
            return [(s, s.alloc(HList(list, [One(v) for v in vs])))]
        return self.eval_list(n.elts, st, go)

    def ex_Set(self, n, st):
        return self.eval_list(n.elts, st, lambda s, vs: [(s, set(vs))] if all(is_concrete(v) for v in vs)
                              else self._unsup('set'))

    def _unsup(self, w):
        raise Unsupported(w)

    def ex_Dict(self, n, st):
        if any(k is None for k in n.keys):
            raise Unsupported('dict unpack')

        def go(s, vs):
            s = s.clone()
            ks, xs = vs[:len(n.keys)], vs[len(n.keys):]
            if not all(is_concrete(k) for k in ks):
                raise Unsupported('symbolic dict key')
            T = z3.BoolVal(True)
            return [(s, s.alloc(HDict(dict, {k: (T, x) for k, x in zip(ks, xs)})))]
        return self.eval_list(list(n.keys) + list(n.values), st, go)

    def ex_IfExp(self, n, st):
        def go(s, v):
            out = []
            for s2, b in self.truth(s, v):
                if isinstance(b, Ctl):
                    out.append((s2, b))
                else:
                    out.extend(self.eval(n.body if b else n.orelse, s2))
            return out
        return self.bind(self.eval(n.test, st), go)

    def ex_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)

        def go(i, s):
            rs = self.eval(n.values[i], s)
            if i == len(n.values) - 1:
                return rs

            def k(s2, v):
                out = []
                for s3, b in self.truth(s2, v):
                    if isinstance(b, Ctl):
                        out.append((s3, b))
                    elif b == is_and:
                        out.extend(go(i + 1, s3))
                    else:
                        out.append((s3, self.refine(s3, v, b)))
                return out
            return self.bind(rs, k)
        return go(0, st)

    def refine(self, st, v, b):
        if isinstance(v, SBool):
            return b
        return v

    def ex_UnaryOp(self, n, st):
        def go(s, v):
            return self.with_alts(s, v, lambda s2, x: self.unop(s2, n.op, x))
        return self.bind(self.eval(n.operand, st), go)

    def unop(self, s, op, v):
        if isinstance(op, ast.Not):
            if isinstance(v, SBool):
                return [(s, mk_bool(z3.Not(v.t)))]
            return [(s2, b if isinstance(b, Ctl) else (not b)) for s2, b in self.truth(s, v)]
        if is_concrete(v):
            f = {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(op)]
            return [(s, f(v))]
        if isinstance(v, SReal):
            return [(s, SReal(-v.t) if isinstance(op, ast.USub) else v)]
        t = int_term(v)
        if t is not None:
            if isinstance(op, ast.USub):
                return [(s, mk_int(-t))]
            if isinstance(op, ast.UAdd):
                return [(s, v)]
            if isinstance(op, ast.Invert):
                return [(s, mk_int(-t - 1))]
        raise Unsupported('unary op')

    def ex_BinOp(self, n, st):
        return self.bind(self.eval(n.left, st), lambda s, a: self.bind(
            self.eval(n.right, s), lambda s2, b: self.binop(s2, n.op, a, b)))

    def ex_Compare(self, n, st):
        def go(i, s, left):
            def k(s2, right):
                rs = self.compare(s2, n.ops[i], left, right)
                if i == len(n.ops) - 1:
                    return rs

                def k2(s3, v):
                    out = []
                    for s4, b in self.truth(s3, v):
                        if isinstance(b, Ctl):
                            out.append((s4, b))
                        elif b:
                            out.extend(go(i + 1, s4, right))
                        else:
                            out.append((s4, False))
                    return out
                return self.bind(rs, k2)
            return self.bind(self.eval(n.comparators[i], s), k)
        return self.bind(self.eval(n.left, st), lambda s, l: go(0, s, l))

    def ex_Attribute(self, n, st):
        return self.bind(self.eval(n.value, st), lambda s, o: self.getattr(s, o, n.attr))

    def eval_index(self, sl, st):
        if isinstance(sl, ast.Slice):
            def go(s, vs):
                it = iter(vs)
                lo = next(it) if sl.lower is not None else None
                hi = next(it) if sl.upper is not None else None
                step = next(it) if sl.step is not None else None
                return [(s, ('__slice__', lo, hi, step) if False else SliceVal(lo, hi, step))]
            return self.eval_list([x for x in (sl.lower, sl.upper, sl.step) if x is not None], st, go)
        return self.eval(sl, st)

    def ex_Subscript(self, n, st):
        return self.bind(self.eval(n.value, st), lambda s, o: self.bind(
            self.eval_index(n.slice, s), lambda s2, i: self.getitem(s2, o, i)))

    def ex_JoinedStr(self, n, st):
        parts = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]

        def go(s, vs):
            if all(is_concrete(v) for v in vs):
                it = iter(vs)
                r = ''
                for v in n.values:
                    r += v.value if isinstance(v, ast.Constant) else str(next(it))
                if all(v.conversion == -1 and v.format_spec is None for v in n.values if isinstance(v, ast.FormattedValue)):
                    return [(s, r)]
            return [(s, SVal('Str', fresh('Str', 'fmt'), str))]
        return self.eval_list(parts, st, go)

    def ex_ListComp(self, n, st):
        """evaluated like  tmp = []; for ...: tmp.append(elt)"""
        st = st.clone()
        ref = st.alloc(HList(list, ()))
        saved = dict(st.vars)

        def body(s):
            def app(s2, v):
                s2 = s2.clone()
                r = s2.heap[ref.id]
                s2.heap[ref.id] = r.rep(parts=r.parts + (One(v),))
                return [(s2, NORM)]
            return self.to_outcomes(self.eval(n.elt, s), app)
        out = []
        for s, o in self.comp_loop(st, n.generators, 0, body):
            s = s.clone()
            for name in list(s.vars):
                if name not in saved:
                    del s.vars[name]
            for name in saved:
                s.vars[name] = saved[name]
            out.append((s, ref if o is NORM else Ctl(o)))
        return out

    def ex_GeneratorExp(self, n, st):
        return [(st, GenExp(n, None, st.frames[-1].fn))]

    def ex_DictComp(self, n, st):
        st = st.clone()
        ref = st.alloc(HDict(dict))
        saved = dict(st.vars)

        def body(s):
            return self.to_outcomes(self.eval(n.key, s), lambda s2, k: self.to_outcomes(
                self.eval(n.value, s2), lambda s3, v: self.to_outcomes(self.setitem(s3, ref, k, v))))
        out = []
        for s, o in self.comp_loop(st, n.generators, 0, body):
            s = s.clone()
            s.frames[-1].vars = {a: saved[a] for a in saved}
            out.append((s, ref if o is NORM else Ctl(o)))
        return out

    def ex_Lambda(self, n, st):
        return [(st, LambdaVal(n, dict(st.vars), st.frames[-1].fn))]

    def ex_NamedExpr(self, n, st):
        def go(s, v):
            s = s.clone()
            s.vars[n.target.id] = v
            return [(s, v)]
        return self.bind(self.eval(n.value, st), go)

    def ex_Call(self, n, st):
        if any(k.arg is None for k in n.keywords):
            kwnames = None
        nodes = list(n.args) + [k.value for k in n.keywords]

        def withf(s, f):
            def go(s2, vs):
                extra = len(vs) - len(n.keywords)
                args = vs[:extra]
                kw = {}
                for k, v in zip(n.keywords, vs[extra:]):
                    if k.arg is None:
                        if isinstance(v, Ref) and isinstance(s2.heap[v.id], HDict):
                            for kk, (p, vv) in s2.heap[v.id].entries.items():
                                kw[kk] = vv
                        elif isinstance(v, dict):
                            kw.update(v)
                        else:
                            raise Unsupported('**kwargs')
                    else:
                        kw[k.arg] = v
                return self.call(s2, f, args, kw)
            if f is super and not nodes:
                return [(s, self.zero_super(s))]
            return self.eval_list(nodes, s, go)
        return self.bind(self.eval(n.func, st), withf)

    def zero_super(self, st):
        fn = st.frames[-1].fn
        cls = fn.closure.get('__class__')
        a0 = fn.node.args.args[0].arg
        if cls is None:
            raise Unsupported('super()')
        return SuperProxy(cls, st.vars[a0])

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, kw):
        if isinstance(f, Union):
            return self.with_alts(st, f, lambda s, g: self.call(s, g, args, kw))
        if isinstance(f, Bound):
            return self.call(st, f.fn, [f.self] + list(args), kw)
        if isinstance(f, Intrinsic):
            return self.call_intrinsic(st, f, args, kw)
        if isinstance(f, LambdaVal):
            s = st.clone()
            a = f.node.args
            vars_ = dict(f.frame)
            for p, v in zip(a.args, args):
                vars_[p.arg] = v
            s.frames.append(Frame(vars_, f.fn))
            out = []
            for s2, v in self.eval(f.node.body, s):
                s2 = s2.clone()
                s2.frames.pop()
                out.append((s2, v))
            return out
        if isinstance(f, staticmethod):
            f = f.__func__
        if isinstance(f, types.MethodType) and self.src.owns(f.__func__):
            return self.call(st, f.__func__, [f.__self__] + list(args), kw)
        if f in self.contracts_keys():
            r = self.contracts[f](self, st, list(args), dict(kw))
            if r is not NotImplemented:
                return r
        if isinstance(f, types.FunctionType) and self.src.owns(f):
            return self.call_py(st, f, list(args), dict(kw))
        return self.call_builtin(st, f, list(args), dict(kw))

    def contracts_keys(self):
        return self.contracts

    def bind_args(self, st, info, args, kw):
        a = info.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        vars_ = {}
        fn = info.fn
        defaults = fn.__defaults__ or ()
        kw = dict(kw)
        if len(args) > len(names) and a.vararg is None:
            return None
        for nme, v in zip(names, args):
            vars_[nme] = v
        rest = args[len(names):]
        if a.vararg is not None:
            vars_[a.vararg.arg] = tuple(rest) if all(is_concrete(x) for x in rest) else STuple(rest)
        for nme in names[len(args):]:
            if nme in kw:
                vars_[nme] = kw.pop(nme)
            else:
                i = names.index(nme) - (len(names) - len(defaults))
                if i < 0:
                    return None
                vars_[nme] = defaults[i]
        for p in a.kwonlyargs:
            if p.arg in kw:
                vars_[p.arg] = kw.pop(p.arg)
            elif fn.__kwdefaults__ and p.arg in fn.__kwdefaults__:
                vars_[p.arg] = fn.__kwdefaults__[p.arg]
            else:
                return None
        if a.kwarg is not None:
            T = z3.BoolVal(True)
            vars_[a.kwarg.arg] = st.alloc(HDict(dict, {k: (T, v) for k, v in kw.items()}))
            kw = {}
        if any(k in vars_ for k in kw) or kw:
            return None
        return vars_

    def call_py(self, st, fn, args, kw):
        info = self.src.info(fn)
        st = st.clone()
        vars_ = self.bind_args(st, info, args, kw)
        if vars_ is None:
            return [(st, raise_(TypeError, 'arguments of ' + info.qual))]
        if info.isgen:
            return [(st, GenCall(info, vars_))]
        self.used.add(info.qual)
        st.frames.append(Frame(vars_, info))
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported('recursion in ' + info.qual)
        try:
            res = self.exec_block(info.node.body, st)
        finally:
            self.depth -= 1
        out = []
        rets = []
        for s, o in res:
            s = s.clone()
            s.frames.pop()
            if o is NORM:
                rets.append((s, None))
            elif o[0] == 'ret':
                rets.append((s, o[1]))
            elif o[0] in ('exc', 'gen'):
                out.append((s, Ctl(o)))
            else:
                raise Unsupported('stray %s' % o[0])
        return self.merge_rets(rets) + out

    def merge_rets(self, rets):
        if len(rets) < 2 or not self.merge:
            return rets
        for s, v in rets:
            s.frames.append(Frame({'__ret__': v}, None))
        m = self.merge_states([(s, NORM) for s, v in rets])
        out = []
        for s, _ in m:
            s = s.clone()
            fr = s.frames.pop()
            out.append((s, fr.vars['__ret__']))
        return out


class SliceVal:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def same_pos(p, q):
    while True:
        if p is None or q is None:
            return p is q
        if p is q:
            return True
        if p[0] is not q[0] or p[1] != q[1]:
            return False
        p, q = p[2], q[2]


def int_bits(x):
    if isinstance(x, SInt):
        return x.bits
    if isinstance(x, int) and x >= 0:
        return {i: z3.BoolVal(True) for i in range(x.bit_length()) if x >> i & 1}
    return None
