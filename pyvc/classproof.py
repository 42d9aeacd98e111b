"""Verification of one record class against its layout: write produces exactly the layout, read restores every field."""
import time
import types
import z3
from .values import *
from .interp import Interp, State, Frame, Solver, Refuted, NORM, Ctl, is_concrete, int_term, mk_int, mk_bool, same_pos
from .prims import as_term, int_t
from .layout import *


class Failure(Exception):
    def __init__(self, what, conds=None):
        Exception.__init__(self, what)
        self.what, self.conds = what, conds


class Obligations:
    """record of proof obligations: name, status, detail"""
    def __init__(self):
        self.items = []

    def add(self, name, status, detail='', conds=None, ctx=None):
        self.items.append(dict(name=name, status=status, detail=detail, conds=conds, ctx=ctx))

    def count(self, st):
        return sum(1 for i in self.items if i['status'] == st)


class ClassVerifier:
    def __init__(self, interp, mods, obs, deadline=None):
        self.I = interp
        self.m = mods
        self.obs = obs
        self.checked = 0
        self.deadline = deadline

    # ---------------------------------------------------------- building
    def find_class(self, name):
        for m in self.m.values():
            c = getattr(m, name, None)
            if isinstance(c, type):
                return c
        raise Unsupported('class %s not found' % name)

    def root(self, st, order, reading):
        f = self.m['file'].AVBFile
        at = dict(reading=reading, debug_copy_refs=False, check_refs=True)
        at['ictx'] = Ctx(order)
        at['octx'] = Ctx(order)
        return st.alloc(HObj(f, at))

    def list_cls(self, name, refmode='ref'):
        if name == 'list' or name == 'AVBRefList' and refmode == 'obj':
            return list
        return self.find_class(name)

    def build(self, st, v, root, parent=None, refmode='obj'):
        """heap value for an expected value"""
        b = lambda x, p=parent: self.build(st, x, root, p, refmode)
        if isinstance(v, VLeaf):
            k = v.kind
            if k == 'int':
                return SInt(v.t) if z3.is_expr(v.t) else v.t
            if k == 'bool':
                return SBool(v.t)
            if k == 'ref':
                return SObj(SInt(v.t)) if refmode == 'obj' else SRef(SInt(v.t), root)
            if k == 'nstr':
                return Union([(str_empty(v.t), None), (z3.Not(str_empty(v.t)), SVal('Str', v.t, str))])
            if k == 'const':
                return v.t
            if k in ('bytes', 'bytearray'):
                return SVal('Bytes', v.t, bytearray if k == 'bytearray' else bytes)
            pt = {'float': float, 'str': str, 'mobid': self.m['mobid'].MobID}.get(k)
            if pt is None:
                import uuid
                import datetime
                pt = {'uuid': uuid.UUID, 'datetime': datetime.datetime}[k]
            return SVal(SORT_OF[k], v.t, pt)
        if isinstance(v, VSwitch):
            return Union([(c, b(x)) for c, x in v.alts])
        if isinstance(v, VList):
            cls = self.list_cls(v.cls, refmode)
            return st.alloc(HList(cls, [One(b(x)) for x in v.items], self.list_attrs(cls, root, parent)))
        if isinstance(v, VMany):
            cls = self.list_cls(v.cls, refmode)

            def inst(s, idx):
                x, facts = v.elem(idx)
                s.add(*facts)
                return self.build(s, x, root, parent, refmode)
            return st.alloc(HList(cls, [Many(v.n, inst)], self.list_attrs(cls, root, parent)))
        if isinstance(v, VDict):
            return st.alloc(HDict(dict, {n: (p, b(x)) for n, (p, x) in v.fields.items()}))
        if isinstance(v, VMap):
            cls = self.find_class(v.cls)

            def inst(s, idx):
                kx, x, facts = v.elem(idx)
                s.add(*facts)
                return STuple((self.build(s, kx, root, parent, refmode), self.build(s, x, root, parent, refmode)))
            return st.alloc(HDict(cls, {}, [Many(v.n, inst)], {'root': root}))
        if isinstance(v, VObj):
            cls = self.find_class(v.cls)
            o = st.alloc(HObj(cls, {}))
            pd = st.alloc(HDict(self.m['core'].AVBPropertyData, {n: (p, b(x, o)) for n, (p, x) in v.fields.items()}))
            st.heap[o.id] = HObj(cls, {'root': root, 'property_data': pd})
            return o
        raise Unsupported('build %r' % (v,))

    def list_attrs(self, cls, root, parent):
        if cls is list:
            return {}
        return {'root': root, 'parent': parent}

    # ---------------------------------------------------------- obligations
    def goal(self, st, cond, what):
        self.checked += 1
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time budget used up')
        if cond is True or cond is False:
            cond = z3.BoolVal(cond)
        if self.I.entails(st, cond):
            return
        r = self.I.solver.check(st.pc + (z3.Not(z3.simplify(cond)),))
        if r == 'unknown':
            raise Unsupported('solver gave up on: ' + what)
        if st.approx:
            raise Unsupported('not provable over an abstracted state: ' + what)
        raise Failure(what, st.pc + (z3.Not(cond),))

    # ---------------------------------------------------------- stream comparison
    def streams(self, st, a, e, where='record'):
        """bytes of a (written) equal bytes of e (layout) under st"""
        a, e = list(a), list(e)
        budget = [4000]
        self._cmp(st, a, e, where, budget)

    def _cmp(self, st, a, e, where, budget):
        I = self.I
        while True:
            budget[0] -= 1
            if budget[0] < 0:
                raise Unsupported('too many alternatives when comparing %s' % where)
            a = self.skip_empty(st, a)
            e = self.skip_empty(st, e)
            if not a and not e:
                return
            if not I.feasible(st):
                return
            ha = a[0] if a else None
            he = e[0] if e else None
            if isinstance(ha, CondSeg) or isinstance(he, CondSeg):
                if isinstance(ha, CondSeg) and isinstance(he, CondSeg):
                    try:
                        for c1, s1 in ha.alts:
                            for c2, s2 in he.alts:
                                s = st.assume(c1, c2)
                                if I.feasible(s):
                                    self._cmp(s, list(s1), list(s2), where, budget)
                        a, e = a[1:], e[1:]
                        continue
                    except Failure:
                        pass
                # expand one side into the separate cases
                h, rest, other, mine_a = (ha, a[1:], e, True) if isinstance(ha, CondSeg) else (he, e[1:], a, False)
                for c, ss in h.alts:
                    s = st.assume(c)
                    if I.feasible(s):
                        if mine_a:
                            self._cmp(s, list(ss) + rest, list(other), where, budget)
                        else:
                            self._cmp(s, list(other), list(ss) + rest, where, budget)
                return
            if ha is None or he is None:
                if isinstance(ha or he, RepSeg):
                    self.goal(st, (ha or he).n <= 0, '%s: %s' % (where, 'extra data written' if he is None else 'data missing'))
                    a, e = a[1:], e[1:]
                    continue
                l = seg_len(ha or he)
                if l is not None and not isinstance(l, int):
                    self.goal(st, l <= 0, '%s: %s %r' % (where, 'extra data written' if he is None else 'data missing', ha or he))
                    a, e = a[1:], e[1:]
                    continue
                self.goal(st, False, '%s: %s: %r' % (where, 'writes extra' if he is None else 'does not write', ha or he))
                return
            if isinstance(ha, IntSeg) and isinstance(he, IntSeg) and ha.w == he.w and ha.order == he.order:
                x, y = as_term(ha.t), as_term(he.t)
                if ha.signed != he.signed:
                    m = 1 << (8 * ha.w)
                    x, y = z3.If(x < 0, x + m, x), z3.If(y < 0, y + m, y)
                self.goal(st, x == y, '%s: writes %r instead of %r' % (where, ha, he))
                a, e = a[1:], e[1:]
                continue
            if isinstance(ha, ValSeg) and isinstance(he, ValSeg) and ha.kind == he.kind and ha.order == he.order:
                self.goal(st, ha.t == he.t, '%s: writes %r instead of %r' % (where, ha, he))
                a, e = a[1:], e[1:]
                continue
            if isinstance(ha, RepSeg) and isinstance(he, RepSeg):
                self.goal(st, z3.Or(ha.n == he.n, z3.And(ha.n <= 0, he.n <= 0)),
                          '%s: writes %s elements instead of %s' % (where, ha.n, he.n))
                k = fresh_int('k')
                s = st.assume(k >= 0, k < he.n)
                s.add(*[z3.substitute(f, (ha.k, k)) for f in ha.facts])
                s.add(*[z3.substitute(f, (he.k, k)) for f in he.facts])
                self._cmp(s, [subst_seg(x, [(ha.k, k)]) for x in ha.segs], [subst_seg(x, [(he.k, k)]) for x in he.segs],
                          where + ' element', budget)
                a, e = a[1:], e[1:]
                continue
            if isinstance(ha, BlobSeg) and isinstance(he, BlobSeg):
                if ha.t.eq(he.t) or I.entails(st, ha.t == he.t):
                    self.goal(st, z3.And(as_term(ha.lo) == as_term(he.lo), as_term(ha.hi) == as_term(he.hi)),
                              '%s: writes %r instead of %r' % (where, ha, he))
                    a, e = a[1:], e[1:]
                    continue
                self.goal(st, z3.And(ha.t == he.t, as_term(ha.lo) == as_term(he.lo), as_term(ha.hi) == as_term(he.hi)),
                          '%s: writes %r instead of %r' % (where, ha, he))
                a, e = a[1:], e[1:]
                continue
            pair = self.rep_bytes(ha, he) or self.rep_bytes(he, ha)
            if pair:
                r, b = pair
                n = as_term(b.hi) - as_term(b.lo)
                self.goal(st, z3.Or(r.n == n, z3.And(r.n <= 0, n <= 0)), '%s: writes %r instead of %r' % (where, ha, he))
                k = fresh_int('k')
                s = st.assume(k >= 0, k < n)
                t = bat(b.t, z3.simplify(as_term(b.lo) + k))
                s.add(t >= 0, t < 256, *[z3.substitute(f, (r.k, k)) for f in r.facts])
                x = I.expand(s, subst_seg(r.segs[0], [(r.k, k)]))[0]
                self.goal(s, as_term(x.t) == t, '%s element: writes %r instead of %r' % (where, ha, he))
                a, e = a[1:], e[1:]
                continue
            if isinstance(ha, RepSeg) or isinstance(he, RepSeg):
                r = ha if isinstance(ha, RepSeg) else he
                if I.feasible(st, r.n <= 0):
                    s0 = st.assume(r.n <= 0)
                    self._cmp(s0, a[1:] if r is ha else list(a), e[1:] if r is he else list(e), where, budget)
                    st = st.assume(r.n > 0)
                self.goal(st, False, '%s: writes %r instead of %r' % (where, ha, he))
                return
            xa = [ha] if seg_len(ha) == 1 else I.expand(st, ha)
            xe = [he] if seg_len(he) == 1 else I.expand(st, he)
            if isinstance(ha, BlobSeg) or isinstance(he, BlobSeg):
                blob = ha if isinstance(ha, BlobSeg) else he
                b = I.fork(st, blob.hi > blob.lo)
                if len(b) == 2:
                    for s, t in b:
                        if t:
                            self._cmp(s, list(a), list(e), where, budget)
                        else:
                            self._cmp(s, a[1:] if blob is ha else list(a), e[1:] if blob is he else list(e), where, budget)
                    return
                x = [IntSeg(1, False, 'little', bat(blob.t, z3.simplify(as_term(blob.lo)))),
                     BlobSeg(blob.t, z3.simplify(blob.lo + 1), blob.hi)]
                if blob is ha:
                    xa = x
                else:
                    xe = x
            if xa is None or xe is None:
                self.goal(st, False, '%s: writes %r instead of %r' % (where, ha, he))
                return
            if len(xa) == 1 and len(xe) == 1 and isinstance(ha, IntSeg) and isinstance(he, IntSeg):
                self.goal(st, False, '%s: writes %r instead of %r' % (where, ha, he))
                return
            a, e = list(xa) + a[1:], list(xe) + e[1:]

    @staticmethod
    def rep_bytes(r, b):
        if isinstance(r, RepSeg) and isinstance(b, BlobSeg) and len(r.segs) == 1 and isinstance(r.segs[0], IntSeg) \
                and r.segs[0].w == 1:
            return r, b

    def skip_empty(self, st, a):
        while a:
            h = a[0]
            if isinstance(h, CondSeg):
                live = [(c, s) for c, s in h.alts if self.I.feasible(st, c)]
                if len(live) == 1:
                    a = list(live[0][1]) + a[1:]
                    continue
            if isinstance(h, BlobSeg) and self.I.entails(st, as_term(h.hi) <= as_term(h.lo)):
                a = a[1:]
                continue
            if isinstance(h, RepSeg) and self.I.entails(st, h.n <= 0):
                a = a[1:]
                continue
            return a
        return a

    # ---------------------------------------------------------- value comparison (after reading)
    def same(self, st, x, v, root, where):
        I = self.I
        if x is HAVOC:
            raise Unsupported('%s is not determined' % where)
        if isinstance(x, Union):
            for c, y in x.alts:
                s = st.assume(c)
                if I.feasible(s):
                    self.same(s, y, v, root, where)
            return
        if isinstance(v, VSwitch):
            for c, y in v.alts:
                s = st.assume(c)
                if I.feasible(s):
                    self.same(s, x, y, root, where)
            return
        bad = lambda: self.goal(st, False, '%s: got %r, expected %r' % (where, x, v))
        if isinstance(v, VLeaf):
            k = v.kind
            if k == 'int':
                t = int_term(x)
                if t is None or isinstance(x, (bool, SBool)):
                    return bad()
                return self.goal(st, t == v.t, '%s: got %s, stored %s' % (where, t, v.t))
            if k == 'bool':
                if not isinstance(x, (bool, SBool)):
                    return bad()
                t = x.t if isinstance(x, SBool) else z3.BoolVal(x)
                return self.goal(st, t == v.t, '%s: got %s, stored %s' % (where, t, v.t))
            if k == 'ref':
                if not isinstance(x, (SRef, SObj)):
                    if x is None:
                        return self.goal(st, v.t == 0, '%s: got None' % where)
                    return bad()
                if isinstance(x, SRef) and x.root != root:
                    return bad()
                return self.goal(st, int_t(x.idx) == v.t, '%s: refers to %s, stored %s' % (where, x.idx, v.t))
            if k == 'nstr':
                if x is None:
                    return self.goal(st, str_empty(v.t), '%s: got None' % where)
                t = I.term_of(st, x, 'Str')
                if t is None:
                    return bad()
                return self.goal(st, z3.And(t == v.t, z3.Not(str_empty(v.t))), '%s: got %s' % (where, t))
            if k == 'const':
                return self.goal(st, is_concrete(x) and x == v.t, '%s: got %r' % (where, x))
            if k in ('bytes', 'bytearray'):
                if not I.is_bytes(x):
                    return bad()
                return self.streams(st, I.to_segs(st, x), [BlobSeg(v.t)], where)
            sort = SORT_OF[k]
            if k == 'str' and isinstance(x, str) and x == '':
                return self.goal(st, str_empty(v.t), '%s: got empty string' % where)
            t = I.term_of(st, x, sort) if (isinstance(x, SVal) or (k == 'str' and isinstance(x, str))) else None
            if t is None:
                return bad()
            return self.goal(st, t == v.t, '%s: got %s, stored %s' % (where, t, v.t))
        if isinstance(v, (VList, VMany)):
            cls = self.list_cls(v.cls)
            if isinstance(x, STuple) or isinstance(x, tuple):
                if cls is not list:
                    return bad()
                parts = [One(i) for i in (x.items if isinstance(x, STuple) else x)]
            elif isinstance(x, Ref) and isinstance(st.heap[x.id], HList):
                rec = st.heap[x.id]
                if rec.cls is not cls:
                    return bad()
                if cls is not list:
                    if rec.attrs.get('root') != root:
                        return bad()
                parts = list(rec.parts)
            else:
                return bad()
            if isinstance(v, VList):
                if not all(isinstance(p, One) for p in parts):
                    raise Unsupported('%s has a symbolic length' % where)
                if len(parts) != len(v.items):
                    return bad()
                for i, (p, y) in enumerate(zip(parts, v.items)):
                    self.same(st, p.v, y, root, '%s[%d]' % (where, i))
                return
            n = as_term(I.list_len(HList(list, parts)))
            self.goal(st, n == v.n, '%s: %s elements, stored %s' % (where, n, v.n))
            if len(parts) == 0:
                return
            if len(parts) != 1 or not isinstance(parts[0], Many):
                # parts at known positions
                base = z3.IntVal(0)
                for p in parts:
                    if isinstance(p, One):
                        y, facts = v.elem(z3.simplify(base))
                        s = st.assume(*facts)
                        self.same(s, p.v, y, root, where + '[]')
                        base = base + 1
                    else:
                        self.same_many(st, p, v, root, where, base)
                        base = base + p.n
                return
            return self.same_many(st, parts[0], v, root, where, z3.IntVal(0))
        if isinstance(v, VDict):
            if not (isinstance(x, Ref) and isinstance(st.heap[x.id], HDict)):
                return bad()
            return self.same_fields(st, st.heap[x.id], v.fields, root, where)
        if isinstance(v, VMap):
            if not (isinstance(x, Ref) and isinstance(st.heap[x.id], HDict)):
                return bad()
            rec = st.heap[x.id]
            if rec.entries:
                return bad()
            n = z3.IntVal(0)
            for p in rec.items:
                n = n + (1 if isinstance(p, One) else p.n)
            self.goal(st, n == v.n, '%s: %s entries, stored %s' % (where, n, v.n))
            if not rec.items:
                return
            if len(rec.items) != 1 or not isinstance(rec.items[0], Many):
                raise Unsupported('mapping shape')
            k = fresh_int('k')
            s = st.assume(k >= 0, k < v.n)
            y = rec.items[0].inst(s, k)
            kx, vx, facts = v.elem(k)
            s.add(*facts)
            self.same(s, y.items[0], kx, root, where + ' key')
            self.same(s, y.items[1], vx, root, where + ' value')
            return
        if isinstance(v, VObj):
            if not (isinstance(x, Ref) and isinstance(st.heap[x.id], HObj)):
                return bad()
            rec = st.heap[x.id]
            cls = self.find_class(v.cls)
            if rec.cls is not cls:
                return bad()
            if rec.attrs.get('root') != root:
                self.goal(st, False, '%s: element belongs to no file' % where)
            pd = st.heap[rec.attrs['property_data'].id]
            return self.same_fields(st, pd, v.fields, root, where)
        raise Unsupported('compare %r' % (v,))

    def same_many(self, st, p, v, root, where, base):
        k = fresh_int('k')
        s = st.assume(k >= 0, k < p.n)
        x = p.inst(s, k)
        y, facts = v.elem(z3.simplify(base + k))
        s.add(*facts)
        if not self.I.feasible(s):
            return
        self.same(s, x, y, root, where + '[k]')

    def same_fields(self, st, rec, fields, root, where):
        if rec.items:
            self.goal(st, False, '%s has unexpected entries' % where)
        F = z3.BoolVal(False)
        for n in list(fields) + [m for m in rec.entries if m not in fields]:
            p, v = fields.get(n, (F, None))
            q, x = rec.entries.get(n, (F, None))
            self.goal(st, p == q, '%s.%s is %s' % (where, n, 'missing' if n not in rec.entries else
                                                   'set although not stored' if n not in fields else
                                                   'present in other cases than stored'))
            if n in fields and n in rec.entries:
                s = st.assume(p)
                if self.I.feasible(s):
                    self.same(s, x, v, root, where + '.' + n)

    # ---------------------------------------------------------- the two proofs
    def run(self, st, fn_owner, meth, obj, f):
        I = self.I
        st.frames.append(Frame({}, None))
        bound = I.getattr(st, obj, meth)
        out = []
        for s, b in bound:
            out.extend(I.call(s, b, [f], {}))
        return out

    def verify_write(self, lay, order, refmode='obj'):
        env = SymEnv(order)
        v, segs = lay.make(env)
        st = State()
        st.pc = tuple(env.facts)
        self._vac(st, lay)
        root = self.root(st, order, False)
        obj = self.build(st, v, root, None, refmode)
        f = st.alloc(HOut())
        name = '%s.write %s' % (lay.name, order)
        n0 = self.checked
        ends = 0
        reach = False
        for s, r in self.run(st, None, 'write', obj, f):
            if isinstance(r, Ctl):
                self.no_raise(s, r, name)
                continue
            ends += 1
            self.streams(s, s.heap[f.id].segs, segs, name)
            reach = reach or self.I.solver.check(s.pc) == 'sat'
        if not ends:
            raise Failure(name + ': no normal end')
        if not reach:
            raise Unsupported(name + ': no reachable normal end')
        return self.checked - n0

    def no_raise(self, s, r, name):
        e = r.out[1] if r.out[0] == 'exc' else r.out
        self.checked += 1
        res = self.I.solver.check(s.pc)
        if res == 'unsat':
            return
        if res == 'unknown' or s.approx and not self._exact(s):
            # an exception inside a symbolic iteration is exact: the path condition pins one iteration
            raise Unsupported('%s: may raise %r' % (name, e))
        raise Failure('%s raises %r' % (name, e), s.pc)

    def _exact(self, s):
        return True

    def _vac(self, st, lay):
        if self.I.solver.check(st.pc) != 'sat':
            raise Failure('layout of %s has contradictory assumptions' % lay.name)

    def verify_read(self, lay, order):
        env = SymEnv(order)
        v, segs = lay.make(env)
        st = State()
        st.pc = tuple(env.facts)
        root = self.root(st, order, True)
        cls = self.find_class(lay.cls)
        st.frames.append(Frame({}, None))
        res = self.I.call(st, self.I_new(cls), [cls], {'root': root})
        n0 = self.checked
        name = '%s.read %s' % (lay.name, order)
        ends = 0
        reach = False
        for s0, obj in res:
            if isinstance(obj, Ctl):
                self.no_raise(s0, obj, name)
                continue
            s0 = s0.clone()
            f = s0.alloc(HIn((tuple(segs), 0, None)))
            for s, r in self.run(s0, None, 'read', obj, f):
                if isinstance(r, Ctl):
                    self.no_raise(s, r, name)
                    continue
                ends += 1
                pos = self.I.norm_pos(s, s.heap[f.id].pos)
                if pos is not None:
                    self.leftover(s, pos, name)
                self.same(s, obj, v, root, name)
                reach = reach or self.I.solver.check(s.pc) == 'sat'
        if not ends:
            raise Failure(name + ': no normal end')
        if not reach:
            raise Unsupported(name + ': no reachable normal end')
        return self.checked - n0

    def read_states(self, lay, order, segs, facts, name):
        """(state, result) of reading the record"""
        st = State()
        st.pc = tuple(facts)
        self._vac(st, lay)
        root = self.root(st, order, True)
        cls = self.find_class(lay.cls)
        st.frames.append(Frame({}, None))
        for s0, obj in self.I.call(st, self.I_new(cls), [cls], {'root': root}):
            if isinstance(obj, Ctl):
                continue
            s0 = s0.clone()
            f = s0.alloc(HIn((tuple(segs), 0, None)))
            for s, r in self.run(s0, None, 'read', obj, f):
                if self.deadline is not None and time.time() > self.deadline:
                    raise Unsupported('time budget used up')
                yield s, r, f

    def verify_choices(self, lay, order):
        """a record in which the kind of a value is arbitrary: reading ends normally only if it is one of those there are"""
        return self.verify_markers(lay, order, True)

    def verify_markers(self, lay, order, choices=False):
        """a record with arbitrary markers and followed by any bytes: reading ends normally only if every marker has the
        expected value, and leaves exactly the bytes after the record unread (read_object refuses those, C07)"""
        known = Marks(tags=lay.tags)
        lay.make(SymEnv(order, marks=known))
        marks = Marks(known.tags, choices=choices)
        env = SymEnv(order, marks=marks)
        v, segs = lay.make(env)
        extra = z3.Const('extra bytes', SORTS['Bytes'])
        end = BlobSeg(extra, z3.IntVal(0), blen(extra))
        name = '%s.markers %s' % (lay.name, order)

        def goals(ss, guard=()):
            out = []
            for x in ss:
                if isinstance(x, CondSeg):
                    for c, alt in x.alts:
                        out += goals(alt, guard + (c,))
                elif isinstance(x, IntSeg) and z3.is_expr(x.t) and z3.is_app(x.t) and x.t.decl().name() in marks.names:
                    v = marks.names[x.t.decl().name()]
                    vs = v if isinstance(v, tuple) else (v,)
                    out.append((z3.Implies(z3.And(*guard), z3.Or(*[x.t == k for k in vs])), 'another %s than %s (%s)' % (
                        'marker' if vs is not v else 'kind of value', ', '.join(map(str, vs)), x.t)))
            return out
        n0 = self.checked
        self.I.marker = goals
        try:
            for s, r, f in self.read_states(lay, order, list(segs) + [end], env.facts + [blen(extra) >= 0], name):
                self.checked += 1
                if isinstance(r, Ctl) or not self.I.feasible(s):
                    continue
                for g, what in goals(segs):
                    self.goal(s, g, '%s: a record with %s is accepted' % (name, what))
                pos = self.I.norm_pos(s, s.heap[f.id].pos)
                rest = []
                while pos is not None:
                    rest.extend(pos[0][pos[1]:])
                    pos = pos[2]
                self.streams(s, rest, [end], name + ': bytes after the record')
        finally:
            self.I.marker = None
        return self.checked - n0

    def verify_blocks(self, lay, order):
        """a record with an optional block the class does not have, at the end of any of its parts, is refused"""
        known = Marks(tags=lay.tags)
        lay.make(SymEnv(order, marks=known))
        n0 = self.checked
        for k in range(known.parts):
            env = SymEnv(order, marks=Marks(known.tags, block=k))
            v, segs = lay.make(env)
            name = '%s.blocks %s' % (lay.name, order)
            for s, r, f in self.read_states(lay, order, segs, env.facts, name):
                self.checked += 1
                if not isinstance(r, Ctl):
                    self.goal(s, z3.BoolVal(False), '%s: a record with an unknown block in part %d is accepted' % (name, k + 1))
        return self.checked - n0

    def verify_cut(self, lay, order):
        """a record cut short anywhere is refused"""
        env = SymEnv(order)
        v, segs = lay.make(env)
        name = '%s.cut short %s' % (lay.name, order)
        n0 = self.checked
        self.I.cut = True
        try:
            for s, r, f in self.read_states(lay, order, segs, env.facts, name):
                self.checked += 1
                if isinstance(r, Ctl) or not s.short:
                    continue
                res = self.I.solver.check(s.pc)
                if res == 'unsat':
                    continue
                if res == 'unknown':
                    raise Unsupported('solver gave up')
                raise Failure(name + ': a record cut short is accepted', s.pc)
        finally:
            self.I.cut = False
        return self.checked - n0

    def I_new(self, cls):
        for c in cls.__mro__:
            if '__new__' in c.__dict__:
                n = c.__dict__['__new__']
                return n.__func__ if isinstance(n, staticmethod) else n
        return object.__new__

    def leftover(self, s, pos, name):
        rest = []
        while pos is not None:
            rest.extend(pos[0][pos[1]:])
            pos = pos[2]
        self.streams(s, rest, [], name + ' leaves part of the record unread')


def check_class(V, lay, obs, orders=('little', 'big'), which=('write', 'read')):
    """run the proofs of one class; outcomes recorded in obs"""
    I = V.I
    for order in orders:
        for w in which:
            name = '%s.%s[%s]' % (lay.name, w, order)
            t = time.time()
            try:
                if w == 'write':
                    n = V.verify_write(lay, order, 'obj')
                    n += V.verify_write(lay, order, 'ref')
                elif w == 'markers':
                    n = V.verify_markers(lay, order)
                elif w == 'choices':
                    n = V.verify_choices(lay, order)
                elif w == 'blocks':
                    n = V.verify_blocks(lay, order)
                elif w == 'cut':
                    n = V.verify_cut(lay, order)
                else:
                    n = V.verify_read(lay, order)
                obs.add(name, 'discharged', '%d goals, %.1fs' % (n, time.time() - t), ctx=n)
            except Failure as e:
                obs.add(name, 'refuted', e.what, e.conds, ctx=(lay, order, w))
            except Refuted as e:
                obs.add(name, 'refuted', e.what, e.state.pc + ((e.cond,) if e.cond is not None else ()), ctx=(lay, order, w))
            except Mismatch as e:
                obs.add(name, 'refuted', str(e), None, ctx=(lay, order, w))
            except (Unsupported, RecursionError, z3.Z3Exception) as e:
                obs.add(name, 'undecided', '%s: %s' % (type(e).__name__, e), ctx=(lay, order, w))
            except (KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
                import traceback
                obs.add(name, 'undecided', 'verifier error: %s' % traceback.format_exc()[-1500:], ctx=(lay, order, w))
