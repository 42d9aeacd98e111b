"""Mechanical translation of the compiled reader's sources into Python text that the verifier of pyvc executes.

  to_python(core)   the functions of _ext_core.cpp, from clang's own syntax tree (clang -ast-dump=json) of the current file
  cython(pyx)       the functions of _ext.pyx (their C declarations are removed, typed values are converted explicitly)

What is kept: every statement, in order; integer conversions as explicit wrap calls with the widths clang gives; structures as objects,
vectors as lists, references and pointers to structures as aliases.  What is dropped: messages (fprintf, error_message), reserve(),
and where memory lives: a reference that outlives its vector's storage is not noticed.  Anything else raises Untranslatable for its
function, which then counts as undecided.
"""
import ast
import json
import keyword
import os
import re
import subprocess
from .cxxrt import NAMES

STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cxxstub')
INT = {'unsigned char': (8, False), 'signed char': (8, True), 'char': (8, True), 'unsigned short': (16, False), 'short': (16, True),
       'unsigned int': (32, False), 'int': (32, True), 'unsigned long': (64, False), 'long': (64, True),
       'unsigned long long': (64, False), 'long long': (64, True), 'bool': (1, False),
       'uint8_t': (8, False), 'int8_t': (8, True), 'uint16_t': (16, False), 'int16_t': (16, True), 'uint32_t': (32, False),
       'int32_t': (32, True), 'uint64_t': (64, False), 'int64_t': (64, True), 'size_t': (64, False)}
PRIMITIVE = ('read_u8', 'read_u16le', 'read_u32le', 'read_u64le', 'read_double_le', 'read_exp10_encoded_float')
FLOAT_OP = {'/': 'fdiv', '*': 'fmul', '+': 'fadd', '-': 'fsub'}
RESERVED = set(keyword.kwlist) | set(NAMES) | {'len', 'range', 'bytes', 'bytearray', 'Vec', 'Ptr', 'HAVOC', 'CxxRec', 'ByteVec', 'super',
                                               'isinstance', 'list', 'dict', 'uuid', 'datetime', 'utils', 'core'}


class Untranslatable(Exception):
    pass


def no(what, n=None):
    raise Untranslatable('%s%s' % (what, ' (%s)' % n.get('kind') if n else ''))


def clang_ast(path):
    r = subprocess.run(['clang++', '-std=c++11', '-nostdinc', '-nostdinc++', '-I', STUB, '-fsyntax-only', '-Xclang', '-ast-dump=json',
                        '-x', 'c++', path], capture_output=True, text=True, timeout=120)
    if r.returncode:
        raise Untranslatable('clang: ' + r.stderr[-500:])
    return json.loads(r.stdout)


class Cxx:
    def __init__(self, path):
        self.tree = clang_ast(path)
        self.enums = {}          # constant -> value
        self.enum_types = set()
        self.records = {}        # name -> [(field, type)]
        self.unions = set()
        self.funcs = {}
        self.failed = {}
        self.order = []
        self.scan(self.tree['inner'])

    def scan(self, nodes):
        for d in nodes:
            k = d.get('kind')
            if k == 'EnumDecl' and d.get('name'):
                self.enum_types.add(d['name'])
                nxt = 0
                for c in d.get('inner', []):
                    if c.get('kind') != 'EnumConstantDecl':
                        continue
                    for x in c.get('inner', []):
                        while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and 'value' not in x:
                            x = x['inner'][0]
                        if x.get('value') is not None:
                            nxt = int(x['value'])
                    self.enums[c['name']] = nxt
                    nxt += 1
            elif k == 'CXXRecordDecl' and d.get('completeDefinition') and d.get('name'):
                self.records[d['name']] = [(f['name'], self.ty(f)) for f in d.get('inner', []) if f.get('kind') == 'FieldDecl']
                if d.get('tagUsed') == 'union':
                    self.unions.add(d['name'])
                self.scan([x for x in d.get('inner', []) if x.get('kind') == 'CXXRecordDecl'])
            elif k == 'FunctionDecl' and any(x.get('kind') == 'CompoundStmt' for x in d.get('inner', [])):
                if d['name'] in self.funcs:
                    self.failed[d['name']] = 'overloaded'
                self.funcs[d['name']] = d
                self.order.append(d['name'])

    # ------------------------------------------------------------- types
    @staticmethod
    def ty(n):
        t = n.get('type', {})
        return t.get('desugaredQualType') or t.get('qualType', '')

    @staticmethod
    def base(t):
        t = re.sub(r'\b(const|volatile|struct|enum|union|std::)\b', '', t.replace('std::', ''))
        return re.sub(r'\s+', ' ', t).strip()

    def is_ptr(self, t):
        return t.rstrip().endswith('*')

    def pointee(self, t):
        t = self.base(t).rstrip('*& ').strip()
        return t

    def int_type(self, t):
        t = self.base(t)
        if t in self.enum_types:
            return (32, False)
        return INT.get(t)

    def elem(self, t):
        """element type of a vector type, or None"""
        m = re.match(r'(?:std::)?vector<\s*(.*?)\s*(?:,\s*(?:std::)?allocator<.*>)?>$', self.base(t).rstrip('&* ').strip())
        return self.base(m.group(1)) if m else None

    def record(self, t):
        t = self.base(t).rstrip('&* ').strip()
        t = t.split('::')[-1]
        return t if t in self.records else None

    def bytes_vec(self, t):
        e = self.elem(t)
        return e is not None and self.int_type(e) == (8, False)

    # ------------------------------------------------------------- functions
    def python(self):
        out = ['from pyvc.cxxrt import *', '']
        for n, v in sorted(self.enums.items()):
            out.append('%s = %d' % (n, v))
        out.append('RECORDS = {')
        for r, fs in sorted(self.records.items()):
            out.append('    %r: %r,' % (r, [(f, self.field_kind(t)) for f, t in fs]))
        out += ['}', 'UNIONS = %r' % sorted(self.unions), '']
        for n in self.order:
            if n in PRIMITIVE:
                if n == 'read_exp10_encoded_float':
                    out += [x.replace('def ' + n, 'def body_' + n) for x in self.function(self.funcs[n])] + ['']
                continue
            out += self.function(self.funcs[n]) + ['']
        return '\n'.join(out) + '\n'

    def field_kind(self, t):
        if self.is_ptr(t):
            return 'ptr'
        if self.bytes_vec(t):
            return 'bytes'
        e = self.elem(t)
        if e is not None:
            return ('vec', self.record(e) or 'int')
        if self.base(t) == 'bool':
            return 'bool'
        if self.int_type(t):
            return 'int'
        if self.base(t) == 'double':
            return 'float'
        if self.record(t):
            return ('rec', self.record(t))
        return 'other'

    def function(self, d):
        name = d['name']
        try:
            if name in self.failed:
                no(self.failed[name])
            self.induct = {}
            self.origin = {}
            self.tmp = 0
            self.stepped = self.steps(d)
            ps = []
            self.vars = {}
            for p in d['inner']:
                if p.get('kind') != 'ParmVarDecl':
                    continue
                t = self.ty(p)
                if self.record(t) and not self.is_ptr(t) and not t.rstrip().endswith('&'):
                    no('structure passed by value')
                if t.rstrip().endswith('&') and not (self.record(t) or self.elem(t)):
                    no('reference to a plain value')
                self.vars[p['name']] = t
                ps.append(p['name'] + ('=' + self.expr(p['inner'][-1]) if p.get('init') else ''))
            body = [x for x in d['inner'] if x.get('kind') == 'CompoundStmt'][0]
            lines = self.block(body, 1)
            head = 'def %s(%s):' % (name, ', '.join(ps))
            bad = RESERVED & set(self.vars)
            if bad:
                no('names %s' % ', '.join(sorted(bad)))
            lines = [head] + (lines or ['    pass'])
            ast.parse('\n'.join(lines))
            return lines
        except (Untranslatable, SyntaxError) as e:
            self.failed[name] = str(e)
            return ['def %s(*args):' % name, '    return cxx_unsupported(%r)' % ('%s: %s' % (name, e))]

    def steps(self, n):
        out = set()
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            l = self.strip(n['inner'][0], ('ParenExpr',))
            if l.get('kind') == 'DeclRefExpr':
                out.add(l['referencedDecl']['name'])
        for x in n.get('inner', []):
            if isinstance(x, dict):
                out |= self.steps(x)
        return out

    # ------------------------------------------------------------- statements
    def block(self, n, ind):
        out = []
        for s in n.get('inner', []) if n.get('kind') == 'CompoundStmt' else [n]:
            out += self.stmt(s, ind)
        return out

    def body(self, n, ind):
        return self.block(n, ind) or ['    ' * ind + 'pass']

    def stmt(self, n, ind):
        k = n.get('kind')
        pad = '    ' * ind
        if k == 'NullStmt':
            return []
        if k == 'CompoundStmt':
            return self.block(n, ind)
        if k == 'DeclStmt':
            out = []
            for v in n['inner']:
                if v.get('kind') != 'VarDecl':
                    no('declaration', v)
                out += self.decl(v, pad)
            return out
        if k == 'IfStmt':
            if n.get('hasInit') or n.get('hasVar'):
                no('if with a declaration')
            inner = n['inner']
            out = [pad + 'if %s:' % self.cond(inner[0])] + self.body(inner[1], ind + 1)
            if n.get('hasElse'):
                out += [pad + 'else:'] + self.body(inner[2], ind + 1)
            return out
        if k == 'ReturnStmt':
            if not n.get('inner'):
                return [pad + 'return None']
            return [pad + 'return ' + self.expr(n['inner'][0])]
        if k == 'WhileStmt':
            if len(n['inner']) != 2:
                no('while with a declaration')
            return [pad + 'while %s:' % self.cond(n['inner'][0])] + self.body(n['inner'][1], ind + 1)
        if k == 'ForStmt':
            return self.for_(n, ind)
        if k == 'SwitchStmt':
            return self.switch(n, ind)
        if k == 'BreakStmt':
            return [pad + 'break']
        if k == 'ContinueStmt':
            return [pad + 'continue']
        if k in ('ExprWithCleanups',):
            return self.stmt(n['inner'][0], ind)
        if k == 'ParenExpr':
            return self.stmt(n['inner'][0], ind)
        if k == 'CStyleCastExpr' and n.get('castKind') == 'ToVoid':
            return []
        if k == 'BinaryOperator' and n.get('opcode') == '=':
            return [pad + x for x in self.assign(n['inner'][0], n['inner'][1])]
        if k == 'CompoundAssignOperator':
            l, r = n['inner']
            op = n['opcode'][:-1]
            t = self.ty(l)
            e = self.arith(op, self.expr(l), self.expr(r), n.get('computeResultType', {}).get('qualType') or t)
            return [pad + x for x in self.store(l, self.wrap(e, n.get('computeResultType', {}).get('qualType') or t, t))]
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            return [pad + x for x in self.incr(n)]
        if k == 'CXXOperatorCallExpr' and self.opname(n) == 'operator=':
            l, r = n['inner'][1:]
            l = self.strip(l)
            if l.get('kind') == 'DeclRefExpr' and self.ty(l) and self.vars.get(l['referencedDecl']['name'], '').rstrip().endswith('&'):
                no('assignment through a reference')
            return [pad + x for x in self.store(l, 'cxx_copy(%s)' % self.expr(r))]
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            if self.is_log(n):
                return []
            return [pad + self.expr(n)]
        no('statement', n)

    def decl(self, v, pad):
        t = self.ty(v)
        name = v['name']
        self.vars[name] = t
        init = v['inner'][-1] if v.get('init') and v.get('inner') else None
        while init is not None and init.get('kind') == 'ExprWithCleanups':
            init = init['inner'][0]
        if t.rstrip().endswith('&') or self.is_ptr(t):
            if t.rstrip().endswith('&') and not (self.record(t) or self.elem(t)):
                no('reference to a plain value')
            if name in self.stepped and self.record(t):
                x = self.strip(init or {}, ('ImplicitCastExpr', 'ParenExpr'))
                if x.get('kind') == 'ConditionalOperator' and self.expr(x['inner'][2]) == 'None':
                    x = self.strip(x['inner'][1], ('ImplicitCastExpr', 'ParenExpr'))
                if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&':
                    x = self.strip(x['inner'][0], ('ParenExpr',))
                    if x.get('kind') == 'CXXOperatorCallExpr' and self.opname(x) == 'operator[]' and self.lit(x['inner'][2]) == 0:
                        self.origin[name] = self.expr(x['inner'][1])
                        return []
                no('stepped pointer')
            return [pad + '%s = %s' % (name, self.expr(init) if init else 'None')]
        r = self.record(t)
        if r is not None or self.elem(t):
            if init is None:
                return [pad + '%s = cxx_new_uninit(%r)' % (name, r)] if r else [pad + '%s = %s' % (name, self.new_vec(t))]
            return [pad + '%s = %s' % (name, self.value(init, t))]
        if init is None:
            return [pad + '%s = HAVOC' % name]
        return [pad + '%s = %s' % (name, self.expr(init))]

    def new_vec(self, t):
        return 'bv_new()' if self.bytes_vec(t) else 'Vec()'

    def value(self, n, t):
        """a structure or vector by value"""
        n = self.strip(n, ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'CXXFunctionalCastExpr'))
        k = n.get('kind')
        if k == 'InitListExpr':
            r = self.record(t)
            if not r or not self.zero_init(n):
                no('initializer list')
            return 'cxx_new(%r)' % r
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            args = [x for x in n.get('inner', []) if x.get('kind') != 'CXXDefaultArgExpr']
            if not args:
                r = self.record(self.ty(n)) or self.record(t)
                if r:
                    if k == 'CXXTemporaryObjectExpr' or n.get('zeroing'):
                        return 'cxx_new(%r)' % r
                    return 'cxx_new_uninit(%r)' % r
                return self.new_vec(t)
            if len(args) == 1 and (self.record(self.ty(args[0])) or self.elem(self.ty(args[0]))):
                return 'cxx_copy(%s)' % self.expr(args[0])
            no('constructor', n)
        if k in ('DeclRefExpr', 'MemberExpr', 'ImplicitCastExpr', 'CXXOperatorCallExpr'):
            return 'cxx_copy(%s)' % self.expr(n)
        no('value', n)

    def zero_init(self, n):
        for x in n.get('inner', []):
            k = x.get('kind')
            if k == 'ImplicitValueInitExpr':
                continue
            if k == 'InitListExpr' and self.zero_init(x):
                continue
            if k == 'CXXConstructExpr' and not x.get('inner'):
                continue
            return False
        return True

    def is_log(self, n):
        if n.get('kind') != 'CallExpr':
            return False
        if self.callee(n) not in ('fprintf', 'printf', 'fputs', 'puts', 'fflush'):
            return False
        for a in n['inner'][1:]:
            if self.has_effect(a):
                no('message with side effects')
        return True

    def has_effect(self, n):
        if n.get('kind') in ('CallExpr', 'CompoundAssignOperator'):
            return True
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            return True
        if n.get('kind') == 'BinaryOperator' and n.get('opcode') == '=':
            return True
        if n.get('kind') == 'CXXMemberCallExpr' and n['inner'][0].get('name') not in ('size', 'empty'):
            return True
        return any(self.has_effect(x) for x in n.get('inner', []) if isinstance(x, dict))

    def for_(self, n, ind):
        pad = '    ' * ind
        init, var, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        if var:
            no('for with a condition declaration')
        c = self.canonical(init, cond, inc, body)
        if c is not None:
            name, bound = c
            fill = self.fill(name, body)
            if fill is not None:
                return [pad + 'bv_fill(%s, %s, %s)' % (fill[0], bound, fill[1])]
            saved = dict(self.induct)
            pre = self.induction(n, name, body)
            self.vars[name] = self.ty(init['inner'][0])
            out = pre_lines(pre, pad) + [pad + 'for %s in range(%s):' % (name, bound)] + self.body(body, ind + 1)
            self.induct = saved
            return out
        out = self.stmt(init, ind) if init else []
        if self.contains(body, 'ContinueStmt'):
            no('continue in a loop')
        out += [pad + 'while %s:' % (self.cond(cond) if cond else 'True')]
        return out + (self.block(body, ind + 1) + (self.stmt(inc, ind + 1) if inc else []) or ['    ' * (ind + 1) + 'pass'])

    def canonical(self, init, cond, inc, body):
        """for (T i = 0; i < bound; i++) with i and bound unchanged in the body -> (i, bound text)"""
        try:
            v = init['inner'][0]
            if init['kind'] != 'DeclStmt' or len(init['inner']) != 1 or self.lit(v['inner'][-1]) != 0:
                return None
            name = v['name']
            cond = self.strip(cond, ('ExprWithCleanups',))
            if cond['kind'] != 'BinaryOperator' or cond['opcode'] not in ('<', '!='):
                return None
            l = self.strip(cond['inner'][0], ('ImplicitCastExpr', 'ParenExpr'))
            if l.get('kind') != 'DeclRefExpr' or l['referencedDecl']['name'] != name:
                return None
            inc = self.strip(inc, ('ExprWithCleanups',))
            one = inc.get('kind') == 'UnaryOperator' and inc['opcode'] == '++' or \
                inc.get('kind') == 'CompoundAssignOperator' and inc['opcode'] == '+=' and self.lit(inc['inner'][1]) == 1
            if not one or self.strip(inc['inner'][0], ('ParenExpr',)).get('referencedDecl', {}).get('name') != name:
                return None
            b = cond['inner'][1]
            names = self.names(b) | {name}
            if self.has_effect(b) or self.contains(b, 'MemberExpr') or names & self.changed(body):
                return None
            it = self.int_type(self.ty(v))
            bt = self.int_type(self.ty(self.strip(b, ('ImplicitCastExpr',))))
            lv = self.lit(b)
            top = lv if lv is not None else (1 << (bt[0] - bt[1])) - 1
            most = (1 << (it[0] - it[1])) - 1
            if most < top and (lv is not None or it[0] > 16 or self.contains(body, 'BreakStmt', ('SwitchStmt',))):
                return None
            if cond['opcode'] == '!=' and bt[1] and lv is None:
                return None
            b = self.expr(self.strip(b, ('ImplicitCastExpr',)) if bt[1] else b)
            # a bound the counter cannot reach: the loop goes on to the end of the record
            return name, b if most >= top else 'cxx_bound(%s, %d)' % (b, most)
        except (KeyError, IndexError, TypeError):
            return None

    def fill(self, name, body):
        """body is  V[i] = read_u8(f)  -> (V, f)"""
        s = body
        while s.get('kind') == 'CompoundStmt' and len(s['inner']) == 1 or s.get('kind') == 'ExprWithCleanups':
            s = s['inner'][0]
        if s.get('kind') != 'BinaryOperator' or s.get('opcode') != '=':
            return None
        l, r = s['inner']
        r = self.strip(r, ('ImplicitCastExpr',))
        if r.get('kind') != 'CallExpr' or self.callee(r) != 'read_u8':
            return None
        l = self.strip(l, ('ParenExpr',))
        if l.get('kind') != 'CXXOperatorCallExpr' or self.opname(l) != 'operator[]' or not self.bytes_vec(self.ty(l['inner'][1])):
            return None
        i = self.strip(l['inner'][2], ('ImplicitCastExpr', 'ParenExpr'))
        if i.get('referencedDecl', {}).get('name') != name or self.has_effect(l['inner'][1]) or name in self.names(l['inner'][1]):
            return None
        return self.expr(l['inner'][1]), self.expr(r['inner'][1])

    def induction(self, n, name, body):
        """pointers into a vector that are stepped once at the end of the body: replaced by the element of this iteration"""
        last = body['inner'][-1] if body.get('kind') == 'CompoundStmt' and body.get('inner') else None
        if not last or last.get('kind') != 'UnaryOperator' or last.get('opcode') != '++':
            return None
        p = self.strip(last['inner'][0], ('ParenExpr',)).get('referencedDecl', {}).get('name')
        if p is None or p == name or p not in self.vars or not self.is_ptr(self.vars[p]) or p in self.changed(dict(body, inner=body['inner'][:-1])):
            return None
        if not self.record(self.vars[p]) or self.contains(body, 'ContinueStmt') or self.contains(body, 'BreakStmt', ('SwitchStmt',)):
            return None
        self.induct = dict(self.induct)
        if p not in self.origin:
            return None
        self.induct[p] = '%s[%s]' % (self.origin.pop(p), name)
        body['inner'] = body['inner'][:-1]
        return None

    def contains(self, n, kind, stop=()):
        if n.get('kind') == kind:
            return True
        return any(self.contains(x, kind, stop) for x in n.get('inner', []) if isinstance(x, dict) and x.get('kind') not in stop)

    def names(self, n):
        out = set()
        if n.get('kind') == 'DeclRefExpr':
            out.add(n['referencedDecl']['name'])
        for x in n.get('inner', []):
            if isinstance(x, dict):
                out |= self.names(x)
        return out

    def changed(self, n):
        """local names assigned in n"""
        out = set()
        k = n.get('kind')
        if k == 'BinaryOperator' and n.get('opcode') == '=' or k == 'CompoundAssignOperator' or \
                k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'):
            l = self.strip(n['inner'][0], ('ParenExpr',))
            if l.get('kind') == 'DeclRefExpr':
                out.add(l['referencedDecl']['name'])
        for x in n.get('inner', []):
            if isinstance(x, dict):
                out |= self.changed(x)
        return out

    def switch(self, n, ind):
        pad = '    ' * ind
        self.tmp += 1
        t = 'switch_%d' % self.tmp
        out = [pad + '%s = %s' % (t, self.expr(n['inner'][0]))]
        stmts, labels = [], []
        for s in n['inner'][1].get('inner', []):
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    if len(s['inner']) != 2:
                        no('case range')
                    labels.append((self.lit(s['inner'][0]), len(stmts)))
                    if labels[-1][0] is None:
                        no('case label')
                else:
                    labels.append((None, len(stmts)))
                s = s['inner'][-1]
            stmts.append(s)
        first = True
        default = None
        groups = {}
        for v, i in labels:
            if v is None:
                default = i
            else:
                groups.setdefault(i, []).append(v)
        for i, vs in groups.items():
            if default == i:
                continue
            out.append(pad + '%s %s:' % ('if' if first else 'elif', ' or '.join('%s == %d' % (t, v) for v in vs)))
            out += self.case(stmts, i, ind + 1)
            first = False
        if default is not None:
            b = self.case(stmts, default, ind + 1 if not first else ind)
            out += ([pad + 'else:'] if not first else []) + b
        return out

    def case(self, stmts, i, ind):
        out = []
        for s in stmts[i:]:
            if s.get('kind') == 'BreakStmt':
                break
            if self.contains(s, 'BreakStmt', ('ForStmt', 'WhileStmt', 'SwitchStmt')):
                no('break inside a case')
            out += self.stmt(s, ind)
            if s.get('kind') == 'ReturnStmt':
                break
        return out or ['    ' * ind + 'pass']

    def incr(self, n):
        l = self.strip(n['inner'][0], ('ParenExpr',))
        t = self.ty(l)
        if self.is_ptr(t):
            if l.get('kind') == 'MemberExpr' and l['name'] == 'ptr' and self.record(self.ty(l['inner'][0])) == 'Buffer':
                if n['opcode'] == '--':
                    return ['unread(%s)' % self.expr(l['inner'][0])]
                no('stream pointer')
            if self.int_type(self.pointee(t)) == (8, False) and l.get('kind') == 'DeclRefExpr':
                return ['%s.step(%d)' % (self.expr(l), 1 if n['opcode'] == '++' else -1)]
            no('pointer arithmetic')
        return self.store(l, self.wrap('%s %s 1' % (self.expr(l), n['opcode'][0]), None, t))

    def assign(self, l, r):
        l = self.strip(l, ('ParenExpr',))
        if l.get('kind') == 'MemberExpr' and l['name'] == 'error_message':
            if self.has_effect(r):
                no('message with side effects')
            return []
        if l.get('kind') != 'UnaryOperator' and self.has_effect(l) and self.has_effect(r):
            no('operands whose order of evaluation matters')
        return self.store(l, self.expr(r))

    def store(self, l, e):
        l = self.strip(l, ('ParenExpr',))
        k = l.get('kind')
        if k == 'DeclRefExpr':
            n = l['referencedDecl']['name']
            if n in self.induct:
                no('assignment to a stepped pointer')
            if n not in self.vars:
                no('assignment to ' + n)
            return ['%s = %s' % (n, e)]
        if k == 'MemberExpr':
            b = l['inner'][0]
            r = self.record(self.ty(b))
            if r is None or r == 'Buffer':
                no('assignment to a member')
            if r in self.unions:
                fs = dict(self.records[r])
                if not all(self.int_type(t) and self.int_type(t)[0] == 64 for t in fs.values()):
                    no('union')
                out = []
                for f, t in fs.items():
                    out.append('%s.%s = %s' % (self.expr(b), f, self.wrap('(%s)' % e, fs[l['name']], t)))
                if 'read_' in e:
                    no('union assignment with side effects')
                return out
            return ['%s.%s = %s' % (self.expr(b), l['name'], e)]
        if k == 'CXXOperatorCallExpr' and self.opname(l) == 'operator[]':
            v, i = l['inner'][1:]
            if self.bytes_vec(self.ty(v)):
                return ['bv_set(%s, %s, %s)' % (self.expr(v), self.expr(i), e)]
            return ['%s[%s] = %s' % (self.expr(v), self.expr(i), e)]
        if k == 'UnaryOperator' and l.get('opcode') == '*':
            p = self.strip(l['inner'][0], ('ParenExpr', 'ImplicitCastExpr'))
            if p.get('kind') == 'UnaryOperator' and p.get('opcode') == '++' and p.get('isPostfix'):
                q = self.strip(p['inner'][0], ('ParenExpr',))
                if q.get('kind') == 'DeclRefExpr' and self.int_type(self.pointee(self.ty(q))) == (8, False):
                    return ['%s.put(%s)' % (self.expr(q), e)]
            if p.get('kind') == 'DeclRefExpr' and self.int_type(self.pointee(self.ty(p))) == (8, False):
                return ['%s.set(0, %s)' % (self.expr(p), e)]
        if k == 'ArraySubscriptExpr':
            p = self.strip(l['inner'][0], ('ImplicitCastExpr', 'ParenExpr'))
            if self.is_ptr(self.ty(p)) and self.int_type(self.pointee(self.ty(p))) == (8, False):
                return ['%s.set(%s, %s)' % (self.expr(p), self.expr(l['inner'][1]), e)]
        no('assignment target', l)

    # ------------------------------------------------------------- expressions
    @staticmethod
    def strip(n, kinds=('ParenExpr',)):
        while n.get('kind') in kinds and n.get('inner'):
            n = n['inner'][-1 if n['kind'] != 'ParenExpr' else 0]
        return n

    def lit(self, n):
        n = self.strip(n, ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr'))
        k = n.get('kind')
        if k == 'IntegerLiteral':
            return int(n['value'])
        if k == 'ConstantExpr' and 'value' in n:
            return int(n['value'])
        if k == 'CharacterLiteral':
            return n['value']
        if k == 'DeclRefExpr' and n['referencedDecl'].get('kind') == 'EnumConstantDecl':
            return self.enums.get(n['referencedDecl']['name'])
        if k == 'UnaryOperator' and n.get('opcode') == '-':
            v = self.lit(n['inner'][0])
            return None if v is None else -v
        return None

    def cond(self, n):
        return self.expr(n)

    def callee(self, n):
        f = self.strip(n['inner'][0], ('ImplicitCastExpr', 'ParenExpr'))
        return f.get('referencedDecl', {}).get('name')

    def opname(self, n):
        return self.callee(n)

    def wrap(self, e, src, dst):
        """convert the integer e of type src (None: any) to dst"""
        d = self.int_type(dst)
        s = self.int_type(src) if src else None
        if d is None:
            no('conversion to ' + str(dst))
        if d == s:
            return e
        if s == (1, False) and self.base(src) == 'bool':
            return 'cxx_int(%s)' % e
        if self.base(dst) == 'bool':
            return '(%s) != 0' % e
        if s is not None and (d[1] == s[1] and d[0] >= s[0] or d[1] and not s[1] and d[0] > s[0]):
            return e
        return 'wrap(%s, %d, %r)' % (e, d[0], d[1])

    def arith(self, op, a, b, t):
        it = self.int_type(t)
        if it is None and self.base(t) == 'double' and op in FLOAT_OP:
            return 'cxx_%s(%s, %s)' % (FLOAT_OP[op], a, b)
        if it is None:
            no('arithmetic on ' + str(t))
        if op in ('+', '-', '*'):
            return 'wrap((%s %s %s), %d, %r)' % (a, op, b, it[0], it[1])
        if op in ('/', '%'):
            return 'cxx_%s(%s, %s)' % ('div' if op == '/' else 'mod', a, b)
        if op in ('&', '|', '^'):
            return '(%s %s %s)' % (a, op, b)
        if op == '<<':
            if re.fullmatch(r'\d+', a) and re.fullmatch(r'\d+', b):
                return str(int(a) << int(b))
            return 'wrap((%s << %s), %d, %r)' % (a, b, it[0], it[1])
        if op == '>>':
            return '(%s >> %s)' % (a, b)
        no('operator ' + op)

    def expr(self, n):
        k = n.get('kind')
        if k in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
            if k == 'ConstantExpr' and self.lit(n) is not None:
                return str(self.lit(n))
            return self.expr(n['inner'][0])
        if k == 'IntegerLiteral':
            return str(int(n['value']))
        if k == 'FloatingLiteral':
            if self.base(self.ty(n)) != 'double':
                no('float literal')
            return repr(float(n['value']))
        if k == 'CharacterLiteral':
            return str(n['value'])
        if k == 'CXXBoolLiteralExpr':
            return 'True' if n['value'] else 'False'
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return 'None'
        if k == 'StringLiteral':
            return repr(ast.literal_eval('b' + n['value']))
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d.get('kind') == 'EnumConstantDecl':
                return str(self.enums[d['name']])
            if d['name'] in self.induct:
                return self.induct[d['name']]
            if d['name'] not in self.vars or d['name'] in self.stepped and self.record(self.vars[d['name']]):
                no('name ' + d['name'])
            return d['name']
        if k == 'MemberExpr':
            b = n['inner'][0]
            if self.record(self.ty(b)) == 'Buffer':
                no('stream member ' + n['name'])
            return '%s.%s' % (self.expr(b), n['name'])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr'):
            return self.cast(n)
        if k == 'UnaryOperator':
            return self.unary(n)
        if k == 'BinaryOperator':
            return self.binary(n)
        if k == 'ConditionalOperator':
            c, a, b = n['inner']
            return '(%s if %s else %s)' % (self.expr(a), self.cond(c), self.expr(b))
        if k == 'CallExpr':
            f = self.callee(n)
            if f not in self.funcs and f not in ('move', 'pow'):
                no('call of %s' % f)
            args = []
            if sum(self.has_effect(a) for a in n['inner'][1:]) > 1:
                no('arguments whose order of evaluation matters')
            for a in n['inner'][1:]:
                if a.get('kind') == 'CXXDefaultArgExpr':
                    continue
                args.append(self.expr(a))
            if f == 'move':
                return args[0]
            if f == 'pow':
                return 'cxx_pow(%s)' % ', '.join(args)
            return '%s(%s)' % (f, ', '.join(args))
        if k == 'CXXMemberCallExpr':
            return self.method(n)
        if k == 'CXXOperatorCallExpr':
            return self.opcall(n)
        if k in ('CXXTemporaryObjectExpr', 'CXXConstructExpr', 'InitListExpr'):
            return self.value(n, self.ty(n))
        no('expression', n)

    def cast(self, n):
        c = n.get('castKind')
        x = n['inner'][-1]
        if c in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'ConstructorConversion'):
            return self.expr(x)
        if c == 'IntegralCast':
            v = self.lit(x)
            it = self.int_type(self.ty(n))
            if v is not None and it is not None:
                v %= 1 << it[0]
                if it[1] and v >= 1 << (it[0] - 1):
                    v -= 1 << it[0]
                return str(v)
            return self.wrap(self.expr(x), self.ty(x), self.ty(n))
        if c == 'IntegralToFloating':
            return 'cxx_float(%s)' % self.expr(x)
        if c == 'FloatingCast':
            if self.base(self.ty(n)) != 'double' or self.base(self.ty(x)) != 'double':
                no('cast to ' + self.ty(n))
            return self.expr(x)
        if c == 'IntegralToBoolean':
            return '(%s != 0)' % self.expr(x)
        if c == 'PointerToBoolean':
            return '(%s is not None)' % self.expr(x)
        if c == 'NullToPointer':
            return 'None'
        no('cast %s' % c)

    def unary(self, n):
        op = n['opcode']
        x = n['inner'][0]
        if op == '-':
            v = self.lit(n)
            if v is not None:
                return '(%d)' % v
            it = self.int_type(self.ty(n))
            if it is None and self.base(self.ty(n)) == 'double':
                return 'cxx_fsub(cxx_float(0), %s)' % self.expr(x)
            if it is None:
                no('negation')
            return 'wrap(-(%s), %d, %r)' % (self.expr(x), it[0], it[1])
        if op == '!':
            return '(not %s)' % self.expr(x)
        if op == '+':
            return self.expr(x)
        if op == '&':
            x = self.strip(x, ('ParenExpr',))
            t = self.ty(x)
            if self.record(t) or self.elem(t):
                return self.expr(x)
            if x.get('kind') == 'CXXOperatorCallExpr' and self.opname(x) == 'operator[]' and self.bytes_vec(self.ty(x['inner'][1])):
                return 'Ptr(%s, %s)' % (self.expr(x['inner'][1]), self.expr(x['inner'][2]))
            no('address')
        if op == '*':
            if self.record(self.ty(n)):
                return self.expr(x)
            no('dereference')
        no('operator ' + op)

    def binary(self, n):
        op = n['opcode']
        l, r = n['inner']
        if op not in ('&&', '||') and self.has_effect(l) and self.has_effect(r):
            no('operands whose order of evaluation matters')
        if op in ('==', '!=', '<', '>', '<=', '>='):
            a, b = self.expr(l), self.expr(r)
            if self.is_ptr(self.ty(l)) or self.is_ptr(self.ty(r)):
                if op in ('==', '!=') and 'None' in (a, b):
                    return '(%s %s %s)' % (a, 'is' if op == '==' else 'is not', b)
                no('pointer comparison')
            if a.startswith('('):
                return '(%s %s %s)' % (a, op, b)
            return '(%s %s %s)' % (a, op, b)
        if op in ('&&', '||'):
            return '(%s %s %s)' % (self.cond(l), 'and' if op == '&&' else 'or', self.cond(r))
        if op == ',':
            no('comma')
        if op == '=':
            no('assignment inside an expression')
        v = self.fold(n)
        if v is not None:
            return str(v)
        return self.arith(op, self.expr(l), self.expr(r), self.ty(n))

    def fold(self, n):
        n = self.strip(n, ('ParenExpr', 'ImplicitCastExpr'))
        if n.get('kind') == 'BinaryOperator':
            a, b = self.fold(n['inner'][0]), self.fold(n['inner'][1])
            if a is None or b is None:
                return None
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<<': lambda: a << b, '|': lambda: a | b,
                        '&': lambda: a & b}[n['opcode']]()
            except KeyError:
                return None
        return self.lit(n)

    def method(self, n):
        m = n['inner'][0]
        args = n['inner'][1:]
        if m.get('kind') != 'MemberExpr':
            no('method call')
        name = m['name']
        b = self.strip(m['inner'][0], ('ImplicitCastExpr', 'ParenExpr')) if m['inner'][0].get('castKind') == 'NoOp' else m['inner'][0]
        t = self.ty(b)
        e = self.elem(t)
        if e is None:
            no('method %s' % name)
        v = self.expr(b)
        bv = self.bytes_vec(t)
        if name == 'size':
            return ('bv_len(%s)' if bv else 'len(%s)') % v
        if name == 'empty':
            return ('(bv_len(%s) == 0)' if bv else '(len(%s) == 0)') % v
        if name == 'reserve':
            if self.has_effect(args[0]):
                no('reserve with side effects')
            return 'None'
        if name == 'clear':
            return ('bv_resize(%s, 0)' if bv else 'cxx_clear(%s)') % v
        if name == 'resize' and len([a for a in args if a.get('kind') != 'CXXDefaultArgExpr']) == 1:
            if bv:
                return 'bv_resize(%s, %s)' % (v, self.expr(args[0]))
            return 'cxx_resize(%s, %s, %r)' % (v, self.expr(args[0]), self.record(e))
        if name == 'push_back':
            if bv:
                return 'bv_push(%s, %s)' % (v, self.expr(args[0]))
            if self.record(e):
                a = self.strip(args[0], ('ImplicitCastExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups'))
                return '%s.append(%s)' % (v, self.value(a, e))
            return '%s.append(%s)' % (v, self.expr(args[0]))
        if name == 'emplace_back' and not args and self.record(e):
            return '%s.append(cxx_new(%r))' % (v, self.record(e))
        if name in ('back', 'front') and not bv:
            return 'cxx_last(%s)' % v if name == 'back' else '%s[0]' % v
        if name == 'at' and not bv:
            return '%s[%s]' % (v, self.expr(args[0]))
        no('method %s' % name)

    def opcall(self, n):
        if self.opname(n) != 'operator[]':
            no(str(self.opname(n)))
        v, i = n['inner'][1:]
        t = self.ty(v)
        if self.elem(t) is None:
            no('index')
        e = self.expr(v)
        if self.bytes_vec(t):
            return 'bv_get(%s, %s)' % (e, self.expr(i))
        x = self.strip(i, ('ImplicitCastExpr', 'ParenExpr'))
        if x.get('kind') == 'BinaryOperator' and x['opcode'] == '-' and self.lit(x['inner'][1]) == 1:
            s = self.strip(x['inner'][0], ('ImplicitCastExpr', 'ParenExpr'))
            if s.get('kind') == 'CXXMemberCallExpr' and s['inner'][0].get('name') == 'size' and self.expr(s) == 'len(%s)' % e:
                return 'cxx_last(%s)' % e
        return '%s[%s]' % (e, self.expr(i))


def pre_lines(pre, pad):
    return [pad + x for x in pre] if pre else []


def to_python(path):
    c = Cxx(path)
    return c.python(), c
