"""The conversion layer of the compiled reader (_ext.pyx) as Python text: declarations removed, typed values converted explicitly."""
import ast
import re
from .cxx import INT, Untranslatable

PYTYPES = {'object', 'dict', 'list', 'bytes', 'str', 'tuple', 'unicode', 'double', 'float'}


class Cython:
    def __init__(self, text, cxx):
        self.cxx = cxx
        self.structs = {}        # name -> {field: type}
        self.externs = {}        # C function -> parameter types
        self.cfuncs = {}         # cdef function -> [(type, name)]
        self.failed = {}
        self.lines = self.top(text.replace('\t', '    ').split('\n'))

    # ------------------------------------------------------------- declarations
    def top(self, lines):
        out = []
        i = 0
        while i < len(lines):
            l = lines[i]
            s = l.split('#')[0].rstrip() if not re.search(r'["\']', l) else l.rstrip()
            if re.match(r'(IF|ELIF|ELSE)\b.*:$', s) or re.match(r'cdef extern\b', s):
                j = i + 1
                while j < len(lines) and (not lines[j].strip() or lines[j].startswith((' ', '#'))):
                    j += 1
                if s.startswith('cdef extern'):
                    self.extern(lines[i + 1:j])
                i = j
                continue
            if re.match(r'(from .* )?cimport\b', s):
                i += 1
                continue
            out.append(l.rstrip() if '#' not in l or re.search(r'["\']', l) else s)
            i += 1
        return out

    def extern(self, lines):
        cur = None
        for l in lines:
            s = l.split('#')[0].strip().rstrip(',')
            m = re.match(r'(?:cdef )?(?:struct|union|enum|packed struct) (\w+):$', s)
            if m:
                cur = self.structs.setdefault(m.group(1), {}) if 'enum' not in s.split(':')[0].split()[:2] else None
                continue
            m = re.match(r'cdef .*?(\w+)\((.*)\)', s)
            if m:
                self.externs[m.group(1)] = [self.param(p)[0] for p in m.group(2).split(',')]
                cur = None
                continue
            m = re.match(r'(.*[\w\]*>])\s*[ *](\w+)$', s)
            if m and cur is not None:
                t = s[:s.rindex(m.group(2))].strip()
                cur[m.group(2)] = t

    @staticmethod
    def param(p):
        """-> (type or None, name)"""
        p = p.strip()
        d = ''
        if '=' in p:
            p, d = p.split('=', 1)
        m = re.match(r'^(.*?)(\w+)\s*$', p.strip())
        if not m:
            raise Untranslatable('parameter ' + p)
        return (m.group(1).strip() or None, m.group(2))

    # ------------------------------------------------------------- text to Python
    def python(self):
        out = []
        chunks = []
        cur = []
        for l in self.lines:
            if l and not l[0].isspace() and not l.startswith((')', '}', ']', '#')) and not (cur and not cur[-1].strip().endswith((':', ')')) and self.open(cur)):
                if cur:
                    chunks.append(cur)
                cur = []
            cur.append(l)
        if cur:
            chunks.append(cur)
        deco = []
        for c in chunks:
            h = c[0]
            m = re.match(r'(?:cdef|cpdef)\s+(?!class)(.*?)(\w+)\s*\((.*)\)\s*(?:nogil|noexcept|except.*)?:\s*$', h)
            d = re.match(r'def\s+(\w+)\s*\((.*)\)\s*:\s*$', h)
            if m or d:
                ret, name, ps = m.groups() if m else ('',) + d.groups()
                if m:
                    self.cfuncs[name] = [self.param(p)[0] for p in self.split(ps)]
                out.append(('func', name, ps, c[1:], ret))
            elif re.match(r'cdef class', h):
                out.append(('text', [re.sub(r'^cdef ', '', h)] + c[1:]))
            elif h.startswith('cdef'):
                raise Untranslatable('declaration ' + h[:60])
            else:
                out.append(('text', [self.fix_import(x) for x in c]))
        text = []
        for o in out:
            if o[0] == 'text':
                text += o[1]
                continue
            _, name, ps, body, ret = o
            try:
                text.append(self.function(name, ps, body))
            except (Untranslatable, SyntaxError) as e:
                self.failed[name] = str(e)
                text.append('def %s(*args):\n    return cxx_unsupported(%r)\n' % (name, '%s: %s' % (name, e)))
        return '\n'.join(text) + '\n'

    @staticmethod
    def open(lines):
        s = '\n'.join(lines)
        return s.count('(') + s.count('[') + s.count('{') > s.count(')') + s.count(']') + s.count('}')

    @staticmethod
    def fix_import(l):
        l = re.sub(r'^from \.(\w+) import', r'from avb.\1 import', l)
        return re.sub(r'^from \. import', 'from avb import', l)

    @staticmethod
    def split(ps):
        out, d, cur = [], 0, ''
        for ch in ps:
            if ch in '([':
                d += 1
            if ch in ')]':
                d -= 1
            if ch == ',' and d == 0:
                out.append(cur)
                cur = ''
            else:
                cur += ch
        if cur.strip():
            out.append(cur)
        return out

    def function(self, name, ps, body):
        self.types = {}
        names = []
        for p in self.split(ps):
            t, n = self.param(p)
            if t is not None:
                self.types[n] = t
            names.append(n)
        lines = []
        for l in body:
            m = re.match(r'^(\s*)cdef\s+(.*)$', l.split('#')[0].rstrip().rstrip(';') if '#' in l and not re.search(r'["\']', l) else l.rstrip().rstrip(';'))
            if m:
                ind, rest = m.groups()
                e = None
                if '=' in rest:
                    rest, e = rest.split('=', 1)
                first, more = self.split(rest)[0], self.split(rest)[1:]
                t, n = self.param(first)
                if t is None:
                    raise Untranslatable('declaration ' + l.strip())
                self.types[n] = t
                for x in more:
                    self.types[x.strip()] = t
                if e is not None:
                    lines.append(ind + n + ' = ' + self.text(e.strip()))
                elif self.record(t):
                    lines.append(ind + '%s = cxx_new_uninit(%r)' % (n, self.record(t)) if self.record(t) != 'Buffer' else ind + 'pass')
                elif self.elem(t):
                    lines.append(ind + '%s = %s' % (n, 'bv_new()' if self.bytes_vec(t) else 'Vec()'))
                continue
            if re.match(r'^\s*with nogil:\s*$', l):
                lines.append(re.sub('with nogil', 'if True', l))
                continue
            lines.append(self.text(l))
        src = 'def %s(%s):\n%s\n' % (name, ', '.join(names), '\n'.join(lines) if any(x.strip() for x in lines) else '    pass')
        tree = ast.parse(src)
        fn = tree.body[0]
        self.loopvars(fn)
        fn.body = self.stmts(fn.body)
        ast.fix_missing_locations(tree)
        return ast.unparse(tree) + '\n'

    def loopvars(self, fn):
        for n in ast.walk(fn):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and self.record(self.typ(t.value)) not in (None, 'Buffer'):
                        raise Untranslatable('assignment to a structure member')

    def operand(self, s, i):
        """end of the postfix expression that starts at i"""
        while i < len(s) and s[i] == ' ':
            i += 1
        if i < len(s) and s[i] == '&':
            i += 1
        if i < len(s) and s[i] == '<':
            i = s.index('>', i) + 1
            return self.operand(s, i)
        if i < len(s) and s[i] == '(':
            i = self.close(s, i)
        else:
            m = re.match(r'[\w]+', s[i:])
            if not m:
                raise Untranslatable('operand in ' + s)
            i += m.end()
        while i < len(s):
            if s[i] == '.':
                m = re.match(r'\.\w+', s[i:])
                i += m.end()
            elif s[i] in '([':
                i = self.close(s, i)
            else:
                break
        return i

    @staticmethod
    def close(s, i):
        d = 0
        for j in range(i, len(s)):
            if s[j] in '([':
                d += 1
            elif s[j] in ')]':
                d -= 1
                if d == 0:
                    return j + 1
        raise Untranslatable('brackets in ' + s)

    def text(self, l):
        """casts and addresses as calls (rightmost first)"""
        l = re.sub(r'\bu(["\'])', r'\1', l)
        while True:
            cand = []
            for m in re.finditer(r'<\s*((?:const\s+|unsigned\s+)*\w+(?:\s*\*)?)\s*>', l):
                if not re.search(r'[\w\])]\s*$', l[:m.start()]) or re.search(r'\b(return|and|or|not|in|is)\s*$', l[:m.start()]):
                    cand.append((m.start(), m.end(), m.group(1)))
            for m in re.finditer(r'&', l):
                if not re.search(r'[\w\])]\s*$', l[:m.start()]) or re.search(r'\b(return|and|or|not|in|is)\s*$', l[:m.start()]):
                    cand.append((m.start(), m.end(), None))
            if not cand:
                return l
            a, b, t = max(cand)
            e = self.operand(l, b)
            x = l[b:e].strip()
            l = l[:a] + ('cy_addr(%s)' % x if t is None else 'cy_cast(%r, %s)' % (re.sub(r'\s+', ' ', t), x)) + l[e:]

    # ------------------------------------------------------------- types
    def base(self, t):
        return re.sub(r'\s+', ' ', t.replace('const ', '').strip())

    def record(self, t):
        if t is None:
            return None
        t = self.base(t).rstrip('*& ').strip()
        return t if t in self.structs or t == 'Buffer' else None

    def elem(self, t):
        if t is None:
            return None
        m = re.match(r'vector\[\s*(\w+)\s*\]$', self.base(t).rstrip('& ').strip())
        return m.group(1) if m else None

    def bytes_vec(self, t):
        return self.elem(t) in ('uint8_t', 'unsigned char')

    def typ(self, n):
        """C type text, or None for a Python object"""
        if isinstance(n, ast.Name):
            t = self.types.get(n.id)
            return None if t in PYTYPES else t
        if isinstance(n, ast.Attribute):
            r = self.record(self.typ(n.value))
            return self.structs[r].get(n.attr) if r in self.structs else None
        if isinstance(n, ast.Subscript):
            return self.elem(self.typ(n.value))
        return None

    # ------------------------------------------------------------- statements
    def stmts(self, body):
        out = []
        for s in body:
            out += self.stmt(s)
        return out or [ast.Pass()]

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            t = s.targets[0]
            if isinstance(t, ast.Attribute) and self.record(self.typ(t.value)) == 'Buffer':
                return self.buffer(t, s.value)
            if isinstance(t, ast.Name) and self.types.get(t.id) and self.base(self.types[t.id]) in INT:
                b, sg = INT[self.base(self.types[t.id])]
                v = ast.Call(ast.Name('wrap', ast.Load()), [self.expr(s.value), ast.Constant(b), ast.Constant(sg)], [])
                return [ast.copy_location(ast.Assign([t], v), s)]
            if isinstance(t, ast.Name) and (self.types.get(t.id) or '').strip() in ('double', 'float', 'bint'):
                raise Untranslatable('assignment to a ' + self.types[t.id])
            if isinstance(t, ast.Name) and self.record(self.types.get(t.id)):
                v = ast.Call(ast.Name('cxx_copy', ast.Load()), [self.raw(s.value)], [])
                return [ast.copy_location(ast.Assign([t], v), s)]
            return [ast.copy_location(ast.Assign([self.expr(x) for x in s.targets], self.expr(s.value)), s)]
        if isinstance(s, ast.Expr):
            c = s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'reserve' and self.elem(self.typ(c.func.value)):
                return []
            return [ast.copy_location(ast.Expr(self.expr(c)), s)]
        if isinstance(s, (ast.If, ast.While)):
            return [ast.copy_location(type(s)(self.expr(s.test), self.stmts(s.body), self.stmts(s.orelse) if s.orelse else []), s)]
        if isinstance(s, ast.For):
            it = self.raw(s.iter) if self.elem(self.typ(s.iter)) else self.expr(s.iter)
            return [ast.copy_location(ast.For(s.target, it, self.stmts(s.body), self.stmts(s.orelse) if s.orelse else []), s)]
        if isinstance(s, ast.Return):
            return [ast.copy_location(ast.Return(self.expr(s.value) if s.value else None), s)]
        if isinstance(s, ast.Raise):
            return [ast.copy_location(ast.Raise(self.expr(s.exc) if s.exc else None, None), s)]
        if isinstance(s, (ast.Pass, ast.Break, ast.Continue)):
            return [s]
        if isinstance(s, ast.AugAssign):
            if self.typ(s.target) is not None:
                raise Untranslatable('augmented assignment')
            return [ast.copy_location(ast.AugAssign(s.target, s.op, self.expr(s.value)), s)]
        raise Untranslatable('statement ' + type(s).__name__)

    def buffer(self, t, v):
        """buf.root/ptr/end describe the whole of the data"""
        txt = ast.unparse(v)
        if t.attr in ('root', 'ptr') and re.fullmatch(r'cy_addr\((\w+)\[0\]\)', txt):
            d = re.fullmatch(r'cy_addr\((\w+)\[0\]\)', txt).group(1)
        elif t.attr == 'end' and re.fullmatch(r'cy_addr\((\w+)\[-1\]\)', txt):
            d = re.fullmatch(r'cy_addr\((\w+)\[-1\]\)', txt).group(1)
        elif t.attr == 'error_message' and isinstance(v, ast.Constant):
            return []
        else:
            raise Untranslatable('buffer set-up: ' + ast.unparse(t))
        if not isinstance(t.value, ast.Name) or 'unsigned char[:]' not in (self.types.get(d) or ''):
            raise Untranslatable('buffer set-up')
        return [ast.parse('%s = %s' % (t.value.id, d)).body[0]] if t.attr == 'ptr' else []

    # ------------------------------------------------------------- expressions
    def raw(self, n):
        """expression kept as a C value"""
        if isinstance(n, ast.Attribute):
            return ast.copy_location(ast.Attribute(self.raw(n.value), n.attr, n.ctx), n)
        if isinstance(n, ast.Subscript) and self.elem(self.typ(n.value)):
            if self.bytes_vec(self.typ(n.value)):
                return call('bv_get', self.raw(n.value), self.expr(n.slice))
            return ast.copy_location(ast.Subscript(self.raw(n.value), self.expr(n.slice), n.ctx), n)
        if isinstance(n, ast.Name):
            return n
        return self.expr(n)

    def expr(self, n):
        t = self.typ(n)
        if t is not None and not isinstance(getattr(n, 'ctx', None), ast.Store):
            if isinstance(n, ast.Attribute) and self.record(self.typ(n.value)) == 'Buffer':
                if n.attr == 'error_message':
                    return ast.Constant(b'')
                raise Untranslatable('buffer member')
            if self.base(t) == 'bint':
                return call('cy_bool', self.raw(n))
            if self.elem(t):
                if self.bytes_vec(t):
                    raise Untranslatable('bytes of a vector as an object')
                return call('cy_list', self.raw(n))
            if self.record(t) and not isinstance(n, ast.Name):
                raise Untranslatable('structure as an object')
            return self.raw(n)
        if isinstance(n, ast.Call):
            return self.call(n)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            bt = self.typ(n.value)
            if bt is not None and '*' in bt:
                return call('bv_slice', self.raw(n.value), self.expr(n.slice.lower) if n.slice.lower else ast.Constant(0), self.expr(n.slice.upper))
        new = type(n)(**{f: self.field(v) for f, v in ast.iter_fields(n)})
        return ast.copy_location(new, n) if isinstance(n, ast.AST) and hasattr(n, 'lineno') else new

    def field(self, v):
        if isinstance(v, list):
            return [self.field(x) for x in v]
        if isinstance(v, ast.expr):
            return self.expr(v)
        if isinstance(v, (ast.keyword, ast.comprehension, ast.Slice)):
            return type(v)(**{f: self.field(x) for f, x in ast.iter_fields(v)})
        return v

    def call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'cy_addr':
            x = n.args[0]
            if isinstance(x, ast.Subscript) and self.bytes_vec(self.typ(x.value)):
                return call('Ptr', self.raw(x.value), self.expr(x.slice))
            if self.record(self.typ(x)):
                return self.raw(x)
            raise Untranslatable('address of ' + ast.unparse(x))
        if isinstance(f, ast.Name) and f.id == 'cy_cast':
            t, x = n.args[0].value, n.args[1]
            b = self.base(t)
            if b in INT:
                return call('wrap', self.expr(x), ast.Constant(INT[b][0]), ast.Constant(INT[b][1]))
            if b in ('char *', 'char*', 'unsigned char *', 'uint8_t *'):
                return self.expr(x)
            if b in ('bytes', 'bytearray'):
                if isinstance(x, ast.Subscript):
                    return call(b, self.expr(x))
                if self.typ(x) and 'char' in self.typ(x):
                    return self.expr(x)
            raise Untranslatable('cast to ' + t)
        if isinstance(f, ast.Attribute):
            t = self.typ(f.value)
            if self.elem(t):
                if f.attr == 'size' and not n.args:
                    return call('bv_len' if self.bytes_vec(t) else 'len', self.raw(f.value))
                if f.attr == 'empty' and not n.args:
                    return ast.Compare(call('bv_len' if self.bytes_vec(t) else 'len', self.raw(f.value)), [ast.Eq()], [ast.Constant(0)])
                raise Untranslatable('method ' + f.attr)
        ps = None
        if isinstance(f, ast.Name):
            ps = self.cfuncs.get(f.id) or self.externs.get(f.id)
        args = []
        for i, a in enumerate(n.args):
            pt = ps[i] if ps and i < len(ps) else None
            if pt is not None and (self.elem(pt) or self.record(pt)) and self.typ(a) is not None:
                args.append(self.raw(a))
            else:
                args.append(self.expr(a))
        return ast.copy_location(ast.Call(self.expr(f) if not isinstance(f, ast.Name) else f, args,
                                          [ast.keyword(k.arg, self.expr(k.value)) for k in n.keywords]), n)


def call(f, *a):
    return ast.Call(ast.Name(f, ast.Load()), list(a), [])


def to_python(path, cxx):
    with open(path) as f:
        c = Cython(f.read(), cxx)
    return c.python(), c
