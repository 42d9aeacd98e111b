"""The fixed-width readers of _ext_core.cpp, verified with CBMC against the contracts extproof.py gives them.

The text of each function is cut out of the current file at the place clang gives; `throw std::out_of_range(..)` becomes setting a
flag and returning, nothing else is changed.  The record may have any length and the position in it is arbitrary."""
import json
import os
import re
import subprocess
import time
from . import cxx

HEAD = '''
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
typedef struct Buffer { const uint8_t *root; const uint8_t *ptr; const uint8_t *end; const char *error_message; } Buffer;
int thrown;
#define THROW { thrown = 1; return 0; }
size_t nondet_size(void);
'''
SETUP = '''
    size_t n = nondet_size(), i = nondet_size();
    __CPROVER_assume(n >= 1 && n <= ((size_t)1 << 40) && i <= n);
    uint8_t *data = malloc(n);
    __CPROVER_assume(data != 0);
    Buffer buf; Buffer *f = &buf;
    buf.root = data; buf.ptr = data + i; buf.end = data + n - 1; buf.error_message = "";
    thrown = 0;
'''
BODIES = {
    'read_u8': ('uint8_t v = read_u8(f);', 1, 'v == data[i]'),
    'read_u16le': ('uint16_t v = read_u16le(f);', 2, 'v == (uint16_t)(data[i] | data[i+1] << 8)'),
    'read_u32le': ('uint32_t v = read_u32le(f);', 4,
                   'v == ((uint32_t)data[i] | (uint32_t)data[i+1] << 8 | (uint32_t)data[i+2] << 16 | (uint32_t)data[i+3] << 24)'),
    'read_u64le': ('uint64_t v = read_u64le(f);', 8, 'v == EXPECT64'),
    'read_double_le': ('double v = read_double_le(f); uint64_t b; memcpy(&b, &v, 8);', 8, 'b == EXPECT64'),
}
DEFS = '''
#define B(k) ((uint64_t)data[i+k] << (8*k))
#define EXPECT64 (B(0)|B(1)|B(2)|B(3)|B(4)|B(5)|B(6)|B(7))
'''


def extract(path):
    c = cxx.Cxx(path)
    src = open(path, encoding='utf-8').read()
    raw = src.encode('utf-8')
    out = []
    for n in cxx.PRIMITIVE:
        d = c.funcs.get(n)
        if d is None:
            raise cxx.Untranslatable('%s not found' % n)
        lo, hi = d['range']['begin']['offset'], d['range']['end']['offset'] + d['range']['end'].get('tokLen', 1)
        t = raw[lo:hi].decode('utf-8')
        t, k = re.subn(r'throw\s+(?:std::)?out_of_range\s*\([^;]*\)\s*;', 'THROW', t)
        if 'throw' in t:
            raise cxx.Untranslatable('throw in ' + n)
        t = re.sub(r'\bstatic_cast<\s*([\w ]+?)\s*>\s*\(', r'(\1)(', t)
        t = re.sub(r'\breinterpret_cast<\s*([\w *]+?)\s*>\s*\(', r'(\1)(', t)
        t = t.replace('std::', '')
        out.append(t)
    return '\n\n'.join(out)


def verify(path, scratch, timeout=200, only=None):
    """-> [(name, status, detail)]"""
    text = extract(path)
    res = []
    for n, (call, w, post) in BODIES.items():
        if only not in (None, n):
            continue
        t0 = time.time()
        c = os.path.join(scratch, n + '.c')
        with open(c, 'w') as f:
            f.write(HEAD + text + DEFS + 'int main(void) {' + SETUP + '    ' + call + '''
    if (n - i >= %d) {
        __CPROVER_assert(!thrown, "does not refuse a complete value");
        __CPROVER_assert(%s, "value");
        __CPROVER_assert(f->ptr == data + i + %d, "position");
    } else {
        __CPROVER_assert(thrown, "refuses a value cut short");
    }
    __CPROVER_assert(f->root == data && f->end == data + n - 1, "frame");
    __CPROVER_assert(0, "reachable");
    return 0; }
''' % (w, post, w))
        try:
            r = subprocess.run(['cbmc', c, '--bounds-check', '--pointer-check', '--json-ui', '--object-bits', '8',
                                '--drop-unused-functions', '--no-signed-overflow-check'], capture_output=True, text=True, timeout=timeout)
            js = json.loads(r.stdout)
        except (subprocess.TimeoutExpired, ValueError) as e:
            res.append((n, 'undecided', 'cbmc: %s' % str(e)[:200], 0))
            continue
        props = [p for x in js if 'result' in x for p in x['result']]
        if not props:
            res.append((n, 'undecided', 'cbmc: ' + str(js)[-300:], 0))
            continue
        reach = [p for p in props if p['description'] == 'reachable']
        bad = [p for p in props if p['status'] != 'SUCCESS' and p['description'] != 'reachable']
        if not reach or reach[0]['status'] == 'SUCCESS':
            res.append((n, 'undecided', 'cbmc: end not reachable', 0))
        elif bad:
            ce = {}
            for p in bad[:1]:
                for s in p.get('trace', []):
                    if s.get('stepType') == 'assignment' and s.get('lhs') in ('n', 'i', 'v'):
                        ce[s['lhs']] = s['value'].get('data')
            res.append((n, 'refuted', '%s: %s %s' % (n, '; '.join(p['description'] for p in bad), ce), 0))
        else:
            res.append((n, 'discharged', '%d checks, %.1fs' % (len(props) - 1, time.time() - t0), len(props) - 1))
    return res
