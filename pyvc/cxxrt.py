"""Run-time functions of the text translated from the compiled reader (cxx.py, cyx.py).  They are never executed: the
verifier has a contract for each (extproof.py)."""


def _never(*a, **k):
    raise NotImplementedError


def _f(name):
    def g(*a, **k):
        raise NotImplementedError
    g.__name__ = g.__qualname__ = name
    return g


NAMES = '''cxx_unsupported cxx_new cxx_new_uninit cxx_copy cxx_resize cxx_bound cxx_last cxx_clear cxx_int cxx_div cxx_mod cxx_float cxx_fdiv cxx_fmul cxx_fadd cxx_fsub cxx_pow wrap unread
bv_new bv_resize bv_set bv_get bv_push bv_len bv_fill bv_slice cy_bool cy_list
read_u8 read_u16le read_u32le read_u64le read_double_le read_exp10_encoded_float'''.split()
for _n in NAMES:
    globals()[_n] = _f(_n)


class CxxRec(object):
    """a C++ struct"""


class ByteVec(object):
    """std::vector<uint8_t>; b: contents (None: not known yet), n: size"""


HAVOC = None
__all__ = NAMES + ['CxxRec', 'ByteVec', 'HAVOC']
