"""Runs under the interpreter that has the compiled reader (PyPy 3.9): loads records with both readers and compares.
usage: ext_runner.py SRC INPUT OUTPUT   (INPUT: JSON list of {code, good, bads})"""
import contextlib
import io
import json
import os
import struct
import sys


def main(src, inp, outp):
    sys.path.insert(0, src)
    import avb
    from avb import utils, core, _ext
    from avb.file import AVBFile, READERS
    from avb.ioctx import AVBIOContext
    from weakref import WeakValueDictionary
    assert READERS and _ext.__file__.startswith(src), (_ext.__file__, len(READERS))
    out = dict(loads=0, fails=[], classes=sorted(k.decode() for k in READERS))

    def fail(**k):
        k['what'] = str(k['what'])[:600]
        if len(out['fails']) < 60:
            out['fails'].append(k)

    def load(code, data, fast):
        f = AVBFile.__new__(AVBFile)
        f.check_refs, f.debug_copy_refs, f.reading = False, False, False
        f.object_cache, f.modified_objects, f.next_object_id = WeakValueDictionary(), {}, 0
        f.octx, f.ictx = None, AVBIOContext('little')
        f.fast_readers = READERS if fast else {}
        f.f = io.BytesIO(code[::-1] + struct.pack('<I', len(data)) + data)
        f.object_positions = [0, 0]
        out['loads'] += 1
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return f, f.read_object(1), None
        except Exception as e:
            return f, None, '%s: %s' % (type(e).__name__, str(e)[:150])

    def bits(v):
        return struct.pack('<d', v)

    def number(v):
        return isinstance(v, (int, float)) and not isinstance(v, bool)

    def ref(v):
        """index an item of a reference list or a property stands for"""
        if isinstance(v, utils.AVBObjectRef):
            return v.index
        return v

    def diff(fast, plain, a, b, where):
        """None or how the values differ (a: compiled reader)"""
        if isinstance(b, utils.AVBObjectRef) or isinstance(a, utils.AVBObjectRef):
            if not isinstance(a, utils.AVBObjectRef) or not isinstance(b, utils.AVBObjectRef):
                return '%s is %r, plain %r' % (where, a, b)
            if a.index != b.index:
                return '%s refers to object %d, plain %d' % (where, a.index, b.index)
            if a.root is not fast or b.root is not plain:
                return '%s refers to another file' % where
            return None
        if isinstance(b, core.AVBRefList) or isinstance(a, core.AVBRefList):
            if type(a) is not type(b):
                return '%s is a %s, plain %s' % (where, type(a).__name__, type(b).__name__)
            x, y = [ref(v) for v in list.__iter__(a)], [ref(v) for v in list.__iter__(b)]
            if x != y:
                return '%s refers to %r, plain %r' % (where, x[:20], y[:20])
            if a.root is not fast:
                return '%s belongs to another file' % where
            if (a.parent is None) != (b.parent is None):
                return '%s: owner %r, plain %r' % (where, type(a.parent).__name__, type(b.parent).__name__)
            return None
        if hasattr(b, 'property_data'):
            if type(a) is not type(b):
                return '%s is a %s, plain %s' % (where, type(a).__name__, type(b).__name__)
            if a.root is not fast:
                return '%s belongs to another file' % where
            x, y = dict(dict.items(a.property_data)), dict(dict.items(b.property_data))
            if set(x) != set(y):
                return '%s: set are %s more, %s less than plain' % (where, sorted(set(x) - set(y)), sorted(set(y) - set(x)))
            for k in y:
                d = diff(fast, plain, x[k], y[k], '%s.%s' % (where, k))
                if d:
                    return d
            return None
        if isinstance(b, dict):
            if not isinstance(a, dict) or list(a) != list(b):
                return '%s has keys %r, plain %r' % (where, list(a)[:20] if isinstance(a, dict) else a, list(b)[:20])
            for k in list(b):
                d = diff(fast, plain, dict.__getitem__(a, k), dict.__getitem__(b, k), '%s[%r]' % (where, k))
                if d:
                    return d
            return None
        if isinstance(b, (list, tuple)):
            if isinstance(b, list) != isinstance(a, list) or isinstance(b, tuple) != isinstance(a, tuple):
                return '%s is a %s, plain a %s' % (where, type(a).__name__, type(b).__name__)
            if len(a) != len(b):
                return '%s has %d items, plain %d' % (where, len(a), len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                d = diff(fast, plain, x, y, '%s[%d]' % (where, i))
                if d:
                    return d
            return None
        if number(a) and number(b):
            if a == b or bits(a) == bits(b):
                return None
            return '%s is %r, plain %r' % (where, a, b)
        if type(b).__name__ == 'MobID':
            if type(a) is not type(b) or bytes(a.bytes_le) != bytes(b.bytes_le):
                return '%s is %s, plain %s' % (where, a, b)
            return None
        try:
            same = bool(a == b)
        except Exception:
            same = False
        if not same or isinstance(a, str) != isinstance(b, str):
            return '%s is %r, plain %r' % (where, a, b)
        return None

    for rec in json.load(open(inp)):
        code, good = rec['code'].encode(), bytes.fromhex(rec['good'])
        for what, data in [(None, good)] + [(w, bytes.fromhex(h)) for w, h in rec['bads']]:
            pf, po, pe = load(code, data, False)
            ff, fo, fe = load(code, data, True)
            if pe is not None:
                if fe is None and what is not None:
                    fail(cls=rec['cls'], what='%s, which the plain reader refuses (%s), is accepted' % (what, pe), record=data.hex()[:4000])
                continue
            if fe is not None:
                fail(cls=rec['cls'], what='the compiled reader refuses a record the plain one reads (%s)' % fe, record=data.hex()[:4000])
                continue
            if fo.instance_id != 1 or ff.object_cache.get(1) is not fo or ff.modified_objects:
                fail(cls=rec['cls'], what='identity of the loaded object', record=data.hex()[:4000])
            d = diff(ff, pf, fo, po, rec['cls'])
            if d:
                fail(cls=rec['cls'], what=d, record=data.hex()[:4000])
    def outcome(f, *a, **k):
        try:
            r = f(*a, **k)
            return list(r) if hasattr(r, '__next__') or hasattr(r, '__iter__') and not isinstance(r, (str, tuple)) else r
        except Exception as e:
            return type(e)

    def mappings():
        """the mapping the compiled reader gives objects against the one the plain reader gives them"""
        class Root(object):
            object_positions, check_refs = [], False     # references are shown without looking

            def read_object(self, i):
                return ('object', i) if i else None
        root = Root()
        refs = [utils.AVBObjectRef(root, i) for i in (0, 1, 7)]
        data = [('a', refs[1]), ('b', 5), ('c', refs[0]), ('d', None), ('e', [refs[2], 4]), ('f', ''), ('g', refs[2])]
        for n in range(len(data) + 1):
            x, y = _ext.AVBPropertyData(), core.AVBPropertyData()
            for d in (x, y):
                for k, v in data[:n]:
                    d[k] = v
            out['loads'] += 1
            for what, f in ([('items()', lambda d: d.items()), ('values()', lambda d: d.values()), ('iteration', lambda d: iter(d)),
                             ('len()', lambda d: len(d))] +
                            [('get(%r, ...)' % (k,), lambda d, k=k, a=a: d.get(k, *a)) for k in 'abcdefgx' for a in ((), (refs[1],), (8,))] +
                            [('[%r]' % k, lambda d, k=k: d[k]) for k in 'abcdefgx'] + [('in', lambda d, k=k: k in d) for k in 'abx'] +
                            [('deref', lambda d, v=v: d.deref(v)) for k, v in data]):
                r, q = outcome(f, x), outcome(f, y)
                if r != q or type(r) is not type(q):
                    fail(cls='AVBPropertyData', what='%s with %d values is %r, plain %r' % (what, n, r, q), record='')
                    return

    def opened():
        """saved files opened with and without the compiled reader, in both byte orders"""
        w = avb.open()
        m = w.create.Composition(name=u'm', mob_type='CompositionMob')
        t = w.create.Track()
        t.index = 1
        t.component = w.create.Sequence(edit_rate=25, media_kind='picture')
        for i in range(5):
            c = w.create.SourceClip(edit_rate=25, media_kind='picture')
            c.length, c.track_id, c.start_time = 70000 + i, i, -i
            t.component.components.append(c)
        m.tracks.append(t)
        w.content.add_mob(m)
        for order in ('little', 'big'):
            path = outp + '.avb'
            w.write(path, order)
            with open(path, 'rb') as f:
                data = f.read()
            os.remove(path)
            fast, plain = AVBFile(io.BytesIO(data)), AVBFile(io.BytesIO(data), use_ext=False)
            if plain.fast_readers:
                fail(cls='AVBFile', what='%s-endian file opened without the compiled reader: it is used' % order, record='')
            for i in range(1, len(plain.object_positions)):
                out['loads'] += 1
                try:
                    b = plain.read_object(i)
                except Exception:
                    continue
                with contextlib.redirect_stdout(io.StringIO()):
                    a, why = outcome(lambda: (fast.read_object(i),)), ''
                if not isinstance(a, tuple):
                    d = 'is refused with %s' % a
                else:
                    d = diff(fast, plain, a[0], b, type(b).__name__)
                if d:
                    fail(cls='AVBFile', what='object %d of a %s-endian file: %s' % (i, order, d), record='')
                    return

    mappings()
    try:
        opened()
    except Exception as e:
        fail(cls='AVBFile', what='saved file: %s: %s' % (type(e).__name__, e), record='')
    with open(outp, 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main(os.path.abspath(sys.argv[1]), sys.argv[2], sys.argv[3])
