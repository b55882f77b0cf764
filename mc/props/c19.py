"""C19: equality and hashing follow the encoding, and observing a value never changes it"""
import inspect
import itertools
import re
from array import array

from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.FixedHeader import FixedHeader
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Packet import Packet
from ccnpy.core.Tlv import Tlv
from ccnpy.flic.name_constructor.FileMetadata import ChunkMetadata, FileMetadata
from ccnpy.flic.tree.FileChunks import FileChunks
from ccnpy.flic.tree.SizedPointer import SizedPointer
from ccnpy.flic.tree.TreeIO import TreeIO

from .. import catalog, forge, keys, lib, wire
from ..engine import raises

PID = 'C19'
TECHNIQUE = 'model checking: exhaustive enumeration of observation histories on real values, compared with the same observations on untouched values; all pairs of values for equality and hashing'
BOUND = {
    'quick': 'a catalogue of 3000 values of 55 kinds, built and parsed: all pairs within a kind (equal exactly when encoded alike, hashes agree, != is the negation), all pairs of kinds and 20 foreign objects; every observation (auto-discovered methods, iteration, abandoned and interleaved iterations, printing, hashing, comparing, encoding, use in another value) on every value, all pairs of observations for 6 and all triples for 2 values of every kind',
    'thorough': 'as quick with 10000 values, all triples for 4 values of every kind',
}
ASSUMPTIONS = ['methods without arguments are observations']
UNIT_TIMEOUT = {'quick': 800, 'thorough': 7200}
PARTS = 32


def more():
    """Kinds that the catalogue lacks -> (kind, label, build, encoding or None)"""
    for t, v in itertools.product((0, 1, 2, 0x7777, 0xFFFF), (b'', b'a', b'ab', b'\0', bytes(300))):
        yield 'Tlv', 'bytes %d %d' % (t, len(v)), lambda t=t, v=v: Tlv(t, array('B', v)), wire.tlv(t, v)
    one, two = wire.tlv(1, b'a'), wire.tlv(2, b'bc')
    yield 'Tlv', 'child', lambda: Tlv(9, Tlv(1, array('B', b'a'))), wire.tlv(9, one)
    yield 'Tlv', 'children', lambda: Tlv(9, [Tlv(1, array('B', b'a')), Tlv(2, array('B', b'bc'))]), wire.tlv(9, one + two)
    yield 'Tlv', 'flat children', lambda: Tlv(9, array('B', one + two)), wire.tlv(9, one + two)
    yield 'Tlv', 'extended', lambda: Tlv(9, array('B', one)).extend(Tlv(2, array('B', b'bc'))), wire.tlv(9, one + two)
    for t, v in itertools.product((1, 4, 5, 16, 0x1000), (b'', b'a', b'\1', b'b')):
        yield 'NameComponent', '%d %r' % (t, v), lambda t=t, v=v: NameComponent(t, array('B', v)), wire.tlv(t, v)
    for n in (None, ((1, b'a'),), ((1, b'a'), (5, b'\1'))):
        for p in (b'', b'x'):
            for e in (None, 0, 1700000000123):
                for f in (None, 0, 300):
                    b = forge.co(p, name=n, expiry=e, fcid=f)
                    yield 'ContentObject', 'parsed %s' % b.hex(), lambda b=b: ContentObject.parse(Tlv.deserialize(array('B', b))), b
    yield 'ContentObject', 'built', lambda: ContentObject.create_data(name=Name.from_uri('ccnx:/a'), payload=array('B', b'x')), forge.co(b'x', name=((1, b'a'),))
    for body in (forge.co(b'x'), forge.co(b'x', name=((1, b'a'),)), forge.co(forge.plain_manifest(forge.node([forge.group([bytes(32)], 0)])), ptype=3)):
        for how in (None, 'crc', ('rsa', keys.RSAA, keys.RSAA)):
            for opt in (b'', wire.tlv(0x7000, b'o')):
                w = forge.packet(body, how, optional=opt)
                yield 'Packet', w.hex()[:80], lambda w=w: lib.parse(w), w
    yield 'Packet', 'built', lambda: Packet.create_content_object(ContentObject.parse(Tlv.deserialize(array('B', forge.co(b'x'))))), forge.packet(forge.co(b'x'))
    for t, n, h, f in itertools.product((0, 1, 2), (8, 300), (8, 20), (b'\0\0\0', b'\1\2\3')):
        b = bytes([1, t]) + n.to_bytes(2, 'big') + f + bytes([h])
        yield 'FixedHeader', b.hex(), lambda b=b: FixedHeader.deserialize(array('B', b)), b
    # no wire encoding: only observed
    ptrs = lambda: [SizedPointer(content_object_hash=lib.hash_value(bytes([i] * 32)), length=i) for i in range(3)]
    yield 'FileChunks', '3', lambda: chunks(ptrs()), None
    yield 'FileMetadata', '3', lambda: FileMetadata([ChunkMetadata(i, 10, lib.hash_value(bytes([i] * 32)), Name.from_uri('ccnx:/a')) for i in range(3)], 30), None
    yield 'ChunkMetadata', '1', lambda: ChunkMetadata(1, 10, lib.hash_value(bytes(32)), None), None
    yield 'SizedPointer', '1', lambda: SizedPointer(content_object_hash=lib.hash_value(bytes(32)), length=7), None
    yield 'PacketMemoryReader', '2', lambda: TreeIO.PacketMemoryReader([lib.parse(forge.packet(forge.co(b'x'))), lib.parse(forge.packet(forge.co(b'y')))]), None


def chunks(ptrs):
    c = FileChunks()
    for p in ptrs:
        c.append(p)
    return c


class Item:
    def __init__(self, kind, label, build, encoding):
        self.kind, self.label, self.build, self.encoding = kind, label, build, encoding


def items(deep=False):
    out = []
    for v in catalog.catalogue(deep):
        kind = type(v.build()).__name__
        e = catalog.encoding(v)
        out.append(Item(kind, v.label, v.build, e))
        out.append(Item(kind, v.label + ' (parsed)', lambda v=v, e=e: v.parse(e), e))
        if v.kind in PADDED and not v.sequence and isinstance(v.spec.v, bytes) and len(v.spec.v) < 8:
            padded = wire.tlv(v.spec.t, b'\0' + v.spec.v)
            exc, x = raises(v.parse, padded)
            if exc is None:
                out.append(Item(kind, v.label + ' (padded)', lambda v=v, b=padded: v.parse(b), x.serialize().tobytes()))
    out += [Item(*m) for m in more()]
    return out


PADDED = {'SubtreeSize', 'LeafSize', 'NcId', 'StartSegmentId', 'KeyNumber', 'KdfAlg', 'HashAlg', 'FinalChunkId', 'SuffixComponentType', 'AeadMode', 'PayloadType'}


def by_kind(deep=False):
    out = {}
    for i in items(deep):
        out.setdefault(i.kind, []).append(i)
    return out


def units(tier):
    u = [dict(kind='equality', part=p) for p in range(PARTS)]
    u += [dict(kind='foreign', part=p) for p in range(8)]
    u += [dict(kind='single', part=p) for p in range(PARTS)]
    u += [dict(kind='histories', part=p) for p in range(PARTS * 2)]
    u += [dict(kind='relatives')]
    return u


def run(unit, ctx):
    globals()[unit['kind']](unit, ctx)


def hash_of(x):
    exc, h = raises(hash, x)
    return 'unhashable' if exc is not None else h


def equality(unit, ctx):
    """All pairs within a kind"""
    for kind, its in by_kind(ctx.tier == 'thorough').items():
        if its[0].encoding is None:
            continue
        mine = range(unit['part'], len(its), PARTS)
        if not mine:
            continue
        objs = [(i, i.build()) for i in its]
        hashes = [hash_of(o) for _, o in objs]
        for a in mine:
            ia, oa = objs[a]
            for b, (ib, ob) in enumerate(objs):
                same = ia.encoding == ib.encoding
                r = oa == ob
                if r is not same or (oa != ob) is same or (ob == oa) is not same:
                    ctx.fail(dict(element=kind, a=ia.label, b=ib.label), '== is %r, != is %r; encodings %s and %s' % (r, oa != ob, ia.encoding.hex()[:200], ib.encoding.hex()[:200]))
                if same and hashes[a] != hashes[b]:
                    ctx.fail(dict(element=kind, a=ia.label, b=ib.label), 'equal values with hashes %r and %r' % (hashes[a], hashes[b]))
                ctx.step()
            if hashes[a] != 'unhashable':
                ctx.check(hash(oa) == hashes[a] and oa in {oa} and {oa: 1}[ia.build()] == 1, dict(element=kind, a=ia.label), 'the hash changes')
            ctx.check(oa.serialize().tobytes() == ia.encoding, dict(element=kind, a=ia.label), 'encodes differently after comparisons')
            ctx.state((kind, ia.label))
        ctx.trace('%s: %s' % (kind, 'hashable' if hashes[0] != 'unhashable' else 'not hashable'), len(mine) * len(objs))


class Other:
    def serialize(self):
        return array('B', b'\0\1\0\0')

    def __len__(self):
        return 4

    _tlv = None
    _value = None


FOREIGN = [None, True, 0, 1, 1.5, '', 'a', b'', b'a', [], [1], (), {}, set(), array('B'), array('B', b'a'), object(), type, Exception(), Other(), int, NotImplemented, ...]


def foreign(unit, ctx):
    """Another kind, or no value at all"""
    kinds = by_kind()
    names = sorted(kinds)
    reps = {k: [its[j].build() for j in sorted({0, len(its) // 2, len(its) - 1})] for k, its in kinds.items()}
    for k in names[unit['part']::8]:
        for x in reps[k]:
            before = snapshot(x)
            for n in names:
                if n == k:
                    continue
                for y in reps[n]:
                    for op, r in (('a == b', raises(lambda: x == y)), ('b == a', raises(lambda: y == x))):
                        if r[0] is not None or r[1] is not False:
                            ctx.fail(dict(a=k, b=n, op=op), 'not False: %r' % (r,))
                    r = raises(lambda: x != y)
                    ctx.check(r == (None, True), dict(a=k, b=n, op='a != b'), 'not True: %r' % (r,))
                    ctx.step(3)
            for y in FOREIGN + [x.value() if hasattr(x, 'value') else None, before, x.serialize() if hasattr(x, 'serialize') else None, x.serialize().tobytes() if hasattr(x, 'serialize') else None]:
                r = raises(lambda: (x == y, y == x, x != y))
                if y is x:
                    continue
                ctx.check(r == (None, (False, False, True)), dict(a=k, foreign=repr(y)[:80]), 'not (False, False, True): %r' % (r,))
                exc, found = raises(lambda: x in [y])
                ctx.check(exc is None and found is False, dict(a=k, foreign=repr(y)[:80]), 'found in a list: %r' % (exc,))
                ctx.step(2)
            ctx.check(snapshot(x) == before, dict(a=k), 'changed by comparisons')
            ctx.trace('foreign')
        ctx.state(k)


ADDRESS = re.compile(r'0x[0-9a-f]{6,}')


def plain(x, depth=0):
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return x
    if isinstance(x, array):
        return x.tobytes()
    if isinstance(x, (list, tuple)):
        return [plain(i, depth + 1) for i in x]
    if isinstance(x, dict):
        return sorted((repr(plain(k)), plain(v)) for k, v in x.items())
    exc, b = raises(lambda: bytes(x.serialize()))
    if exc is None:
        return type(x).__name__, b
    if hasattr(x, '__next__') and depth < 3:
        return ['iterator'] + [plain(i, depth + 1) for i in x] if hasattr(x, '__iter__') else ['iterator'] + drain(x, depth)
    if hasattr(x, '__dict__') and depth < 3:
        return type(x).__name__, ADDRESS.sub('', repr(x))
    return ADDRESS.sub('', repr(x))


def drain(it, depth):
    out = []
    while True:
        try:
            out.append(plain(next(it), depth + 1))
        except StopIteration:
            return out


def result(fn, x):
    exc, r = raises(fn, x)
    if exc is not None:
        return 'raises ' + type(exc).__name__
    exc, r = raises(plain, r)
    return r if exc is None else 'raises later ' + type(exc).__name__


def iterate(x):
    return [plain(i) for i in x]


def abandoned(x):
    it = iter(x)
    return [plain(next(it, 'end'))]


def interleaved(x):
    a, b = iter(x), iter(x)
    out = [plain(next(a, 'end')), plain(next(b, 'end')), plain(next(b, 'end')), plain(next(a, 'end'))]
    return out + [plain(i) for i in drain(a, 0)] + ['|'] + [plain(i) for i in drain(b, 0)]


def nested(x):
    return [(plain(i), [plain(j) for j in x]) for i in x]


def children(x):
    """Iterations of what the fields return, abandoned after one"""
    out = []
    for n in methods(x):
        exc, c = raises(getattr(x, n))
        if exc is None and hasattr(c, '__iter__') and not isinstance(c, (str, bytes, array, list, tuple, dict)):
            out.append((n, result(abandoned, c)))
    return out


_methods = {}


def methods(x):
    """The public methods that can be called without arguments"""
    c = type(x)
    if c not in _methods:
        out = []
        for n in sorted(dir(c)):
            if n.startswith('_') or n in ('close', 'build', 'reset_nc_id', 'generate'):
                continue
            f = getattr(c, n)
            if isinstance(inspect.getattr_static(c, n), (classmethod, staticmethod)) or not callable(f) or inspect.isclass(f):
                continue
            exc, sig = raises(inspect.signature, f)
            if exc is None and all(p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in list(sig.parameters.values())[1:]):
                out.append(n)
        _methods[c] = out
    return _methods[c]


def use(x):
    return Tlv(0x7777, [x, x]).serialize().tobytes()


def observations(x):
    """name -> function.  Iteration, comparison and use in another value come on top of the methods"""
    ops = {}
    for n in methods(x):
        ops[n + '()'] = lambda o, n=n: getattr(o, n)()
    if hasattr(x, '__iter__'):
        ops.update({'iterate': iterate, 'abandoned iteration': abandoned, 'interleaved iterations': interleaved, 'nested iterations': nested})
    elif hasattr(x, '__getitem__'):
        ops['index'] = lambda o: [plain(o[i]) for i in range(len(o))] if not hasattr(o, 'count') else [plain(o[i]) for i in range(o.count())]
    ops['len'] = len
    ops['repr'] = lambda o: ADDRESS.sub('', repr(o))
    ops['str'] = lambda o: ADDRESS.sub('', str(o))
    ops['hash'] = lambda o: raises(hash, o)[0] is None if not hasattr(o, 'serialize') else hash_of(o)
    ops['use'] = use
    ops['fields iterated'] = children
    ops['bool'] = bool
    return ops


def snapshot(x):
    return {n: result(f, x) for n, f in observations(x).items()}


def compare_ops(item, twin):
    if item.encoding is None:
        return {}
    return {'== twin': lambda o: o == twin, 'twin ==': lambda o: twin == o, '!= None': lambda o: o != None, '== itself': lambda o: o == o}


def single(unit, ctx):
    """Every observation of every value, once and again, leaves everything as it was"""
    its = items(ctx.tier == 'thorough')
    for item in its[unit['part']::PARTS]:
        with ctx.guard(dict(element=item.kind, value=item.label)):
            x = item.build()
            twin = item.build()
            ops = dict(observations(x), **compare_ops(item, twin))
            base = {n: result(f, item.build()) for n, f in ops.items()}
            for round_ in (1, 2):
                for n, f in ops.items():
                    r = result(f, x)
                    if r != base[n]:
                        ctx.fail(dict(element=item.kind, value=item.label, observation=n, round=round_), '%r after other observations, %r at first' % (r, base[n]))
                    ctx.step()
            if item.encoding is not None:
                ctx.check(x.serialize().tobytes() == item.encoding, dict(element=item.kind, value=item.label), 'the encoding changed')
                ctx.check(twin.serialize().tobytes() == item.encoding, dict(element=item.kind, value=item.label), 'the encoding of a value compared with changed')
                ctx.check(not isinstance(base['use'], bytes) or base['use'][-len(item.encoding):] == item.encoding, dict(element=item.kind, value=item.label), 'encodes differently as a child')
            ctx.trace('%s: %d observations' % (item.kind, len(ops)))
            ctx.state((item.kind, item.label))


def spread(its, n):
    k = sorted({round(i * (len(its) - 1) / max(1, n - 1)) for i in range(n)})
    return [its[i] for i in k]


def histories(unit, ctx):
    """All histories of two and of three observations"""
    n = -1
    for kind, its in by_kind().items():
        # prefer values with something inside: the largest encodings that are still small
        small = [i for i in its if i.encoding is None or len(i.encoding) <= 400] or its
        deep = sorted(small, key=lambda i: -len(i.encoding or b''))
        chosen = [(i, 2) for i in spread(small, 6)] + [(i, 3) for i in spread(deep[:max(2, len(deep) // 2)], 2 if ctx.tier == 'quick' else 4)]
        for item, depth in chosen:
            n += 1
            if n % (PARTS * 2) != unit['part']:
                continue
            twin = item.build()
            ops = dict(observations(item.build()), **compare_ops(item, twin))
            if depth == 3:
                ops = interesting(ops)
            base = {k: result(f, item.build()) for k, f in ops.items()}
            for seq in itertools.product(ops, repeat=depth):
                x = item.build()
                for k, op in enumerate(seq):
                    r = result(ops[op], x)
                    if r != base[op]:
                        ctx.fail(dict(element=kind, value=item.label, history=seq, step=k), '%r instead of %r' % (r, base[op]))
                    ctx.step()
                if item.encoding is not None and (x.serialize().tobytes() != item.encoding or not x == twin):
                    ctx.fail(dict(element=kind, value=item.label, history=seq), 'another encoding or unequal at the end')
                ctx.trace('history')
            ctx.state((kind, item.label, depth))


def interesting(ops):
    """For triples: one of the methods that return plain numbers is enough"""
    keep = {}
    for n, f in ops.items():
        if n.endswith('()') and n.startswith(('is_', 'has_', 'class_', 'uses_')):
            continue
        keep[n] = f
    return keep


def relatives(unit, ctx):
    """Observing a value leaves alone the values it was made from and those made from it, and the other way round"""
    import copy
    for kind, its in by_kind().items():
        for item in spread(its, 12):
            if item.encoding is None:
                continue
            case = dict(element=kind, value=item.label)
            with ctx.guard(case):
                x = item.build()
                fresh = snapshot(item.build())
                if not isinstance(fresh['use'], bytes):
                    ctx.trace('cannot be a child')
                    continue
                parent = Tlv(0x7777, [x, Tlv(1, array('B', b'z'))])
                want = wire.tlv(0x7777, item.encoding + wire.tlv(1, b'z'))
                grand = Tlv(0x7778, parent)
                ctx.check(parent.serialize().tobytes() == want and grand.serialize().tobytes() == wire.tlv(0x7778, want), case, 'the parent encodes differently')
                pfresh = snapshot(Tlv(0x7777, [item.build(), Tlv(1, array('B', b'z'))]))
                for target in (x, parent, grand, x, parent):
                    snapshot(target)
                    ctx.check(snapshot(x) == fresh, case, 'changed by observing a relative')
                    ctx.check(snapshot(parent) == pfresh and grand.serialize().tobytes() == wire.tlv(0x7778, want), case, 'the parent changed')
                    ctx.step()
                # the fields of x, observed, leave x alone; a copy is an equal value
                for n in methods(x):
                    exc, child = raises(getattr(x, n))
                    if exc is None and hasattr(child, 'serialize'):
                        c0 = snapshot(child)
                        ctx.check(snapshot(x) == fresh and snapshot(child) == c0, dict(case, field=n), 'changed by observing a field')
                        ctx.step()
                exc, y = raises(copy.deepcopy, x)
                if exc is None:
                    ctx.check(y == x and snapshot(y) == fresh, case, 'a copy is another value')
                # a buffer that was parsed from may be used again
                ctx.trace('relatives')
                ctx.state((kind, item.label))
    for v in catalog.catalogue(False):
        if v.label == '':
            continue
        e = catalog.encoding(v)
        if v.sequence or len(e) > 300:
            continue
        buf = array('B', e)
        tlv = Tlv.deserialize(buf)
        with ctx.guard(dict(element=v.kind, value=v.label)):
            a = v.parse(e)
            before = tlv.serialize().tobytes()
            ctx.check(before == e and buf.tobytes() == e, dict(element=v.kind, value=v.label), 'the source of the parse changed')
            repr(a)
            ctx.trace('source')
