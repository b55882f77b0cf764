"""C09: integers are encoded losslessly with the fixed widths"""
import itertools
from array import array

from ccnpy.core.FinalChunkId import FinalChunkId
from ccnpy.core.Name import NameComponent
from ccnpy.core.Tlv import Tlv
from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType

from .. import catalog, lib, wire
from ..engine import raises

PID = 'C09'
TECHNIQUE = 'model checking: exhaustive enumeration of integers (all of 0..2^22 and all byte patterns over a 6-letter byte alphabet up to 8 bytes), real encoder and decoder against an independent one'
BOUND = {
    'quick': 'plain and 64-bit numbers: every integer 0..2^22, every integer within 2000 of each power of two up to 2^65 and of each multiple of 2^32/16, every 3..8 byte pattern over bytes {00,01,7f,80,fe,ff}; every integer element (8 classes, chunk and manifest components, names, suffix components): every integer 0..70000 and within 40 of each power of two, all refused values -300..-1, 2^64..2^64+300 and around -2^k, 2^k for k to 130',
    'thorough': 'as quick with every integer 0..2^25 and an 8-letter byte alphabet',
}
ASSUMPTIONS = ['Python integers (not floats or booleans)']

ALPHABET = {'quick': (0, 1, 0x7F, 0x80, 0xFE, 0xFF), 'thorough': (0, 1, 2, 0x7F, 0x80, 0x81, 0xFE, 0xFF)}
TOP = {'quick': 1 << 22, 'thorough': 1 << 25}
TOO_BIG = 1 << 64


def elements():
    """name -> (integer -> element, its bytes -> integer, header type, bytes -> parsed element)"""
    out = {}
    for cls, t in catalog.INTEGERS:
        out[cls.__name__] = (cls, lambda e: e.value(), t, lambda b, cls=cls: cls.parse(Tlv.deserialize(b)))
    out['FinalChunkId'] = (FinalChunkId, None, 7, lambda b: FinalChunkId.parse(Tlv.deserialize(b)))
    out['ChunkId'] = (NameComponent.create_chunk_segment, lambda e: e.value_as_number(), 5, NameComponent.deserialize)
    out['ManifestId'] = (NameComponent.create_manifest_id, lambda e: e.value_as_number(), 16, NameComponent.deserialize)
    out['Suffix'] = (SuffixComponentType(0x0203).create_name_component,
                     lambda e: e.value_as_number(), 0x0203, NameComponent.deserialize)
    out['Tlv.varint'] = (lambda n: Tlv.create_varint(0x1234, n), lambda e: e.value_as_number(), 0x1234, Tlv.deserialize)
    return out


def units(tier):
    n = 16
    u = [dict(kind='range', start=TOP[tier] * i // n, stop=TOP[tier] * (i + 1) // n) for i in range(n)]
    u += [dict(kind='windows'), dict(kind='refused')]
    u += [dict(kind='bytes', first=b) for b in ALPHABET[tier]]
    u += [dict(kind='element', element=e) for e in sorted(elements())]
    u += [dict(kind='name')]
    return u


def run(unit, ctx):
    globals()[unit['kind'] + '_'](unit, ctx)


def number(ctx, n):
    w = Tlv.number_to_array(n).tobytes()
    if w != wire.varint(n):
        ctx.fail(dict(number=n), 'number_to_array gives %s, not %s' % (w.hex(), wire.varint(n).hex()))
    w8 = Tlv.uint64_to_array(n).tobytes()
    if w8 != n.to_bytes(8, 'big'):
        ctx.fail(dict(number=n), 'uint64_to_array gives %s' % w8.hex())
    if Tlv.array_to_number(array('B', w)) != n or Tlv.array_to_number(array('B', w8)) != n:
        ctx.fail(dict(number=n), 'does not decode to itself from %s and %s' % (w.hex(), w8.hex()))
    return len(w)


def numbers(ctx, it):
    count = 0
    widths = {}
    for n in it:
        k = number(ctx, n)
        widths[k] = widths.get(k, 0) + 1
        count += 1
    ctx.step(3 * count)
    for k, c in widths.items():
        ctx.trace('%d bytes' % k, c)
    return widths


def range_(unit, ctx):
    w = numbers(ctx, range(unit['start'], unit['stop']))
    ctx.state((unit['start'], unit['stop'], sorted(w.items())))
    ctx.sample(numbers=[unit['start'], unit['stop']], widths=w)


def windows():
    marks = {1 << k for k in range(0, 65)} | {(1 << 32) * i // 16 for i in range(17)} | {(1 << 64) * i // 16 for i in range(17)}
    for m in sorted(marks):
        for n in range(m - 2000, m + 2001):
            if 0 <= n < TOO_BIG:
                yield n


def windows_(unit, ctx):
    w = numbers(ctx, windows())
    ctx.state(sorted(w.items()))


def bytes_(unit, ctx):
    a = ALPHABET[ctx.tier]
    for k in range(2, 8):
        w = numbers(ctx, (int.from_bytes(bytes((unit['first'],) + rest), 'big') for rest in itertools.product(a, repeat=k)))
        ctx.state((unit['first'], k, sorted(w.items())))
    # numbers in non-minimal encodings decode to the same number
    for k in range(0, 8):
        for n in (0, 1, 255, 256, 65535, 1 << 24):
            p = bytes(k) + wire.varint(n)
            ctx.check(Tlv.array_to_number(array('B', p)) == n, dict(bytes=p.hex()), 'does not decode to %d' % n)
            ctx.trace('padded')


def bad_numbers():
    out = set(range(-300, 0)) | set(range(TOO_BIG, TOO_BIG + 301))
    for k in range(8, 131):
        for d in (-1, 0, 1):
            out.add(-(1 << k) + d)
            if (1 << k) + d >= TOO_BIG:
                out.add((1 << k) + d)
            if k > 64:
                out.add((1 << k) + (1 << (k - 64)) + d)
    for k in (65, 72, 128):
        for n in (0, 1, 127, 255, 256, 65536):
            out.add((1 << k) + n)
    return sorted(out)


def refused_(unit, ctx):
    fs = dict(number_to_array=Tlv.number_to_array, uint64_to_array=Tlv.uint64_to_array, create_uint64=lambda n: Tlv.create_uint64(1, n),
              create_varint=lambda n: Tlv.create_varint(1, n))
    for name, (make, _, _, _) in elements().items():
        fs[name] = make
    for f in ('uint32_to_array', 'uint24_to_array', 'uint16_to_array'):
        if hasattr(Tlv, f):
            fs[f] = getattr(Tlv, f)
    for n in bad_numbers():
        for f, fn in fs.items():
            ctx.step()
            exc, res = raises(fn, n)
            ctx.check(exc is not None, dict(function=f, number=n), lambda: 'accepted as %s' % (res.tobytes().hex() if isinstance(res, array) else bytes(res.serialize()).hex()))
        ctx.state(n)
        ctx.trace('refused', len(fs))
    # fixed widths below 64 bits: exact or refused
    for f, width in (('uint32_to_array', 4), ('uint24_to_array', 3), ('uint16_to_array', 2), ('create_uint8', 1), ('create_uint16', 2)):
        if not hasattr(Tlv, f):
            continue
        fn = getattr(Tlv, f) if f.endswith('array') else (lambda n, fn=getattr(Tlv, f): fn(9, n).value())
        for k in range(0, 66):
            for d in range(-30, 31):
                n = (1 << k) + d
                exc, res = raises(fn, n)
                ctx.step()
                if 0 <= n < 1 << (8 * width):
                    ctx.check(exc is None and bytes(res) == n.to_bytes(width, 'big'), dict(function=f, number=n), 'gives %r %r' % (exc, res))
                else:
                    ctx.check(exc is not None, dict(function=f, number=n), lambda: 'accepted as %s' % bytes(res).hex())
                ctx.trace('%s %s' % (f, 'refused' if exc else 'exact'))


def small_windows():
    yield from range(0, 70001)
    for k in range(16, 65):
        for d in range(-40, 41):
            n = (1 << k) + d
            if 70000 < n < TOO_BIG:
                yield n


def element_(unit, ctx):
    make, value, t, parse = elements()[unit['element']]
    for n in small_windows():
        want = wire.tlv(t, wire.varint(n))
        e = make(n)
        got = e.serialize().tobytes()
        case = dict(element=unit['element'], number=n)
        if got != want:
            ctx.fail(case, 'encodes to %s, not %s' % (got.hex(), want.hex()))
        p = parse(array('B', want))
        if value is not None and (value(e) != n or value(p) != n):
            ctx.fail(case, 'value %r, parsed value %r' % (value(e), value(p)))
        if not (p == e) or p.serialize().tobytes() != want or len(p) != len(want) or len(e) != len(want):
            ctx.fail(case, 'the parsed element is another one')
        ctx.step(3)
        ctx.trace('%d bytes' % (len(want) - 4))
    ctx.state(unit['element'])
    ctx.sample(element=unit['element'])


def name_(unit, ctx):
    base = lib.N('ccnx:/a/b')
    for n in small_windows():
        for label, t, x in (('chunk', 5, base.append_chunk_id(n)), ('manifest', 16, base.append_manifest_id(n))):
            want = lib.ref_name(base) + ((t, wire.varint(n)),)
            if lib.ref_name(x) != want or x.serialize().tobytes() != wire.name_tlv(want):
                ctx.fail(dict(append=label, number=n), 'gives %r' % (lib.ref_name(x),))
            ctx.step()
            ctx.trace('name %s' % label)
    for n in bad_numbers():
        for f in (base.append_chunk_id, base.append_manifest_id):
            exc, res = raises(f, n)
            ctx.check(exc is not None, dict(append=f.__name__, number=n), lambda: 'accepted as %r' % (lib.ref_name(res),))
            ctx.trace('refused')
    ctx.state('names')
