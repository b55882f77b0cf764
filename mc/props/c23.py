"""C23: names are persistent values and URIs name exactly their segments"""
import itertools

from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Tlv import Tlv

from .. import wire
from ..engine import raises

PID = 'C23'
TECHNIQUE = 'model checking: exhaustive enumeration of histories of name operations on a pool of real names, every name of the pool compared with explicit component sequences after every step'
BOUND = {
    'quick': 'all histories of 3 operations (19 components, chunk and manifest numbers to append to, and reparsing and extending the encoding of, any name of the pool, and changing the list a name was made from) from 3 pools; all URIs of up to 3 of 25 path segments and up to 5 of 6, with and without leading, trailing and doubled slashes; equality of all pairs of 1200 names; components of every length around the limits; names of 0 to 600 components; every Unicode character up to 0x20000 in a component; URIs of up to several thousand characters; all pairs of 200 numbers (powers of two, equal hashes) appended one after the other',
    'thorough': 'histories of 4 operations, URIs of up to 4 of 25 and up to 7 of 6 segments, equality of all pairs of 5000 names; every Unicode character up to 0x20000 in a component; URIs of up to several thousand characters',
}
ASSUMPTIONS = ['a URI is ccnx: and a path without query, fragment, white space or control characters, whose segments are taken as they are (no percent decoding)', 'empty path segments name nothing']

COMPONENTS = [(1, b'a'), (1, b'b'), (1, b''), (1, b'\xff\x00'), (1, 'é/'.encode()), (2, b'a'), (5, b'\x00'), (5, b'a'), (0x10, b'a'), (0xFFFF, b'a'), (1, b'\x00\x01\x00\x01a'),
              (5, b''), (5, b'\x00\x01'), (0x10, b'\x00\x00')]
NUMBERS = [0, 1, 255, 256, 1 << 32, (1 << 64) - 1]
BAD = [-1, 1 << 64]
CHUNK, MANIFEST = 5, 0x10


def units(tier):
    d = tier == 'thorough'
    u = [dict(kind='history', start=s, first=i, n=4 if d else 3) for s in range(len(POOLS)) for i in range(len(OPS) * len(POOLS[s]))]
    u += [dict(kind='uris', n=4 if d else 3, first=i) for i in range(len(SEGMENTS))]
    u += [dict(kind='few', n=7 if d else 5)]
    u += [dict(kind='pairs', many=5000 if d else 1200, part=i, parts=8) for i in range(8)]
    u += [dict(kind='lengths', part=i) for i in range(4)]
    u += [dict(kind='deep', n=600, rule=r) for r in range(4)]
    u += [dict(kind='letters', lo=lo, hi=lo + 4096) for lo in range(0, 0x110000 if d else 0x20000, 4096)]
    u += [dict(kind='long_uris')]
    u += [dict(kind='numbers', part=i, n=400 if d else 120) for i in range(4)]
    return u


def run(unit, ctx):
    globals()[unit['kind']](unit, ctx)


# -- histories --------------------------------------------------------------------------------------------------------

OPS = [('append', i) for i in range(len(COMPONENTS))] + [('chunk', i) for i in range(3)] + [('manifest', i) for i in range(2)] + [('parse',), ('extend', 1), ('list', 3), ('bad', 0)]
POOLS = [['ccnx:/'], ['ccnx:/a/b', 'ccnx:/a'], [None]]


def encoded(model):
    return wire.name_tlv(model)


def same(ctx, case, name, model):
    """Everything observable of the name"""
    want = encoded(model)
    got = bytes(name.serialize())
    ctx.step()
    if got != want or len(name) != len(want) or name.count() != len(model):
        ctx.fail(case, 'encoding %s (length %d, count %d), expected %s' % (got.hex(), len(name), name.count(), want.hex()))
        return
    for i, (t, v) in enumerate(model):
        c = name.component(i)
        ctx.check((c.type(), bytes(c.value())) == (t, v), case, 'component %d is %s, expected %s' % (i, (c.type(), bytes(c.value())), (t, v)))
    exc, _ = raises(name.component, len(model))
    ctx.check(isinstance(exc, IndexError), case, 'a component after the last one: %r' % (exc,))


def start(uris):
    pool = []
    for u in uris:
        # None is the default name, which has no components
        pool.append((Name() if u is None else Name.from_uri(u), () if u is None else wire.uri_name(u), None))
    return pool


def components(model):
    return [NameComponent(t, v) for t, v in model]


def apply(ctx, case, pool, op, at):
    """The new name made from the name at that position of the pool"""
    name, model, owned = pool[at]
    if op[0] == 'append':
        t, v = COMPONENTS[op[1]]
        return name.append(NameComponent(t, v)), model + ((t, v),), None
    if op[0] == 'chunk':
        n = NUMBERS[op[1] * 2 + 1]
        return name.append_chunk_id(n), model + ((CHUNK, wire.varint(n)),), None
    if op[0] == 'manifest':
        n = NUMBERS[op[1] * 2]
        return name.append_manifest_id(n), model + ((MANIFEST, wire.varint(n)),), None
    if op[0] == 'parse':
        return Name.parse(Tlv.deserialize(name.serialize())), model, None
    if op[0] == 'extend':
        t, v = COMPONENTS[op[1]]
        longer = Tlv.deserialize(name.serialize()).extend(NameComponent(t, v))
        return Name.parse(longer), model + ((t, v),), None
    if op[0] == 'list':
        # a name made from a list, which then changes
        mine = components(model)
        new = Name(mine)
        mine.append(NameComponent(*COMPONENTS[0]))
        other = Name(mine)
        same(ctx, case, other, model + (COMPONENTS[0],))
        del mine[:]
        return new, model, mine
    if op[0] == 'bad':
        for n in BAD:
            for f in (name.append_chunk_id, name.append_manifest_id):
                exc, got = raises(f, n)
                ctx.check(exc is not None, case, 'appending %d gives %r' % (n, got))
        return name, model, None
    raise AssertionError(op)


def history(unit, ctx):
    base = POOLS[unit['start']]
    n = unit['n']
    first = unit['first']

    def walk(prefix):
        if len(prefix) == n:
            return
        width = len(OPS) * (len(base) + len(prefix))
        for c in range(width) if prefix else [first]:
            seq = prefix + [c]
            ctx.case = seq
            replay(seq, last=len(seq) == n)
            walk(seq)

    def replay(seq, last):
        """Names are values: every history is run from the start on names of its own"""
        pool = start(base)
        case = dict(start=base, operations=[])
        for c in seq:
            op, at = OPS[c % len(OPS)], c // len(OPS)
            case['operations'].append([list(op), at])
            with ctx.guard(case):
                pool.append(apply(ctx, case, pool, op, at))
        for name, model, _ in pool:
            same(ctx, case, name, model)
        for (a, ma, _), (b, mb, _) in itertools.combinations_with_replacement(pool, 2):
            ctx.check((a == b) == (ma == mb) and (a != b) == (ma != mb), case, lambda: '%s and %s compare wrongly' % (ma, mb))
        ctx.state([m for _, m, _ in pool])
        if last:
            ctx.trace('%d components' % max(len(m) for _, m, _ in pool))
            ctx.sample(case=case)

    walk([])


# -- URIs -------------------------------------------------------------------------------------------------------------

SEGMENTS = ['a', 'b', 'ab', 'A', 'foo.com', '.', '..', '...', '.a', '%41', '%2F', 'a=b', '1=a', 'Name=a', 'a:b', '~', "it's", ';x', '@', 'a+b', '&', 'é', '日本', '\\', '[x]']
FEW = ['a', 'ab', '.', '..', '%41', 'é']
ENDS = [('ccnx:/', ''), ('ccnx:/', '/'), ('CCNX:/', '')]


def check_uri(ctx, uri, segments):
    model = tuple((1, s.encode()) for s in segments)
    case = dict(uri=uri)
    ctx.case = case
    with ctx.guard(case):
        name = Name.from_uri(uri)
        same(ctx, case, name, model)
        parsed = Name.parse(Tlv.deserialize(name.serialize()))
        built = Name(components(model))
        step = Name()
        for t, v in model:
            step = step.append(NameComponent.create_name_segment(v))
        ctx.check(name == built == parsed == step and not name != parsed, case, 'differs from the name built or parsed')
        more = name.append(NameComponent(1, b'z'))
        ctx.check(more != name and name != more and name == parsed, case, 'equal to a longer name')
        same(ctx, case, name, model)
        for i, s in enumerate(segments):
            ctx.check(name.component(i).is_name_segment(), case, 'component %d is no name segment' % i)
    ctx.state(model)


def uris(unit, ctx):
    first = SEGMENTS[unit['first']]
    for k in range(unit['n']):
        for rest in itertools.product(SEGMENTS, repeat=k):
            segs = (first,) + rest
            for pre, post in ENDS if k < 2 else ENDS[:1]:
                check_uri(ctx, pre + '/'.join(segs) + post, segs)
            if k < 2:
                if not segs[0].startswith('/'):
                    check_uri(ctx, 'ccnx:/' + '//'.join(segs), segs)
                    check_uri(ctx, 'ccnx:/' + '/'.join(segs) + '//', segs)
            ctx.trace('%d segments' % len(segs))
    ctx.sample(uri='ccnx:/' + '/'.join(segs))


def few(unit, ctx):
    for k in range(4, unit['n'] + 1):
        for segs in itertools.product(FEW, repeat=k):
            check_uri(ctx, 'ccnx:/' + '/'.join(segs), segs)
            ctx.trace('%d segments' % len(segs))
    check_uri(ctx, 'ccnx:/', ())
    check_uri(ctx, 'ccnx:', ())
    for segs in itertools.product(FEW, repeat=2):
        check_uri(ctx, 'ccnx:' + '/'.join(segs), segs)
    for bad in ('http:/a', '/a/b', 'a', 'lci:/a', ''):
        exc, got = raises(Name.from_uri, bad)
        ctx.check(exc is not None, dict(uri=bad), 'accepted as %r' % (got,))
    ctx.check(Name.from_uri(None) is None, dict(uri=None), 'no URI is a name')


# -- equality ---------------------------------------------------------------------------------------------------------

def models(many):
    out = [()]
    n = 0
    for k in range(1, 5):
        for m in itertools.product(COMPONENTS, repeat=k):
            out.append(m)
            n += 1
            if len(out) >= many:
                return out
    return out


def pairs(unit, ctx):
    ms = models(unit['many'])
    built = [Name(components(m)) for m in ms]
    parsed = [Name.parse(Tlv.deserialize(b.serialize())) for b in built]
    for i in range(unit['part'], len(ms), unit['parts']):
        a = built[i]
        for j, b in enumerate(parsed):
            if (a == b) != (i == j) or (b == a) != (i == j) or (a != b) != (i != j):
                ctx.fail(dict(names=[repr(ms[i]), repr(ms[j])]), 'equality of a built and a parsed name is wrong')
        ctx.step(len(parsed))
        ctx.state(ms[i])
        ctx.trace('compared')
    ctx.sample(names=len(ms))


def deep(unit, ctx):
    """Names of many components, each made from the one before"""
    r = unit['rule']
    name, model = Name(), ()
    kept = []
    for n in range(unit['n']):
        case = dict(unit, components=n)
        with ctx.guard(case):
            same(ctx, case, name, model)
            again = Name.parse(Tlv.deserialize(name.serialize()))
            same(ctx, case, again, model)
            ctx.check(again == name and name == again, case, 'the parsed name differs')
            if n:
                ctx.check(name != kept[-1][0] and kept[-1][0] != name, case, 'equal to the name it was made from')
            kept.append((name, model))
            c = [(1, b'c%d' % n), COMPONENTS[n % len(COMPONENTS)], (1, b'same'), (5, wire.varint(n))][r]
            name, model = (name if r % 2 else again).append(NameComponent(*c)), model + (c,)
        ctx.state((r, n))
        ctx.trace('appended')
    for name, model in kept[::7]:
        same(ctx, dict(unit, kept=len(model)), name, model)
    ctx.sample(components=len(model))


def lengths(unit, ctx):
    ns = [[0, 1, 2, 3, 4, 5, 100, 251, 252, 253, 254, 255, 256, 257], range(65500, 65536, 1), [65536, 65537, 70000, 131072], list(range(60000, 60010))][unit['part']]
    for n in ns:
        v = bytes(i % 251 for i in range(n))
        for base in ((), ((1, b'a'),), ((1, b'x' * 5000),)):
            model = base + ((1, v),)
            case = dict(base=sum(len(x) + 4 for _, x in base), length=n)
            total = sum(len(x) + 4 for _, x in model)

            def make():
                name = Name(components(base)).append(NameComponent.create_name_segment(v))
                name.serialize()
                return name
            exc, name = raises(make)
            if total > 65535 or n > 65535:
                ctx.check(exc is not None, case, 'a name of %d bytes has an encoding' % total)
                ctx.trace('refused')
            else:
                ctx.check(exc is None, case, 'refused: %r' % (exc,))
                if exc is None:
                    same(ctx, case, name, model)
                ctx.trace('ok')
            ctx.state((n, len(base), exc is None))


def letters(unit, ctx):
    """Every character at the beginning, within and at the end of a segment"""
    for c in range(max(unit['lo'], 0x21), unit['hi']):
        x = chr(c)
        if x in '/?#\x7f' or 0xD800 <= c < 0xE000:
            continue
        for segs in ((x,), (x + 'a', 'a' + x + 'a', 'a' + x)):
            check_uri(ctx, 'ccnx:/' + '/'.join(segs), segs)
        ctx.trace('%d bytes' % len(x.encode()))


def long_uris(unit, ctx):
    """URIs with long segments and many segments"""
    for n in list(range(1, 300)) + [511, 512, 513, 1000, 1023, 1024, 1025, 4000, 8192, 20000]:
        check_uri(ctx, 'ccnx:/' + 'a' * n, ('a' * n,))
        check_uri(ctx, 'ccnx:/' + 'ab' * n + '/é' + 'c' * n, ('ab' * n, 'é' + 'c' * n))
        if n <= 4000:
            segs = tuple('s%d' % i for i in range(n))
            check_uri(ctx, 'ccnx:/' + '/'.join(segs), segs)
            ctx.trace('%d segments' % n)


def numbers(unit, ctx):
    """Names that end in a number, made one after the other from every pair of numbers"""
    p = (1 << 61) - 1       # numbers that differ by it have one hash
    ns = sorted(set(range(8)) | {1 << k for k in range(64)} | {(1 << k) - 1 for k in range(65)} | {p + k for k in range(4)} | {2 * p + k for k in range(3)} | {256 * k for k in range(unit['n'] // 4)})
    base = Name.from_uri('ccnx:/a')
    for i, a in enumerate(ns):
        if i % 4 != unit['part']:
            continue
        for b in ns:
            case = dict(numbers=[a, b])
            with ctx.guard(case):
                made = [(base.append_chunk_id(a), CHUNK, a), (base.append_chunk_id(b), CHUNK, b), (base.append_manifest_id(a), MANIFEST, a), (base.append_manifest_id(b), MANIFEST, b)]
                for k, (name, t, n) in enumerate(made):
                    ctx.check(bytes(name.serialize()) == encoded(((1, b'a'), (t, wire.varint(n)))), dict(case, name=k), 'encoded as %s' % bytes(name.serialize()).hex())
                for (x, t, n), (y, u, m) in itertools.combinations(made, 2):
                    ctx.check((x == y) == ((t, n) == (u, m)), case, 'names of %s and %s compare wrongly' % ((t, n), (u, m)))
            ctx.step(4)
        ctx.trace('paired', len(ns))
        ctx.state((a,))
