"""C01: publishing and reading back gives the same bytes"""
from .. import lib, space, wire
from ..engine import raises

PID = 'C01'
BOUND = {
    'quick': 'all combinations of 12 schema variants x {plain, GCM, CCM+KDF, RSA-wrapped} x 4 option sets x 4 packet sizes x degrees {none,2,3,5} x 8 chunk counts (1..20) x 2 tails; signers x 9 encryptions; all patterns of up to 3 read sizes; 255..300 and 65540 chunks; every triple of 10 unusual names as root, manifest and data names; publications late in a process; every single byte, special bytes at chunk borders, packets and manifests as data, 6 kinds of input; packets up to 65535 bytes; every second packet size of a 360-byte window around the smallest workable one; all read-size patterns over {1,7,p-1,p,p+1} of length 2; all histories of 3 operations on shared options/encryptor/name context/reader; trees of up to 2500 chunks with degree 2 or 3; manifests with up to 1900 pointers; data and manifest numbers that start at each width; names that look alike; whole chunks of one byte among others; everything again with all log messages and debugging on; one tree built again, from its parts and after a store that refused a packet',
    'thorough': 'as quick with 9 option sets, 10 encryptions, 8 packet sizes, 7 degrees, every chunk count 1..25 and 31,40,64,100, 3 tails, every packet size of the window, patterns of 4 read sizes, up to 5000 chunks, read patterns of length 3, histories of 4 operations; trees of up to 20000 chunks with degrees 2 to 5; manifests with up to 1900 pointers; data and manifest numbers that start at each width; names that look alike; whole chunks of one byte among others; everything again with all log messages and debugging on; one tree built again, from its parts and after a store that refused a packet',
}
ASSUMPTIONS = ['the packet store of the reader is a map from SHA-256 of the message to the wire bytes',
               'chunks are pairwise different except in the repetition unit']


def units(tier):
    u = space.base_units(tier) + space.sign_units(tier) + space.long_units(tier) + space.room_units(tier) + space.short_units(tier)
    for s in space.SCHEMAS:
        u.append(dict(kind='reads', schema=s, len=3 if tier == 'thorough' else 2))
        u.append(dict(kind='repeat', schema=s))
        u.append(dict(kind='contents', schema=s))
    for s in ('H1', 'P2', 'S1', 'S3'):
        for e in ('', 'g', 'k', 'w'):
            u.append(dict(kind='history', schema=s, enc=e, depth=4 if tier == 'thorough' else 3))
    u += [dict(kind='debug', schema=s) for s in space.SCHEMAS]
    u += [dict(kind='again', schema=s, enc=e) for s in space.SCHEMAS for e in ('', 'g', 'w', 'n')]
    u[1:1] = space.vast_units(tier)
    u += space.names_units(tier) + space.confused_units(tier) + space.aged_units(tier) + space.tall_units(tier) + space.numbered_units(tier)
    u[1:1] = space.wide_units(tier)
    return u


def readback(ctx, case, pub):
    for how in ('wire', 'memory'):
        ctx.step()
        exc, got = raises(lib.read, pub, packets=pub.packets if how == 'memory' else None)
        if exc is not None:
            ctx.fail(dict(case, reader=how), 'reading back failed: %s: %s' % (type(exc).__name__, exc))
        elif got != pub.content:
            ctx.fail(dict(case, reader=how), 'read back %d bytes, published %d; first difference at %s' % (
                len(got), len(pub.content), first_diff(got, pub.content)))


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


def run(unit, ctx):
    if unit['kind'] == 'history':
        return history(unit, ctx)
    if unit['kind'] == 'reads':
        return short_reads(unit, ctx)
    if unit['kind'] == 'repeat':
        return repeat(unit, ctx)
    if unit['kind'] == 'contents':
        return contents(unit, ctx)
    if unit['kind'] in ('debug', 'again'):
        return globals()[unit['kind']](unit, ctx)
    for cfg, content, pub in space.publications(unit, ctx):
        case = dict(cfg, size=len(content))
        ctx.state((sorted(case.items(), key=repr), len(pub.packets)))
        readback(ctx, case, pub)
        ctx.trace('equal after %d packets' % min(len(pub.packets), 50))
        ctx.sample(case=case, packets=len(pub.packets))


def short_reads(unit, ctx):
    """Every pattern of amounts that read calls return"""
    import itertools
    cfg = dict(schema=unit['schema'], enc='', opts='ngl', sign='', deg=3)
    cfg['mps'] = space.workable(cfg) + 40
    p = lib.payload_size(cfg)
    for n in (1, p, p + 1, 3 * p + 5):
        for k in range(1, unit['len'] + 1):
            for pat in itertools.product((1, 7, p - 1, p, p + 1), repeat=k):
                if n // max(1, min(pat)) > 400:
                    pat = tuple(max(x, 7) for x in pat)
                case = dict(cfg, size=n, reads=list(pat))
                ctx.case = case
                with ctx.guard(case):
                    pub = lib.publish(cfg, lib.data(n), reads=pat)
                    readback(ctx, case, pub)
                    ctx.state((n, pat, len(pub.packets)))
                    ctx.trace('equal after %d packets' % min(len(pub.packets), 50))


def special_contents(cfg, p):
    """Inputs whose bytes could be taken for something else"""
    for b in range(256):
        yield 'byte', bytes([b])
    for b in (0, 1, 0x0A, 0x0D, 0x1A, 0x20, 0x30, 0x7F, 0x80, 0xFF):
        for n in (2, p - 1, p, p + 1, 2 * p, 2 * p + 1):
            yield 'fill', bytes([b]) * n
            yield 'first', bytes([b]) + lib.data(n - 1)
            yield 'last', lib.data(n - 1) + bytes([b])
    for b in (0, 0x20, 0xFF):
        # whole chunks of it among others
        for mask in range(1, 32):
            for tail in (0, 1, p):
                yield 'holes', b''.join(bytes([b]) * p if mask >> i & 1 else lib.data(p, i) for i in range(5)) + bytes([b]) * tail
    for text in (b'\r\n', b'\n\r', b'\0\r\n\0', 'h\xe9\u20ac\U0001F600'.encode(), b'\xff\xfe', b'%s {0} %(x)s'):
        yield 'text', text
        yield 'texts', text * p
    inner = lib.publish(dict(cfg, deg=2), lib.data(4 * p))
    for w in inner.wires:
        yield 'packet', w                      # whole packets,
        yield 'body', w[8:]                    # messages,
        yield 'payload', wire.packet(w).payload    # and manifests as data
    yield 'packets', b''.join(inner.wires)


def contents(unit, ctx):
    """Every single byte, special bytes at every chunk border, packets and manifests as data; every kind of input"""
    import io
    import os
    import tempfile
    for enc in ('', 'g'):
        cfg = dict(schema=unit['schema'], enc=enc, opts='ngl', sign='', deg=3)
        cfg['mps'] = space.workable(cfg) + 40
        p = lib.payload_size(cfg)
        for i, (what, content) in enumerate(special_contents(cfg, p)):
            case = dict(cfg, content=what, i=i, size=len(content))
            ctx.case = case
            with ctx.guard(case):
                pub = lib.publish(cfg, content)
                readback(ctx, case, pub)
                ctx.state((enc, what, content, len(pub.packets)))
                ctx.trace('%s equal' % what)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'f')
        for n in (1, p, p + 1, 5 * p + 3):
            content = lib.data(n)
            with open(path, 'wb') as f:
                f.write(content)
            for how in ('BytesIO', 'file', 'unbuffered file', 'from the middle', 'random access', 'pipe'):
                case = dict(cfg, size=n, input=how)
                ctx.case = case
                with ctx.guard(case):
                    want = content
                    if how == 'BytesIO':
                        f = io.BytesIO(content)
                    elif how == 'pipe':
                        r, w = os.pipe()
                        os.write(w, content)
                        os.close(w)
                        f = os.fdopen(r, 'rb')
                    elif how == 'from the middle':
                        f = open(path, 'rb')
                        f.seek(n // 2)
                        want = content[n // 2:]
                    else:
                        f = open(path, 'r+b' if how == 'random access' else 'rb', buffering=0 if how == 'unbuffered file' else -1)
                    with f:
                        pub = lib.publish(cfg, want, source=f)
                    readback(ctx, case, pub)
                    ctx.state((n, how, len(pub.packets)))
                    ctx.trace('%s equal' % how)


def debug(unit, ctx):
    """The same with everything logged and debugging messages on"""
    import logging

    class Formatter(logging.Handler):
        def emit(self, record):
            record.getMessage()

        def handleError(self, record):
            raise

    logging.getLogger().addHandler(Formatter())
    for enc in lib.ENCS:
        for sign in ('', 'c', 'r'):
            for deg in (None, 2, 3):
                base = dict(schema=unit['schema'], enc=enc, opts='ngl', sign=sign, deg=deg)
                cfg = dict(base, mps=space.workable(base) + 40)
                p = lib.payload_size(cfg)
                for n in (1, p, 5 * p + 1, 9 * p):
                    case = dict(cfg, size=n)
                    ctx.case = case
                    for level in (logging.DEBUG, logging.INFO, logging.WARNING):
                        logging.getLogger().setLevel(level)
                        opts = lib.options(cfg)
                        opts.debug = level == logging.DEBUG
                        with ctx.guard(case):
                            pub = lib.publish(cfg, lib.data(n), opts=opts)
                            readback(ctx, case, pub)
                            ctx.step(len(pub.packets))
                    ctx.state((enc, sign, deg, n))
                    ctx.trace('equal')


class Full(Exception):
    pass


def again(unit, ctx):
    """One tree object built several times, from the start or from its parts, also after a store that refused a packet"""
    import io
    for deg in (2, 3, None):
        base = dict(schema=unit['schema'], enc=unit['enc'], opts='ngl', sign='', deg=deg)
        cfg = dict(base, mps=space.workable(base) + 40)
        p = lib.payload_size(cfg)
        for nb in (1, 2, 4, 9):
            content = lib.data((nb - 1) * p + 1)
            for plan in [('build',) * 3, ('parts', 'build'), ('build', 'parts'), ('root', 'build')] + [('fail %d' % k, 'build') for k in (0, 1, 2, 5)] + [('fail 1', 'fail 2', 'build')]:
                case = dict(cfg, chunks=nb, plan=list(plan))
                ctx.case = case
                with ctx.guard(case):
                    wires, room = [], [None]

                    class Store:
                        def put(self, packet):
                            if room[0] is not None:
                                if room[0] == 0:
                                    raise Full()
                                room[0] -= 1
                            wires.append(packet.serialize().tobytes())

                        def close(self):
                            pass

                    tree = lib.ManifestTree(data_input=io.BytesIO(content), packet_output=Store(), tree_options=lib.options(cfg))
                    for op in plan:
                        ctx.step()
                        room[0] = None
                        if op == 'build':
                            root = tree.build()
                        elif op == 'parts':
                            root = tree.build_root(tree.build_top())
                        elif op == 'root':
                            top = tree.build_top()
                            tree.build_root(top)
                            root = tree.build_root(top)
                        else:
                            room[0] = int(op.split()[1])
                            try:
                                root = tree.build()
                            except Full:
                                continue
                        store = lib.MapStore(wires)
                        sink = lib.Sink()
                        lib.Traversal(store, sink, lib.keystore(unit['enc'])).traverse(root.body().name(), root.content_object_hash())
                        ctx.check(sink.bytes() == content, case, 'read back %d bytes after %s, published %d' % (len(sink.bytes()), op, len(content)))
                        ctx.check(wires[-1] == root.serialize().tobytes(), case, 'the root was not written last')
                    ctx.state((deg, nb, plan, len(wires)))
                    ctx.trace('equal after %s' % ' '.join(plan))


def repeat(unit, ctx):
    """Inputs whose chunks repeat: equal packets, equal subtrees"""
    for enc in ('', 'g'):
        for deg in (2, 3):
            cfg = dict(schema=unit['schema'], enc=enc, opts='ngl', sign='', deg=deg)
            cfg['mps'] = space.workable(cfg) + 40
            p = lib.payload_size(cfg)
            for nb in range(1, 13):
                for pattern in (b'\0', b'ab', b'abb'):
                    content = b''.join(bytes([pattern[i % len(pattern)]]) * p for i in range(nb))
                    case = dict(cfg, chunks=nb, pattern=pattern)
                    ctx.case = case
                    with ctx.guard(case):
                        pub = lib.publish(cfg, content)
                        readback(ctx, case, pub)
                        ctx.state((enc, deg, nb, pattern))
                        ctx.trace('equal after %d packets' % len(pub.packets))


def history(unit, ctx):
    """Histories of publications and reads that share the options (with its encryptor), the name context and the reader"""
    import itertools
    base = dict(schema=unit['schema'], enc=unit['enc'], opts='ng', sign='', deg=2)
    base['mps'] = space.workable(base) + 40
    p = lib.payload_size(base)
    contents = {'A': lib.data(3 * p + 1), 'B': lib.data(p // 2, seed=100), 'C': lib.data(7 * p, seed=1000)}
    ops = ['pA', 'pB', 'pC', 'r0', 'r1']   # publish content X; read the i-th publication before the last
    for seq in itertools.product(ops, repeat=unit['depth']):
        if seq[0][0] == 'r':
            continue
        for share in ('options', 'options+context'):
            case = dict(base, ops=list(seq), share=share)
            ctx.case = case
            with ctx.guard(case):
                opts = lib.options(base)
                nc = lib.NameConstructorContext.create(opts) if 'context' in share else None
                pubs, wires = [], []
                ks = lib.keystore(unit['enc'])
                sink = lib.Sink()
                store = lib.MapStore([])
                reader = lib.Traversal(store, sink, ks)
                want = b''
                for op in seq:
                    ctx.step()
                    if op[0] == 'p':
                        pub = lib.publish(base, contents[op[1]], opts=opts, name_context=nc)
                        pubs.append(pub)
                        for w in pub.wires:
                            store.by_hash[lib.wire_hash(w)] = w
                    else:
                        i = len(pubs) - 1 - int(op[1])
                        if i < 0:
                            continue
                        pub = pubs[i]
                        want += pub.content
                        lib.read(pub, sink=sink, traversal=reader) if False else reader.traverse(
                            lib.N(lib.ROOT_URI), lib.hash_value(pub.root_hash))
                        ctx.check(sink.bytes() == want, case, 'the reader delivered other bytes after %s' % op)
                # in the end each publication reads back with a fresh reader and with the shared one
                for pub in pubs:
                    want += pub.content
                    reader.traverse(lib.N(lib.ROOT_URI), lib.hash_value(pub.root_hash))
                    ctx.check(sink.bytes() == want, case, 'the shared reader delivered other bytes at the end')
                    ctx.check(lib.read(pub) == pub.content, case, 'a fresh reader delivered other bytes')
                ctx.state((seq, share, len(want)))
                ctx.trace('history of %d publications' % len(pubs))
