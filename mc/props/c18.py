"""C18: the packet stores are maps from hash, and from name, to packet"""
import itertools
import os
import tempfile

from ccnpy.core.HashValue import HashValue
from ccnpy.core.Name import Name
from ccnpy.core.Tlv import Tlv
from ccnpy.crypto.Crc32c import Crc32cSigner
from ccnpy.crypto.RsaSha256 import RsaSha256Signer
from ccnpy.flic.tree.TreeIO import TreeIO
from array import array

from .. import forge, lib, wire
from ..engine import raises

PID = 'C18'
TECHNIQUE = 'model checking: exhaustive enumeration of histories of puts and gets on the real stores, every get compared with an explicit map model after every step'
BOUND = {
    'quick': 'all histories of up to 4 puts of 9 packets (directory with links), 3 (memory), and 3 puts with 3 writers of one directory (links, links signed with RSA, no links, nested), with every get by hash, name and both after every put, by a reader made before, one kept and one made after; all ordered pairs of 64 names with unusual bytes, types, lengths; gets of 12 malformed hashes; 3000 packets under 1000 names in every kind of store',
    'thorough': 'as quick, histories of 5 puts and of 4 puts with 4 writers',
}
ASSUMPTIONS = ['SHA-256 has no collisions in what is stored']
UNIT_TIMEOUT = {'quick': 800, 'thorough': 7200}
SCRATCH = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None


def units(tier):
    deep = tier == 'thorough'
    u = [dict(kind='history', store=s, first=i, n=(5 if deep else 4) - (s == 'memory')) for s in ('memory', 'links') for i in range(len(POOL))]
    u += [dict(kind='writers', first=[i, w], n=4 if deep else 3) for i in range(len(POOL)) for w in range(len(WRITERS))]
    u += [dict(kind='names', part=p) for p in range(16)]
    u += [dict(kind='hashes'), dict(kind='published')] + [dict(kind='many', store=s, n=20000 if deep else 3000) for s in ('memory', 'links', 'nested')]
    return u


def run(unit, ctx):
    globals()[unit['kind']](unit, ctx)


def scratch():
    return tempfile.TemporaryDirectory(dir=SCRATCH)


def co(b, name=None, ptype=0, **kw):
    return forge.packet(forge.co(b, ptype=ptype, name=name), **kw)


A, AB, A_CHUNK = ((1, b'a'),), ((1, b'a'), (1, b'b')), ((1, b'a'), (5, b'b'))
LINK_TO_A = wire.tlv(2, wire.name_tlv(A) + wire.tlv(5, b'\2') + wire.tlv(1, wire.name_tlv(AB) + wire.tlv(3, wire.tlv(1, bytes(32)))))
POOL = [
    co(b'first', A), co(b'second', A), co(b'first', AB), co(b'other', ((1, b'a/b'),)), co(b'first'), co(forge.plain_manifest(forge.node([forge.group([bytes(32)], 0)])), A, ptype=3),
    co(b'first', A, how='crc'), forge.packet(LINK_TO_A, 'crc'), co(b'chunk', A_CHUNK),
]
ABSENT = [co(b'absent', A), co(b'absent')]


def name_of(c):
    """A Name of the code from components"""
    return None if c is None else Name.parse(Tlv.deserialize(array('B', wire.name_tlv(c))))


def observe(ctx, case, model, by_name, reader, names, packets, links):
    """Every get agrees with the model"""
    for w in packets:
        h = forge.hash_of(w)
        own = wire.packet(w).name
        asked = [own] + [n for n in (names + [None] if own is not None else names[:1] + [None]) if n != own]
        for n in asked:
            ctx.step()
            exc, p = raises(reader.get, name_of(n), lib.hash_value(h))
            good = h in model and (own is None or own == n)
            if good:
                if exc is not None or p is None or p.serialize().tobytes() != w:
                    ctx.fail(dict(case, get=h.hex()[:8], name=n), 'stored packet not returned: %r, %r' % (exc, p))
            elif exc is None:
                ctx.fail(dict(case, get=h.hex()[:8], name=n), 'no error for %s: %r' % ('a packet of another name' if h in model else 'a hash not stored', p))
    if links:
        for n in names:
            ctx.step()
            exc, p = raises(reader.get, name_of(n), None)
            if n in by_name:
                if exc is not None or p.serialize().tobytes() != by_name[n]:
                    ctx.fail(dict(case, name=n), 'get by name does not return the latest: %r, %r' % (exc, p))
            elif exc is None:
                ctx.fail(dict(case, name=n), 'get by a name never put returns %r' % p)


def apply(model, by_name, w, links=True):
    model[forge.hash_of(w)] = w
    n = wire.packet(w).name
    if n is not None and links:
        by_name[n] = w


POOL_NAMES = [A, AB, A_CHUNK, ((1, b'a/b'),), ((1, b'b'),), ()]


def history(unit, ctx):
    for n in range(1, unit['n'] + 1):
        for rest in itertools.product(range(len(POOL)), repeat=n - 1):
            seq = (unit['first'],) + rest
            with scratch() as d:
                if unit['store'] == 'memory':
                    writer = TreeIO.PacketMemoryWriter()
                    kept = writer
                else:
                    kept = TreeIO.PacketDirectoryReader(d)
                    writer = TreeIO.PacketDirectoryWriter(d, link_named_objects=True)
                model, by_name = {}, {}
                for k, i in enumerate(seq):
                    writer.put(lib.parse(POOL[i]))
                    apply(model, by_name, POOL[i])
                    if k < n - 1 and n > 3:
                        continue       # seen as the end of a shorter history
                    case = dict(store=unit['store'], puts=seq, step=k)
                    links = unit['store'] == 'links'
                    observe(ctx, case, model, by_name, kept, POOL_NAMES, POOL + ABSENT, links)
                    if k == n - 1:
                        new = TreeIO.PacketMemoryReader(writer) if not links else TreeIO.PacketDirectoryReader(d)
                        observe(ctx, dict(case, reader='new'), model, by_name, new, POOL_NAMES, POOL + ABSENT, links)
                        if not links:
                            new = TreeIO.PacketMemoryReader(list(writer.packets))
                            observe(ctx, dict(case, reader='of a list'), model, by_name, new, POOL_NAMES, POOL + ABSENT, False)
            ctx.trace('history')
            ctx.state((unit['store'], sorted(model), sorted(by_name.items())))
    ctx.sample(puts=seq)


def many(unit, ctx):
    """A long history of puts, three under every name; everything is asked for at several points and at the end"""
    n, kind = unit['n'], unit['store']
    with scratch() as d:
        if kind == 'memory':
            writer = TreeIO.PacketMemoryWriter()
            readers = [writer]
        else:
            writer = TreeIO.PacketDirectoryWriter(d, link_named_objects=kind == 'links', nested=kind == 'nested')
            readers = [TreeIO.PacketDirectoryReader(d)] if kind == 'links' else []
        model, by_name = {}, {}
        wires = []
        for i in range(n):
            name = ((1, b'many'), (5, wire.varint(i // 3))) if i % 4 else ((1, b'n%d' % (i // 3)),)
            w = co(b'payload %d' % i, name)
            wires.append((w, name))
            writer.put(lib.parse(w))
            apply(model, by_name, w)
            if i % 7 == 0:
                writer.put(lib.parse(wires[i // 2][0]))       # an old one again
                apply(model, by_name, wires[i // 2][0])
            if i + 1 in (10, 100, 101, 128, 129, 256, 257, 1000, 1024, 1025, n):
                asked = wires if i + 1 == n or i < 300 else wires[::7]
                for reader in readers:
                    for w2, name2 in asked:
                        exc, p = raises(reader.get, name_of(name2), lib.hash_value(forge.hash_of(w2)))
                        if exc is not None or p.serialize().tobytes() != w2:
                            ctx.fail(dict(store=kind, puts=i + 1, get=w2[-14:]), 'stored packet not returned: %r, %r' % (exc, p))
                        if kind == 'links':
                            exc, p = raises(reader.get, name_of(name2), None)
                            if exc is not None or p.serialize().tobytes() != by_name[name2]:
                                ctx.fail(dict(store=kind, puts=i + 1, name=name2), 'get by name does not return the latest: %r, %r' % (exc, p))
                        ctx.step()
                ctx.state((kind, i + 1))
        if kind != 'memory':
            # the directory holds every packet, whole, under its hash
            files = {f: os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs}
            for w2, name2 in wires:
                f = files.get(forge.hash_of(w2).hex())
                ctx.check(f is not None and open(f, 'rb').read() == w2, dict(store=kind, file=forge.hash_of(w2).hex()), 'the packet is not stored under its hash')
        ctx.trace('many')


WRITERS = ['links', 'links, RSA', 'plain', 'nested']


def writers(unit, ctx):
    """Several writers of one directory"""
    ops = list(itertools.product(range(len(POOL)), range(len(WRITERS))))
    for rest in itertools.product(ops, repeat=unit['n'] - 1):
        seq = (tuple(unit['first']),) + rest
        if ctx.tier == 'quick' and len({w for _, w in seq}) < 2:
            continue
        with scratch() as d:
            ws = [TreeIO.PacketDirectoryWriter(d, link_named_objects=True), TreeIO.PacketDirectoryWriter(d, link_named_objects=True, signer=RSA),
                  TreeIO.PacketDirectoryWriter(d), TreeIO.PacketDirectoryWriter(d, nested=True)]
            model, by_name, nested = {}, {}, {}
            for i, k in seq:
                ws[k].put(lib.parse(POOL[i]))
                if k == 3:
                    nested[forge.hash_of(POOL[i]).hex()] = POOL[i]
                else:
                    apply(model, by_name, POOL[i], links=k < 2)
                ctx.step()
            observe(ctx, dict(puts=seq), model, by_name, TreeIO.PacketDirectoryReader(d), POOL_NAMES, POOL + ABSENT[:1], True)
            for h, w in nested.items():
                with open(os.path.join(d, h[:2], h[2:4], h), 'rb') as f:
                    ctx.check(f.read() == w, dict(puts=seq), 'the nested file of %s is not the packet' % h)
        ctx.trace('history')
        ctx.state((sorted(model), sorted(by_name.items()), sorted(nested)))


RSA = RsaSha256Signer(lib.rsa('RSAB'))


def _names():
    out = [()]
    for v in (b'', b'a', b'A', b'/', b'//', b'.', b'..', b'../a', b'\0', b'a\0', b'\xff', b'=', b'~', b'~1=a', b'%', b'%2F', b'%2f', b'a.link', b'.link', b'a/', b'a b', b'\n', b'*',
              'é'.encode(), 'é'.encode(), b'a\\b', b'1=a', forge.hash_of(POOL[0]).hex().encode(), b'-', b':', b'~5=a', b'%7E', b'a~1=b'):
        out.append(((1, v),))
    out += [((t, b'a'),) for t in (2, 4, 5, 15, 16, 21, 0x1000, 0xFFFF)]
    out += [((5, b'1'),), ((51, b'='),), ((5, b'\1'),), ((5, b'\0\1'),)]
    out += [AB, ((1, b'a'), (1, b'a')), ((1, b'a'), (1, b'')), ((1, b''), (1, b'a')), ((1, b''), (1, b'')), ((1, b'a'), (5, b'\0')), ((1, b'ab'),), ((1, b'a/b'),), ((1, b'b'), (1, b'a')), ((1, b'a%2Fb'),)]
    out += [((1, b'x' * n),) for n in (240, 247, 248, 249, 255, 256, 300, 5000)]
    out += [((1, b'x' * 247 + b'y'),), ((1, b'x' * 255 + b'y'),), ((1, b'\xff' * 85),), ((1, b'a'),) * 60, ((1, b'a'),) * 61]
    return out


NAMES = _names()


def names(unit, ctx):
    """Two packets of different names never disturb each other, whatever the names"""
    for i in range(unit['part'], len(NAMES), 16):
        for j, m in enumerate(NAMES):
            n = NAMES[i]
            with scratch() as d:
                inner = os.path.join(d, 'a', 'store')
                os.makedirs(inner)
                writer = TreeIO.PacketDirectoryWriter(inner, link_named_objects=True)
                reader = TreeIO.PacketDirectoryReader(inner)
                model, by_name = {}, {}
                mem = TreeIO.PacketMemoryWriter()
                case = dict(first=text(n), second=text(m))
                for k, x in enumerate((n, m, n)):
                    w = co(b'%d' % k, x)
                    exc, _ = raises(writer.put, lib.parse(w))
                    ctx.check(exc is None, case, 'cannot be put: %r' % exc)
                    mem.put(lib.parse(w))
                    apply(model, by_name, w)
                    if i == j and k == 2:
                        break
                    observe(ctx, case, model, by_name, reader, [n, m], list(model.values()), True)
                    observe(ctx, dict(case, store='memory'), model, by_name, mem, [n, m], list(model.values()), False)
                ctx.check(os.listdir(d) == ['a'] and os.listdir(os.path.join(d, 'a')) == ['store'], case, 'wrote outside the directory: %r' % os.listdir(d))
            ctx.trace('pair')
            ctx.state((i, j))


def text(n):
    return '/'.join('%d=%r' % (t, v[:40]) for t, v in n)


def hashes(unit, ctx):
    """Hashes that name nothing"""
    with scratch() as d:
        writer = TreeIO.PacketDirectoryWriter(d, link_named_objects=True)
        mem = TreeIO.PacketMemoryWriter()
        for w in POOL:
            writer.put(lib.parse(w))
            mem.put(lib.parse(w))
        for w in POOL:
            h = forge.hash_of(w)
            n = name_of(wire.packet(w).name)
            vals = [(1, h[:31]), (1, h + b'\0'), (1, b''), (1, h[::-1]), (1, bytes(32)), (2, h), (2, h + h), (3, h), (1, h[:1]), (1, h[:16]), (1, h + h), (1, bytes([h[0] ^ 1]) + h[1:])]
            for alg, v in vals:
                hv = HashValue.parse(Tlv(alg, array('B', v)))
                for label, reader in (('directory', TreeIO.PacketDirectoryReader(d)), ('memory', mem), ('memory list', TreeIO.PacketMemoryReader(list(mem.packets)))):
                    for name in (n, None):
                        exc, p = raises(reader.get, name, hv)
                        ctx.check(exc is not None, dict(store=label, alg=alg, hash=v.hex()), 'returned %r' % p)
                        ctx.step()
                        ctx.trace('refused')
                ctx.state((alg, v))


def published(unit, ctx):
    """A publication written to each store: every packet is there under its hash, and its root under its name, also after publishing another over it"""
    from ccnpy.flic.ManifestTree import ManifestTree
    for schema in lib.SCHEMAS:
        for sign in ('', 'c', 'r'):
            cfg = dict(schema=schema, opts='', enc='', sign=sign, mps=900, deg=2)
            with scratch() as d:
                model, by_name = {}, {}
                for seed in (0, 500, 0):
                    writer = TreeIO.PacketDirectoryWriter(d, link_named_objects=True)
                    ManifestTree(data_input=lib.Input(lib.data(2500, seed=seed)), packet_output=Tee(writer, model, by_name), tree_options=lib.options(cfg)).build()
                    reader = TreeIO.PacketDirectoryReader(d)
                    names_ = sorted({wire.packet(w).name for w in model.values() if wire.packet(w).name is not None}, key=repr)
                    for w in model.values():
                        n = name_of(wire.packet(w).name)
                        ctx.check(reader.get(n, lib.hash_value(forge.hash_of(w))).serialize().tobytes() == w, dict(cfg, seed=seed), 'packet not stored')
                        ctx.step()
                    for n in names_:
                        ctx.check(reader.get(name_of(n), None).serialize().tobytes() == by_name[n], dict(cfg, seed=seed, name=text(n)), 'not the latest packet of this name')
                        ctx.step()
                ctx.trace('published')
                ctx.state((schema, sign, len(model)))


class Tee:
    def __init__(self, writer, model, by_name):
        self.writer, self.model, self.by_name = writer, model, by_name

    def put(self, packet):
        self.writer.put(packet)
        apply(self.model, self.by_name, packet.serialize().tobytes())
