"""C06: a damaged or lying packet store never makes the reader deliver wrong bytes"""
import hashlib
import os
import shutil
import tempfile

from .. import lib, space, wire
from ..engine import raises

PID = 'C06'
TECHNIQUE = 'model checking: exhaustive fault enumeration (all single faults, all pairs of a reduced fault set) on the real reader'
BOUND = {
    'quick': '8 publications of 4-9 packets (3 schema types, plain/GCM/wrapped/signed): every bit flip, every truncation, 4 extensions, removal and replacement by every other packet, by same-named packets of another publication and by re-encoded packets, for every packet; all pairs of 10 fault kinds (one of them no packet and no error) at all pairs of packets; a fault at every single request; directory store with all non-bit faults and every 5th bit; good reads after a failed one with the same reader; faults far into trees of 20 to 50 chunks',
    'thorough': '24 publications (12 schema variants x {plain, GCM, CCM+KDF, wrapped}), every bit flip also in the directory store, pairs of 12 fault kinds; good reads after a failed one with the same reader; faults far into trees of 20 to 50 chunks',
}
ASSUMPTIONS = ['SHA-256 has no collisions within the explored faults', 'the root packet is requested by its hash']


def configs(tier):
    if tier == 'quick':
        l = [('H1', '', '', 2), ('H3', 'gl', '', 2), ('P2', '', '', 3), ('S1', '', '', 2), ('H1', '', 'r', 2), ('S1', 'n', '', 3)]
        out = [dict(schema=s, enc='', opts=o, sign=sg, deg=d, nb=5) for s, o, sg, d in l]
        out.append(dict(schema='H1', enc='g', opts='', sign='', deg=2, nb=3))
        out.append(dict(schema='S1', enc='w', opts='', sign='', deg=2, nb=2))
        return out
    out = []
    for s in space.SCHEMAS:
        for e in ('', 'g', 'K', 'w'):
            out.append(dict(schema=s, enc=e, opts='ngl', sign='c' if e == '' else '', deg=2, nb=5))
    return out


def make(c, seed=0):
    cfg = dict(schema=c['schema'], enc=c['enc'], opts=c['opts'], sign=c['sign'], deg=c['deg'])
    cfg['mps'] = space.workable(cfg) + 8
    p = lib.payload_size(cfg)
    n = (c['nb'] - 1) * p + 3
    return lib.publish(cfg, lib.data(n, seed))


def units(tier):
    deep = tier == 'thorough'
    u = []
    for c in configs(tier):
        for i in range(2 * c['nb'] + 1):
            u.append(dict(c, kind='bits', packet=i, dir=False))
            if deep:
                u.append(dict(c, kind='bits', packet=i, dir=True))
        u.append(dict(c, kind='other', dir=False))
        u.append(dict(c, kind='other', dir=True))
        u.append(dict(c, kind='pairs', n=12 if deep else 9))
        u.append(dict(c, kind='requests'))
        u.append(dict(c, kind='again'))
    for s, e, deg, nb in [('H2', '', 3, 40), ('S4', '', 2, 50), ('P1', '', 20, 45), ('H3', 'g', 3, 20), ('S1', 'w', 3, 20)] + ([('S1', '', 7, 300), ('H1', '', 60, 300)] if deep else []):
        u += [dict(schema=s, enc=e, opts='ngl', sign='', deg=deg, nb=nb, kind='far', part=i) for i in range(4)]
    if not deep:
        for c in configs(tier)[:3]:
            u.append(dict(c, kind='bits5', dir=True))
    return u


NOTHING = 'nothing'     # the store answers with None instead of an error


class Faulty(lib.MapStore):
    """Answers the k-th request for a packet from what is stored (any bytes, or nothing) under its hash"""

    def __init__(self, pub, faults, at=None):
        super().__init__([])
        self.by_hash = {}
        for i, w in enumerate(pub.wires):
            h = lib.wire_hash(w)
            self.by_hash[h] = faults[i] if at is None and i in faults else w
        self.good = {lib.wire_hash(w): w for w in pub.wires}
        self.at, self.faults, self.k = at, faults, 0

    def get(self, name, hash_restriction, forwarding_hints=None):
        k = self.k
        self.k += 1
        h = bytes(hash_restriction.value())
        w = self.by_hash.get(h)
        if self.at is not None and k in self.at:
            w = self.at[k](w)
        if w is None:
            raise FileNotFoundError(h.hex())
        if w is NOTHING:
            return None
        return lib.parse(w)


def reencode(w):
    """A well-formed packet with one payload byte changed"""
    b = bytearray(w)
    b[-1] ^= 1
    return bytes(b)


def truncated_ok(w, n):
    """Shortened by n bytes with all lengths that contain the end corrected"""
    body = w[8:]
    out = []
    items = wire.tlvs(body)
    t, v = items[0]
    kids = wire.tlvs(v)
    kt, kv = kids[-1]
    if len(kv) < n or len(items) > 1:
        return w[:-n]
    v2 = b''.join(wire.tlv(a, b) for a, b in kids[:-1]) + wire.tlv(kt, kv[:-n])
    m = wire.tlv(t, v2)
    return w[:2] + (8 + len(m)).to_bytes(2, 'big') + w[4:8] + m


def other_faults(pub, other, i, n=None):
    """-> (label, bytes or None)"""
    w = pub.wires[i]
    out = [('missing', None), ('last byte', reencode(w)), ('empty', b''), ('cut 1', w[:-1]), ('cut consistently', truncated_ok(w, 1)),
           ('extended', w + b'\0'), ('other publication', other.wires[min(i, len(other.wires) - 1)]),
           ('next packet', pub.wires[(i + 1) % len(pub.wires)]), ('root', pub.wires[-1]),
           ('first packet', pub.wires[0]), ('bit 70', w[:8] + bytes([w[8] ^ 0x80]) + w[9:]), ('doubled', w + w)]
    if n is not None:
        return out[:n]
    out += [('cut to %d' % k, w[:k]) for k in range(len(w))]
    out += [('cut to %d consistently' % k, truncated_ok(w, k)) for k in range(2, 8)]
    out += [('extended by %r' % x, w + x) for x in (b'\0\1', b'\0\0\0\0', wire.tlv(3, b''), pub.wires[0])]
    out += [('packet %d' % k, x) for k, x in enumerate(pub.wires) if k != i]
    out += [('other %d' % k, x) for k, x in enumerate(other.wires)]
    # the payload of another packet in this packet's name
    out += [('extra element', w[:2] + (len(w) + 4).to_bytes(2, 'big') + w[4:8] + w[8:10] + (int.from_bytes(w[10:12], 'big') + 4).to_bytes(2, 'big') + w[12:] + b'\x7f\xff\0\0')]
    return out


class DirStore:
    """A directory of packets with damaged files, read with the directory reader of the code under test"""

    def __init__(self, pub):
        self.root = tempfile.mkdtemp(prefix='mc-c06-')
        wr = lib.TreeIO.PacketDirectoryWriter(self.root)
        for p in pub.packets:
            wr.put(p)
        self.files = {}
        for dp, _, fs in os.walk(self.root):
            for f in fs:
                path = os.path.join(dp, f)
                with open(path, 'rb') as fh:
                    self.files[path] = fh.read()
        self.pub = pub

    def paths(self, i):
        return [p for p, b in self.files.items() if b == self.pub.wires[i]]

    def reader(self):
        return lib.TreeIO.PacketDirectoryReader(self.root)

    def damage(self, i, b):
        for p in self.paths(i):
            if b is None:
                os.unlink(p)
            else:
                with open(p, 'wb') as f:
                    f.write(b)

    def restore(self):
        for p, b in self.files.items():
            with open(p, 'wb') as f:
                f.write(b)

    def restore_one(self, i):
        self.damage(i, self.pub.wires[i])

    def close(self):
        shutil.rmtree(self.root)


def judge(ctx, pub, case, store, reader=None):
    sink = lib.Sink()
    ks = lib.keystore(pub.cfg['enc'], pub.cfg['sign'])
    t = lib.Traversal(store, sink, ks)
    exc, _ = raises(t.traverse, lib.N(lib.ROOT_URI), lib.hash_value(pub.root_hash))
    got = sink.bytes()
    ctx.step()
    if exc is None:
        ctx.check(got == pub.content, case, lambda: 'the reader finished without error on %d bytes that are not the %d published' % (len(got), len(pub.content)))
        ctx.trace('exact')
    else:
        ctx.check(pub.content.startswith(got), case, lambda: 'the reader delivered bytes that were not published, then failed with %s: %s' % (type(exc).__name__, exc))
        ctx.trace('%s after %d bytes' % (type(exc).__name__, len(got)))
    ctx.state((str(case), exc is None, len(got)))
    return t, sink, exc


def base(pub):
    return {k: pub.cfg[k] for k in ('schema', 'enc', 'opts', 'sign', 'deg', 'mps')}


def bit_faults(w, step=1):
    for k in range(0, len(w) * 8, step):
        b = bytearray(w)
        b[k // 8] ^= 0x80 >> (k % 8)
        yield k, bytes(b)


def run(unit, ctx):
    pub = make(unit)
    info = dict(base(pub), size=len(pub.content), packets=len(pub.wires))
    ctx.case = info
    ctx.sample(case=info)
    n = len(pub.wires)
    kind = unit['kind']
    # the fault-free store delivers everything
    ctx.check(lib.read(pub) == pub.content, info, 'without a fault other bytes are delivered')
    if kind in ('bits', 'bits5'):
        packets = range(n) if kind == 'bits5' else [unit['packet']] if unit['packet'] < n else []
        ds = DirStore(pub) if unit['dir'] else None
        try:
            for i in packets:
                if ds:
                    ctx.check(ds.paths(i), dict(info, packet=i), 'no file holds the packet')
                for k, b in bit_faults(pub.wires[i], 5 if kind == 'bits5' else 1):
                    case = dict(info, packet=i, bit=k, store='directory' if ds else 'map')
                    ctx.case = case
                    if ds:
                        ds.damage(i, b)
                        judge(ctx, pub, case, ds.reader())
                        ds.restore_one(i)
                    else:
                        judge(ctx, pub, case, Faulty(pub, {i: b}))
        finally:
            if ds:
                ds.close()
    elif kind == 'other':
        other = make(unit, seed=5000)
        ds = DirStore(pub) if unit['dir'] else None
        try:
            for i in range(n):
                for label, b in other_faults(pub, other, i) + ([] if ds else [(NOTHING, NOTHING)]):
                    case = dict(info, packet=i, fault=label, store='directory' if ds else 'map')
                    ctx.case = case
                    if ds:
                        ds.damage(i, b)
                        judge(ctx, pub, case, ds.reader())
                        ds.restore()
                    else:
                        t, sink, exc = judge(ctx, pub, case, Faulty(pub, {i: b}))
        finally:
            if ds:
                ds.close()
    elif kind == 'pairs':
        other = make(unit, seed=5000)
        for i in range(n):
            for j in range(i + 1, n):
                for la, a in other_faults(pub, other, i, unit['n']) + [(NOTHING, NOTHING)]:
                    for lb, b in other_faults(pub, other, j, unit['n']) + [(NOTHING, NOTHING)]:
                        case = dict(info, faults=[[i, la], [j, lb]])
                        ctx.case = case
                        judge(ctx, pub, case, Faulty(pub, {i: a, j: b}))
                # exchanged
                case = dict(info, faults=[[i, 'exchanged'], [j, 'exchanged']])
                judge(ctx, pub, case, Faulty(pub, {i: pub.wires[j], j: pub.wires[i]}))
    elif kind == 'requests':
        # publications with repeated chunks: the same packet is asked for again, and answered differently each time
        cfg = dict(pub.cfg)
        p = lib.payload_size(cfg)
        for pattern in ('aaaa', 'abab', 'abcde'):
            content = b''.join(bytes([ord(c)]) * p for c in pattern)
            rp = lib.publish(cfg, content)
            asked = len(list(_requests(rp)))
            for k in range(asked):
                for label, f in REQUEST_FAULTS.items():
                    case = dict(base(rp), pattern=pattern, request=k, fault=label)
                    ctx.case = case
                    judge(ctx, rp, case, Faulty(rp, {}, at={k: lambda w: f(w, rp)}))
                    for k2 in range(k + 1, asked):
                        judge(ctx, rp, dict(case, request2=k2), Faulty(rp, {}, at={k: lambda w: f(w, rp), k2: lambda w: f(w, rp)}))


    elif kind == 'far':
        other = make(unit, seed=5000)
        for i in range(n):
            if i % 4 == unit['part']:
                for label, b in other_faults(pub, other, i, 12) + [(NOTHING, NOTHING)]:
                    case = dict(info, packet=i, fault=label, store='map')
                    ctx.case = case
                    judge(ctx, pub, case, Faulty(pub, {i: b}))
    elif kind == 'again':
        # a read that fails, then others with the same reader and output
        other = make(unit, seed=5000)
        asked = len(list(_requests(pub)))
        for k in range(asked):
            for label, f in REQUEST_FAULTS.items():
                for then in ((pub,), (other,), (pub, other), (other, pub)):
                    case = dict(base(pub), request=k, fault=label, then=['same' if x is pub else 'other' for x in then])
                    ctx.case = case
                    store = Faulty(pub, {}, at={k: lambda w: f(w, pub)})
                    t, sink, exc = judge(ctx, pub, case, store)
                    before = sink.bytes()
                    store.at = None
                    for p in other.wires:
                        store.by_hash.setdefault(lib.wire_hash(p), p)
                    want = before
                    for x in then:
                        exc, _ = raises(t.traverse, lib.N(lib.ROOT_URI), lib.hash_value(x.root_hash))
                        want += x.content
                        ctx.check(exc is None, case, lambda: 'reading an intact publication after a failure: %s: %s' % (type(exc).__name__, exc))
                    ctx.check(sink.bytes() == want, case, lambda: 'after a failed read, %d bytes are delivered that are not the %d published' % (len(sink.bytes()) - len(before), len(want) - len(before)))


REQUEST_FAULTS = {
    NOTHING: lambda w, pub: NOTHING,
    'missing': lambda w, pub: None,
    'last byte': lambda w, pub: reencode(w),
    'first packet': lambda w, pub: pub.wires[0],
    'second packet': lambda w, pub: pub.wires[1],
    'top': lambda w, pub: pub.wires[-2],
}


def _requests(pub):
    s = Faulty(pub, {})
    t = lib.Traversal(s, lib.Sink(), lib.keystore(pub.cfg['enc'], pub.cfg['sign']))
    t.traverse(lib.N(lib.ROOT_URI), lib.hash_value(pub.root_hash))
    return range(s.k)
