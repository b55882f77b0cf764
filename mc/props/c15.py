"""C15: a signed packet validates only if not one bit of what it covers changed"""
import itertools
import os
import tempfile
from array import array
from datetime import datetime, timezone

from ccnpy.apps.packet_utils import validate_packet
from ccnpy.core.Packet import Packet
from ccnpy.core.PacketValidator import PacketValidator
from ccnpy.core.SignatureTime import SignatureTime
from ccnpy.crypto.Crc32c import Crc32cSigner, Crc32cVerifier
from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.crypto.RsaSha256 import RsaSha256Signer, RsaSha256Verifier
from ccnpy.flic.tree.Traversal import Traversal
from ccnpy.flic.tree.TreeIO import TreeIO

from .. import forge, keys, lib, wire
from ..engine import raises

PID = 'C15'
TECHNIQUE = 'model checking: exhaustive enumeration of signed packets and of all their single-bit changes on the real validator and reader, against independent RSA and CRC32C'
BOUND = {
    'quick': '9 bodies x 5 signers (CRC32C, RSA 2048, 4096) x made by the code and independently x 3 trips through the wire, optional headers, unknown elements; for 12 of these every single bit of message, validation algorithm and validation payload, every truncation and extension of the validation payload, all mixtures of the parts of two packets; all pairs of bits of a CRC32C packet; every bad signature at every position of 6 tree shapes of named and of nameless packets; every bit of the root of an unpinned traversal; 9 sets of keys; buffers of every length to 66000 (RSA: to 2100 and around all multiples of 256 and 1000) and packets of every length around multiples of 512 and 1000, with the first, middle and last byte changed or missing; one bit of every byte of packets of 5 kB, of every 4th or 8th of packets of 60 kB',
    'thorough': 'as quick, every single bit for all bodies and signers, 3-bit bursts of CRC32C packets',
}
ASSUMPTIONS = ['RSA PKCS#1 v1.5 with SHA-256 of the cryptography package is sound']

NAME = ((1, b'a'), (1, b'bc'))
MANIFEST = forge.plain_manifest(forge.node([forge.group([bytes(32)], 0)], [forge.nc_def(0, forge.schema('P', NAME))]))
BODIES = {
    'nameless': forge.co(b'payload'),
    'empty': forge.co(b'', name=NAME),
    'named': forge.co(b'hello', name=NAME),
    'expires': forge.co(b'hello', name=NAME, expiry=1700000000999),
    'chunk': forge.co(b'x' * 40, name=NAME + ((5, b'\1'),), fcid=300),
    'manifest': forge.co(MANIFEST, ptype=3, name=NAME),
    'key': forge.co(b'k' * 30, ptype=1),
    'reordered': wire.tlv(2, wire.tlv(1, b'hello') + wire.tlv(5, b'\0') + wire.name_tlv(NAME)),
    'padded integer': wire.tlv(2, wire.name_tlv(NAME) + wire.tlv(5, b'\0') + wire.tlv(1, b'p') + wire.tlv(7, b'\0\0\5')),
}
SIGNERS = {'crc': None, 'A': keys.RSAA, 'B': keys.RSAB, 'D': keys.RSAD, 'C': keys.RSAC}


def units(tier):
    u = [dict(kind='valid', signer=s) for s in SIGNERS]
    if tier == 'thorough':
        u += [dict(kind='bits', signer=s, body=b, part=p) for s in ('crc', 'A', 'B', 'D') for b in BODIES for p in range(1 if s == 'crc' else 4)]
        u += [dict(kind='pairs', part=p, burst=True) for p in range(8)]
    else:
        u += [dict(kind='bits', signer='crc', body=b, part=0) for b in BODIES]
        u += [dict(kind='bits', signer='A', body=b, part=p) for b in ('named', 'manifest', 'reordered') for p in range(4)]
        u += [dict(kind='pairs', part=p, burst=False) for p in range(8)]
    u += [dict(kind='sizes', signer=g, part=p, parts=16) for g in ('crc', 'A') for p in range(16)]
    u += [dict(kind='mixtures'), dict(kind='keys')]
    u += [dict(kind='long', signer=s, size=z, part=p, parts=n, every=e) for s, z, n, e in (('crc', 5000, 1, 1), ('A', 5000, 2, 1), ('crc', 60000, 8, 8 if tier == 'quick' else 1), ('A', 60000, 4, 4 if tier == 'quick' else 1)) for p in range(n)]
    u += [dict(kind='trees', shape=i) for i in range(len(SHAPES))]
    u += [dict(kind='root', signer=s, part=p) for s in ('crc', 'A') for p in range(1 if s == 'crc' else 4)]
    u += [dict(kind='published', sign=s, enc=e) for s in 'cr' for e in ('', 'g')]
    return u


def run(unit, ctx):
    {'keys': keys_}.get(unit['kind'], globals().get(unit['kind']))(unit, ctx)


def how(signer):
    return 'crc' if signer == 'crc' else ('rsa', SIGNERS[signer], SIGNERS[signer])


def store(*names):
    """A keystore that holds these keys (public only where the name ends in .pub)"""
    ks = InsecureKeystore()
    for n in names:
        pem = SIGNERS[n[0]]
        ks.add_rsa_key(n, public(n[0]) if n.endswith('.pub') else private(n[0]))
    return ks


_keys = {}


def private(n):
    if n not in _keys:
        _keys[n] = RsaKey(SIGNERS[n])
    return _keys[n]


def public(n):
    if n + '.pub' not in _keys:
        _keys[n + '.pub'] = RsaKey(keys.public_pem(SIGNERS[n]))
    return _keys[n + '.pub']


def validators(ks):
    """name -> function that raises unless the packet validates"""
    yield 'PacketValidator', PacketValidator(ks).validate_packet

    def direct(p):
        alg = p.validation_alg()
        if alg is None:
            raise ValueError('no validation')
        if type(alg).__name__.endswith('Crc32c'):
            v = Crc32cVerifier()
        else:
            v = RsaSha256Verifier(ks.get_rsa(alg.keyid()))
        if not v.verify(p.body().serialize(), alg.serialize(), validation_payload=p.validation_payload()):
            raise ValueError('verifier says no')
    yield 'Verifier', direct
    yield 'packet_utils', lambda p: validate_packet(ks, p)


def trips(w, n):
    p = lib.parse(w)
    yield p
    for _ in range(n):
        p = lib.parse(p.serialize().tobytes())
        yield p


def sign_by_code(body, signer, **kw):
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Tlv import Tlv
    co = ContentObject.parse(Tlv.deserialize(array('B', body)))
    s = Crc32cSigner() if signer == 'crc' else RsaSha256Signer(private(signer))
    alg = s.validation_alg(**kw)
    return Packet.create_signed_content_object(co, alg, s.sign(co.serialize(), alg.serialize()))


def valid(unit, ctx):
    sg = unit['signer']
    ks = store() if sg == 'crc' else store(sg + '.pub', *[x for x in 'AB' if x != sg])
    for bname, body in BODIES.items():
        case = dict(signer=sg, body=bname)
        with ctx.guard(case):
            ws = [('independent', forge.packet(body, how(sg)))]
            for opt in (wire.tlv(0x7000, b'abc'), b'\xff' * 30):
                ws.append(('independent, optional header', forge.packet(body, how(sg), optional=opt)))
            made = [('code', sign_by_code(body, sg))]
            if sg != 'crc':
                for t in (datetime(2024, 5, 6, 7, 8, 9, 123456, tzinfo=timezone.utc), SignatureTime(0), SignatureTime(1700000000.0004), SignatureTime(4e9)):
                    made.append(('code, signed at %r' % t, sign_by_code(body, sg, signature_time=t)))
                ws.append(('independent, unknown element', forge.packet(body, how(sg), alg=forge.rsa_alg(SIGNERS[sg], extra=wire.tlv(0x7777, b'u')))))
                ws.append(('independent, other order', forge.packet(body, how(sg), alg=wire.tlv(3, wire.tlv(4, wire.tlv(15, bytes(7) + b'\5') + wire.tlv(9, wire.tlv(1, keys.keyid(SIGNERS[sg]))))))))
            for label, p in made:
                w = p.serialize().tobytes()
                x = wire.packet(w)
                if sg == 'crc':
                    ok = x.sig == forge.crc32c(x.covered).to_bytes(4, 'big')
                else:
                    ok = forge.rsa_good(SIGNERS[sg], x.sig, x.covered)
                ctx.check(ok, dict(case, made=label), 'the signature is not one of the bytes on the wire')
                for name, fn in validators(ks):
                    exc, _ = raises(fn, p)
                    ctx.check(exc is None, dict(case, made=label, by=name, trips='none'), 'refused: %r' % exc)
                ws.append((label, w))
            for label, w in ws:
                for k, p in enumerate(trips(w, 3)):
                    ctx.check(p.serialize().tobytes() == w, dict(case, made=label, trips=k), 'the wire bytes changed')
                    for name, fn in validators(ks):
                        exc, _ = raises(fn, p)
                        ctx.check(exc is None, dict(case, made=label, by=name, trips=k), 'refused: %r' % exc)
                        ctx.step()
                d = tempfile.mkdtemp()
                try:
                    f = os.path.join(d, 'p')
                    p.save(f)
                    exc, _ = raises(PacketValidator(ks).validate_packet, Packet.load(f))
                    ctx.check(exc is None, dict(case, made=label, trips='file'), 'refused: %r' % exc)
                finally:
                    os.unlink(f)
                    os.rmdir(d)
                ctx.trace('valid')
                ctx.state((sg, bname, label))
    # the parts signed are the concatenation of what is given
    data = bytes(range(60))
    for a in range(0, 61, 7):
        for b in range(a, 61, 5):
            s = Crc32cSigner() if sg == 'crc' else RsaSha256Signer(private(sg))
            one, three = s.sign(data), s.sign(data[:a], data[a:b], data[b:])
            v = Crc32cVerifier() if sg == 'crc' else RsaSha256Verifier(public(sg))
            ctx.check(one.serialize() == three.serialize() and v.verify(data[:b], data[b:], validation_payload=three), dict(signer=sg, split=[a, b]), 'the signature depends on the split')
            ctx.check(not v.verify(data[:b], validation_payload=three) or b == 60, dict(signer=sg, split=[a, b]), 'verifies a part')
            ctx.trace('split')


def must_fail(ctx, case, w, fns):
    exc, p = raises(lib.parse, w)
    if exc is None:
        for name, fn in fns:
            exc, _ = raises(fn, p)
            if exc is None:
                ctx.fail(dict(case, by=name), 'validates: %s' % w.hex()[:400])
        ctx.trace('validation fails')
    else:
        ctx.trace('refused')
    ctx.step()


def names_key(w, pem):
    """The packet claims exactly this key id"""
    try:
        return wire.tlv(9, wire.tlv(1, keys.keyid(pem))) in wire.packet(w).alg
    except Exception:
        return False


def bits(unit, ctx):
    """Every single bit from the message to the end of the packet"""
    sg, bname = unit['signer'], unit['body']
    w = forge.packet(BODIES[bname], how(sg))
    ks = store('A.pub', 'B.pub', 'D.pub')
    fns = [v for v in validators(ks) if v[0] != 'packet_utils']
    utils = [v for v in validators(ks)][2:]
    for k in range(64 + unit['part'], len(w) * 8, 1 if sg == 'crc' else 4):
        x = bytearray(w)
        x[k // 8] ^= 0x80 >> (k % 8)
        x = bytes(x)
        case = dict(signer=sg, body=bname, bit=k)
        must_fail(ctx, case, x, fns)
        exc, p = raises(lib.parse, x)
        if exc is None and (sg == 'crc' or names_key(x, SIGNERS[sg])):
            # (for a key it does not hold, packet_reader prints that nothing was validated)
            must_fail(ctx, case, x, utils)
        ctx.state((sg, bname, k))
    if unit['part']:
        return
    p = wire.packet(w)
    cov, sig = p.covered, p.sig
    out = []
    for n in range(len(sig)):
        out.append(('payload cut to %d' % n, sig[:n]))
    for n in range(1, 20):
        out.append(('payload starts at %d' % n, sig[n:]))
        out += [('payload followed by %d' % n, sig + bytes(n)), ('payload after %d' % n, bytes(n) + sig)]
    out += [('payload zero', bytes(len(sig))), ('payload ones', b'\xff' * len(sig)), ('payload reversed', sig[::-1]), ('payload one', bytes(len(sig) - 1) + b'\1')]
    for label, s in out:
        if s == sig:
            continue
        body = cov + wire.tlv(4, s)
        must_fail(ctx, dict(signer=sg, body=bname, change=label), forge.header(8 + len(body)) + body, fns + utils)
    # parts of the message
    msg = cov
    for label, body in (('no validation payload', cov), ('validation payload first', wire.tlv(4, sig) + cov)):
        must_fail(ctx, dict(signer=sg, body=bname, change=label), forge.header(8 + len(body)) + body, fns)
    ctx.sample(signer=sg, body=bname, bits=len(w) * 8 - 64)


def long(unit, ctx):
    """A long payload: one bit of every byte of the message, of the validation algorithm and of the payload"""
    sg = unit['signer']
    w = forge.packet(forge.co(lib.data(unit['size'], 5), name=NAME), how(sg))
    ks = store('A.pub', 'B.pub')
    fns = [next(iter(validators(ks)))]
    exc, _ = raises(fns[0][1], lib.parse(w))
    ctx.check(exc is None, dict(unit), 'the intact packet does not validate: %r' % (exc,))
    k = 8 + unit['part'] * unit['every']
    while k < len(w):
        x = bytearray(w)
        x[k] ^= 0x80 >> (k // unit['parts'] % 8)
        must_fail(ctx, dict(signer=sg, size=unit['size'], byte=k), bytes(x), fns)
        k += unit['parts'] * unit['every']
    ctx.state((sg, unit['size'], unit['part']))
    ctx.sample(signer=sg, bytes=len(w))


def sizes(unit, ctx):
    """Buffers and packets of every length: signed over all bytes, a change of the first, the last or the middle byte is noticed"""
    sg = unit['signer']
    top = 66000
    data = array('B', lib.data(top, 11))
    tail = array('B', b'algorithm')
    if sg == 'crc':
        signer, verifier = Crc32cSigner(), Crc32cVerifier()
        c, crcs = 0xFFFFFFFF, [0]
        for b in data:
            c = forge.TABLE[(c ^ b) & 0xFF] ^ (c >> 8)
            crcs.append(c ^ 0xFFFFFFFF)
        lengths = range(top + 1)
    else:
        signer, verifier = RsaSha256Signer(private(sg)), RsaSha256Verifier(public(sg))
        lengths = sorted(set(range(2100)) | {m + d for k in (256, 1000) for m in range(0, top, k) for d in (-1, 0, 1)} - {-1})
    for n in lengths:
        if n % unit['parts'] != unit['part']:
            continue
        case = dict(signer=sg, length=n)
        with ctx.guard(case):
            buf = data[:n]
            sig = signer.sign(buf)
            v = sig.payload()
            v = v.tobytes() if hasattr(v, 'tobytes') else bytes(v)
            ok = v == crcs[n].to_bytes(4, 'big') if sg == 'crc' else forge.rsa_good(SIGNERS[sg], v, buf.tobytes())
            ctx.check(ok, case, 'the signature is not one of these %d bytes' % n)
            ctx.check(verifier.verify(buf, validation_payload=sig), case, 'does not verify')
            two = signer.sign(buf, tail) if sg == 'crc' else None
            for k in sorted({0, n // 2, n - 1}):
                if 0 <= k < n:
                    buf[k] ^= 0x20
                    ctx.check(not verifier.verify(buf, validation_payload=sig), dict(case, byte=k), 'verifies with a changed byte')
                    if two is not None:
                        ctx.check(not verifier.verify(buf, tail, validation_payload=two), dict(case, byte=k), 'verifies with a changed byte, followed by another buffer')
                    buf[k] ^= 0x20
            if n:
                ctx.check(not verifier.verify(buf[:-1], validation_payload=sig), case, 'verifies without the last byte')
                ctx.check(not verifier.verify(buf[1:], validation_payload=sig), case, 'verifies without the first byte')
            ctx.step()
            ctx.trace('length verified')
    # packets whose payload, or whole message, has these lengths
    fns = [next(iter(validators(store('A.pub'))))]
    blob = data.tobytes()
    every = set(range(600)) | {m + d for k in (512, 1000) for m in range(0, 64800, k) for d in range(-70, 5)}
    every = sorted(n for n in every if 0 <= n <= 64900)
    for i, n in enumerate(every):
        if i % unit['parts'] != unit['part'] or (sg != 'crc' and n % 512 > 100 and n > 600):
            continue
        case = dict(signer=sg, payload_length=n)
        with ctx.guard(case):
            w = forge.packet(forge.co(blob[:n], name=NAME), how(sg))
            exc, _ = raises(fns[0][1], lib.parse(w))
            ctx.check(exc is None, case, 'refused: %r' % (exc,))
            end = len(w) - wire_tail(sg)
            for k in (end - 1, end - n // 2 - 1) if n else ():
                x = bytearray(w)
                x[k] ^= 0x04
                must_fail(ctx, dict(case, byte=k), bytes(x), fns)
            ctx.state((sg, n))
    ctx.sample(signer=sg, part=unit['part'], longest=max(lengths))


def wire_tail(sg):
    """Length of validation algorithm and payload"""
    return len(forge.packet(BODIES['nameless'], how(sg))) - 8 - len(BODIES['nameless'])


def pairs(unit, ctx):
    """CRC32C detects every two changed bits (and bursts of three) of a small packet"""
    w = forge.packet(BODIES['nameless'], 'crc')
    fns = [next(iter(validators(store())))]
    n = len(w) * 8
    for a in range(64 + unit['part'], n, 8):
        for b in range(a + 1, n):
            flips = [(a, b)]
            if unit['burst']:
                flips += [(a, b, c) for c in range(b + 1, min(b + 6, n))]
            for f in flips:
                x = bytearray(w)
                for k in f:
                    x[k // 8] ^= 0x80 >> (k % 8)
                must_fail(ctx, dict(signer='crc', bits=f), bytes(x), fns)
        ctx.state(('pairs', a))


def mixtures(unit, ctx):
    """Parts of two packets"""
    ks = store('A.pub', 'B.pub', 'D.pub')
    fns = list(validators(ks))
    signers = ('crc', 'A', 'B', 'D')
    made = {}
    for sg in signers:
        for bname in ('nameless', 'named', 'expires', 'reordered'):
            for ms in ((0,) if sg == 'crc' else (1700000000123, 1700000000124)):
                alg = None if sg == 'crc' else forge.rsa_alg(SIGNERS[sg], ms)
                p = wire.packet(forge.packet(BODIES[bname], how(sg), alg=alg))
                made[sg, bname, ms] = (BODIES[bname], wire.tlv(3, p.alg), wire.tlv(4, p.sig))
    for (ka, a), (kb, b) in itertools.product(made.items(), repeat=2):
        for take in itertools.product((0, 1), repeat=3):
            parts = [(a, b)[t][i] for i, t in enumerate(take)]
            body = b''.join(parts)
            w = forge.header(8 + len(body)) + body
            case = dict(a=ka, b=kb, parts=take)
            if tuple(parts) in made.values():
                continue
            must_fail(ctx, case, w, fns)
            ctx.state((ka, kb, take))


def keys_(unit, ctx):
    """Which keys the reader holds; another key that claims the key id"""
    sets = [(), ('A',), ('A.pub',), ('B',), ('B.pub', 'D.pub'), ('A', 'B'), ('A.pub', 'B.pub', 'C.pub', 'D.pub'), ('D',), ('C', 'B')]
    for held in sets:
        ks = store(*held)
        have = {h[0] for h in held}
        for signing, claimed in itertools.product('ABCD', repeat=2):
            for bname in ('named', 'manifest'):
                alg = forge.rsa_alg(SIGNERS[claimed])
                w = forge.packet(BODIES[bname], ('rsa', SIGNERS[signing], SIGNERS[claimed]), alg=alg)
                case = dict(keys=held, signed_by=signing, claims=claimed, body=bname)
                for k, p in enumerate(trips(w, 1)):
                    for name, fn in list(validators(ks))[:2]:
                        exc, _ = raises(fn, p)
                        good = signing == claimed and claimed in have
                        ctx.check((exc is None) == good, dict(case, by=name), 'refused: %r' % exc if good else 'accepted')
                        ctx.step()
                    ctx.trace('accepted' if signing == claimed and claimed in have else 'refused')
                ctx.state(case)
        # a key id nobody holds, of another hash algorithm or length, or with the bits of a held one
        kid = keys.keyid(SIGNERS['A'])
        for alg_n, v in ((1, bytes(32)), (1, kid[:31]), (1, kid + b'\0'), (2, kid), (9, kid), (1, b''), (1, kid[::-1])):
            alg = wire.tlv(3, wire.tlv(4, wire.tlv(9, wire.tlv(alg_n, v)) + wire.tlv(15, bytes(8))))
            w = forge.packet(BODIES['named'], ('rsa', SIGNERS['A'], None), alg=alg)
            must_fail(ctx, dict(keys=held, claims='%d %s' % (alg_n, v.hex())), w, list(validators(ks))[:2])
    # CRC32C needs no key
    for held in sets:
        for bname, body in BODIES.items():
            for name, fn in validators(store(*held)):
                exc, _ = raises(fn, lib.parse(forge.packet(body, 'crc')))
                ctx.check(exc is None, dict(keys=held, body=bname, by=name), 'CRC32C packet refused: %r' % exc)
                ctx.trace('accepted')


# shapes: nested tuples; a string is a data leaf
SHAPES = [('a',), ('a', 'b'), (('a', 'b'),), ('a', ('b', 'c'), 'd'), (('a',), ('b',)), ('a', ('b', ('c', 'd')))]
NCS = [forge.nc_def(0, forge.schema('P', NAME))]


def positions(shape):
    n = [0]

    def count(x):
        n[0] += 1
        if not isinstance(x, str):
            for c in x:
                count(c)
    count(shape)
    return n[0]


def build(shape, sigs, inner=NAME):
    """Packets of the tree; sigs[i]: how packet i (preorder) is signed, possibly badly. -> (packets, order of leaves, preorder leaves before i)"""
    out, counter, leaves = [], [0], []

    def go(x, root):
        i = counter[0]
        counter[0] += 1
        if isinstance(x, str):
            body = forge.co(x.encode() * 10, name=inner)
            leaves.append((i, x.encode() * 10))
        else:
            ptrs = [forge.hash_of(go(c, False)) for c in x]
            body = forge.co(forge.plain_manifest(forge.node([forge.group(ptrs, 0)], NCS if root else None)), ptype=3, name=NAME if root else inner)
        w = sigs[i](body)
        out.append(w)
        return w
    root = go(shape, True)
    return out, root, leaves


def good(kind):
    return lambda body: forge.packet(body, kind)


def flipped(kind):
    def make(body):
        w = bytearray(forge.packet(body, kind))
        w[-1] ^= 1
        return bytes(w)
    return make


def claims(signing, claimed):
    return lambda body: forge.packet(body, ('rsa', SIGNERS[signing], SIGNERS[claimed]))


def stale(kind):
    """The validation of another body"""
    def make(body):
        v = forge.validation(BODIES['named'], kind)
        b = body + v
        return forge.header(8 + len(b)) + b
    return make


def trees(unit, ctx):
    """A bad signature on a packet that its parent points to correctly"""
    shape = SHAPES[unit['shape']]
    n = positions(shape)
    rsa = ('rsa', SIGNERS['A'], SIGNERS['A'])
    bads = {'crc flipped': flipped('crc'), 'rsa flipped': flipped(rsa), 'B claims A': claims('B', 'A'), 'key not held': claims('C', 'C'),
            'crc of another': stale('crc'), 'rsa of another': stale(rsa), None: None}
    for (base_label, base), inner in itertools.product((('plain', None), ('crc', 'crc'), ('rsa', rsa)), (NAME, None)):
        for pos in range(n):
            for label, bad in bads.items():
                sigs = [good(base)] * n
                if bad is not None:
                    sigs[pos] = bad
                elif pos:
                    continue
                packets, root, leaves = build(shape, sigs, inner)
                content = b''.join(b for _, b in leaves)
                before = b''.join(b for i, b in leaves if i < pos)
                for pinned in (True, False):
                    for stored in ('wire', 'memory'):
                        s = lib.MapStore(packets)
                        if stored == 'memory':
                            s = TreeIO.PacketMemoryReader([lib.parse(w) for w in packets])
                        if not pinned and stored == 'memory':
                            continue
                        if not pinned:
                            s = Unpinned(packets, root)
                        sink = lib.Sink()
                        t = Traversal(s, sink, store('A.pub', 'B.pub'))
                        exc, _ = raises(t.traverse, lib.N('ccnx:/a/bc'), lib.hash_value(forge.hash_of(root)) if pinned else None)
                        case = dict(shape=shape, others=base_label, bad=label, position=pos, named=inner is not None, pinned=pinned, store=stored)
                        if bad is None:
                            ctx.check(exc is None and sink.bytes() == content, case, 'not read: %r' % exc)
                        else:
                            ctx.check(exc is not None, case, 'read without error')
                            ctx.check(sink.bytes() == before, case, 'delivered %r' % sink.bytes())
                        ctx.step(n)
                        ctx.trace('read' if bad is None else 'refused')
                        ctx.state((unit['shape'], base_label, label, pos, inner, pinned))
    ctx.sample(shape=repr(shape))


class Unpinned(lib.MapStore):
    """Answers a request without hash with the root"""

    def __init__(self, wires, root):
        super().__init__(wires)
        self.root = root

    def get(self, name, hash_restriction, forwarding_hints=None):
        if hash_restriction is None:
            return lib.parse(self.root)
        return super().get(name, hash_restriction)


def root(unit, ctx):
    """Every bit of the root packet, read without knowing its hash"""
    sg = unit['signer']
    leaf = forge.packet(forge.co(b'data' * 5, name=NAME))
    body = forge.co(forge.plain_manifest(forge.node([forge.group([forge.hash_of(leaf)], 0)], NCS)), ptype=3, name=NAME)
    w = forge.packet(body, how(sg))
    for k in range(64 + unit['part'], len(w) * 8, 1 if sg == 'crc' else 4):
        x = bytearray(w)
        x[k // 8] ^= 0x80 >> (k % 8)
        sink = lib.Sink()
        t = Traversal(Unpinned([leaf], bytes(x)), sink, store('A.pub', 'B.pub'))
        exc, _ = raises(t.traverse, lib.N('ccnx:/a/bc'), None)
        ctx.check(exc is not None and sink.bytes() == b'', dict(signer=sg, bit=k), 'the root was accepted, %d bytes delivered' % len(sink.bytes()))
        ctx.step()
        ctx.trace('refused')
        ctx.state((sg, k))
    sink = lib.Sink()
    Traversal(Unpinned([leaf], w), sink, store('A.pub')).traverse(lib.N('ccnx:/a/bc'), None)
    ctx.check(sink.bytes() == b'data' * 5, dict(signer=sg), 'the root as signed is not read')


def published(unit, ctx):
    """The root of a publication is signed over its wire bytes, and reading checks it"""
    for schema, opts in (('H1', ''), ('P1', 'xr'), ('S1', 'ngl')):
        cfg = dict(schema=schema, opts=opts, enc=unit['enc'], sign=unit['sign'], mps=900, deg=3)
        pub = lib.publish(cfg, lib.data(4000))
        p = wire.packet(pub.wires[-1])
        if unit['sign'] == 'c':
            ok = p.sig == forge.crc32c(p.covered).to_bytes(4, 'big')
        else:
            ok = forge.rsa_good(keys.RSAB, p.sig, p.covered)
        ctx.check(ok, cfg, 'the root signature does not cover its wire bytes')
        ks = lib.keystore(unit['enc'], unit['sign'])
        ctx.check(lib.read(pub, ks=ks) == pub.content, cfg, 'not read with the right key')
        if unit['sign'] == 'r':
            ks = lib.keystore(unit['enc'], '')
            ks.add_rsa_key('other', private('A'))
            sink = lib.Sink()
            exc, _ = raises(lib.read, pub, ks=ks, sink=sink)
            ctx.check(exc is not None and sink.bytes() == b'', cfg, 'read by a reader that does not hold the key')
        w = bytearray(pub.wires[-1])
        for k in range(len(w) * 8 - 1, len(w) * 8 - 33, -1):
            x = bytearray(w)
            x[k // 8] ^= 0x80 >> (k % 8)
            sink = lib.Sink()
            t = Traversal(Unpinned(pub.wires[:-1], bytes(x)), sink, lib.keystore(unit['enc'], unit['sign']))
            exc, _ = raises(t.traverse, lib.N(lib.ROOT_URI), None)
            ctx.check(exc is not None and sink.bytes() == b'', dict(cfg, bit=k), 'read with a changed signature')
            ctx.trace('refused')
        ctx.trace('published')
        ctx.state((unit, schema))


