"""C07: packets survive the wire"""
import hashlib
import itertools
import os
import shutil
import tempfile
from array import array

from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.FinalChunkId import FinalChunkId
from ccnpy.core.Packet import Packet
from ccnpy.core.Payload import Payload
from ccnpy.core.PayloadType import PayloadType
from ccnpy.core.ValidationPayload import ValidationPayload

from .. import catalog, lib, wire
from ..engine import raises

PID = 'C07'
TECHNIQUE = 'model checking: exhaustive enumeration of packets (built and received) and of their encodings, real code against an independent encoder'
BOUND = {
    'quick': 'built: 6 names x 4 expiry times x 5 payload types x 9 payload sizes x 6 final chunk numbers x 3 validations; all packet lengths 65480..65545; received: 9 optional header lengths x 4 header fields x all orders of the content object elements x padded integers x 3 validations, unknown validation elements; save and load',
    'thorough': 'built: all names of the catalogue, 15 chunk numbers, 14 payload sizes; received as quick with every header length 8..255',
}
ASSUMPTIONS = ['an optional header is any bytes between the fixed header and the header length']

VALIDATIONS = ['', 'c', 'r']


def units(tier):
    u = [dict(kind='built', validation=v, ptype=p) for v in VALIDATIONS for p in (None, 0, 1, 2, 3)]
    u += [dict(kind='received', validation=v) for v in VALIDATIONS]
    u += [dict(kind='large'), dict(kind='file'), dict(kind='factories')]
    return u


def validation_bytes(v, body):
    """Independent encoding of the validation of a message (body is the encoded content object)"""
    if v == '':
        return b'', b''
    if v == 'c':
        return wire.tlv(3, wire.tlv(2, b'')), wire.tlv(4, b'\x12\x34\x56\x78')
    kid = hashlib.sha256(b'key').digest()
    return (wire.tlv(3, wire.tlv(4, wire.tlv(9, wire.tlv(1, kid)) + wire.tlv(15, (1700000000123).to_bytes(8, 'big')))),
            wire.tlv(4, catalog.octets(256, b'sig')))


def header(n, fields=b'\0\0\0', hlen=8):
    return b'\1\1' + n.to_bytes(2, 'big') + fields + bytes([hlen])


def co_bytes(name, exp, ptype, payload, fcid):
    out = b''
    if name is not None:
        out += wire.name_tlv(name)
    if exp is not None:
        out += wire.tlv(6, exp.to_bytes(8, 'big'))
    if ptype is not None:
        out += wire.tlv(5, bytes([ptype]))
    if payload is not None:
        out += wire.tlv(1, payload)
    if fcid is not None:
        out += wire.tlv(7, wire.varint(fcid))
    return wire.tlv(2, out)


def build(name, exp, ptype, payload, fcid, v):
    co = ContentObject(name=None if name is None else catalog.build_name(name),
                       payload_type=None if ptype is None else PayloadType(ptype),
                       payload=None if payload is None else Payload(payload),
                       expiry_time=None if exp is None else ExpiryTime(exp / 1000),
                       final_chunk_id=None if fcid is None else FinalChunkId(fcid))
    if v == '':
        return Packet.create_content_object(co)
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.ValidationAlg import ValidationAlg_Crc32c, ValidationAlg_RsaSha256
    if v == 'c':
        return Packet.create_signed_content_object(co, ValidationAlg_Crc32c(), ValidationPayload(array('B', b'\x12\x34\x56\x78')))
    alg = ValidationAlg_RsaSha256(keyid=HashValue.create_sha256(hashlib.sha256(b'key').digest()), signature_time=SignatureTime(1700000000.123))
    return Packet.create_signed_content_object(co, alg, ValidationPayload(array('B', catalog.octets(256, b'sig'))))


def fields_of(p):
    """The fields of a packet of the code under test in reference form"""
    co = p.body()
    h = p.header()
    alg, vp = p.validation_alg(), p.validation_payload()
    pt = co.payload_type()
    ptype = None
    if pt is not None:
        flags = (pt.is_data(), pt.is_key(), pt.is_link(), pt.is_manifest())
        ptype = flags.index(True) if sum(flags) == 1 else 'payload type is %r' % (flags,)
    return dict(
        name=None if co.name() is None else lib.ref_name(co.name()),
        expiry=None if co.expiry_time() is None else co.expiry_time().milliseconds(), ptype=ptype,
        payload=None if co.payload() is None else bytes(co.payload().value()),
        fcid=None if co.final_chunk_id() is None else co.final_chunk_id().serialize().tobytes()[4:],
        alg=None if alg is None else bytes(alg.serialize()), sig=None if vp is None else bytes(vp.payload()),
        length=h.packet_length(), hlen=h.header_length(), is_co=h.is_content_object(), manifest=co.is_manifest(), link=co.is_link(),
        hash=bytes(p.content_object_hash().value()))


def expected_fields(name, exp, ptype, payload, fcid, alg, sig, w, hlen):
    return dict(name=name, expiry=exp, ptype=ptype, payload=payload, fcid=None if fcid is None else wire.varint(fcid),
                alg=alg or None, sig=sig[4:] if alg else None, length=len(w), hlen=hlen, is_co=True,
                manifest=ptype == 3, link=ptype == 2, hash=hashlib.sha256(w[hlen:]).digest())


def compare(ctx, case, p, want, w, label):
    got = fields_of(p)
    for k in want:
        ctx.check(got[k] == want[k], dict(case, object=label), lambda: '%s is %r, not %r' % (k, got[k], want[k]))
    ctx.check(p.serialize().tobytes() == w, dict(case, object=label), lambda: 'serializes to %s' % p.serialize().tobytes().hex()[:300])
    ctx.check(len(p) == len(w), dict(case, object=label), 'len() is %d, not %d' % (len(p), len(w)))


def run(unit, ctx):
    {'built': built, 'received': received, 'large': large, 'file': files, 'factories': factories}[unit['kind']](unit, ctx)


def built(unit, ctx):
    deep = ctx.tier == 'thorough'
    v, ptype = unit['validation'], unit['ptype']
    names = [None] + (catalog.NAMES if deep else catalog.FEW_NAMES + [(), ((1, b''),)])
    names = [n for n in names if n is None or all(t in (1, 5, 16, 2) for t, _ in n)]
    sizes = [None, 0, 1, 2, 3, 4, 255, 256, 257] + ([31, 32, 1000, 5000, 60000] if deep else [])
    fcids = [None, 0, 1, 255, 256, 2 ** 64 - 1] + (catalog.INTS if deep else [])
    for name, exp, size, fcid in itertools.product(names, (None, 0, 1, 1700000000123), sizes, fcids):
        payload = None if size is None else catalog.octets(size)
        body = co_bytes(name, exp, ptype, payload, fcid)
        alg, sig = validation_bytes(v, body)
        w = header(8 + len(body + alg + sig)) + body + alg + sig
        case = dict(name=name, expiry=exp, ptype=ptype, payload=size, fcid=fcid, validation=v)
        ctx.case = case
        with ctx.guard(case):
            want = expected_fields(name, exp, ptype, payload, fcid, alg, sig, w, 8)
            p = build(name, exp, ptype, payload, fcid, v)
            compare(ctx, case, p, want, w, 'built')
            q = lib.parse(w)
            compare(ctx, case, q, want, w, 'parsed')
            ctx.check(p == q and q == p, case, 'the parsed packet is not equal to the built one')
            ctx.check(p.content_object_hash() == q.content_object_hash(), case, 'the parsed packet has another hash')
            ctx.step(2)
        ctx.state(w)
        ctx.trace('%s %s %s' % (ptype, v, size if size is None or size < 10 else 'long'))
    ctx.sample(case=case)


def received(unit, ctx):
    """Encodings that this implementation would not produce, as far as the parser takes them"""
    v = unit['validation']
    kids = {'name': wire.name_tlv(((1, b'a'), (5, b'\1'))), 'exp': wire.tlv(6, (5).to_bytes(8, 'big')), 'ptype': wire.tlv(5, b'\0'),
            'payload': wire.tlv(1, b'payload'), 'fcid': wire.tlv(7, b'\0\0\7')}
    variants = []
    for order in itertools.permutations(sorted(kids)):
        variants.append(('order ' + ','.join(order), b''.join(kids[k] for k in order), True))
    for k, pad in (('fcid', wire.tlv(7, b'\0' * 5 + b'\7')), ('ptype', wire.tlv(5, b'\0\0')), ('exp', wire.tlv(6, b'\0\5')),
                   ('fcid', wire.tlv(7, b'')), ('name', wire.name_tlv(((1, b'a'), (5, b'\0\0\1'))))):
        variants.append(('other width of ' + k, b''.join(pad if x == k else kids[x] for x in ('name', 'exp', 'ptype', 'payload', 'fcid')), False))
    algs = [('', validation_bytes(v, b''))]
    if v == 'r':
        kid = wire.tlv(9, wire.tlv(1, hashlib.sha256(b'key').digest()))
        st = wire.tlv(15, (1700000000123).to_bytes(8, 'big'))
        sig = validation_bytes(v, b'')[1]
        algs += [('unknown element %s' % where, (wire.tlv(3, wire.tlv(4, x)), sig)) for where, x in (
            ('first', wire.tlv(0x7FF, b'?') + kid + st), ('middle', kid + wire.tlv(0x7FF, b'??') + st), ('last', kid + st + wire.tlv(0x7FF, b'')),
            ('swapped', st + kid))]
        algs.append(('no time', (wire.tlv(3, wire.tlv(4, kid)), sig)))
    hlens = [8, 9, 10, 12, 16, 28, 64, 128, 255] if ctx.tier != 'thorough' else list(range(8, 256))
    for (label, inner, must), hlen, (alabel, (alg, sig)) in itertools.product(variants, hlens, algs):
        if hlen != 8 and label.startswith('order') and not label.startswith('order exp,fcid'):
            continue
        for fields in (b'\0\0\0', b'\x20\0\0', b'\xff\1\2', b'\0\0\1'):
            body = wire.tlv(2, inner)
            extra = catalog.octets(hlen - 8, b'hop')
            w = header(hlen + len(body + alg + sig), fields, hlen) + extra + body + alg + sig
            case = dict(content=label, header_length=hlen, fields=fields, validation=v, alg=alabel, packet=w.hex())
            ctx.case = case
            exc, p = raises(lib.parse, w)
            ctx.step()
            if exc is not None:
                ctx.check(not must and True, case, 'a well-formed packet was refused: %r' % exc)
                ctx.trace('refused')
                continue
            with ctx.guard(case):
                ctx.check(p.serialize().tobytes() == w, case, lambda: 're-encodes as %s' % p.serialize().tobytes().hex())
                ctx.check(len(p) == len(w), case, 'len() is %d' % len(p))
                ctx.check(bytes(p.content_object_hash().value()) == hashlib.sha256(w[hlen:]).digest(), case, 'the hash is not the hash of the received message')
                ctx.check(p.header().header_length() == hlen and p.header().packet_length() == len(w), case, 'header lengths differ')
                ctx.check(p.header().serialize().tobytes() == w[:8], case, 'the fixed header differs')
                ctx.check(bytes(p.body().serialize()) == body, case, 'the content object is not as received')
                if v:
                    ctx.check(bytes(p.validation_alg().serialize()) == alg, case, 'the validation algorithm is not as received')
                    ctx.check(wire.tlv(4, bytes(p.validation_payload().payload())) == sig, case, 'the signature is not as received')
                if must:
                    f = fields_of(p)
                    ctx.check((f['name'], f['expiry'], f['ptype'], f['payload']) == (((1, b'a'), (5, b'\1')), 5, 0, b'payload'), case, lambda: 'fields are %r' % f)
                    ctx.check(p.body().final_chunk_id() is not None and p.body().final_chunk_id() == FinalChunkId(7), case, 'final chunk number')
                # parsing again gives an equal packet
                q = lib.parse(p.serialize().tobytes())
                ctx.check(q == p or alabel == 'no time', case, 'parsing again gives another packet')
            ctx.state(w)
            ctx.trace('accepted ' + label[:5])


def large(unit, ctx):
    """Lengths around what 16 bits hold"""
    for name in (None, ((1, b'a'),)):
        for n in range(65440, 65545):
            over = len(co_bytes(name, None, 0, b'', None)) + 8
            case = dict(name=name, payload=n, packet=over + n)
            ctx.case = case
            payload = catalog.octets(n)
            exc, p = raises(build, name, None, 0, payload, None, '')
            ctx.step()
            if over + n > 65535:
                ctx.check(exc is not None, case, 'a packet longer than 65535 bytes was built')
                ctx.trace('refused')
            else:
                ctx.check(exc is None, case, 'not built: %r' % exc)
                if exc is None:
                    body = co_bytes(name, None, 0, payload, None)
                    w = header(8 + len(body)) + body
                    compare(ctx, case, p, expected_fields(name, None, 0, payload, None, b'', b'', w, 8), w, 'built')
                    compare(ctx, case, lib.parse(w), expected_fields(name, None, 0, payload, None, b'', b'', w, 8), w, 'parsed')
                ctx.trace('built')
            ctx.state((name, n))


def files(unit, ctx):
    d = tempfile.mkdtemp(prefix='mc-c07-')
    try:
        for v in VALIDATIONS:
            for hlen in (8, 12, 40):
                for size in (0, 1, 10, 26, 256, 3000):   # with 10 and 26: line endings
                    payload = bytes(range(256)) * (size // 256) + bytes(range(size % 256))
                    body = co_bytes(((1, b'a'),), 7, 0, payload, 10)
                    alg, sig = validation_bytes(v, body)
                    w = header(hlen + len(body + alg + sig), b'\x20\0\0', hlen) + catalog.octets(hlen - 8, b'hop') + body + alg + sig
                    case = dict(validation=v, header_length=hlen, payload=size)
                    ctx.case = case
                    with ctx.guard(case):
                        p = lib.parse(w)
                        path = os.path.join(d, 'x')
                        p.save(path)
                        with open(path, 'rb') as f:
                            ctx.check(f.read() == w, case, 'save() wrote other bytes')
                        q = Packet.load(path)
                        ctx.check(q == p and q.serialize().tobytes() == w, case, 'load() gives another packet')
                        ctx.check(q.content_object_hash() == p.content_object_hash(), case, 'another hash')
                        os.unlink(path)
                    ctx.state(w)
                    ctx.step(2)
                    ctx.trace('saved and loaded')
    finally:
        shutil.rmtree(d)


def factories(unit, ctx):
    """The create_ methods of content objects"""
    from datetime import datetime, timezone
    from ccnpy.core.Link import Link
    from ccnpy.flic.tlvs.Manifest import Manifest
    dt = datetime(2024, 5, 6, 7, 8, 9, 123000, tzinfo=timezone.utc)
    ms = 1714979289123
    man = Manifest(node=catalog.build_node(None, catalog.GROUP_LISTS[0]))
    mb = catalog.node_spec(None, catalog.GROUP_LISTS[0]).enc()
    link = catalog.build_link(*catalog.LOCATOR_LISTS[1][0])
    lb = catalog.enc(catalog.link_spec(*catalog.LOCATOR_LISTS[1][0]))
    for name in (None, catalog.FEW_NAMES[1]):
        nm = None if name is None else catalog.build_name(name)
        for exp in (None, dt):
            e = None if exp is None else ms
            made = [('manifest', lambda: ContentObject.create_manifest(man, nm, exp), co_bytes(name, e, 3, mb, None)),
                    ('manifest.content_object', lambda: man.content_object(nm, None if exp is None else ExpiryTime.from_datetime(exp)), co_bytes(name, e, 3, mb, None))]
            if name is not None:
                made.append(('link', lambda: ContentObject.create_link(link, nm, exp), co_bytes(name, e, 2, lb, None)))
            for fc in (None, 0, 300):
                for payload in (None, b'', b'abc'):
                    for pl in ([payload] if payload is None else [payload, Payload(payload), array('B', payload)]):
                        for f in ([fc] if fc is None else [fc, FinalChunkId(fc)]):
                            made.append(('data %r %r' % (payload, fc), lambda pl=pl, f=f: ContentObject.create_data(nm, pl, exp, f),
                                         co_bytes(name, e, None if payload is None else 0, payload, fc)))
            for label, make, want in made:
                case = dict(made=label, name=name, expiry=e)
                ctx.case = case
                with ctx.guard(case):
                    co = make()
                    ctx.check(bytes(co.serialize()) == want, case, lambda: 'encodes to %s, not %s' % (bytes(co.serialize()).hex(), want.hex()))
                    ctx.check(len(co) == len(want), case, 'len() is %d' % len(co))
                    p = Packet.create_content_object(co)
                    w = header(8 + len(want)) + want
                    ctx.check(p.serialize().tobytes() == w, case, 'the packet is %s' % p.serialize().tobytes().hex())
                    ctx.check(lib.parse(w) == p, case, 'the parsed packet differs')
                    ctx.check(bytes(p.content_object_hash().value()) == hashlib.sha256(want).digest(), case, 'the hash differs')
                    if label == 'manifest':
                        ctx.check(Manifest.from_content_object(lib.parse(w).body()) == man, case, 'the manifest in the packet differs')
                        ctx.check(man.packet(nm, None if exp is None else ExpiryTime.from_datetime(exp)) == p, case, 'Manifest.packet() differs')
                ctx.state((label, want))
                ctx.step(2)
                ctx.trace(label.split()[0])
