"""C08: elements parse back to what was encoded, malformed input is refused"""
from array import array

from .. import catalog, lib, wire
from ..engine import raises

PID = 'C08'
TECHNIQUE = 'model checking: exhaustive enumeration of element values and of their malformed encodings, real parser against an independent encoder'
BOUND = {
    'quick': 'every value of a catalogue of 36 element types (integers at all width boundaries, octet strings 0..65535, all option subsets of group and node data, every schema x locators x flags, padded nodes, security contexts, manifests); every truncation point, every over-long inner length, every duplicated single child at every nesting level; packet buffers with every length difference -20..20',
    'thorough': 'as quick with more values per field (all KDF variants in contexts, 6 values per group and node data field)',
}
ASSUMPTIONS = ['octet strings of one length behave alike']
PARTS = 16


def units(tier):
    return [dict(kind='values', part=i) for i in range(PARTS)] + [dict(kind='packets')]


def run(unit, ctx):
    if unit['kind'] == 'packets':
        return packets(ctx)
    for i, v in enumerate(catalog.catalogue(ctx.tier == 'thorough')):
        if i % PARTS == unit['part']:
            value(ctx, v)


def value(ctx, v):
    want = catalog.encoding(v)
    case = dict(element=v.kind, value=v.label, encoding=want.hex()[:400])
    ctx.case = case
    with ctx.guard(case):
        obj = v.build()
        got = obj.serialize().tobytes()
        ctx.check(got == want, case, 'encodes to %s' % got.hex()[:300])
        if v.kind != 'Pointers':
            ctx.check(len(obj) == len(want), case, 'len() is %d, the encoding has %d bytes' % (len(obj), len(want)))
        accessors(ctx, dict(case, object='built'), v, obj)
        parsed = v.parse(want)
        accessors(ctx, dict(case, object='parsed'), v, parsed)
        ctx.check(parsed == obj and obj == parsed and not (parsed != obj), case, 'the parsed value is not equal to the original')
        again = parsed.serialize().tobytes()
        ctx.check(again == want, case, 'the parsed value encodes to %s' % again.hex()[:300])
        ctx.step(4)
        # parsing did not change what it parsed from, and a second parse gives the same
        ctx.check(v.parse(want) == parsed, case, 'a second parse gives another value')
        repr(obj) if v.kind != 'Name' else None
    n = 0
    budget = len(want) <= 600
    for label, bad in catalog.malformed(v):
        if not budget and label.startswith('cut to') and int(label[7:]) % 97 and len(want) - int(label[7:]) > 40 and int(label[7:]) > 40:
            continue
        if len(bad) > 70000:
            continue
        ctx.step()
        exc, res = raises(v.parse, bad)
        if exc is None and bad != want:
            ctx.fail(dict(case, malformed=label, encoding=bad.hex()[:600]), 'accepted as %r' % (res,))
        n += 1
    ctx.state((v.kind, v.label, want))
    ctx.trace('%s refused %d' % (v.kind, min(n // 50, 5) * 50), 1 + n)
    ctx.sample(case=case, malformed=n)


def accessors(ctx, case, v, obj):
    for name, want in v.accessors.items():
        got = catalog.plain(getattr(obj, name)())
        ctx.check(got == want, case, lambda: '%s() is %r, not %r' % (name, got, want))


def packets(ctx):
    """A packet buffer shorter or longer than its header says"""
    base = []
    for name in (b'', wire.name_tlv(((1, b'a'),))):
        for pl in (b'', b'x', bytes(40)):
            co = wire.tlv(2, name + wire.tlv(5, b'\0') + wire.tlv(1, pl))
            for val in (b'', wire.tlv(3, wire.tlv(2, b'')) + wire.tlv(4, b'\1\2\3\4')):
                body = co + val
                base.append((8, body, val))
    for hlen, body, val in base:
        n = 8 + len(body)
        good = bytes([1, 1]) + n.to_bytes(2, 'big') + bytes([0, 0, 0, 8]) + body
        case0 = dict(packet=good.hex())
        with ctx.guard(case0):
            p = lib.parse(good)
            ctx.check(p.serialize().tobytes() == good, case0, 're-encodes differently')
        for said in sorted(set(range(max(0, n - 20), n + 21)) | {0, 7, 8, 65535}):
            for tail in (b'', b'\0', b'\0\0\0\0', body):
                w = good[:2] + said.to_bytes(2, 'big') + good[4:] + tail
                if said == len(w):
                    if not tail:
                        continue
                    # the stated length covers the appended bytes: the elements have to be refused then
                    if tail in (b'\0',) or tail == body or tail == b'\0\0\0\0':
                        pass
                case = dict(case0, says=said, has=len(w))
                ctx.step()
                exc, res = raises(lib.parse, w)
                ctx.check(exc is not None, case, 'a buffer of %d bytes whose header says %d was accepted' % (len(w), said))
                ctx.state((w,))
                ctx.trace('refused' if exc else 'accepted')
        for k in range(len(good)):
            exc, _ = raises(lib.parse, good[:k])
            ctx.check(exc is not None, dict(case0, cut=k), 'a truncated packet was accepted')
            # truncated with the header length corrected: only element boundaries may be accepted, none is a packet
            w = good[:2] + k.to_bytes(2, 'big') + good[4:k] if k >= 8 else good[:k]
            exc, _ = raises(lib.parse, w)
            whole = val and k == n - len(val)
            ctx.check(exc is not None or whole, dict(case0, cut=k, header='corrected'), 'a truncated packet was accepted')
            ctx.trace('refused', 2)
            ctx.step(2)
        # duplicated top-level elements
        items = wire.tlvs(body)
        for i, (t, v) in enumerate(items):
            b2 = body + wire.tlv(t, v)
            w = good[:2] + (8 + len(b2)).to_bytes(2, 'big') + good[4:8] + b2
            exc, _ = raises(lib.parse, w)
            ctx.check(exc is not None, dict(case0, duplicated=t), 'a second element of type %d was accepted' % t)
            ctx.trace('refused')
        # duplicated children of the content object
        kids = wire.tlvs(items[0][1])
        for i, (t, v) in enumerate(kids):
            co = wire.tlv(2, items[0][1] + wire.tlv(t, v))
            b2 = co + val
            w = good[:2] + (8 + len(b2)).to_bytes(2, 'big') + good[4:8] + b2
            exc, _ = raises(lib.parse, w)
            ctx.check(exc is not None, dict(case0, duplicated_child=t), 'a second child of type %d was accepted' % t)
            ctx.trace('refused')
