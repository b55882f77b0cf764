"""C29: the packet viewer shows a packet for what it is"""
import contextlib
import io
import itertools
import logging
import os
import re
import shutil
import sys
import tempfile

import ccnpy.apps.packet_reader

from .. import forge, keys, lib, space, wire

PID = 'C29'
TECHNIQUE = 'model checking: exhaustive enumeration of packets, of the keys given to the viewer program and of single bit flips; what the real program prints compared with what an independent reference finds in the packet'
BOUND = {
    'quick': 'every packet of publications over 3 schemas x 10 encryptions x 3 root signers x 2 sizes, shown plainly and prettily, with 12 choices of keys (none, right, wrong, other number, other salt, verification key, another one, private, public and other wrapping key, everything); manifests of 15-600 pointers; every bit of a signed plain and an encrypted root flipped; content objects of all 256 payload types and without one, with and without each element; every proper prefix of a packet; plain nodes with a security context or an authentication tag',
    'thorough': 'as quick with 12 schema variants, 3 sizes, and every bit of every packet of four publications flipped',
}
ASSUMPTIONS = ['the keys are given as files and command-line arguments']


def units(tier):
    d = tier == 'thorough'
    u = [dict(kind='show', schema=s, enc=e, sign=sg, nbs=[1, 5] + ([30] if d else []))
         for s in (space.SCHEMAS if d else ('H3', 'P2', 'S1')) for e in lib.ENCS for sg in ('', 'c', 'r')]
    u += [dict(kind='wide', schema=s, enc=e) for s in ('H3', 'P2', 'S1') for e in ('', 'g', 'w')]
    u += [dict(kind='kinds', part=i, parts=8) for i in range(8)]
    parts = 16 if d else 4
    u += [dict(kind='open', enc=e) for e in ('g', 'C', 'k', 'w', 'W')]
    u += [dict(kind='flip', enc=e, sign=sg, all=d, part=i, parts=parts) for e, sg in (('', 'c'), ('', 'r'), ('g', 'c'), ('w', '')) for i in range(parts)]
    return u


def run(unit, ctx):
    d = tempfile.mkdtemp(prefix='c29-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    try:
        from . import c22
        c22.write_keys(d)
        c22.preload()
        logging.disable(logging.CRITICAL)
        dict(globals(), open=open_nodes)[unit['kind']](unit, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


SUCCESS = 'Packet validation success'
UNCHECKED = 'Signature not validated'


def view(d, argv, pretty=False):
    """Runs the program; returns the exception that it ended with and what it printed"""
    old = sys.argv
    b = io.StringIO()
    sys.argv = ['packet_reader', '-i', d] + (['--pretty'] if pretty else []) + argv + ['f']
    exc = None
    try:
        with contextlib.redirect_stdout(b), contextlib.redirect_stderr(io.StringIO()):
            ccnpy.apps.packet_reader.run()
    except SystemExit as e:
        exc = None if not e.code else e
    except Exception as e:
        exc = e
    finally:
        sys.argv = old
    return exc, b.getvalue()


def key_choices(enc, d):
    """name -> (arguments, opens AEAD manifests, unwraps, numbered key for wrapped manifests, holds the verification key)"""
    e = lib.ENCS[enc]
    f = lambda n: os.path.join(d, n)        # noqa: E731
    out = {
        'none': ([], ''),
        'verify': (['-k', f('sign.pub')], 'v'),
        'verify other': (['-k', f('other.pub')], ''),
        'private': (['-k', f('sign.pem')], 'v'),
        'wrap': (['--wrap-key', f('wrap.pem')], 'u'),
        'wrap public': (['--wrap-key', f('wrap.pub')], ''),
        'wrap other': (['--wrap-key', f('wrap4096.pem')], ''),
    }
    bits = e['bits'] if e else 128
    mode = e['mode'] if e else 'GCM'
    key = lib.enc_key(e) if e else bytes(16)
    salt = e.get('salt') if e else None
    kdf_salt = e.get('kdf_salt') if e else None

    def aead(key=key, num=lib.KEYNUM, salt=salt):
        a = ['--enc-key', key.hex(), '--aes-mode', mode, '--key-num', str(num)]
        a += [] if salt is None else ['--salt', str(salt)]
        return a + ([] if kdf_salt is None else ['--kdf-salt', str(kdf_salt)])
    out['key'] = (aead(), 'k')
    out['wrong key'] = (aead(key=bytes(bits // 8)), '!')
    out['other number'] = (aead(num=lib.KEYNUM + 1), '')
    out['other salt'] = (aead(salt=12345), '!')
    out['all'] = (aead() + ['--wrap-key', f('wrap.pem'), '-k', f('sign.pub')], 'kuv')
    return out


def visible(enc, sec, can):
    """Can a viewer with these keys decrypt a manifest with this security context"""
    e = lib.ENCS[enc]
    if 'wrap' not in e:
        return 'k' in can
    if 'k' in can and not e.get('new'):
        return True
    if '!' in can and not e.get('new'):
        return False
    return 'u' in can and sec.wrapped is not None


def hexes(hashes):
    return ['0x' + h.hex() for h in hashes]


def pointers(w, opener):
    p = wire.packet(w)
    if p.ptype != wire.MANIFEST:
        return None, None
    m = wire.manifest(p.payload)
    node = m.node if m.node is not None else wire.node_of(opener(m))
    return m, [h for g in node.groups for h in g.ptrs]


def show(unit, ctx, d):
    enc = unit['enc']
    cfg = dict(schema=unit['schema'], enc=enc, opts='', sign=unit['sign'], deg=2)
    cfg['mps'] = space.workable(cfg) + 40
    for nb in unit['nbs']:
        pub = lib.publish(cfg, lib.data((nb - 1) * lib.payload_size(cfg) + 1))
        opener = lib.Opener(enc)
        for i in reversed(range(len(pub.wires))):
            # the opener starts at the root
            ptrs = pointers(pub.wires[i], opener)
            if nb > 5 and i not in (0, nb - 1, nb, nb + 1, len(pub.wires) - 2, len(pub.wires) - 1):
                continue
            show_packet(ctx, dict(cfg, chunks=nb), d, i, pub.wires[i], ptrs, key_choices(enc, d))


def wide(unit, ctx, d):
    """Manifests with many pointers"""
    enc = unit['enc']
    base = dict(schema=unit['schema'], enc='', opts='', sign='', deg=None)
    chunk_mps = space.workable(base) // 2
    p = space.payload_size(base, chunk_mps)
    choices = {k: v for k, v in key_choices(enc, d).items() if k in ('none', 'key', 'all')}
    for nb in (15, 16, 17, 20, 33, 65, 101, 129, 257, 600):
        cfg = dict(base, enc=enc, mps=nb * 36 + 1200)
        pub = lib.publish(cfg, lib.data((nb - 1) * p + 1), chunk_mps=chunk_mps)
        opener = lib.Opener(enc)
        for i in reversed(range(len(pub.wires))):
            m, ptrs = pointers(pub.wires[i], opener)
            if m is not None:
                show_packet(ctx, dict(cfg, chunks=nb), d, i, pub.wires[i], (m, ptrs), choices)


def show_packet(ctx, info, d, i, w, found, choices):
    enc, sign = info['enc'], info['sign']
    m, ptrs = found
    with open(os.path.join(d, 'f'), 'wb') as f:
        f.write(w)
    p = wire.packet(w)
    for (name, (argv, can)), pretty in itertools.product(choices.items(), (False, True)):
        case = dict(info, packet=i, keys=name, pretty=pretty)
        ctx.case = case
        ctx.step()
        exc, text = view(d, argv, pretty)
        ctx.check(exc is None, case, 'showing an intact packet ended with %s: %s' % (type(exc).__name__, exc))
        signed = p.sig is not None
        held = signed and (sign == 'c' or 'v' in can)
        ctx.check((SUCCESS in text) == held, case, 'validation %s although the packet is %s' % (
            'is claimed' if SUCCESS in text else 'is not reported', 'valid' if held else 'unsigned or its key unknown'))
        ctx.check((UNCHECKED in text) == (signed and not held), case, 'an unvalidated signature is %sreported' % ('' if UNCHECKED in text else 'not '))
        flat = ''.join(text.split())
        if m is None:
            state = 'data'
        else:
            see = m.sec is None or visible(enc, m.sec, can)
            shown = [h in flat for h in hexes(ptrs)]
            if see:
                ctx.check(all(shown), case, '%d of %d pointers are shown' % (sum(shown), len(shown)))
            else:
                ctx.check(not any(shown), case, 'pointers of a manifest are shown without its key')
                ctx.check('ecrypt' in text, case, 'nothing is said of the failed decryption')
            state = 'manifest shown' if see else 'manifest closed'
        ctx.state((enc, sign, state, name, pretty, signed, len(ptrs or ())))
        ctx.trace('%s, %s' % (state, 'validated' if SUCCESS in text else 'unchecked' if UNCHECKED in text else 'unsigned'))
        ctx.sample(case=case, said=[l[:80] for l in text.split('\n') if 'alidat' in l or 'ecrypt' in l][:4])


def open_nodes(unit, ctx, d):
    """Manifests whose node is not encrypted, although they carry a security context or an authentication tag"""
    enc = unit['enc']
    cfg = dict(schema='H3', enc=enc, opts='', sign='', deg=2)
    cfg['mps'] = space.workable(cfg) + 40
    pub = lib.publish(cfg, lib.data(3 * lib.payload_size(cfg)))
    ptrs = [b'%d' % i * 32 for i in range(3)]
    value = forge.node([forge.group(ptrs)])
    for w in pub.wires:
        p = wire.packet(w)
        if p.ptype != wire.MANIFEST or wire.manifest(p.payload).sec is None:
            continue
        m = wire.manifest(p.payload)
        for parts in itertools.product((b'', m.sec.raw), (wire.tlv(1, value),), (b'', wire.tlv(3, m.tag))):
            x = forge.packet(forge.co(b''.join(parts), ptype=3, name=((1, b'a'),)))
            with open(os.path.join(d, 'f'), 'wb') as f:
                f.write(x)
            for (name, (argv, _)), pretty in itertools.product(key_choices(enc, d).items(), (False, True)):
                case = dict(enc=enc, elements=[len(y) for y in parts], keys=name, pretty=pretty)
                ctx.case = case
                ctx.step()
                exc, text = view(d, argv, pretty)
                ctx.check(exc is None, case, 'ended with %s: %s' % (type(exc).__name__, exc))
                flat = ''.join(text.split())
                ctx.check(all(h in flat for h in hexes(ptrs)), case, 'the pointers are not shown')
                ctx.trace('shown')
                ctx.state((len(parts[0]), len(parts[2]), name, pretty))


KINDS = {0: 'DATA', 1: 'KEY', 2: 'LINK', 3: 'MANIFEST'}


def payloads(kind):
    if kind == 2:
        yield from (None, wire.name_tlv(((1, b'ab'),)), wire.name_tlv(((1, b'ab'), (1, b'c'))) + wire.tlv(3, wire.tlv(1, b'd' * 32)))
    elif kind == 3:
        yield wire.tlv(1, forge.node([forge.group([b'p' * 32])]))
    else:
        yield from (None, b'', b'a', bytes(300), bytes(range(256)), wire.name_tlv(((1, b'ab'),)))


def kinds(unit, ctx, d):
    """Content objects of every payload type, with and without each of their elements"""
    shapes = list(itertools.product((None, ((1, b'a'),), ((1, b'a'), (1, b'bc'), (0x10, b'\1'))), (None, 0, 1 << 40), (None, 0, 300), (None, 'crc', ('rsa', keys.RSAB, keys.RSAB))))
    for kind in [None] + list(range(256)):
        if (kind or 0) % unit['parts'] != unit['part']:
            continue
        for payload in payloads(kind):
            for name, expiry, fcid, sign in shapes:
                if kind is not None and kind > 5 and ((expiry is None) != (fcid is None) or (name is not None and len(name) == 2) or (sign is not None and sign[0] == 'rsa')):
                    continue
                body = b'' if name is None else wire.name_tlv(name)
                body += b'' if expiry is None else wire.tlv(6, expiry.to_bytes(8, 'big'))
                body += b'' if kind is None else wire.tlv(5, bytes([kind]))
                body += b'' if payload is None else wire.tlv(1, payload)
                body += b'' if fcid is None else wire.tlv(7, wire.varint(fcid))
                case = dict(type=kind, payload=payload, name=name, expiry=expiry, final=fcid, sign=sign and sign[0])
                ctx.case = case
                with open(os.path.join(d, 'f'), 'wb') as f:
                    f.write(forge.packet(wire.tlv(2, body), sign))
                for pretty in (False, True):
                    ctx.step()
                    exc, text = view(d, ['-k', os.path.join(d, 'sign.pub')], pretty)
                    ctx.check(exc is None, dict(case, pretty=pretty), 'showing an intact packet ended with %s: %s' % (type(exc).__name__, exc))
                    said = [w for w in KINDS.values() if re.search(r'\b%s\b' % w, text)]
                    ctx.check(said == ([KINDS[kind]] if kind in KINDS else []), dict(case, pretty=pretty), lambda: 'type %r is said to be %s' % (kind, said))
                    ctx.check((SUCCESS in text) == (sign is not None), dict(case, pretty=pretty), 'validation is %sreported' % ('' if SUCCESS in text else 'not '))
                ctx.state((kind, payload, name, expiry, fcid, sign and sign[0]))
                ctx.trace('%s %s' % (KINDS.get(kind, 'other'), sign and sign[0]))


def flip(unit, ctx, d):
    enc = unit['enc']
    cfg = dict(schema='P2', enc=enc, opts='', sign=unit['sign'], deg=2)
    cfg['mps'] = space.workable(cfg) + 40
    pub = lib.publish(cfg, lib.data(2 * lib.payload_size(cfg)))
    opener = lib.Opener(enc)
    argv, _ = key_choices(enc, d)['all']
    wires = list(reversed(pub.wires)) if unit['all'] else [pub.wires[-1]]
    n = 0
    for k, w in enumerate(wires):
        m, ptrs = pointers(w, opener)
        p = wire.packet(w)
        damaged = [(i, b) for i in range(len(w)) for b in range(8)] + [(i, None) for i in range(len(w))]
        for i, bit in damaged:
            n += 1
            if n % unit['parts'] != unit['part']:
                continue
            if bit is None:
                bad = w[:i]
            else:
                bad = w[:i] + bytes([w[i] ^ 1 << bit]) + w[i + 1:]
            with open(os.path.join(d, 'f'), 'wb') as f:
                f.write(bad)
            case = dict(cfg, packet=k, byte=i, bit=bit)
            ctx.case = case
            ctx.step()
            exc, text = view(d, argv)
            header = bit is not None and i < 8
            if not header:
                ctx.check(SUCCESS not in text, case, 'validation of a damaged packet is claimed')
            if m is not None and m.sec is not None and not header:
                flat = ''.join(text.split())
                ctx.check(not any(h in flat for h in hexes(ptrs)) or not tampered(w, m, i, bit), case, 'a tampered manifest is decrypted')
            if p.sig is not None and not header and bit is not None:
                # (a damaged key id names an unknown key, which the viewer has to report)
                ctx.check(exc is not None or UNCHECKED in text, case, 'a damaged signed packet is accepted: %r' % text[-200:])
            ctx.state((k, i, bit))
            ctx.trace('%s, %s' % ('header' if header else 'cut' if bit is None else 'body', type(exc).__name__ if exc else 'shown'))


def tampered(w, m, i, bit):
    """Is the damaged byte within the security context or the ciphertext"""
    if bit is None:
        return True
    start = w.index(m.sec.raw)
    end = w.index(m.tag) + len(m.tag)
    return start <= i < end
