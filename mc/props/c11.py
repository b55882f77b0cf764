"""C11: encrypted manifests decrypt only untampered and with the right parameters"""
import itertools

from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM

from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tree.DecryptorCache import DecryptorCache

from .. import catalog, forge, keys, lib, sec, wire
from ..engine import raises
from ..sec import Setting

PID = 'C11'
TECHNIQUE = 'model checking: exhaustive enumeration of settings, nodes and single-bit and structural tamperings of each manifest, real code; independent decryption as oracle'
BOUND = {
    'quick': 'associated data and plaintexts of every length to 1099 and around powers of 2 to 2^16 in 4 modes, equal to the reference cipher, changed and cut ones refused; every byte of security contexts with KDF info of 100-5000 bytes and with wrapped keys (RSA 2048-4096) changed; nodes of 1..64 and of 127..1800 pointers (65 kB) in 8 settings, one of them with every byte changed; 4 modes x 4 salts x 10 KDF settings x 3 key numbers, 5 nodes: round trip by 4 paths and independently; for 24 of these settings every single bit of the whole manifest, every truncation and boundary shift of ciphertext and tag, other values in one or two fields of the security context, mixtures of the parts of two manifests; every reader that differs in one parameter (every bit of the key, 40 salts, 8 key numbers, the 3 other modes)',
    'thorough': 'as quick, tampering for all settings and 3 nodes, all pairs of flipped bits of a small manifest',
}
ASSUMPTIONS = ['AES-GCM and AES-CCM of the cryptography package are sound: a forgery by chance (2^-128) does not occur']

MODES = [('GCM', 128), ('GCM', 256), ('CCM', 128), ('CCM', 256)]
SALTS = [None, 0, 0x01020304, 0xFFFFFFFF]
KDFS = [(None, None, None)] + [(a, i, s) for a in (1, 2, 3) for i, s in ((None, None), (b'info', None), (b'', 0x0A0B0C0D))]
KEYNUMS = [0, 255, 1 << 40]


def settings():
    for (m, b), s, (k, i, ks), n in itertools.product(MODES, SALTS, KDFS, KEYNUMS):
        yield Setting(m, b, s, n, k, i, ks)


def few_settings():
    for i, ((m, b), s, (k, inf, ks)) in enumerate(itertools.product(MODES, (None, 0x01020304), (KDFS[0], KDFS[2], KDFS[9]))):
        yield Setting(m, b, s, (1234, 0, 1 << 40)[i % 3], k, inf, ks)


def units(tier):
    u = [dict(kind='roundtrip', mode=i, salt=j) for i in range(4) for j in range(4)]
    which = list(settings())[::3] if tier == 'thorough' else list(few_settings())
    for i in range(len(which)):
        for node in ((0, 1, 4) if tier == 'thorough' else (0,)):
            u.append(dict(kind='tamper', setting=i, node=node))
        u.append(dict(kind='readers', setting=i))
    u += [dict(kind='large', mode=i, salt=x, part=p, parts=4 if tier == 'thorough' else 2, pointers=1800 if tier == 'thorough' else 257) for i in range(4) for x in (None, 7) for p in range(4 if tier == 'thorough' else 2)]
    u += [dict(kind='associated', mode=i) for i in range(4)]
    u += [dict(kind='context', mode=i, how=h) for i in range(4) for h in ('info', 'wrapped')]
    if tier == 'thorough':
        u += [dict(kind='pairs', setting=i, part=p) for i in range(0, len(few()), 5) for p in range(8)]
    return u


def few():
    return list(few_settings())


def run(unit, ctx):
    globals()[unit['kind']](unit, ctx)


def get(unit, ctx):
    return (list(settings())[::3] if ctx.tier == 'thorough' else few())[unit['setting']]


def encrypt(s, node):
    """Manifest wire bytes"""
    return Manifest_bytes(AeadEncryptor(sec.params(s)).encrypt(node))


def Manifest_bytes(parts):
    c, n, t = parts
    return Manifest(security_ctx=c, node=n, auth_tag=t).serialize().tobytes()


def ways(s):
    """Every way to decrypt a manifest with these parameters: name -> manifest -> Node"""
    p = sec.params(s)
    ks = InsecureKeystore().add_aes_key(p)
    yield 'AeadDecryptor.decrypt_manifest', lambda m: AeadDecryptor(p).decrypt_manifest(m).node()
    yield 'AeadDecryptor.decrypt_node', lambda m: AeadDecryptor(p).decrypt_node(m.security_ctx(), m.node(), m.auth_tag())
    yield 'AeadImpl.decrypt_manifest', lambda m: AeadImpl(p).decrypt_manifest(m).node()
    yield 'DecryptorCache', lambda m: DecryptorCache(ks).get_or_create(m.security_ctx()).decrypt_manifest(m).node()


def roundtrip(unit, ctx):
    for s in settings():
        if (s.mode, s.bits) != MODES[unit['mode']] or s.salt != SALTS[unit['salt']]:
            continue
        for i in range(len(sec.NODES)):
            case = dict(setting=sec.text(s), node=i)
            ctx.case = case
            with ctx.guard(case):
                node = sec.build_node(i)
                value = sec.node_value(i)
                made = [('AeadEncryptor', encrypt(s, node)), ('create_encrypted_manifest', AeadImpl(sec.params(s)).create_encrypted_manifest(node).serialize().tobytes())]
                if s.keynum == 0:
                    enc = AeadEncryptor(sec.params(s))
                    made += [('one encryptor, use %d' % k, Manifest_bytes(enc.encrypt(sec.build_node(i)))) for k in range(3)]
                for how, w in made:
                    m = wire.manifest(w)
                    msg = sec.check_fields(s, m.sec)
                    ctx.check(msg is None and len(m.tag) == 16, case, '%s: %s' % (how, msg))
                    plain = wire.decrypt(m, sec.key_bytes(s), s.salt, s.kdf_salt)
                    ctx.check(plain == value, case, '%s: decrypted independently to %s' % (how, plain.hex()[:200]))
                    ctx.check(not clear(w, value), case, '%s: the node appears in clear' % how)
                    for name, fn in ways(s):
                        for label, x in (('parsed', sec.parse_manifest(w)),):
                            got = fn(x)
                            ctx.check(got == node and got.serialize() == node.serialize(), case, '%s by %s gives %r' % (how, name, got))
                            ctx.check(x.serialize().tobytes() == w, case, 'decrypting changed the encrypted manifest')
                            ctx.step()
                    ctx.trace('roundtrip')
                ctx.check(node.serialize().tobytes()[4:] == value, case, 'encrypting changed the node')
                # a manifest that was not sent over the wire
                direct = AeadImpl(sec.params(s)).create_encrypted_manifest(node)
                ctx.check(AeadDecryptor(sec.params(s)).decrypt_manifest(direct).node() == node, case, 'not decrypted without the wire')
            ctx.state((s, i))
    # a node enciphered by someone else
    for s in few():
        if (s.mode, s.bits) != MODES[unit['mode']]:
            continue
        for i in range(len(sec.NODES)):
            nonce = catalog.octets(12 if s.salt is None else 8, b'n%d' % i)
            w = foreign(s, i, nonce)
            case = dict(setting=sec.text(s), node=i, encrypted='independently')
            with ctx.guard(case):
                for name, fn in ways(s):
                    ctx.check(fn(sec.parse_manifest(w)).serialize().tobytes()[4:] == sec.node_value(i), case, 'wrong by ' + name)
            ctx.trace('foreign')
    ctx.sample(settings=unit)


def foreign(s, i, nonce):
    spec = catalog.aead_spec(s.keynum, nonce, sec.MODE_NUMBER[s.mode, s.bits], None if s.kdf is None else (s.kdf, s.info))
    ctx_tlv = wire.tlv(0, wire.tlv(0, catalog.enc(spec)))
    sc = wire.sec_of(ctx_tlv[4:])
    key = wire.content_key(sc, sec.key_bytes(s), s.kdf_salt)
    iv = (b'' if s.salt is None else s.salt.to_bytes(4, 'big')) + nonce
    ct = wire.aead(sc.mode, key).encrypt(iv, sec.node_value(i), ctx_tlv)
    return ctx_tlv + wire.tlv(2, ct[:-16]) + wire.tlv(3, ct[-16:])


def clear(w, value, n=12):
    if len(value) < n:
        return False
    windows = {value[k:k + n] for k in range(len(value) - n + 1)}
    windows = {x for x in windows if len(set(x)) > 4}
    return any(w[k:k + n] in windows for k in range(len(w) - n + 1))


def refused(ctx, case, s, w, fns):
    """Reading w fails"""
    exc, m = raises(sec.parse_manifest, w)
    if exc is None and not m.is_encrypted():
        # a manifest with a clear node has nothing to decrypt: it does not return a node of an encrypted manifest
        ctx.trace('not encrypted')
        return
    if exc is None:
        for name, fn in fns:
            exc, res = raises(fn, m)
            if exc is None:
                ctx.fail(case, 'decrypted by %s to %r' % (name, res))
    ctx.step()
    ctx.trace('refused')


def tamper(unit, ctx):
    s = get(unit, ctx)
    w = foreign(s, unit['node'], catalog.octets(12 if s.salt is None else 8, b'tamper'))
    for source in ('foreign', 'own'):
        if source == 'own':
            w = encrypt(s, sec.build_node(unit['node']))
        fns = list(ways(s))[:1]
        both = [list(ways(s))[0], list(ways(s))[3]]
        case = dict(setting=sec.text(s), manifest=w.hex() if source == 'foreign' else 'encrypted by the code')
        for k in range(len(w) * 8):
            b = bytearray(w)
            b[k // 8] ^= 0x80 >> (k % 8)
            refused(ctx, dict(case, bit=k), s, bytes(b), both)
        items = wire.tlvs(w)
        parts = dict(items)
        c, ct, tag = wire.tlv(0, parts[0]), parts[2], parts[3]
        variants = []
        for k in range(len(ct)):
            variants.append(('ciphertext cut to %d' % k, c + wire.tlv(2, ct[:k]) + wire.tlv(3, tag)))
            variants.append(('ciphertext starts at %d' % (k + 1), c + wire.tlv(2, ct[k + 1:]) + wire.tlv(3, tag)))
        for k in range(16):
            variants.append(('tag cut to %d' % k, c + wire.tlv(2, ct) + wire.tlv(3, tag[:k])))
            variants.append(('tag starts at %d' % (k + 1), c + wire.tlv(2, ct) + wire.tlv(3, tag[k + 1:])))
        for k in range(1, 20):
            variants.append(('%d bytes moved from ciphertext to tag' % k, c + wire.tlv(2, ct[:-k]) + wire.tlv(3, ct[-k:] + tag)))
            variants.append(('%d bytes moved from tag to ciphertext' % k, c + wire.tlv(2, ct + tag[:k]) + wire.tlv(3, tag[k:])))
            variants.append(('%d bytes appended to the ciphertext' % k, c + wire.tlv(2, ct + bytes(k)) + wire.tlv(3, tag)))
            variants.append(('%d bytes appended to the tag' % k, c + wire.tlv(2, ct) + wire.tlv(3, tag + bytes(k))))
        variants.append(('no tag', c + wire.tlv(2, ct)))
        variants.append(('no security context', wire.tlv(2, ct) + wire.tlv(3, tag)))
        variants.append(('tag and ciphertext swapped', c + wire.tlv(2, tag) + wire.tlv(3, ct)))
        for other in (1, 5):
            o = foreign(s, unit['node'], catalog.octets(12 if s.salt is None else 8, b'other %d' % other))
            op = dict(wire.tlvs(o))
            for a, b2, d in itertools.product((0, 1), repeat=3):
                if (a, b2, d) in ((0, 0, 0), (1, 1, 1)):
                    continue
                variants.append(('parts of two manifests %d%d%d' % (a, b2, d),
                                 wire.tlv(0, (parts, op)[a][0]) + wire.tlv(2, (parts, op)[b2][2]) + wire.tlv(3, (parts, op)[d][3])))
        # other values of the fields of the security context, lengths adjusted
        sc = wire.sec_of(parts[0])
        mode = sc.mode
        kdf = None if s.kdf is None else (s.kdf, s.info)
        fields = set()
        for kn in (s.keynum, s.keynum + 1, s.keynum ^ 1, 255, 256, 0, 1, 65536):
            for nonce in (sc.nonce, sc.nonce[:-1], sc.nonce + b'\0', b'\0' + sc.nonce, sc.nonce[1:], bytes(len(sc.nonce)), b'', sc.nonce[::-1]):
                for md in (mode, 1, 2, 3, 4):
                    for kd in (kdf, None, (1, None), (2, None), (3, None), (1, b''), (2, b'info'), (3, b''), (s.kdf or 1, (s.info or b'') + b'\0')):
                        if sum(x != y for x, y in ((kn, s.keynum), (nonce, sc.nonce), (md, mode), (kd, kdf))) in (1, 2):
                            fields.add((kn, nonce, md, kd))
        for kn, nonce, md, kd in sorted(fields, key=repr):
            x = wire.tlv(0, wire.tlv(0, catalog.enc(catalog.aead_spec(kn, nonce, md, kd))))
            variants.append(('context %r' % ((kn, nonce.hex(), md, kd),), x + wire.tlv(2, ct) + wire.tlv(3, tag)))
        for label, b in variants:
            if b == w:
                continue
            refused(ctx, dict(case, tampering=label), s, b, fns)
            ctx.state((s, label))
    ctx.state(s)
    ctx.sample(setting=sec.text(s), manifest_bytes=len(w))


LARGE = list(range(1, 65)) + [127, 128, 129, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 1025, 1500, 1800]


def large(unit, ctx):
    """Nodes of every number of pointers, to the longest a packet can hold"""
    s = Setting(*MODES[unit['mode']], salt=unit['salt'])
    for n in LARGE:
        spec = (None, [(None, n)], None)
        node = catalog.build_node(*spec)
        value = catalog.enc(catalog.node_spec(*spec).v)
        case = dict(setting=sec.text(s), pointers=n)
        with ctx.guard(case):
            w = encrypt(s, node)
            plain = wire.decrypt(wire.manifest(w), sec.key_bytes(s), s.salt, s.kdf_salt)
            ctx.check(plain == value, case, 'decrypted independently to something else')
            ctx.check(not clear(w, value), case, 'the node appears in clear')
            fns = list(ways(s))[::3]
            for name, fn in fns:
                got = fn(sec.parse_manifest(w))
                ctx.check(got.serialize().tobytes()[4:] == value, case, 'wrong by %s' % name)
                ctx.step()
            ctx.trace('large')
        ctx.state((s, n))
        if n == unit['pointers']:
            for k in range(unit['part'], len(w), unit['parts']):
                b = bytearray(w)
                b[k] ^= 1 << k % 8
                refused(ctx, dict(case, byte=k), s, bytes(b), fns[:1])


def associated(unit, ctx):
    """The cipher itself: associated data and plaintext of every length"""
    mode, bits = MODES[unit['mode']]
    keyb = catalog.octets(bits // 8, b'associated')
    key = (AeadGcm if mode == 'GCM' else AeadCcm)(keyb)
    ref = (AESGCM if mode == 'GCM' else AESCCM)(keyb)
    iv = catalog.octets(12, b'iv')
    long = lib.data(70000, 3)
    lengths = [(a, 40) for a in range(1100)] + [(44, a) for a in range(1, 1100)] + [(m + d, 40) for m in (2048, 4096, 8192, 16384, 32768, 65280, 65536) for d in (-1, 0, 1)]
    lengths += [(44, m + d) for m in (2048, 4096, 8192, 16384, 32768, 65280) for d in (-1, 0, 1)]
    for na, np in lengths:
        ad, pt = long[:na], long[100:100 + np]
        case = dict(unit, associated=na, plaintext=np)
        with ctx.guard(case):
            ct, tag = key.encrypt(iv, pt, ad)
            ct, tag = bytes(ct), bytes(tag)
            ctx.check(ct + tag == ref.encrypt(iv, pt, ad), case, 'not the ciphertext and tag of AES-%s' % mode)
            ctx.check(bytes(key.decrypt(iv, ct, ad, tag)) == pt, case, 'not decrypted')
            bad = [('cut', ad[:-1]), ('extended', ad + b'\0'), ('last byte', ad[:-1] + bytes([ad[-1] ^ 1]) if ad else b'\1'), ('first byte', bytes([ad[0] ^ 1]) + ad[1:] if ad else b'\2'),
                   ('middle', ad[:na // 2] + bytes([ad[na // 2] ^ 1]) + ad[na // 2 + 1:] if ad else b'\3')]
            if na in (520, 4096):
                bad += [('byte %d' % k, ad[:k] + bytes([ad[k] ^ 0x40]) + ad[k + 1:]) for k in range(na)]
            for label, x in bad:
                if x != ad:
                    exc, res = raises(key.decrypt, iv, ct, x, tag)
                    ctx.check(exc is not None, dict(case, changed=label), 'decrypted with other associated data')
                    ctx.trace('refused')
            bad = [('last', np - 1), ('first', 0), ('middle', np // 2)]
            if np in (520, 4096):
                bad += [('byte', k) for k in range(np)]
            for label, k in bad:
                exc, res = raises(key.decrypt, iv, ct[:k] + bytes([ct[k] ^ 2]) + ct[k + 1:], ad, tag)
                ctx.check(exc is not None, dict(case, ciphertext_byte=k), 'decrypted with a changed ciphertext')
                ctx.trace('refused')
            ctx.step()
        ctx.state((unit['mode'], na, np))


def context(unit, ctx):
    """Long security contexts: every byte of them is authenticated"""
    mode, bits = MODES[unit['mode']]
    if unit['how'] == 'info':
        for n in (100, 127, 128, 129, 300, 1000, 5000):
            s = Setting(mode, bits, (None, 7)[n % 2], 1234, 1, lib.data(n, n))
            tamper_context(ctx, dict(unit, info=n), s, encrypt(s, sec.build_node(1)), list(ways(s))[:1])
        return
    for rsa in ('RSAA', 'RSAC', 'RSAD'):
        for info in (None, lib.data(200, 1)):
            for salt in (None, 7):
                s = Setting(mode, bits, salt, 1234, None if info is None else 2, info)
                w = forge.encrypted_manifest(sec.node_value(1), s, catalog.octets(12 if salt is None else 8, b'context'), getattr(keys, rsa), wrapper=True)
                # read with the content key, held by its number: nothing but the authentication covers the wrapper
                p = sec.params(s)
                ks = InsecureKeystore().add_aes_key(p)
                fns = [('DecryptorCache', lambda m: DecryptorCache(ks).get_or_create(m.security_ctx()).decrypt_manifest(m).node())]
                tamper_context(ctx, dict(unit, rsa=rsa, info=info is not None, salt=salt), s, w, fns)


def tamper_context(ctx, case, s, w, fns):
    for name, fn in fns:
        with ctx.guard(dict(case, by=name)):
            got = fn(sec.parse_manifest(w))
            ctx.check(got.serialize().tobytes()[4:] == sec.node_value(1), dict(case, by=name), 'the intact manifest is decrypted to something else')
    end = 4 + int.from_bytes(w[2:4], 'big')
    for k in range(end):
        b = bytearray(w)
        b[k] ^= 1 << k % 8
        refused(ctx, dict(case, byte=k), s, bytes(b), fns)
    ctx.state((s, end))
    ctx.sample(case=case, context_bytes=end)


def other_readers(s):
    key = sec.key_bytes(s)
    for k in range(len(key) * 8):
        b = bytearray(key)
        b[k // 8] ^= 0x80 >> (k % 8)
        yield 'key bit %d' % k, sec.params(s, bytes(b))
    for m, b in MODES:
        if (m, b) != (s.mode, s.bits):
            yield 'mode %s %d' % (m, b), sec.params(s._replace(mode=m, bits=b))
            yield 'mode %s %d, this key' % (m, b), sec.params(s._replace(mode=m, bits=b), (key + key)[:b // 8])
    salts = {None, 0, 1, 0xFFFFFFFF, 0x04030201, 0x01020305} | {(s.salt or 0) ^ (1 << i) for i in range(32)}
    for x in sorted(salts - {s.salt}, key=repr):
        yield 'salt %r' % x, sec.params(s._replace(salt=x))
    for n in sorted({s.keynum + 1, s.keynum ^ 256, 0, 1, 255, 256, 65535, (1 << 64) - 1} - {s.keynum}):
        yield 'key number %d' % n, sec.params(s._replace(keynum=n))
    if s.kdf is not None:
        # (a KDF salt of zero is the same as none: HMAC pads its key with zeros)
        for x in sorted({0, 1, 0xFFFFFFFF, 0x0A0B0C0C, 0x0D0C0B0A} - {s.kdf_salt or 0}):
            yield 'KDF salt %d' % x, sec.params(s._replace(kdf_salt=x))


def readers(unit, ctx):
    s = get(unit, ctx)
    node = sec.build_node(1)
    for source, w in (('own', encrypt(s, node)), ('foreign', foreign(s, 1, catalog.octets(12 if s.salt is None else 8)))):
        for label, p in other_readers(s):
            case = dict(setting=sec.text(s), reader=label, encrypted=source)
            for name, fn in (('AeadDecryptor', lambda m: AeadDecryptor(p).decrypt_manifest(m)),
                             ('decrypt_node', lambda m: AeadDecryptor(p).decrypt_node(m.security_ctx(), m.node(), m.auth_tag())),
                             ('keystore', lambda m: DecryptorCache(InsecureKeystore().add_aes_key(p)).get_or_create(m.security_ctx()).decrypt_manifest(m))):
                exc, res = raises(fn, sec.parse_manifest(w))
                if exc is None:
                    ctx.fail(case, 'decrypted by %s to %r' % (name, res))
                ctx.step()
                ctx.trace('refused')
            ctx.state((s, label))


def pairs(unit, ctx):
    s = few()[unit['setting']]
    w = foreign(s, 0, catalog.octets(12 if s.salt is None else 8, b'tamper'))
    fns = list(ways(s))[:1]
    for a in range(unit['part'], len(w) * 8, 8):
        for b in range(a + 1, len(w) * 8):
            x = bytearray(w)
            x[a // 8] ^= 0x80 >> (a % 8)
            x[b // 8] ^= 0x80 >> (b % 8)
            refused(ctx, dict(setting=sec.text(s), manifest=w.hex(), bits=[a, b]), s, bytes(x), fns)
        ctx.state((s, a))
