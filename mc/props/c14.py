"""C14: a wrapped content key reaches exactly the holder of the RSA private key"""
import itertools
from array import array

from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding

from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
from ccnpy.flic.aeadctx.AeadData import AeadData
from ccnpy.flic.tlvs.AeadMode import AeadMode
from ccnpy.flic.tlvs.KeyNumber import KeyNumber
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.Nonce import Nonce
from ccnpy.flic.tree.DecryptorCache import DecryptorCache

from .. import catalog, keys, lib, sec, wire
from ..engine import raises
from ..sec import Setting

PID = 'C14'
TECHNIQUE = 'model checking: exhaustive enumeration of wrapping settings, readers, reading orders and tamperings on the real code, against independent RSA-OAEP and AEAD'
BOUND = {
    'quick': '4 modes x 7 salts x 10 KDF settings x 5 key numbers wrapped (by the code and independently), read by 3 paths; all orders of reading 2 wrapped and 2 key-number-only manifests by readers with 7 sets of keys; 2 RSA key sizes; every single bit of a wrapped manifest for 5 settings; every pair of key number, mode and KDF fields wrapped and unwrapped; KDF information of 0 to 299, 1000, 1400 and 4000 bytes, and with its first, middle and last byte changed, one added and one left out; whole trees',
    'thorough': 'as quick with every single bit for 16 settings',
}
ASSUMPTIONS = ['RSA-OAEP of the cryptography package is sound: no forgery by chance']

MODES = [('GCM', 128), ('GCM', 256), ('CCM', 128), ('CCM', 256)]
SALTS = [0, 1, 0xFF, 0x100, 0x01020304, 0x80000000, 0xFFFFFFFF]
KDFS = [(None, None)] + [(a, i) for a in (1, 2, 3) for i in (None, b'', b'info')]
KEYNUMS = [0, 1, 255, 256, 1 << 40]


def tamper_settings(tier):
    full = [Setting(m, b, s, n, k, i) for (m, b), s, n, (k, i) in zip(MODES * 4, (SALTS * 3)[:16], (KEYNUMS * 4)[:16], (KDFS * 2)[:16])]
    return full if tier == 'thorough' else [full[0], full[3], full[5], full[10], full[13]]


def units(tier):
    u = [dict(kind='wrap', mode=m, kdf=k) for m in range(4) for k in range(len(KDFS))]
    u += [dict(kind='orders', mode=m, kdf=k) for m in range(4) for k in (0, 2, 9)]
    u += [dict(kind='bits', setting=i, part=p) for i in range(len(tamper_settings(tier))) for p in range(4)]
    u += [dict(kind='fields', mode=m) for m in range(4)]
    u += [dict(kind='tree', enc=e, reader=r) for e in ('w', 'W', 'n') for r in range(3)]
    u += [dict(kind='big')]
    u += [dict(kind='infos', part=i, n=1000 if tier == 'thorough' else 300) for i in range(4)]
    return u


def run(unit, ctx):
    globals()[unit['kind']](unit, ctx)


def bytes_of(parts):
    c, n, t = parts
    return Manifest(security_ctx=c, node=n, auth_tag=t).serialize().tobytes()


def foreign(s, rsa_pem, node, wrapper=True, keyid=None):
    """A manifest wrapped and encrypted independently (keyid: what the wrapper claims)"""
    kid = wire.tlv(1, keys.keyid(rsa_pem))
    spec = catalog.enc(catalog.aead_spec(s.keynum, catalog.octets(8, b'%d' % node), sec.MODE_NUMBER[s.mode, s.bits], None if s.kdf is None else (s.kdf, s.info)))
    rest = b''
    if wrapper:
        fake = wire.Sec(kind='rsa', keynum=s.keynum, nonce=None, mode=sec.MODE_NUMBER[s.mode, s.bits], kdf_alg=s.kdf, kdf_info=s.info, wrapped=None,
                        keyid=kid, hashalg=1, raw=None, kdf_raw=None if s.kdf is None else catalog.kdf_spec((s.kdf, s.info)).enc()[4:])
        wrapped = keys.private(rsa_pem).public_key().encrypt(
            (s.salt or 0).to_bytes(4, 'big') + sec.key_bytes(s),
            padding.OAEP(mgf=padding.MGF1(hashes.SHA256()), algorithm=hashes.SHA256(), label=wire.oaep_label(fake)))
        rest = wire.tlv(9, kid) + wire.tlv(3, b'\1') + wire.tlv(4, wrapped)
    ctx_tlv = wire.tlv(0, wire.tlv(1, spec + rest))
    sc = wire.sec_of(ctx_tlv[4:])
    key = wire.content_key(sc, sec.key_bytes(s), None)
    ct = wire.aead(sc.mode, key).encrypt((s.salt or 0).to_bytes(4, 'big') + sc.nonce, sec.node_value(node), ctx_tlv)
    return ctx_tlv + wire.tlv(2, ct[:-16]) + wire.tlv(3, ct[-16:])


def store(*names):
    ks = InsecureKeystore()
    for n in names:
        ks.add_rsa_key(n, lib.rsa_public(n[:-4]) if n.endswith('.pub') else lib.rsa(n))
    return ks


def decrypt(ks, w, how):
    m = sec.parse_manifest(w)
    if how == 'decryptor':
        return RsaOaepDecryptor(ks).decrypt_manifest(m).node().serialize().tobytes()[4:]
    if how == 'node':
        return RsaOaepDecryptor(ks).decrypt_node(m.security_ctx(), m.node(), m.auth_tag()).serialize().tobytes()[4:]
    return DecryptorCache(ks).get_or_create(m.security_ctx()).decrypt_manifest(m).node().serialize().tobytes()[4:]


def wrap(unit, ctx):
    m, b = MODES[unit['mode']]
    kdf, info = KDFS[unit['kdf']]
    private = keys.private(keys.RSAA)
    for salt, n in itertools.product(SALTS, KEYNUMS):
        s = Setting(m, b, salt, n, kdf, info)
        case = dict(setting=sec.text(s))
        ctx.case = case
        with ctx.guard(case):
            enc = RsaOaepEncryptor(lib.rsa('RSAA'), sec.params(s))
            first = bytes_of(enc.encrypt(sec.build_node(1), include_wrapper=True))
            later = [bytes_of(enc.encrypt(sec.build_node(i))) for i in (0, 2)]
            x = wire.manifest(first)
            msg = sec.check_fields(s, x.sec)
            ctx.check(msg is None, case, msg)
            ctx.check(x.sec.kind == 'rsa' and x.sec.keyid == wire.tlv(1, keys.keyid(keys.RSAA)) and x.sec.hashalg == 1, case, 'wrapper fields are %r' % (x.sec,))
            exc, res = raises(wire.unwrap, x.sec, private)
            ctx.check(exc is None and res == (salt, sec.key_bytes(s)), case, 'unwrapped independently: %r %r' % (exc, res))
            ctx.check(wire.decrypt(x, sec.key_bytes(s), salt) == sec.node_value(1), case, 'the wrapped key does not decrypt')
            ctx.check(sec.key_bytes(s) not in first, case, 'the content key is sent in clear')
            for i, w in zip((0, 2), later):
                y = wire.manifest(w)
                ctx.check(y.sec.wrapped is None and y.sec.keyid is None and y.sec.kind == 'rsa', case, 'a later manifest carries a wrapped key')
                ctx.check(wire.decrypt(y, sec.key_bytes(s), salt) == sec.node_value(i), case, 'a later manifest has another key')
            for how in ('decryptor', 'node', 'cache'):
                ks = store('RSAA')
                for i, w in zip((1, 0, 2, 1), [first] + later + [first]):
                    got = decrypt(ks, w, how)
                    ctx.check(got == sec.node_value(i), dict(case, how=how), 'node %d decrypts to another' % i)
                    ctx.step()
                p = ks.get_aes_key(KeyNumber(n))
                ctx.check((p.aead_salt, bytes(p.key.key())) == (salt, sec.key_bytes(s)), dict(case, how=how), 'the keystore has %r' % (p,))
                ks = store('RSAA')
                ctx.check(decrypt(ks, foreign(s, keys.RSAA, 3), how) == sec.node_value(3), dict(case, how=how), 'a manifest wrapped independently decrypts to another')
                ctx.check(decrypt(ks, foreign(s, keys.RSAA, 0, wrapper=False), how) == sec.node_value(0), dict(case, how=how), 'a later one decrypts to another')
            # the key and salt themselves
            c = sec.parse_manifest(first).security_ctx()
            got = c.rsa_oaep_wrapper().wrapped_key().decrypt(lib.rsa('RSAA'), c.aead_data())
            ctx.check((got[0], bytes(got[1])) == (salt, sec.key_bytes(s)), case, 'WrappedKey.decrypt gives %r' % (got,))
            ctx.trace('wrapped')
        ctx.state(s)
    ctx.sample(setting=sec.text(s))


READERS = {   # keys -> may unwrap
    ('RSAA',): True, ('RSAA', 'RSAB'): True, ('RSAB', 'RSAA', 'RSAC'): True,
    (): False, ('RSAB',): False, ('RSAA.pub',): False, ('RSAA.pub', 'RSAB'): False,
}


def orders(unit, ctx):
    """All orders of reading wrapped and unwrapped manifests of one key"""
    m, b = MODES[unit['mode']]
    kdf, info = KDFS[unit['kdf']]
    s = Setting(m, b, 77, 9, kdf, info)
    enc = RsaOaepEncryptor(lib.rsa('RSAA'), sec.params(s))
    ws = [(i, bytes_of(enc.encrypt(sec.build_node(i), include_wrapper=inc))) for i, inc in ((0, True), (1, True), (2, False), (3, False))]
    for names, can in READERS.items():
        for length in (1, 2, 3, 4):
            for order in itertools.product(range(4), repeat=length):
                for shared in (True, False):    # one decryptor object, or a new one for every manifest with the same keystore
                    ks = store(*names)
                    cache = DecryptorCache(ks)
                    known = False
                    case = dict(setting=sec.text(s), keys=names, order=order, one_reader=shared)
                    for k in order:
                        i, w = ws[k]
                        x = sec.parse_manifest(w)
                        r = cache if shared else DecryptorCache(ks)
                        exc, got = raises(lambda: r.get_or_create(x.security_ctx()).decrypt_manifest(x).node().serialize().tobytes()[4:])
                        if can and k < 2:
                            known = True
                        if known:
                            ctx.check(exc is None and got == sec.node_value(i), case, lambda: 'manifest %d: %r' % (k, exc or got.hex()))
                        else:
                            ctx.check(exc is not None, case, 'manifest %d is decrypted without the key' % k)
                        ctx.step()
                    ctx.trace('known' if known else 'refused')
                    ctx.state((unit['mode'], unit['kdf'], names, order, known))


def bits(unit, ctx):
    """Every single bit of a manifest with a wrapped key, read by a new reader"""
    s = tamper_settings(ctx.tier)[unit['setting']]
    w = foreign(s, keys.RSAA, 0)
    ctx.check(decrypt(store('RSAA'), w, 'cache') == sec.node_value(0), dict(setting=sec.text(s)), 'does not decrypt untampered')
    for k in range(unit['part'], len(w) * 8, 4):
        x = bytearray(w)
        x[k // 8] ^= 0x80 >> (k % 8)
        for others in ((), ('RSAB', 'RSAC')) if k < 400 else ((),):
            ks = store('RSAA', *others)
            exc, got = raises(decrypt, ks, bytes(x), 'cache')
            if exc is None:
                ctx.fail(dict(setting=sec.text(s), bit=k, keys=others), 'decrypted to %s' % got.hex()[:200])
            # what the failed attempt left behind does not open it either, and does no harm to the original
            exc, got = raises(decrypt, ks, bytes(x), 'decryptor')
            ctx.check(exc is not None, dict(setting=sec.text(s), bit=k, keys=others), 'decrypted at the second attempt')
            ctx.step(2)
            ctx.trace('refused')
        ctx.state((s, k))


def fields(unit, ctx):
    """A key wrapped with some key number, mode and KDF fields is unwrapped with exactly those"""
    m, b = MODES[unit['mode']]
    combos = [(n, md, k) for n in (0, 1, 256) for md in (1, 2, 3, 4) for k in (None, (1, None), (1, b''), (1, b'info'), (2, None), (2, b'info'), (3, b'infp'))]
    for n, (kdf, info) in itertools.product((0, 1, 256), ((None, None), (1, None), (1, b''), (1, b'info'), (2, b'info'))):
        s = Setting(m, b, 5, n, kdf, info)
        wk = WrappedKey.create(lib.rsa('RSAA'), sec.params(s))
        wk2 = WrappedKey.parse(__import__('ccnpy.core.Tlv', fromlist=['Tlv']).Tlv.deserialize(array('B', wk.serialize().tobytes())))
        for n2, md, k in combos:
            a = AeadData(KeyNumber(n2), Nonce(bytes(8)), AeadMode(md), catalog.build_kdf(k))
            same = (n2, md, k) == (n, sec.MODE_NUMBER[m, b], None if kdf is None else (kdf, info))
            case = dict(wrapped=sec.text(s), unwrapped_as=[n2, md, k])
            for obj in (wk, wk2):
                exc, got = raises(obj.decrypt, lib.rsa('RSAA'), a)
                if same:
                    ctx.check(exc is None and (got[0], bytes(got[1])) == (5, sec.key_bytes(s)), case, 'unwraps to %r %r' % (exc, got))
                else:
                    ctx.check(exc is not None, case, 'unwraps to %r' % (got,))
                ctx.step()
                ctx.trace('unwrapped' if same else 'refused')
            ctx.state((s, n2, md, k))
        for other in (lib.rsa('RSAB'), lib.rsa_public('RSAA')):
            a = AeadData(KeyNumber(n), Nonce(bytes(8)), AeadMode(sec.MODE_NUMBER[m, b]), catalog.build_kdf(None if kdf is None else (kdf, info)))
            exc, got = raises(wk.decrypt, other, a)
            ctx.check(exc is not None, dict(wrapped=sec.text(s), key='another'), 'unwraps to %r' % (got,))
    # a manifest wrapped for one key that claims the key id of another
    s = Setting(m, b, 5, 3)
    for a, claim in (('RSAA', 'RSAB'), ('RSAB', 'RSAA')):
        w = foreign(s, getattr(keys, a), 0)
        x = w.replace(keys.keyid(getattr(keys, a)), keys.keyid(getattr(keys, claim)))
        exc, got = raises(decrypt, store('RSAA', 'RSAB'), x, 'cache')
        ctx.check(exc is not None and x != w, dict(wrapped_for=a, claims=claim), 'decrypted')
        exc, got = raises(decrypt, store('RSAA', 'RSAB'), w, 'cache')
        ctx.check(exc is None and got == sec.node_value(0), dict(wrapped_for=a, claims=a), 'not decrypted: %r' % exc)
        ctx.trace('claims', 2)


def tree(unit, ctx):
    """A published tree: only the holder of the private key reads it"""
    for schema, opts, deg in (('H1', '', 3), ('S1', 'ngl', 2), ('P2', '', 5)):
        cfg = dict(schema=schema, opts=opts, enc=unit['enc'], sign='', mps=1000, deg=deg)
        pub = lib.publish(cfg, lib.data(9000))
        wrapped = [wire.manifest(wire.packet(w).payload).sec.wrapped is not None for w in pub.wires
                   if wire.packet(w).ptype == wire.MANIFEST and wire.manifest(wire.packet(w).payload).sec is not None]
        ctx.check(any(wrapped), cfg, 'no manifest carries the wrapped key')
        pub.tree()
        if unit['reader'] == 0:
            for names in (('RSAA',), ('RSAB', 'RSAA')):
                got = lib.read(pub, ks=store(*names))
                ctx.check(got == pub.content, cfg, 'the private key reads something else')
                ctx.trace('read')
        else:
            names = [('RSAB',), ('RSAA.pub',)][unit['reader'] - 1]
            for nm in (names, ()):
                sink = lib.Sink()
                exc, _ = raises(lib.read, pub, ks=store(*nm), sink=sink)
                ctx.check(exc is not None and sink.bytes() == b'', dict(cfg, keys=nm), 'read %d bytes, %r' % (len(sink.bytes()), exc))
                ctx.trace('refused')
        ctx.step(len(pub.wires))
        ctx.state((unit, schema))


def big(unit, ctx):
    """Another size of RSA key"""
    for (m, b) in MODES:
        for kdf, info in ((None, None), (3, b'info')):
            s = Setting(m, b, 0xFFFFFFFF, 7, kdf, info)
            case = dict(setting=sec.text(s), rsa=4096)
            with ctx.guard(case):
                enc = RsaOaepEncryptor(lib.rsa('RSAD'), sec.params(s))
                w = bytes_of(enc.encrypt(sec.build_node(1), include_wrapper=True))
                x = wire.manifest(w)
                ctx.check(len(x.sec.wrapped) == 512 and wire.unwrap(x.sec, keys.private(keys.RSAD)) == (s.salt, sec.key_bytes(s)), case, 'wraps something else')
                ctx.check(decrypt(store('RSAD'), w, 'cache') == sec.node_value(1), case, 'decrypts to another node')
                exc, _ = raises(decrypt, store('RSAA'), w, 'cache')
                ctx.check(exc is not None, case, 'decrypted with another key')
            ctx.trace('wrapped')
            ctx.state(s)


def infos(unit, ctx):
    """KDF information of every length: all of it is bound to the wrapped key"""
    for n in [k for k in list(range(unit['n'])) + [1000, 1400, 4000] if k % 4 == unit['part']]:
        m, b = MODES[n // 4 % 4]
        info = bytes((i * 7 + 1) % 251 for i in range(n))
        s = Setting(m, b, SALTS[n % 7], KEYNUMS[n % 5], 1 + n % 3, info)
        case = dict(setting=sec.text(s._replace(info=b'')), info=n)
        ctx.case = case
        with ctx.guard(case):
            w = bytes_of(RsaOaepEncryptor(lib.rsa('RSAA'), sec.params(s)).encrypt(sec.build_node(1), include_wrapper=True))
            x = wire.manifest(w)
            exc, res = raises(wire.unwrap, x.sec, keys.private(keys.RSAA))
            ctx.check(exc is None and res == (s.salt, sec.key_bytes(s)), case, 'unwrapped independently: %r %r' % (exc, res))
            ctx.check(wire.decrypt(x, sec.key_bytes(s), s.salt) == sec.node_value(1), case, 'the wrapped key does not decrypt')
            ctx.check(decrypt(store('RSAA'), w, 'cache') == sec.node_value(1), case, 'own manifest decrypts to another')
            ctx.check(decrypt(store('RSAA'), foreign(s, keys.RSAA, 3), 'cache') == sec.node_value(3), case, 'a manifest wrapped independently decrypts to another')
            wk = sec.parse_manifest(w).security_ctx().rsa_oaep_wrapper().wrapped_key()
            others = [info + b'x', info + b'\0'] + ([info[:-1], info[:-1] + b'\xff', b'\xff' + info[1:], info[:n // 2] + b'\xff' + info[n // 2 + 1:]] if n else [None])
            for i in [info] + others:
                a = AeadData(KeyNumber(s.keynum), Nonce(bytes(8)), AeadMode(sec.MODE_NUMBER[m, b]), catalog.build_kdf((s.kdf, i)))
                exc, got = raises(wk.decrypt, lib.rsa('RSAA'), a)
                ctx.check((exc is None) == (i == info), dict(case, other=None if i is None else len(i)), 'with other information: %r' % (exc,))
                ctx.step()
        ctx.trace('bound')
        ctx.state((n,))
    ctx.sample(info=n)
