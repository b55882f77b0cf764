"""C13: a manifest that names a KDF is encrypted under the derived key"""
import itertools

from ccnpy.crypto.HpkeKdfIdentifiers import HpkeKdfIdentifiers
from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.crypto.KDF import KDF
from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
from ccnpy.flic.tlvs.Manifest import Manifest

from .. import keys, lib, sec, wire
from ..engine import raises
from ..sec import Setting

PID = 'C13'
TECHNIQUE = 'model checking: exhaustive enumeration of KDF settings and of all pairs of them on the real code, against an independent HKDF and AEAD'
BOUND = {
    'quick': '4 modes x 2 AEAD salts x 7 KDF algorithms settings (none, 3 named, 3 unknown) x 5 infos x 5 KDF salts x 4 key numbers x 2 keys; every manifest against the keys of all other settings of its mode, and against the underived key; readers with every own KDF setting; RSA-OAEP wrapped keys for all settings without KDF salt; HKDF for all lengths 1..100 with 9 infos and 9 salts; KDF infos of every length and with every byte changed; keys and KDF salts with every byte changed; key numbers and salts on both sides of every power of two',
    'thorough': 'as quick with 9 infos, 9 KDF salts, 6 key numbers; KDF infos of every length and with every byte changed; keys and KDF salts with every byte changed; key numbers and salts on both sides of every power of two',
}
ASSUMPTIONS = ['the hash functions and AEAD ciphers of the cryptography package and hashlib are right']

MODES = [('GCM', 128), ('GCM', 256), ('CCM', 128), ('CCM', 256)]
INFOS = {'quick': [None, b'', b'info', b'\0', b'FLIC'], 'thorough': [None, b'', b'info', b'\0', b'FLIC', b'inf', b'info\0', bytes(300), b'\xff' * 20]}
SALTS = {'quick': [None, 1, 0x01000000, 0x01020304, 0xFFFFFFFF], 'thorough': [None, 1, 256, 0x10000, 0x01000000, 0x01020304, 0x04030201, 0x7FFFFFFF, 0xFFFFFFFF]}
KEYNUMS = {'quick': [0, 1, 256, 1 << 40], 'thorough': [0, 1, 255, 256, 65536, 1 << 40]}


def units(tier):
    u = [dict(kind='settings', mode=m, salt=s, seed=k) for m in range(4) for s in (None, 7) for k in (0, 1)]
    u += [dict(kind='pairs', mode=m, part=p) for m in range(4) for p in range(4)]
    u += [dict(kind='readers', mode=m) for m in range(4)]
    u += [dict(kind='wrapped', mode=m) for m in range(4)]
    u += [dict(kind='hkdf'), dict(kind='unknown')]
    u += [dict(kind='infos', kdf=k, mode=m) for k in (1, 2, 3) for m in range(4)]
    u += [dict(kind='numbers', mode=m) for m in range(4)]
    u += [dict(kind='alike', mode=m, n=n) for m in range(4) for n in ((20, 70, 140, 300) if tier != 'thorough' else (20, 70, 140, 300, 1000, 3000))]
    u += [dict(kind='alike_hkdf', kdf=k) for k in (1, 2, 3)]
    return u


def run(unit, ctx):
    {'settings': settings_, 'pairs': pairs, 'readers': readers, 'wrapped': wrapped, 'hkdf': hkdf, 'unknown': unknown, 'infos': infos, 'numbers': numbers, 'alike': alike, 'alike_hkdf': alike_hkdf}[unit['kind']](unit, ctx)


def settings(tier, mode, salt=None, seeds=(0, 1)):
    m, b = MODES[mode]
    for kdf, info, ks, n, k in itertools.product((None, 1, 2, 3), INFOS[tier], SALTS[tier], KEYNUMS[tier], seeds):
        if kdf is None and info is not None:
            continue        # nothing on the wire to carry the info
        yield Setting(m, b, salt, n, kdf, info, ks, k)


def encrypt(s, node=0):
    c, n, t = AeadEncryptor(sec.params(s)).encrypt(sec.build_node(node))
    return Manifest(security_ctx=c, node=n, auth_tag=t).serialize().tobytes()


def settings_(unit, ctx):
    for s in settings(ctx.tier, unit['mode'], unit['salt'], (unit['seed'],)):
        case = dict(setting=sec.text(s))
        with ctx.guard(case):
            for how, w in (('encrypt', encrypt(s)), ('create', AeadImpl(sec.params(s)).create_encrypted_manifest(sec.build_node(0)).serialize().tobytes())):
                m = wire.manifest(w)
                msg = sec.check_fields(s, m.sec)
                ctx.check(msg is None, case, '%s: %s' % (how, msg))
                exc, plain = raises(wire.decrypt, m, sec.key_bytes(s), s.salt, s.kdf_salt)
                ctx.check(exc is None and plain == sec.node_value(0), case, '%s: the independently derived key does not decrypt (%r)' % (how, exc))
                if s.kdf is not None:
                    iv = (b'' if s.salt is None else s.salt.to_bytes(4, 'big')) + m.sec.nonce
                    exc, _ = raises(wire.aead(m.sec.mode, sec.key_bytes(s)).decrypt, iv, m.encrypted + m.tag, m.sec.raw)
                    ctx.check(exc is not None, case, '%s: encrypted under the underived key' % how)
                got = AeadDecryptor(sec.params(s)).decrypt_manifest(sec.parse_manifest(w)).node()
                ctx.check(got.serialize().tobytes()[4:] == sec.node_value(0), case, '%s: decrypts to another node' % how)
                ctx.step(3)
                ctx.trace('derived' if s.kdf else 'configured')
        ctx.state(s)
    ctx.sample(setting=sec.text(s))


def pairs(unit, ctx):
    """Every manifest against the key of every other setting"""
    allof = list(settings(ctx.tier, unit['mode']))
    made = {}
    derived = {}
    for s in allof:
        m = wire.manifest(encrypt(s))
        k = wire.content_key(m.sec, sec.key_bytes(s), s.kdf_salt)
        # settings without KDF differ only by their key
        ident = (s.kdf, s.info, s.kdf_salt, s.keynum, s.seed) if s.kdf else (None, s.seed)
        if k in derived:
            ctx.check(derived[k][0] == ident, dict(settings=[sec.text(s), sec.text(derived[k][1])]), 'the same key for two settings')
        derived.setdefault(k, (ident, s))
        made[s] = (m, k)
    for i, s in enumerate(allof):
        if i % 4 != unit['part']:
            continue
        m, k = made[s]
        for k2, (ident, s2) in derived.items():
            exc, _ = raises(wire.aead(m.sec.mode, k2).decrypt, m.sec.nonce, m.encrypted + m.tag, m.sec.raw)
            if (exc is None) != (k2 == k):
                ctx.fail(dict(writer=sec.text(s), key_of=sec.text(s2)), 'decrypts under the key of another setting' if exc is None else 'does not decrypt under its key')
            ctx.step()
        ctx.trace('pairs', len(derived))
        ctx.state((s, 'pairs'))


def readers(unit, ctx):
    """The reader's key and KDF salt decide, the algorithm and info are those named in the manifest"""
    m, b = MODES[unit['mode']]
    writers = [Setting(m, b, 7, 256, kdf, info, ks, 0) for kdf in (None, 1, 2, 3) for info in (None, b'info') for ks in (None, 5) if kdf or info is None]
    for s in writers:
        w = encrypt(s)
        for kdf, info, ks, n, k, salt in itertools.product((None, 1, 2, 3), (None, b'info', b'x'), (None, 0, 5, 6), (256, 257), (0, 1), (7, 8)):
            if kdf is None and info is not None:
                continue
            r = Setting(m, b, salt, n, kdf, info, ks, k)
            # a manifest without KDF does not use the KDF salt
            good = (k, n, salt) == (0, 256, 7) and (s.kdf is None or (ks or 0) == (s.kdf_salt or 0))
            exc, got = raises(lambda: AeadDecryptor(sec.params(r)).decrypt_manifest(sec.parse_manifest(w)).node())
            case = dict(writer=sec.text(s), reader=sec.text(r))
            if good:
                ctx.check(exc is None and got.serialize().tobytes()[4:] == sec.node_value(0), case, 'does not decrypt: %r' % exc)
            else:
                ctx.check(exc is not None, case, 'decrypts')
            ctx.step()
            ctx.trace('reads' if good else 'refused')
        ctx.state((s, 'readers'))


def wrapped(unit, ctx):
    """The key derivation is applied to the wrapped key"""
    m, b = MODES[unit['mode']]
    private = keys.private(keys.RSAA)
    for kdf, info, n in itertools.product((None, 1, 2, 3), INFOS[ctx.tier], KEYNUMS[ctx.tier]):
        if kdf is None and info is not None:
            continue
        s = Setting(m, b, 9, n, kdf, info, None, 0)
        case = dict(setting=sec.text(s), wrapped=True)
        with ctx.guard(case):
            c, e, t = RsaOaepEncryptor(lib.rsa('RSAA'), sec.params(s)).encrypt(sec.build_node(0), include_wrapper=True)
            w = Manifest(security_ctx=c, node=e, auth_tag=t).serialize().tobytes()
            x = wire.manifest(w)
            salt, key = wire.unwrap(x.sec, private)
            ctx.check((salt, key) == (9, sec.key_bytes(s)), case, 'another key or salt is wrapped')
            exc, plain = raises(wire.decrypt, x, key, salt)
            ctx.check(exc is None and plain == sec.node_value(0), case, 'the independently derived key does not decrypt')
            if kdf is not None:
                exc, _ = raises(wire.aead(x.sec.mode, key).decrypt, salt.to_bytes(4, 'big') + x.sec.nonce, x.encrypted + x.tag, x.sec.raw)
                ctx.check(exc is not None, case, 'encrypted under the underived key')
            got = RsaOaepDecryptor(InsecureKeystore().add_rsa_key('k', lib.rsa('RSAA'))).decrypt_manifest(sec.parse_manifest(w)).node()
            ctx.check(got.serialize().tobytes()[4:] == sec.node_value(0), case, 'decrypts to another node')
            ctx.trace('wrapped')
            ctx.step(3)
        ctx.state((s, 'wrapped'))


def hkdf(unit, ctx):
    algs = {1: HpkeKdfIdentifiers.HKDF_SHA256, 2: HpkeKdfIdentifiers.HKDF_SHA384, 3: HpkeKdfIdentifiers.HKDF_SHA512}
    infos = [b'', b'a', b'FLIC', bytes(10), b'\xff' * 63, b'\xff' * 64, bytes(65), b'x' * 1000, b'info']
    salts = [None, b'\0' * 4, b'\0\0\0\1', b'\1\0\0\0', b'\xff' * 4, b's', b's' * 64, b's' * 128, b's' * 200]
    for a, kid in algs.items():
        ctx.check(HpkeKdfIdentifiers.from_number(a) == kid, dict(alg=a), 'number %d is not this algorithm' % a)
        for length in range(1, 101):
            for info in infos:
                for salt in salts:
                    for key in (b'', b'k', bytes(16), bytes(range(32))):
                        if length not in (16, 32) and (len(key) < 32 or len(info) > 10):
                            continue
                        want = wire.hkdf(a, key, salt, info, length)
                        got = KDF.derive(kdf_id=kid, input_key=key, length=length, info=info, salt=salt)
                        ctx.check(got == want, dict(alg=a, length=length, info=info, salt=salt, key=key), 'derives %s' % got.hex())
                        ctx.step()
                        ctx.trace('hkdf')
        ctx.state(('hkdf', a))


def unknown(unit, ctx):
    """A KDF that is not known is an error when writing and when reading, never another key"""
    from .c11 import foreign
    for (m, b) in MODES:
        for kdf in (0, 4, 5, 0x10, 256, 65535, 1 << 40):
            for info in (None, b'info'):
                s = Setting(m, b, 7, 256, kdf, info, None, 0)
                exc, res = raises(encrypt, s)
                ctx.check(exc is not None, dict(setting=sec.text(s)), 'encrypted')
                good = Setting(m, b, 7, 256, 1, info, None, 0)
                for key in ('plain', 'derived'):
                    # encrypted with the configured key itself, naming an unknown KDF
                    from .. import catalog
                    spec = catalog.aead_spec(s.keynum, bytes(8), sec.MODE_NUMBER[m, b], (kdf, info))
                    ctx_tlv = wire.tlv(0, wire.tlv(0, catalog.enc(spec)))
                    k = sec.key_bytes(s) if key == 'plain' else wire.hkdf(1, sec.key_bytes(s), None, wire.kdf_info_bytes(wire.sec_of(ctx_tlv[4:])), b // 8)
                    ct = wire.aead(sec.MODE_NUMBER[m, b], k).encrypt((7).to_bytes(4, 'big') + bytes(8), sec.node_value(0), ctx_tlv)
                    w = ctx_tlv + wire.tlv(2, ct[:-16]) + wire.tlv(3, ct[-16:])
                    exc, res = raises(lambda: AeadDecryptor(sec.params(good)).decrypt_manifest(sec.parse_manifest(w)))
                    ctx.check(exc is not None, dict(setting=sec.text(s), encrypted_with=key), 'decrypted')
                ctx.trace('refused', 3)
                ctx.state(s)


def derived_right(ctx, s):
    """A manifest of that setting is encrypted under the key that an independent derivation gives, and can be read"""
    case = dict(setting=sec.text(s) if s.info is None or len(s.info) < 100 else sec.text(s._replace(info=b'...%d' % len(s.info))))
    ctx.case = case
    with ctx.guard(case):
        w = encrypt(s)
        m = wire.manifest(w)
        msg = sec.check_fields(s, m.sec)
        ctx.check(msg is None, case, msg)
        exc, plain = raises(wire.decrypt, m, sec.key_bytes(s), s.salt, s.kdf_salt)
        ctx.check(exc is None and plain == sec.node_value(0), case, 'the independently derived key does not decrypt (%r)' % exc)
        got = AeadDecryptor(sec.params(s)).decrypt_manifest(sec.parse_manifest(w)).node()
        ctx.check(got.serialize().tobytes()[4:] == sec.node_value(0), case, 'decrypts to another node')
    ctx.step(2)
    ctx.state(s)


def infos(unit, ctx):
    """KDF infos of every length"""
    m, b = MODES[unit['mode']]
    private = keys.private(keys.RSAA)
    for n in list(range(0, 301)) + [400, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 30000, 60000]:
        for info in {bytes(i * 7 % 256 for i in range(n)), bytes(n)}:
            s = Setting(m, b, 7, 256, unit['kdf'], info, 5, 0)
            derived_right(ctx, s)
            ctx.trace('info of %d digits' % len(str(n)))
        if n % 16 == 13:
            # in a wrapped manifest
            s = Setting(m, b, 9, 1, unit['kdf'], info, None, 0)
            case = dict(info=n, wrapped=True, kdf=unit['kdf'])
            with ctx.guard(case):
                c, e, t = RsaOaepEncryptor(lib.rsa('RSAA'), sec.params(s)).encrypt(sec.build_node(0), include_wrapper=True)
                w = Manifest(security_ctx=c, node=e, auth_tag=t).serialize().tobytes()
                x = wire.manifest(w)
                salt, key = wire.unwrap(x.sec, private)
                exc, plain = raises(wire.decrypt, x, key, salt)
                ctx.check(exc is None and plain == sec.node_value(0), case, 'the independently derived key does not decrypt')
                got = RsaOaepDecryptor(InsecureKeystore().add_rsa_key('k', lib.rsa('RSAA'))).decrypt_manifest(sec.parse_manifest(w)).node()
                ctx.check(got.serialize().tobytes()[4:] == sec.node_value(0), case, 'decrypts to another node')


def alike(unit, ctx):
    """One after the other in one process: KDF infos that differ in one byte, at every position"""
    m, b = MODES[unit['mode']]
    base = bytes(i * 5 % 251 for i in range(unit['n']))
    for i in range(-1, unit['n']):
        info = base if i < 0 else base[:i] + bytes([base[i] ^ 0x10]) + base[i + 1:]
        derived_right(ctx, Setting(m, b, 7, 256, 1 + unit['n'] % 3, info, 5, 0))
        ctx.trace('info with another byte')


def alike_hkdf(unit, ctx):
    """Keys, salts and infos that differ in one byte, at every position"""
    kid = HpkeKdfIdentifiers.from_number(unit['kdf'])
    for nk, ns, ni in ((32, 4, 400), (16, 200, 30), (300, None, 20), (32, 4, None)):
        base = [bytes(i * 3 % 255 for i in range(n)) if n is not None else None for n in (nk, ns, ni)]
        inputs = [tuple(base)]
        for which in range(3):
            for i in range(len(base[which] or b'')):
                v = list(base)
                v[which] = v[which][:i] + bytes([v[which][i] ^ 1]) + v[which][i + 1:]
                inputs.append(tuple(v))
        for key, salt, info in inputs:
            for length in (16, 32):
                got = KDF.derive(kdf_id=kid, input_key=key, length=length, info=info, salt=salt)
                ctx.check(got == wire.hkdf(unit['kdf'], key, salt, info or b'', length), dict(kdf=unit['kdf'], key=key, salt=salt, info=info, length=length), 'derives %s' % got.hex())
                ctx.step()
                ctx.trace('inputs with another byte')
        ctx.state((unit['kdf'], nk, ns, ni))


def numbers(unit, ctx):
    """Key numbers and salts on both sides of every power of two"""
    m, b = MODES[unit['mode']]
    for k in range(65):
        for n in {max(0, (1 << k) - 1), 1 << k, (1 << k) + 1}:
            if n < 1 << 64:
                derived_right(ctx, Setting(m, b, 7, n, 1 + k % 3, b'i', 5, 0))
                ctx.trace('key number')
            if n < 1 << 32:
                derived_right(ctx, Setting(m, b, n, 1, 1 + k % 3, None, 5, 0))
                derived_right(ctx, Setting(m, b, None, 1, 1 + k % 3, b'i', n, 0))
                ctx.trace('salts')
