"""C20: the keystore is a map from identity to the key stored last"""
import base64
import hashlib
import itertools

from ccnpy.core.HashValue import HashValue
from ccnpy.core.KeyId import KeyId
from ccnpy.crypto.InsecureKeystore import InsecureKeystore, KeyIdNotFoundError, KeyNumberNotFoundError
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.tlvs.KeyNumber import KeyNumber

from .. import keys, lib, sec, wire
from ..engine import raises
from ..sec import Setting

PID = 'C20'
TECHNIQUE = 'model checking: exhaustive enumeration of histories of additions to and lookups in real keystores, every lookup compared with explicit maps after every step'
BOUND = {
    'quick': 'all histories of 3 additions out of 24 (4 RSA keys, two of them also public only, under 3 names; 6 key numbers at the encoding boundaries with 2 settings each), all 40 lookups by name, key id (hash value, key id element, equal but separately made) and key number after every addition; all of 3 additions to two keystores; lookups twice; histories of 3000 key numbers, 3000 names and 600 RSA keys, all looked up at 20 points',
    'thorough': 'as quick with 5 additions to one and 4 to two keystores',
}
ASSUMPTIONS = ['a name is a string; a key id is a SHA-256 hash value']

PEM = {'A': keys.RSAA, 'B': keys.RSAB, 'C': keys.RSAC, 'D': keys.RSAD}
NAMES = ['a', 'b', '']
OTHER_NAMES = ['c', 'a ', 'A', keys.keyid(keys.RSAA).hex(), None, 1, ('a',)]
RSA_OPS = [('rsa', n, k, pub) for n, k, pub in (('a', 'A', False), ('a', 'A', True), ('a', 'B', False), ('b', 'A', False), ('b', 'B', False), ('b', 'C', True), ('b', 'C', False), ('', 'A', True), ('', 'D', False), ('a', 'D', False), ('b', 'A', True), ('', 'B', False))]
NUMBERS = [0, 1, 255, 256, 1 << 32, (1 << 64) - 1]
AES_OPS = [('aes', n, v) for n in NUMBERS for v in (0, 1)]
OPS = RSA_OPS + AES_OPS
ABSENT = [2, 254, 257, 1 << 8 * 2, (1 << 32) + 1, (1 << 64) - 2]


def units(tier):
    d = tier == 'thorough'
    return [dict(kind='one', first=i, n=5 if d else 3) for i in range(len(OPS))] + [dict(kind='two', first=i, n=4 if d else 3) for i in range(len(OPS))] + \
        [dict(kind='many', what=w, n=(20000 if d else 3000) if w != 'ids' else (3000 if d else 600)) for w in ('numbers', 'names', 'ids')]


def run(unit, ctx):
    globals()[unit['kind']](unit, ctx)


_rsa = {}


def rsa(k, pub):
    if (k, pub) not in _rsa:
        _rsa[k, pub] = RsaKey(keys.public_pem(PEM[k]) if pub else PEM[k])
    return _rsa[k, pub]


_params = {}


def params(n, v):
    if (n, v) not in _params:
        s = Setting(mode='GCM' if v else 'CCM', bits=128 if v else 256, salt=v or None, keynum=n, seed=NUMBERS.index(n) * 2 + v, kdf=1 if v else None)
        _params[n, v] = (s, sec.params(s))
    return _params[n, v]


class Model:
    def __init__(self):
        self.name, self.id, self.number = {}, {}, {}

    def view(self):
        return sorted(self.name.items()), sorted(self.id.items()), sorted(self.number.items())


def add(ks, m, op):
    if op[0] == 'rsa':
        _, n, k, pub = op
        ks.add_rsa_key(n, rsa(k, pub))
        m.name[n] = m.id[k] = (k, pub)
    else:
        _, n, v = op
        ks.add_aes_key(params(n, v)[1])
        m.number[n] = v


def lookups(ctx, case, ks, m):
    def rsa_is(how, got, want):
        exc, key = got
        ctx.step()
        if want is None:
            if not isinstance(exc, KeyIdNotFoundError):
                ctx.fail(dict(case, lookup=how), 'KeyIdNotFoundError expected, got %r' % (got,))
            return
        if exc is not None or bytes(key.keyid().value()) != keys.keyid(PEM[want[0]]) or key.has_private_key() == want[1]:
            ctx.fail(dict(case, lookup=how), 'not the key %s: %r' % (want, got))

    for n in NAMES + OTHER_NAMES:
        rsa_is('name %r' % n, raises(ks.get_rsa, n), m.name.get(n) if isinstance(n, str) else None)
    for k, pem in PEM.items():
        h = keys.keyid(pem)
        want = m.id.get(k)
        rsa_is('hash %s' % k, raises(ks.get_rsa, HashValue.create_sha256(h)), want)
        rsa_is('key id %s' % k, raises(ks.get_rsa, KeyId(HashValue.create_sha256(h))), want)
        rsa_is('own key id %s' % k, raises(ks.get_rsa, rsa(k, True).keyid()), want)
        rsa_is('public %s' % k, raises(ks.get_rsa_pub_key, HashValue.create_sha256(h)), want)
    for h in (bytes(32), keys.keyid(PEM['A'])[:31], keys.keyid(PEM['A'])[::-1]):
        rsa_is('hash %s' % h.hex(), raises(ks.get_rsa, HashValue.create_sha256(h)), None)
        rsa_is('public %s' % h.hex(), raises(ks.get_rsa_pub_key, HashValue.create_sha256(h)), None)
    for n in NUMBERS + ABSENT:
        ctx.step()
        exc, p = raises(ks.get_aes_key, KeyNumber(n))
        if n not in m.number:
            if not isinstance(exc, KeyNumberNotFoundError):
                ctx.fail(dict(case, number=n), 'KeyNumberNotFoundError expected, got %r, %r' % (exc, p))
            continue
        s, given = params(n, m.number[n])
        good = exc is None and p.key_number.value() == n and bytes(p.key.key()) == sec.key_bytes(s) and p.aead_salt == s.salt and p.kdf_data == given.kdf_data \
            and p.key.aead_mode() == s.mode
        if not good:
            ctx.fail(dict(case, number=n), 'not the parameters stored last: %r, %r' % (exc, p))


def one(unit, ctx):
    for rest in itertools.product(range(len(OPS)), repeat=unit['n'] - 1):
        seq = [OPS[i] for i in (unit['first'],) + rest]
        ks, m = InsecureKeystore(), Model()
        for i, op in enumerate(seq):
            add(ks, m, op)
            if i == len(seq) - 1 or unit['n'] == 3:
                lookups(ctx, dict(history=seq, step=i), ks, m)
        if not any(rest):
            lookups(ctx, dict(history=seq, step='again'), ks, m)
        ctx.trace('%d names, %d ids, %d numbers' % (len(m.name), len(m.id), len(m.number)))
        ctx.state(m.view())
    ctx.sample(history=seq)


def many(unit, ctx):
    """A long history: every identity so far is looked up at many points of it, with replacements of old ones in between"""
    ks = InsecureKeystore()
    model = {}
    n = unit['n']
    made = [keys.odd_public(i) for i in range(n)] if unit['what'] == 'ids' else None
    rsas = [RsaKey(pem) for pem in made] if made else [rsa(k, False) for k in 'ABCD']
    aes = [sec.params(Setting(keynum=0, seed=i)).key for i in range(5)]

    def put(i, v):
        if unit['what'] == 'numbers':
            p = AeadParameters(key=aes[v % 5], key_number=i * 257, aead_salt=v)
            ks.add_aes_key(p)
            model[i] = p
        elif unit['what'] == 'names':
            model[i] = rsas[v % 4]
            ks.add_rsa_key('name %d' % i, rsas[v % 4])
        else:
            model[i] = rsas[i]
            ks.add_rsa_key('name %d' % (v % 7), rsas[i])

    def get(i):
        if unit['what'] == 'numbers':
            return ks.get_aes_key(KeyNumber(i * 257))
        if unit['what'] == 'names':
            return ks.get_rsa('name %d' % i)
        return ks.get_rsa(HashValue.create_sha256(wire_keyid(made[i])))

    points = {1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 300, 500, 512, 513, 600, 1000, 1001, 1024, 1025, 2000, 2048, 2049, n}
    for i in range(n):
        put(i, i)
        if i % 3 == 2:
            put(i // 3, i + 1)          # replace an old one
        if i + 1 in points:
            for k in list(range(i + 1)) + [0, i, i // 2]:
                exc, got = raises(get, k)
                if exc is not None or got is not model[k] and not same_key(got, model[k]):
                    ctx.fail(dict(what=unit['what'], added=i + 1, lookup=k), 'not the key stored last: %r, %r' % (exc, got))
                ctx.step()
            exc, got = raises(get, i + 1) if i + 1 < n else (KeyError(), None)
            ctx.check(exc is not None, dict(what=unit['what'], added=i + 1, lookup='absent'), 'a key never added is returned')
            ctx.state((unit['what'], i + 1))
            ctx.trace(unit['what'])


def wire_keyid(pem):
    """SHA-256 of the SubjectPublicKeyInfo"""
    return hashlib.sha256(base64.b64decode(b''.join(pem.split(b'\n')[1:-2]))).digest()


def same_key(a, b):
    if isinstance(a, AeadParameters):
        return (bytes(a.key.key()), a.key_number.value(), a.aead_salt) == (bytes(b.key.key()), b.key_number.value(), b.aead_salt)
    return bytes(a.keyid().value()) == bytes(b.keyid().value()) and a.has_private_key() == b.has_private_key()


def two(unit, ctx):
    """Two keystores are independent"""
    for rest in itertools.product(range(len(OPS)), repeat=unit['n'] - 1):
        for who in itertools.product((0, 1), repeat=unit['n'] - 1):
            stores = [(InsecureKeystore(), Model()), (InsecureKeystore(), Model())]
            seq = [OPS[i] for i in (unit['first'],) + rest]
            for op, w in zip(seq, (0,) + who):
                add(*stores[w], op)
            for w in (0, 1):
                lookups(ctx, dict(history=seq, stores=(0,) + who, store=w), *stores[w])
            ctx.trace('two')
            ctx.state([m.view() for _, m in stores])
