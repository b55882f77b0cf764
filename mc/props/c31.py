"""C31: an RSA key is the same key however it was stored, and signs, verifies, encrypts and decrypts as that key"""
import hashlib
import itertools
import os
import shutil
import tempfile
from array import array

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.primitives.serialization import BestAvailableEncryption, Encoding, NoEncryption, PrivateFormat, PublicFormat

from ccnpy.crypto.RsaKey import RsaKey

from .. import keys
from ..engine import raises

PID = 'C31'
TECHNIQUE = 'model checking: exhaustive enumeration of the histories of storing and loading real keys, and of messages, signatures, plaintexts and their variations, against the cryptography package'
BOUND = {
    'quick': '4 keys of 1024 to 4096 bits: all histories of 3 (2 for the two larger) storing and loading steps (2 private PEM formats, encrypted with 7 passwords, public PEM; save_private_key with each password; loading from bytes or file, with the right, every other, an empty or no password) with all abilities of the key tried in every state; every split of a message into up to 4 buffers of 4 kinds; every bit of signature, message and length changed, both paddings, every other key; every byte of long messages and labels changed; passwords of every length to 200 and around 256, 512, 1000, with bytes changed, missing and added; OAEP: every plaintext length up to past the maximum, 5 labels, every bit of a ciphertext',
    'thorough': 'histories of 4 (3) steps, every bit also for the keys of 3072 and 4096 bits',
}
ASSUMPTIONS = ["the cryptography package's RSA is right", 'PEM files have the line ends and begin lines that OpenSSL writes']

KEYS = ('RSAA', 'RSAB', 'RSAC', 'RSAD')
PASSWORDS = (b'p', b'password', b'Password', b'pass word\n', b'\xc3\xa9\xff'[:2], b'x' * 100, b'p\0q')


def units(tier):
    d = tier == 'thorough'
    u = [dict(kind='stored', key=k, first=i, n=(4 if k == 'RSAA' else 3) if d else 3 if k in ('RSAA', 'RSAB') else 2) for k in names() for i in range(len(STEPS))]
    u += [dict(kind='buffers', key=k, pss=p) for k in names() for p in (False, True)]
    u += [dict(kind='signature', key=k, pss=p, part=i) for k in (names() if d else names()[:2]) for p in (False, True) for i in range(4)]
    u += [dict(kind='oaep', key=k, label=i) for k in names() for i in range(len(LABELS))]
    u += [dict(kind='ciphertext', key=k) for k in (names() if d else names()[:2])]
    u += [dict(kind='passwords', part=i) for i in range(4)]
    u += [dict(kind='alike', key=k) for k in names()[:2]]
    u += [dict(kind='fresh')]
    return u


def names():
    return [k for k in KEYS + ('RSA4096', 'RSA3072', 'RSAX') if hasattr(keys, k)]


def run(unit, ctx):
    d = tempfile.mkdtemp(prefix='c31-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    try:
        globals()[unit['kind']](unit, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ref(name):
    return keys.private(getattr(keys, name))


def der(name):
    return ref(name).public_key().public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)


def pem_of(name, form, password=None):
    if form == 'public':
        return ref(name).public_key().public_bytes(Encoding.PEM, PublicFormat.SubjectPublicKeyInfo)
    enc = NoEncryption() if password is None else BestAvailableEncryption(password)
    return ref(name).private_bytes(Encoding.PEM, {'pkcs8': PrivateFormat.PKCS8, 'traditional': PrivateFormat.TraditionalOpenSSL}[form], enc)


# what is done with the key in hand to get the next one
STEPS = [('save', p) for p in PASSWORDS] + [('public', None), ('again', 'pkcs8'), ('again', 'traditional'), ('encrypted', PASSWORDS[1]), ('file', 'public')]


def stored(unit, ctx, d):
    name = unit['key']
    others = [k for k in names() if k != name]
    for hist in itertools.product(range(len(STEPS)), repeat=unit['n'] - 1):
        hist = (unit['first'],) + hist
        if any(STEPS[i][0] == 'save' and STEPS[j][0] == 'save' and i > j for i, j in zip(hist, hist[1:])):
            # two passwords after one another: in one order
            continue
        ctx.case = dict(unit, history=[STEPS[i] for i in hist])
        key, private = RsaKey(getattr(keys, name)), True
        form = 'traditional'
        for n, i in enumerate(hist):
            step, arg = STEPS[i]
            f = os.path.join(d, 'k%d' % n)
            if os.path.exists(f):
                os.unlink(f)
            ctx.step()
            if step == 'save':
                exc, _ = raises(key.save_private_key, f, arg)
                ctx.check((exc is None) == private, n, 'a %s key %s' % ('private' if private else 'public', 'was saved as private' if exc is None else 'could not be saved: %r' % exc))
                if exc is not None:
                    ctx.check(not os.path.exists(f) or os.path.getsize(f) == 0, n, 'a file was written although there is no private key')
                    continue
                ctx.check(b'ENCRYPTED' in open(f, 'rb').read().split(b'\n')[0], n, 'the file is not encrypted')
                if n == len(hist) - 1:
                    for p in [x for x in PASSWORDS if x != arg] + [None, b'', arg[:-1], arg + b'0', arg.swapcase() if arg.swapcase() != arg else b'~']:
                        exc, k = raises(RsaKey.load_pem_key, f, p)
                        ctx.step()
                        ctx.check(exc is not None, n, 'the file of password %r was opened with %r' % (arg, p))
                key = RsaKey.load_pem_key(f, arg if n % 2 or not is_text(arg) else arg.decode())
                form = 'pkcs8'
            elif step == 'public':
                key, private = RsaKey(key.public_key_pem()), False
            elif step == 'file':
                with open(f, 'wb') as out:
                    out.write(key.public_key_pem())
                key, private = RsaKey.load_pem_key(f, None if n % 2 else 'unused'), False
            elif step == 'again':
                with open(f, 'wb') as out:
                    out.write(pem_of(name, arg))
                key, private = RsaKey.load_pem_key(f, '' if n % 2 else None), True
            else:
                key, private = RsaKey(pem_of(name, 'pkcs8', arg), arg), True
        check_key(ctx, key, name, private, others)
        ctx.state((name, private, tuple(STEPS[i][0] for i in hist)))
        ctx.trace('private' if private else 'public')


def passwords(unit, ctx, d):
    """Passwords of every length: only all of it opens the file"""
    key = RsaKey(keys.RSAA)
    f = os.path.join(d, 'key')
    for n in [*range(1, 201), 255, 256, 257, 511, 512, 513, 1000, 1023]:
        if n % 4 != unit['part']:
            continue
        p = bytes(33 + i * 7 % 90 for i in range(n))
        ctx.case = dict(unit, length=n)
        key.save_private_key(f, p)
        for q, opens in [(p, True), (p.decode(), True), (p[:-1] + b' ', False), (b' ' + p[1:], False), (p[:-1], False), (p + b'!', False), (p[:n // 2] + b' ' + p[n // 2 + 1:], False)]:
            exc, k = raises(RsaKey.load_pem_key, f, q)
            ctx.step()
            ctx.check((exc is None) == opens, None, 'password %r of %d bytes %s with %r' % (p, n, 'opens' if exc is None else 'does not open', q))
            if exc is None:
                ctx.check(bytes(k.keyid().value()) == hashlib.sha256(der('RSAA')).digest(), None, 'another key')
        ctx.state(n)
        ctx.trace('password of %d digits' % len(str(n)))


def alike(unit, ctx, d):
    """Labels and messages that differ in one byte"""
    name = unit['key']
    key = RsaKey(getattr(keys, name))
    label = bytes(i % 253 for i in range(400))
    c = ref(name).public_key().encrypt(b'content key', OAEP(label))
    mine = key.encrypt_oaep_sha256(b'content key', label)
    for x in (c, mine):
        ctx.check(bytes(key.decrypt_oaep_sha256(x, label)) == b'content key', unit, 'decrypts to something else')
        for i in range(len(label)):
            other = label[:i] + bytes([label[i] ^ 0x40]) + label[i + 1:]
            exc, p = raises(key.decrypt_oaep_sha256, x, other)
            ctx.step()
            ctx.check(exc is not None, dict(unit, byte=i), 'decrypts with a label with another byte %d' % i)
            ctx.state((name, 'label', i))
            ctx.trace('label')
        for n in range(len(label)):
            exc, p = raises(key.decrypt_oaep_sha256, x, label[:n])
            ctx.step()
            ctx.check(exc is not None, dict(unit, length=n), 'decrypts with %d bytes of the label' % n)
    message = bytes(range(256)) * 512
    for pss in (False, True):
        sig = key.sign(message, use_pss_padding=pss)
        ctx.check(good(name, sig, message, pss), unit, 'a long message')
        for i in [*range(0, len(message), 509), *(1 << b for b in range(17)), *((1 << b) - 1 for b in range(18))]:
            m = bytearray(message)
            m[i] ^= 1
            ctx.step()
            ctx.check(key.verify(m, signature=sig, use_pss_padding=pss) is False, dict(unit, byte=i), 'verifies a message with another byte %d' % i)
            ctx.check(key.verify(m[:70], m[70:], signature=sig, use_pss_padding=pss) is False, dict(unit, byte=i), 'verifies a message with another byte %d' % i)
            ctx.trace('message')
            ctx.state((name, pss, i))


def is_text(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


_made = {}


def made(name):
    """A reference signature and ciphertext"""
    if name not in _made:
        r = ref(name)
        _made[name] = (r.sign(b'message', padding.PKCS1v15(), hashes.SHA256()), r.public_key().encrypt(b'secret', OAEP(None)))
    return _made[name]


def OAEP(label):
    return padding.OAEP(mgf=padding.MGF1(algorithm=hashes.SHA256()), algorithm=hashes.SHA256(), label=label)


def check_key(ctx, key, name, private, others):
    ctx.check((key.has_private_key(), key.has_public_key()) == (private, True), None, 'the key says %s about its parts' % ((key.has_private_key(), key.has_public_key()),))
    ctx.check(bytes(key.keyid().value()) == hashlib.sha256(der(name)).digest(), None, 'another key id: %s' % key.keyid())
    ctx.check(bytes(key.public_key_der()) == der(name), None, 'another public key (DER)')
    ctx.check(bytes(key.public_key_pem()) == pem_of(name, 'public'), None, 'another public key (PEM)')
    sig, ct = made(name)
    ctx.check(key.verify(b'message', signature=sig) is True, None, 'a right signature does not verify')
    ctx.check(key.verify(b'massage', signature=sig) is False, None, 'a signature of something else verifies')
    ctx.check(key.verify(b'message', signature=made(others[0])[0]) is False, None, 'a signature of another key verifies')
    exc, s = raises(key.sign, b'mess', b'age')
    ctx.step(5)
    if private:
        ctx.check(exc is None and bytes(s) == sig, None, 'another signature than the key makes: %r' % exc)
        exc, p = raises(key.decrypt_oaep_sha256, ct)
        ctx.check(exc is None and bytes(p) == b'secret', None, 'does not decrypt: %r' % exc)
        exc, p = raises(key.decrypt_oaep_sha256, made(others[0])[1])
        ctx.check(exc is not None, None, 'decrypts what is for another key')
    else:
        ctx.check(exc is not None, None, 'a public key signs')
        exc, p = raises(key.decrypt_oaep_sha256, ct)
        ctx.check(exc is not None, None, 'a public key decrypts')


# -- signatures ------------------------------------------------------------------------------------------------------------

KINDS = (bytes, bytearray, lambda b: array('B', b), memoryview)


def pads(pss):
    return padding.PSS(mgf=padding.MGF1(hashes.SHA256()), salt_length=padding.PSS.MAX_LENGTH) if pss else padding.PKCS1v15()


def good(name, sig, message, pss):
    try:
        ref(name).public_key().verify(bytes(sig), message, pads(pss), hashes.SHA256())
        return True
    except InvalidSignature:
        return False


def buffers(unit, ctx, d):
    """The signature is over the concatenation, however it is cut"""
    message = bytes(range(97, 97 + 9))
    key = RsaKey(getattr(keys, unit['key']))
    public = RsaKey(key.public_key_pem())
    sig = ref(unit['key']).sign(message, pads(unit['pss']), hashes.SHA256())
    few = len(sig) > 256
    for n in range(4):
        for cuts in itertools.combinations_with_replacement(range(len(message) + 1), n):
            at = (0,) + cuts + (len(message),)
            parts = [message[a:b] for a, b in zip(at, at[1:])]
            kind = KINDS[sum(cuts) % 4]
            ctx.case = dict(unit, cuts=cuts)
            b = [kind(p) for p in parts]
            ctx.check(public.verify(*b, signature=array('B', sig) if n % 2 else sig, use_pss_padding=unit['pss']) is True, None, 'a right signature does not verify')
            ctx.check(public.verify(*b, signature=sig, use_pss_padding=not unit['pss']) is False, None, 'verifies with the other padding')
            ctx.step(2)
            if not few or n < 3:
                s = key.sign(*b, use_pss_padding=unit['pss'])
                ctx.check(good(unit['key'], s, message, unit['pss']), None, 'the signature made is not one of the message')
                ctx.check(unit['pss'] or bytes(s) == sig, None, 'another signature of the same message')
                ctx.step()
            # something missing, doubled, swapped
            for wrong in (b[:-1], b + b[:1], b[1:] + b[:1], b + [b'\0']):
                if b''.join(bytes(x) for x in wrong) != message:
                    ctx.check(public.verify(*wrong, signature=sig, use_pss_padding=unit['pss']) is False, None, 'verifies for another message %s' % wrong)
                    ctx.step()
            ctx.state((unit['key'], unit['pss'], cuts))
            ctx.trace(str(n))
    for size in (0, 1, 31, 32, 33, 63, 64, 65, 1000, 65535, 70000, 1 << 20):
        m = bytes(size)
        ctx.case = dict(unit, size=size)
        s = key.sign(m, use_pss_padding=unit['pss'])
        ctx.check(good(unit['key'], s, m, unit['pss']) and public.verify(m, signature=s, use_pss_padding=unit['pss']), None, 'a long message')
        ctx.check(not public.verify(m + b'\0', signature=s, use_pss_padding=unit['pss']), None, 'a longer message verifies')
        ctx.step(3)
        ctx.trace('long')


def signature(unit, ctx, d):
    """Every bit of signature and message"""
    name, pss = unit['key'], unit['pss']
    message = b'a message of some bytes'
    sig = ref(name).sign(message, pads(pss), hashes.SHA256())
    key = RsaKey(getattr(keys, name))

    def wrong(what, m, s, k=key):
        ctx.step()
        ctx.case = dict(unit, what=what)
        exc, r = raises(k.verify, m, signature=s, use_pss_padding=pss)
        ctx.check(exc is not None or r is False, None, 'verifies: %s' % (what,))
        ctx.state((name, pss, what))
        ctx.trace('refused' if exc is None else type(exc).__name__)
    for bit in range(unit['part'], len(sig) * 8, 4):
        s = bytearray(sig)
        s[bit // 8] ^= 1 << bit % 8
        wrong(('bit', bit), message, bytes(s))
    if unit['part']:
        return
    for bit in range(len(message) * 8):
        m = bytearray(message)
        m[bit // 8] ^= 1 << bit % 8
        wrong(('message bit', bit), bytes(m), sig)
    for n in range(len(sig)):
        wrong(('cut', n), message, sig[:n])
        wrong(('tail', n), message, sig[n + 1:])
    for more in (b'\0', sig, b'\0' * 64):
        wrong(('longer', len(more)), message, sig + more)
        wrong(('before', len(more)), message, more + sig)
    for n in range(len(message)):
        wrong(('message cut', n), message[:n], sig)
    for k in names():
        if k != name:
            wrong(('key', k), message, sig, RsaKey(keys.public_pem(getattr(keys, k))))
    for h in (hashes.SHA1(), hashes.SHA384(), hashes.SHA512()):
        wrong(('hash', h.name), message, ref(name).sign(message, pads(pss), h))


# -- encryption --------------------------------------------------------------------------------------------------------------

LABELS = (None, b'', b'label', bytes(40), b'\xff' * 300)


def oaep(unit, ctx, d):
    name, label = unit['key'], LABELS[unit['label']]
    key, public = RsaKey(getattr(keys, name)), RsaKey(keys.public_pem(getattr(keys, name)))
    size = ref(name).key_size // 8
    most = size - 66
    lengths = range(most + 4) if size <= 256 and unit['label'] == 0 else [*range(0, 3), 16, 24, 32, 36, 64, *range(most - 2, most + 4), size, size + 1]
    for n in lengths:
        text = bytes((i * 31 + n) % 256 for i in range(n))
        ctx.case = dict(unit, length=n)
        given = (text, array('B', text))[n % 2]
        exc, c = raises(public.encrypt_oaep_sha256, given, label)
        ctx.step()
        ctx.check((exc is None) == (n <= most), None, '%d bytes %s' % (n, 'were encrypted' if exc is None else 'were refused: %r' % exc))
        if exc is None:
            ctx.check(len(c) == size, None, 'the ciphertext has %d bytes' % len(c))
            ctx.check(ref(name).decrypt(bytes(c), OAEP(label)) == text, None, 'the reference decrypts something else')
            exc, p = raises(key.decrypt_oaep_sha256, c if n % 3 else bytes(c), label)
            ctx.check(exc is None and bytes(p) == text, None, 'decrypts to %r, %r' % (p, exc))
            exc, p = raises(key.decrypt_oaep_sha256, ref(name).public_key().encrypt(text, OAEP(label)), label)
            ctx.check(exc is None and bytes(p) == text, None, 'does not decrypt what the reference encrypted: %r' % exc)
            exc, again = raises(public.encrypt_oaep_sha256, given, label)
            ctx.check(bytes(again) != bytes(c), None, 'the same ciphertext twice')
            for other in LABELS:
                if (other or b'') != (label or b''):
                    exc, p = raises(key.decrypt_oaep_sha256, c, other)
                    ctx.step()
                    ctx.check(exc is not None, None, 'decrypts with label %r instead of %r' % (other, label))
            ctx.step(4)
        ctx.state((name, n, unit['label']))
        ctx.trace('encrypted' if n <= most else 'refused')


def ciphertext(unit, ctx, d):
    name = unit['key']
    key = RsaKey(getattr(keys, name))
    for label in (None, b'l'):
        c = ref(name).public_key().encrypt(b'content key', OAEP(label))
        for bit in range(len(c) * 8):
            if label and bit % 16:
                continue
            x = bytearray(c)
            x[bit // 8] ^= 1 << bit % 8
            ctx.case = dict(unit, bit=bit)
            exc, p = raises(key.decrypt_oaep_sha256, bytes(x), label)
            ctx.step()
            ctx.check(exc is not None, None, 'a damaged ciphertext decrypts')
            ctx.state((name, label, bit))
            ctx.trace('refused')
        for x in [c[:n] for n in range(0, len(c), 7)] + [c + b'\0', b'\0' + c]:
            ctx.case = dict(unit, length=len(x))
            exc, p = raises(key.decrypt_oaep_sha256, x, label)
            ctx.step()
            ctx.check(exc is not None, None, 'a ciphertext of another length decrypts')
            ctx.trace('refused')


def fresh(unit, ctx, d):
    """Keys made by the library"""
    for bits in (1024, 2048):
        key = RsaKey.generate_private_key(bits)
        ctx.case = dict(unit, bits=bits)
        f = os.path.join(d, 'fresh')
        key.save_private_key(f, b'pw')
        again = RsaKey.load_pem_key(f, 'pw')
        ctx.check(bytes(again.keyid().value()) == bytes(key.keyid().value()) == hashlib.sha256(bytes(key.public_key_der())).digest(), None, 'another key id')
        public = RsaKey(again.public_key_pem())
        ctx.check(public.verify(b'm', signature=key.sign(b'm')) is True, None, 'the public key does not verify')
        ctx.check(bytes(again.decrypt_oaep_sha256(public.encrypt_oaep_sha256(b'x'))) == b'x', None, 'does not decrypt')
        ctx.check(len(key.sign(b'')) == bits // 8, None, 'not a key of %d bits' % bits)
        ctx.check(bytes(RsaKey.generate_private_key(bits).keyid().value()) != bytes(key.keyid().value()), None, 'the same key twice')
        ctx.step(6)
        ctx.trace('made')
        # nothing random in what is compared
        ctx.state(bits)
