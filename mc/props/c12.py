"""C12: no two encryptions under one key use the same nonce"""
import itertools
import os
import random
import time

from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
from ccnpy.flic.RsaOaepCtx.RsaOaepImpl import RsaOaepImpl
from ccnpy.flic.RsaOaepCtx.RsaOaepWrapper import RsaOaepWrapper
from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
from ccnpy.core.KeyId import KeyId
from ccnpy.flic.ManifestTree import ManifestTree
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tree.TreeIO import TreeIO

from .. import lib, sec, wire
from ..engine import raises
from ..sec import Setting

PID = 'C12'
TECHNIQUE = 'model checking: exhaustive enumeration of encryption histories of the real code, each run in processes forked from one state with the clock, process id and pseudo-random generators fixed; nonces of all runs compared'
BOUND = {
    'quick': 'all histories up to length 4 over 7 operations (2 encryptor objects of one key, create_encrypted_manifest, equal and different nodes, a new encryptor, publishing a tree), for AEAD and RSA-OAEP encryptors, 9 settings (modes, key sizes, salts, KDF); every history in 2 processes forked before the history, and every history up to length 2 also forked after each of its operations; histories of 4096 encryptions with one encryptor, 70000 for 3 of them; 40 salts at the extremes',
    'thorough': 'histories up to length 5, forked after each operation up to length 3; 262144 encryptions with one encryptor',
}
ASSUMPTIONS = ['the system random source does not repeat 8 bytes within a run (probability below 2^-27)']

SETTINGS = [
    Setting('GCM', 128, None), Setting('GCM', 256, 0), Setting('CCM', 128, 0x01020304), Setting('CCM', 256, None),
    Setting('GCM', 128, 0xFFFFFFFF, 0, 1, b'info', 5), Setting('CCM', 256, 7, 1 << 40, 3),
]
# which encryptor classes: (class, setting)
KINDS = [('aead', s) for s in SETTINGS] + [('rsa', SETTINGS[1]), ('rsa', SETTINGS[2]), ('rsa', SETTINGS[5])]
OPS = 'abcnpAm'
LONGEST = (0, 2, 6)


def units(tier):
    u = []
    for i in range(len(KINDS)):
        for a in OPS:
            u.append(dict(kind='histories', which=i, first=a))
        u.append(dict(kind='long', which=i))
    u.append(dict(kind='salts'))
    u.append(dict(kind='newkeys'))
    return u


def run(unit, ctx):
    globals()[unit['kind']](unit, ctx)


def make(kind, s):
    p = sec.params(s)
    if kind == 'aead':
        return AeadEncryptor(p)
    return RsaOaepEncryptor(lib.rsa('RSAA'), p)


class World:
    """The objects of one history: two encryptors with one key (the second made on first use), and one AeadImpl"""

    def __init__(self, kind, s):
        self.kind, self.s = kind, s
        self.e1 = make(kind, s)
        self.e2 = None
        self.out = []       # wire bytes of manifests

    def put(self, parts):
        c, n, t = parts
        self.out.append(Manifest(security_ctx=c, node=n, auth_tag=t).serialize().tobytes())

    def op(self, o):
        s = self.s
        if o == 'a':
            self.put(self.e1.encrypt(sec.build_node(0)))
        elif o == 'A':
            self.put(self.e1.encrypt(sec.build_node(1), include_wrapper=True))
        elif o == 'b':
            if self.e2 is None:
                self.e2 = make(self.kind, s)
            self.put(self.e2.encrypt(sec.build_node(0)))
        elif o == 'n':
            self.put(make(self.kind, s).encrypt(sec.build_node(0)))
        elif o == 'c':
            self.out.append(AeadImpl(sec.params(s)).create_encrypted_manifest(sec.build_node(0)).serialize().tobytes())
        elif o == 'm':
            if self.kind == 'rsa':
                key = lib.rsa('RSAA')
                p = sec.params(s)
                w = RsaOaepWrapper.create_sha256(key_id=KeyId(key.keyid()), wrapped_key=WrappedKey.create(key, p))
                self.out.append(RsaOaepImpl(w, p).create_encrypted_manifest(sec.build_node(0), include_wrapper=True).serialize().tobytes())
            else:
                # the parameters object shared between two implementations
                p = sec.params(s)
                self.out.append(AeadImpl(p).create_encrypted_manifest(sec.build_node(0)).serialize().tobytes())
                self.out.append(AeadImpl(p).create_encrypted_manifest(sec.build_node(0)).serialize().tobytes())
        elif o == 'p':
            opts = lib.options(dict(schema='H1', opts='', enc='', sign='', mps=900, deg=2))
            opts.manifest_encryptor = self.e1
            w = TreeIO.PacketMemoryWriter()
            ManifestTree(data_input=lib.Input(lib.data(2600)), packet_output=w, tree_options=opts).build()
            for p in w.packets:
                x = wire.packet(p.serialize().tobytes())
                if x.ptype == wire.MANIFEST and wire.manifest(x.payload).encrypted is not None:
                    self.out.append(x.payload)


class Frozen:
    """Fixes everything but the system random source that could make two processes differ"""

    def __enter__(self):
        self.saved = [(m, n, getattr(m, n)) for m, n in ((time, 'time'), (time, 'time_ns'), (time, 'monotonic'), (time, 'monotonic_ns'),
                                                          (time, 'perf_counter'), (time, 'perf_counter_ns'), (time, 'process_time'), (os, 'getpid'))]
        for m, n, f in self.saved:
            v = f()
            setattr(m, n, lambda v=v: 1700000000 if not isinstance(v, float) else 1700000000.0)
        random.seed(4711)

    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)


def in_child(fn):
    """Result (list of bytes) of fn in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                with Frozen():
                    res = fn()
            except BaseException as e:
                res = [b'!' + repr(e).encode()]
            buf = b''.join(len(b).to_bytes(4, 'big') + b for b in res)
            while buf:
                buf = buf[os.write(w, buf):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    out = []
    while buf:
        n = int.from_bytes(buf[:4], 'big')
        out.append(buf[4:4 + n])
        buf = buf[4 + n:]
    return out


def verify(ctx, case, s, manifests, seen):
    """Fields, lengths, that every manifest decrypts independently with the 12-byte IV, and that no nonce was seen before"""
    for w in manifests:
        if w[:1] == b'!':
            ctx.fail(case, 'unexpected exception ' + w[1:].decode())
            continue
        m = wire.manifest(w)
        msg = sec.check_fields(s, m.sec)
        ctx.check(msg is None, case, msg)
        iv = (b'' if s.salt is None else s.salt.to_bytes(4, 'big')) + m.sec.nonce
        ctx.check(len(iv) == 12, case, 'the IV has %d bytes' % len(iv))
        exc, _ = raises(wire.decrypt, m, sec.key_bytes(s), s.salt, s.kdf_salt)
        ctx.check(exc is None, case, 'does not decrypt with IV = salt, nonce: %r' % exc)
        if m.sec.nonce in seen:
            ctx.fail(case, 'nonce %s was used before, in %s' % (m.sec.nonce.hex(), seen[m.sec.nonce]))
        seen[m.sec.nonce] = str(case)
        ctx.step()


def histories(unit, ctx):
    kind, s = KINDS[unit['which']]
    lib.rsa('RSAA')
    length = 5 if ctx.tier == 'thorough' else 4
    fork_len = 3 if ctx.tier == 'thorough' else 2
    seen = {}
    n = 0
    # long histories are run in groups, in one process each (the objects of each history are its own)
    for rest in itertools.chain.from_iterable(itertools.product(OPS, repeat=k) for k in range(0, length)):
        h = unit['first'] + ''.join(rest)
        n += 1
        if len(h) <= fork_len:
            for at in range(0, len(h) + 1):
                # the objects exist and `at` operations are done, then two processes go on
                with Frozen():
                    w = World(kind, s)
                    for o in h[:at]:
                        w.op(o)
                case = dict(encryptor=kind, setting=sec.text(s), history=h, forked_after=at)
                ctx.case = case
                verify(ctx, dict(case, process='parent'), s, w.out, seen)
                have = len(w.out)
                tail = h[at:] + ('a' if at == len(h) else '')
                for child in (1, 2):
                    def go():
                        for o in tail:
                            w.op(o)
                        return w.out[have:]
                    verify(ctx, dict(case, process=child), s, in_child(go), seen)
                ctx.trace('forked')
                ctx.state((unit['which'], h, at))
    hs = [unit['first'] + ''.join(r) for r in itertools.chain.from_iterable(itertools.product(OPS, repeat=k) for k in range(0, length))]
    # the same history in two forked processes that differ in nothing but the system random source
    def go(h):
        w = World(kind, s)
        for o in h:
            w.op(o)
        return w.out
    if length > 4:
        hs = [h for h in hs if len(h) < 5 or h.count('p') <= 1]
    for g in range(0, len(hs), 25):
        group = hs[g:g + 25]
        def all_of():
            out = []
            for h in group:
                with Frozen():      # each history starts from the same generators and time
                    out += go(h)
            return out
        for child in (1, 2):
            got = in_child(all_of)
            verify(ctx, dict(encryptor=kind, setting=sec.text(s), histories=group, process=child), s, got, seen)
        for h in group:
            ctx.state((unit['which'], h))
            ctx.trace('histories', 2)
    ctx.sample(histories=len(hs), nonces=len(seen))


def long(unit, ctx):
    kind, s = KINDS[unit['which']]
    n = (1 << 18 if ctx.tier == 'thorough' else 70000) if unit['which'] in LONGEST else 4096
    w = World(kind, s)
    seen = set()
    node = sec.build_node(0)
    size = 12 if s.salt is None else 8
    ones = [0] * (size * 8)
    pairs = {}
    case = dict(encryptor=kind, setting=sec.text(s), encryptions=n)
    acc = []
    for i in range(n):
        c, _, _ = w.e1.encrypt(node)
        nonce = bytes(wire.sec_of(c.serialize().tobytes()[4:]).nonce)
        if len(nonce) != size:
            ctx.fail(dict(case, at=i), 'the nonce has %d bytes' % len(nonce))
        if nonce in seen:
            ctx.fail(dict(case, at=i), 'nonce %s was used before' % nonce.hex())
        seen.add(nonce)
        acc.append(int.from_bytes(nonce, 'big'))
        ctx.step()
    # every bit of the nonce varies, independently of every other bit (a nonce with fixed, repeated or derived bits is not all random)
    cols = []
    for b in range(size * 8):
        v = 0
        for k, x in enumerate(acc):
            if x >> b & 1:
                v |= 1 << k
        cols.append(v)
    full = (1 << n) - 1
    for b, v in enumerate(cols):
        ctx.check(0 < v < full, case, 'bit %d of the nonce never changes' % b)
        for b2 in range(b):
            x = v ^ cols[b2]
            ctx.check(0 < x < full, case, 'bits %d and %d of the nonce are tied' % (b2, b))
    # nor does it count or depend on the encryption before
    diffs = {(y - x) % (1 << (size * 8)) for x, y in zip(acc, acc[1:])}
    ctx.check(len(diffs) > n // 2, case, 'differences of successive nonces repeat')
    diffs = {x ^ y for x, y in zip(acc, acc[1:])}
    ctx.check(len(diffs) > n // 2, case, 'differences of successive nonces repeat')
    ctx.trace('long', n)
    ctx.state(unit)


def salts(unit, ctx):
    """The salt makes the IV 12 bytes and is never sent in clear"""
    values = sorted({0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xDEADBEEF} |
                    {1 << i for i in range(32)})
    for (mode, bits) in sec.MODE_NUMBER:
        for kind in ('aead', 'rsa'):
            for salt in values:
                s = Setting(mode, bits, salt, keynum=3)
                case = dict(encryptor=kind, setting=sec.text(s))
                w = World(kind, s)
                with ctx.guard(case):
                    for o in 'aAn':
                        w.op(o)
                    verify(ctx, case, s, w.out, {})
                    # sent in clear: present in every manifest with this salt
                    if salt.bit_count() > 3 and salt != 0xFFFFFFFF:
                        for form in (salt.to_bytes(4, 'big'), salt.to_bytes(4, 'little')):
                            ctx.check(not all(form in x for x in w.out), case, 'the salt is in every manifest')
                    nonces = [wire.manifest(x).sec.nonce for x in w.out]
                    for form in (salt.to_bytes(4, 'big'), salt.to_bytes(4, 'little')):
                        for at in range(5):
                            ctx.check(not all(x[at:at + 4] == form for x in nonces), case, 'the nonce holds the salt')
                ctx.state((mode, bits, kind, salt))
                ctx.trace('salt')
            # a salt that is not a 4-byte number cannot make a 12-byte IV
            for salt in (-1, 1 << 32, 1 << 40, (1 << 64) - 1):
                s = Setting(mode, bits, salt, keynum=3)

                def go():
                    w = World(kind, s)
                    w.op('a')
                    return w.out
                exc, out = raises(go)
                ctx.check(exc is not None, dict(encryptor=kind, setting=sec.text(s)), 'a salt that does not fit was accepted')
                ctx.trace('refused')


def newkeys(unit, ctx):
    """create_with_new_content_key: keys and salts are fresh too, in processes that differ in nothing but the system random source"""
    from .. import keys
    private = keys.private(keys.RSAA)
    lib.rsa('RSAA')

    def go():
        out = []
        for i in range(6):
            with Frozen():
                e = RsaOaepEncryptor.create_with_new_content_key(lib.rsa('RSAA'), None)
                for k in range(3):
                    c, n, t = e.encrypt(sec.build_node(0), include_wrapper=True)
                    out.append(Manifest(security_ctx=c, node=n, auth_tag=t).serialize().tobytes())
        return out
    seen, contents = {}, {}
    for child in range(8):
        for w in in_child(go):
            case = dict(process=child)
            m = wire.manifest(w)
            salt, key = wire.unwrap(m.sec, private)
            ctx.check(len(m.sec.nonce) == 8, case, 'nonce of %d bytes' % len(m.sec.nonce))
            exc, _ = raises(wire.decrypt, m, key, salt)
            ctx.check(exc is None, case, 'does not decrypt independently')
            ctx.check(m.sec.nonce not in seen, case, 'nonce used before')
            seen[m.sec.nonce] = 1
            ident = m.sec.wrapped
            ctx.check(contents.setdefault(key, ident) == ident, case, 'a content key was made twice')
            ctx.trace('new key')
            ctx.step()
    ctx.check(len(contents) == 48, dict(), '%d content keys for 48 encryptors' % len(contents))
    ctx.state('newkeys')
