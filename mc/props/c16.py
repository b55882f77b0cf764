"""C16: over every history of manifests read with one reader, the key of each manifest is the one its security context names"""
import itertools

from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.tree.Traversal import Traversal

from .. import forge, keys, lib, sec, wire
from ..engine import raises
from ..sec import Setting

PID = 'C16'
TECHNIQUE = 'model checking: exhaustive enumeration of reading histories, each replayed on the real reader and compared step by step with an explicit model of the keys held'
BOUND = {
    'quick': 'all histories of 4 actions out of 17 (14 manifests: plain, preshared keys in two modes and with KDF, wrong key, wrong mode, missing key, wrapped key, wrapped key with damaged body, wrapped for a key not held, number only; 3 key arrivals and replacements) with one reader; all of 3 actions with two readers of one keystore; all trees with 3 of the 14 manifests below one root and one below another; all triples of 10 publications; all triples of 14 manifests under two keys with different derivations; 300 manifests with as many keys, preshared or wrapped, each read again forwards, backwards and in strides; all triples of 17 manifests under keys with a number or wrapping key in common, each read with a keystore of its own',
    'thorough': 'as quick with histories of 5 (one reader) and 4 (two readers), trees of 4',
}
ASSUMPTIONS = ['the key a context names is the one the reader holds for its key number, else the wrapped one it carries (the documented lookup order)',
               'AES-GCM/CCM and RSA-OAEP of the cryptography package are sound']
UNIT_TIMEOUT = {'quick': 800, 'thorough': 7200}

NAME = ((1, b'a'),)
NCS = [forge.nc_def(0, forge.schema('P', NAME))]

K1 = Setting(keynum=1, seed=1)
K1X = Setting(keynum=1, seed=9)
K2 = Setting(mode='CCM', bits=256, salt=7, keynum=2, seed=2)
K3 = Setting(bits=256, keynum=3, seed=3)
K4 = Setting(salt=9, keynum=4, seed=4)
K5 = Setting(mode='CCM', salt=3, keynum=5, seed=5)
K5A = Setting(bits=256, salt=4, keynum=5, seed=6)

# label -> (kind, setting, PEM of the wrapping key, damaged)
MANIFESTS = {
    'plain': ('plain', None, None, False),
    'aead 1': ('aead', K1, None, False),
    'aead 1 other key': ('aead', K1X, None, False),
    'aead 1 CCM': ('aead', K1._replace(mode='CCM'), None, False),
    'aead 1 kdf': ('aead', K1._replace(kdf=1), None, False),
    'aead 2': ('aead', K2, None, False),
    'aead 3': ('aead', K3, None, False),
    'aead 4': ('aead', K4, None, False),
    'wrapped 4': ('rsa', K4, 'A', False),
    'wrapped 4 damaged': ('rsa', K4, 'A', True),
    'rsa 4': ('rsa', K4, None, False),
    'wrapped 5 for B': ('rsa', K5, 'B', False),
    'wrapped 5': ('rsa', K5A, 'A', False),
    'rsa 1': ('rsa', K1, None, False),
}
OPS = {'add key 3': K3, 'replace key 1': K1X, 'add B': None}
ACTIONS = list(MANIFESTS) + list(OPS)
PEM = {'A': keys.RSAA, 'B': keys.RSAB}


def units(tier):
    deep = tier == 'thorough'
    u = [dict(kind='histories', first=[a], n=4) for a in ACTIONS] if not deep else \
        [dict(kind='histories', first=[a, b], n=5) for a in ACTIONS for b in ACTIONS]
    u += [dict(kind='shared', first=a, n=4 if deep else 3) for a in ACTIONS]
    u += [dict(kind='trees', first=a, n=4 if deep else 3) for a in MANIFESTS]
    u += [dict(kind='published', first=e) for e in lib.ENCS]
    u += [dict(kind='derived', first=i, n=4 if deep else 3) for i in range(len(DERIVED))]
    u += [dict(kind='apart', first=i, n=4 if deep else 3) for i in range(len(APART))]
    u += [dict(kind='many', what=w, n=1200 if deep else 300) for w in ('aead', 'wrapped', 'both')]
    return u


def run(unit, ctx):
    globals()[unit['kind']](unit, ctx)


class World:
    """The model: which keys the keystore holds"""

    def __init__(self):
        self.held = {1: K1, 2: K2}
        self.rsa = {'A'}

    def keystore(self):
        ks = InsecureKeystore()
        for s in self.held.values():
            ks.add_aes_key(sec.params(s))
        for r in sorted(self.rsa):
            ks.add_rsa_key(r, lib.rsa('RSA' + r))
        return ks

    def reads(self, label):
        kind, s, wrap, damaged = MANIFESTS[label]
        if kind == 'plain':
            return True
        if s.keynum not in self.held:
            if kind == 'aead' or wrap not in self.rsa:
                return False
            self.held[s.keynum] = s
        h = self.held[s.keynum]
        return not damaged and (h.seed, h.mode, h.bits, h.salt) == (s.seed, s.mode, s.bits, s.salt)

    def op(self, label, ks):
        s = OPS[label]
        if s is None:
            self.rsa.add('B')
            ks.add_rsa_key('B', lib.rsa('RSAB'))
        else:
            self.held[s.keynum] = s
            ks.add_aes_key(sec.params(s))

    def view(self):
        return sorted(self.held.items()), sorted(self.rsa)


def manifest(label, pointers, nc_defs=NCS):
    """A packet with this security"""
    kind, s, wrap, damaged = MANIFESTS[label]
    value = forge.node([forge.group(pointers, 0)], nc_defs)
    if kind == 'plain':
        p = forge.plain_manifest(value)
    else:
        nonce = bytes(range(12 if s.salt is None else 8))
        p = forge.encrypted_manifest(value, s, nonce, rsa=None if kind == 'aead' else PEM[wrap or 'A'], wrapper=wrap is not None)
        if damaged:
            p = p[:-1] + bytes([p[-1] ^ 1])
    return forge.packet(forge.co(p, ptype=3, name=NAME))


def leaf(b):
    return forge.packet(forge.co(b, name=NAME))


_made = {}


def made():
    if not _made:
        for i, label in enumerate(MANIFESTS):
            body = b'<%d>' % i
            d = leaf(body)
            _made[label] = (body, manifest(label, [forge.hash_of(d)]), d)
    return _made


class Reader:
    def __init__(self, store, ks):
        self.sink = lib.Sink()
        self.t = Traversal(store, self.sink, ks)

    def read(self, w):
        before = len(self.sink.parts)
        exc, _ = raises(self.t.traverse, lib.N('ccnx:/a'), lib.hash_value(forge.hash_of(w)))
        return exc, b''.join(self.sink.parts[before:])


def histories(unit, ctx):
    m = made()
    store = lib.MapStore([w for _, a, b in m.values() for w in (a, b)])
    for rest in itertools.product(ACTIONS, repeat=unit['n'] - len(unit['first'])):
        follow(ctx, tuple(unit['first']) + rest, store, m, [0] * unit['n'])
    ctx.sample(actions=unit['first'] + ['...'], outcomes=dict(ctx.outcomes))


def shared(unit, ctx):
    """Two readers of one keystore"""
    m = made()
    store = lib.MapStore([w for _, a, b in m.values() for w in (a, b)])
    for rest in itertools.product(ACTIONS, repeat=unit['n'] - 1):
        for who in itertools.product((0, 1), repeat=unit['n'] - 1):
            follow(ctx, (unit['first'],) + rest, store, m, (0,) + who)


def follow(ctx, history, store, m, who):
    world = World()
    ks = world.keystore()
    readers = [Reader(store, ks) for _ in range(1 + max(who))]
    for i, (a, r) in enumerate(zip(history, who)):
        ctx.step()
        if a in OPS:
            world.op(a, ks)
            continue
        last = i == len(history) - 1
        if last:
            fresh = Reader(store, world.keystore())
        ok = world.reads(a)
        body, w, _ = m[a]
        store.requests.clear()
        results = [readers[r].read(w)] + ([fresh.read(w)] if last else [])
        for which, (exc, got) in zip(('reader', 'fresh reader'), results):
            if ok:
                if exc is not None or got != body:
                    ctx.fail(dict(history=history, readers=who, step=i, by=which), 'not decrypted: %r, %r' % (exc, got))
            elif exc is None or got:
                ctx.fail(dict(history=history, readers=who, step=i, by=which), 'no error: %r, %r' % (exc, got))
        ctx.state((world.view(), a, ok))
    ctx.trace('last decrypted' if history[-1] in MANIFESTS and ok else 'last refused' if history[-1] in MANIFESTS else 'last a key')


# one key for each mode; which key a manifest is encrypted with depends on its derivation alone
DERIVED = [Setting(mode=m, bits=b, keynum=k, seed=k, kdf=kdf, info=info)
           for k, m, b in ((7, 'GCM', 128), (8, 'CCM', 256)) for kdf, info in ((None, None), (1, None), (1, b'x'), (1, b'y'), (2, b'x'), (3, None), (3, b'x'))]


def derived(unit, ctx):
    """Manifests under the same key numbers with other derivations"""
    bodies = [b'<%d>' % i for i in range(len(DERIVED))]
    leaves = [leaf(b) for b in bodies]
    wires = [forge.packet(forge.co(forge.encrypted_manifest(forge.node([forge.group([forge.hash_of(d)], 0)], NCS), s, bytes(range(12))), ptype=3, name=NAME))
             for s, d in zip(DERIVED, leaves)]
    store = lib.MapStore(leaves + wires)
    for rest in itertools.product(range(len(DERIVED)), repeat=unit['n'] - 1):
        seq = (unit['first'],) + rest
        ks = InsecureKeystore()
        for s in DERIVED[::len(DERIVED) // 2]:
            ks.add_aes_key(sec.params(s))
        reader = Reader(store, ks)
        for k, i in enumerate(seq):
            exc, got = reader.read(wires[i])
            if exc is not None or got != bodies[i]:
                ctx.fail(dict(manifests=[sec.text(DERIVED[j]) for j in seq], step=k), 'not decrypted: %r, %r' % (exc, got))
            ctx.step()
        ctx.trace('read')
        ctx.state(seq)


def many(unit, ctx):
    """As many keys as manifests, and every manifest met again after all the others"""
    n = unit['n']
    preshared = [unit['what'] == 'aead' or unit['what'] == 'both' and i % 2 == 0 for i in range(n)]
    settings = [Setting(mode='GCM' if i % 2 else 'CCM', bits=256 if i % 3 else 128, salt=None if i % 5 == 0 and preshared[i] else i, keynum=i, seed=1000 + i) for i in range(n)]
    bodies = [b'<%d>' % i for i in range(n)]
    leaves = [leaf(b) for b in bodies]
    first, later = [], []
    for i, s in enumerate(settings):
        value = forge.node([forge.group([forge.hash_of(leaves[i])], 0)], NCS)
        nonce = bytes(12 if s.salt is None else 8)
        mk = lambda **kw: forge.packet(forge.co(forge.encrypted_manifest(value, s, nonce, **kw), ptype=3, name=NAME))      # noqa: E731
        first.append(mk() if preshared[i] else mk(rsa=keys.RSAA, wrapper=True))
        later.append(mk() if preshared[i] else mk(rsa=keys.RSAA, wrapper=False))
    store = lib.MapStore(leaves + first + later)
    ks = InsecureKeystore()
    ks.add_rsa_key('A', lib.rsa('RSAA'))
    for s, p in zip(settings, preshared):
        if p:
            ks.add_aes_key(sec.params(s))
    reader = Reader(store, ks)
    order = [(i, first) for i in range(n)] + [(i, later) for i in range(n)] + [(i, later) for i in reversed(range(n))]
    for stride in (7, 16, 17, 64, 101):
        order += [((i * stride) % n, later) for i in range(n)]
    for k, (i, ws) in enumerate(order):
        exc, got = reader.read(ws[i])
        if exc is not None or got != bodies[i]:
            ctx.fail(dict(what=unit['what'], step=k, manifest=i), 'not decrypted: %r, %r' % (exc, got))
        ctx.step()
    ctx.trace('read', len(order))
    ctx.state((unit['what'], n))
    # a manifest whose key never arrived
    s = Setting(keynum=n + 1, seed=5)
    lost = forge.packet(forge.co(forge.encrypted_manifest(forge.node([forge.group([forge.hash_of(leaves[0])], 0)], NCS), s, bytes(12)), ptype=3, name=NAME))
    exc, got = Reader(lib.MapStore(leaves + [lost]), ks).read(lost)
    ctx.check(exc is not None and not got, dict(what=unit['what'], manifest='without key'), 'no error: %r' % got)


def trees(unit, ctx):
    """The manifests below one root, and each below the one before"""
    for rest in itertools.product(MANIFESTS, repeat=unit['n'] - 1):
        labels = (unit['first'],) + rest
        for form in ('siblings', 'chain', 'chain, data last'):
            leaves = [leaf(b'(%d)' % i) for i in range(len(labels))]
            wires = list(leaves)
            if form == 'siblings':
                ms = [manifest(x, [forge.hash_of(d)], None) for x, d in zip(labels, leaves)]
                top = manifest('plain', [forge.hash_of(w) for w in ms])
                wires += ms + [top]
            else:
                below = None
                for i in reversed(range(len(labels))):
                    ptrs = [forge.hash_of(leaves[i])] + ([forge.hash_of(below)] if below else [])
                    if form != 'chain':
                        ptrs.reverse()
                    below = manifest(labels[i], ptrs, NCS if i == 0 else None)
                    wires.append(below)
                top = below
            world = World()
            oks = []
            for x in labels:
                oks.append(world.reads(x))
                if not oks[-1]:
                    break
            n = sum(oks)
            all_ok = n == len(labels)
            want = b''.join(b'(%d)' % i for i in range(n))
            if form == 'chain, data last':
                want = b''.join(b'(%d)' % i for i in reversed(range(n))) if all_ok else b''
            exc, got = Reader(lib.MapStore(wires), World().keystore()).read(top)
            ctx.check((exc is None) == all_ok and got == want, dict(manifests=labels, form=form), 'got %r, %r instead of %r' % (exc, got, want))
            ctx.step(len(labels))
            ctx.trace('read' if all_ok else 'refused')
            ctx.state((form, labels, n))


def published(unit, ctx):
    """Three publications with one reader that has all the keys"""
    encs = list(lib.ENCS)
    pubs = {}
    held = []
    for i, e in enumerate(encs):
        cfg = dict(schema='H1', opts='', enc=e, sign='', mps=900, deg=2)
        opts = lib.options(cfg)
        spec = lib.ENCS[e]
        if spec is not None and not spec.get('new'):
            p = lib.aead_params(spec, keynum=100 + i)
            opts.manifest_encryptor = RsaOaepEncryptor(lib.rsa(spec['wrap']), p) if 'wrap' in spec else AeadEncryptor(p)
            if 'wrap' not in spec:
                held.append(p)
        pubs[e] = lib.publish(cfg, lib.data(2500, seed=i * 100), opts=opts)
    store = lib.MapStore([w for p in pubs.values() for w in p.wires])
    for seq in itertools.product(encs, repeat=2):
        seq = (unit['first'],) + seq
        mine = InsecureKeystore()
        for p in held:
            mine.add_aes_key(p)
        mine.add_rsa_key('wrap', lib.rsa('RSAA'))
        reader = Reader(store, mine)
        for i, e in enumerate(seq):
            exc, got = reader.read(pubs[e].wires[-1])
            ctx.check(exc is None and got == pubs[e].content, dict(publications=seq, step=i), 'not read: %r' % exc)
            ctx.step(len(pubs[e].wires))
        ctx.trace('read')
        ctx.state(seq)


# keys that have their key number, wrapping key or both in common, each held by readers of its own
APART_KEYS = [Setting(keynum=4, seed=1, salt=1), Setting(keynum=4, seed=2, salt=1), Setting(keynum=4, seed=1, salt=2), Setting(mode='CCM', bits=256, keynum=4, seed=3, salt=0), Setting(keynum=4, seed=2, salt=1, kdf=1)]
# how the key reaches the reader, the key
APART = [(how, i) for how in ('wrapped A', 'wrapped B', 'preshared') for i in range(len(APART_KEYS))] + [('unknown', 0), ('unknown', 3)]


def apart(unit, ctx):
    """Readers with keystores of their own, one after the other in one process: none knows what another was given"""
    made, store = [], []
    for how, i in APART:
        s = APART_KEYS[i]
        d = leaf(b'<%s %d>' % (how.encode(), i))
        value = forge.node([forge.group([forge.hash_of(d)], 0)], NCS)
        wrapped = how.startswith('wrapped')
        p = forge.encrypted_manifest(value, s, bytes(range(8)), rsa=PEM[how[-1]] if wrapped else keys.RSAA if how == 'unknown' else None, wrapper=wrapped)
        w = forge.packet(forge.co(p, ptype=3, name=NAME))
        made.append((how, s, b'<%s %d>' % (how.encode(), i), w))
        store += [w, d]
    store = lib.MapStore(store)
    for rest in itertools.product(range(len(APART)), repeat=unit['n'] - 1):
        history = (unit['first'],) + rest
        for k in history:
            how, s, body, w = made[k]
            ks = InsecureKeystore()
            for a in 'AB':
                if how != 'wrapped ' + 'BA'['AB'.index(a)]:
                    ks.add_rsa_key(a, lib.rsa('RSA' + a))
            if how == 'preshared':
                ks.add_aes_key(sec.params(s))
            exc, got = Reader(store, ks).read(w)
            ctx.step()
            case = dict(history=[[APART[j][0], sec.text(APART_KEYS[APART[j][1]])] for j in history], at=[how, sec.text(s)])
            if how == 'unknown':
                ctx.check(exc is not None and got == b'', case, 'read without a key: %r' % (got,))
            else:
                ctx.check(exc is None and got == body, case, 'not decrypted: %r, %r' % (exc, got))
        ctx.trace(APART[history[-1]][0])
        ctx.state((history[-2:],))
