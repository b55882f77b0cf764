"""C17: a name constructor definition applies to its own branch of the tree, and the nearest one wins"""
import itertools
import tempfile

from ccnpy.flic.tree.Traversal import Traversal
from ccnpy.flic.tree.TreeIO import TreeIO

from .. import forge, lib, sec, wire
from ..engine import raises
from ..sec import Setting

PID = 'C17'
TECHNIQUE = 'model checking: exhaustive enumeration of manifest trees with name constructor definitions, traversed by the real reader; every request compared with a lexical-scoping model'
BOUND = {
    'quick': '6 tree shapes of up to 5 manifests (nested, siblings, one manifest below two parents, below itself defined twice), every choice of definitions (none, either, both of two ids) and of group ids in every manifest with two groups each, 6 assignments of schema kinds and 4 pairs of ids; group without id; one reader over all ordered pairs of 40 trees; each fetch order and store kind; manifests encrypted; chains of 8 to 100 manifests with 5 ids under 7 rules of redefinition; 3 to 400 definitions and groups in one manifest',
    'thorough': 'as quick, all kinds and ids in every shape, reader over all triples of 24 trees',
}
ASSUMPTIONS = ['a manifest has at most one definition for an id']
UNIT_TIMEOUT = {'quick': 800, 'thorough': 7200}

# shapes: manifest -> (children of its first group, children of its second group); '.' is a data object
SHAPES = {
    'nested': {0: ('.1.', '.'), 1: ('.2.', '.'), 2: ('.', '.')},
    'siblings': {0: ('.1.', '.2.'), 1: ('.', '.'), 2: ('.', '.')},
    'cousins': {0: ('1.', '.2'), 1: ('.3.', '.'), 2: ('.', '.'), 3: ('.', '.')},
    'shared': {0: ('.1', '2.'), 1: ('.3', '.'), 2: ('3', '.'), 3: ('.', '.')},
    'twice': {0: ('1.', '.1'), 1: ('.2', '.'), 2: ('.', '.')},
    'fan': {0: ('1.2', '.'), 1: ('.', '.'), 2: ('.', '3'), 3: ('', '.')},
}
KINDS = ['PPPPPPPPPP', 'SSSSSSSSSS', 'HHHHHHHHHH', 'PSHPSHPSHP', 'SPPHSPPHSP', 'HSSPHSSPHS']
IDS = [(0, 1), (0, 256), (7, 65535), (1, 1 << 40)]
DEFS = [(), (0,), (1,), (0, 1)]
GROUPS = list(itertools.product((0, 1), repeat=2))
START = 250          # segment ids cross an encoding boundary


def units(tier):
    u = []
    for s in SHAPES:
        n = len(SHAPES[s])
        for d in range(4):
            for g in range(4):
                if tier == 'thorough':
                    u += [dict(kind='shape', shape=s, kinds=k, ids=i, defs=d, groups=g) for k in range(len(KINDS)) for i in range(len(IDS))]
                elif n == 3:
                    u += [dict(kind='shape', shape=s, kinds=k, ids=0, defs=d, groups=g) for k in range(len(KINDS))]
                    u += [dict(kind='shape', shape=s, kinds=3, ids=i, defs=d, groups=g) for i in (1, 2, 3)]
                else:
                    u.append(dict(kind='shape', shape=s, kinds=3 + (d + g) % 3, ids=(d + 2 * g) % 4, defs=d, groups=g))
    u += [dict(kind='sequences', part=p, n=2 if tier == 'quick' else 3, count=40 if tier == 'quick' else 24) for p in range(8)]
    u += [dict(kind='deep', depth=n) for n in (8, 20, 60, 100)] + [dict(kind='many', n=n) for n in (3, 30, 255, 256, 257, 400)]
    u += [dict(kind='no_id'), dict(kind='stores', part=0), dict(kind='stores', part=1)]
    return u


def run(unit, ctx):
    globals()[unit['kind']](unit, ctx)


class Forge:
    """A tree in which every packet carries the name under which it must be asked for"""

    def __init__(self, shape, defs, groups, kinds, ids, encrypt=(), salt=0):
        self.shape, self.defs, self.groups, self.kinds, self.ids, self.encrypt, self.salt = SHAPES[shape] if isinstance(shape, str) else shape, defs, groups, kinds, ids, encrypt, salt
        self.wires = {}
        self.n = 0
        # the model: preorder with an explicit scope.  requests until the first undefined id
        self.requests, self.data, self.undefined = [], [], False
        self.count = 0
        self.cache = {}
        self.root = self.packet(0)
        self.root_name = ((1, b'root'),)
        self.walk(0, {})

    def prefix(self, m, i):
        return ((1, b'm%d' % m), (1, b'i%d' % i), (1, b't%d' % self.salt))

    def kind(self, m, i):
        return self.kinds[(2 * m + i) % len(self.kinds)]

    def leaf(self, m, g, k):
        w = forge.packet(forge.co(b'<%d.%d.%d.%d>' % (self.salt, m, g, k)))
        self.wires[forge.hash_of(w)] = w
        return w

    def packet(self, m):
        if m in self.cache:
            return self.cache[m]
        gs = []
        for g in range(len(self.shape[m])):
            ptrs = []
            for k, c in enumerate(self.shape[m][g]):
                ptrs.append(forge.hash_of(self.leaf(m, g, k) if c == '.' else self.packet(int(c))))
            gs.append(forge.group(ptrs, self.ids[self.groups[m][g]], START + 5 * g))
        nds = [forge.nc_def(self.ids[i], forge.schema(self.kind(m, i), self.prefix(m, i))) for i in self.defs[m]]
        value = forge.node(gs, nds if nds else None)
        if m in self.encrypt:
            payload = forge.encrypted_manifest(value, ENC, bytes([m]) * 12)
        else:
            payload = forge.plain_manifest(value)
        w = forge.packet(forge.co(payload, ptype=3))
        self.wires[forge.hash_of(w)] = w
        self.cache[m] = w
        return w

    def walk(self, m, scope):
        """False when an undefined id was met"""
        self.count += 1
        scope = dict(scope)
        for i in self.defs[m]:
            scope[i] = (self.kind(m, i), self.prefix(m, i))
        for g in range(len(self.shape[m])):
            i = self.groups[m][g]
            for k, c in enumerate(self.shape[m][g]):
                if i not in scope:
                    self.undefined = True
                    return False
                kind, prefix = scope[i]
                name = {'H': None, 'P': prefix}.get(kind, prefix + ((5, wire.varint(START + 5 * g + k)),) if kind == 'S' else None)
                w = self.leaf(m, g, k) if c == '.' else self.packet(int(c))
                self.requests.append((name, forge.hash_of(w)))
                if c == '.':
                    self.count += 1
                    self.data.append(wire.packet(w).payload)
                elif not self.walk(int(c), scope):
                    return False
        return True


ENC = Setting(keynum=3)


def choices(shape, first_defs=None, first_groups=None):
    n = len(SHAPES[shape])
    for defs in itertools.product(DEFS, repeat=n - (first_defs is not None)):
        if first_defs is not None:
            defs = (DEFS[first_defs],) + defs
        for groups in itertools.product(GROUPS, repeat=n - (first_groups is not None)):
            if first_groups is not None:
                groups = (GROUPS[first_groups],) + groups
            yield defs, groups


def keystore():
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    return InsecureKeystore().add_aes_key(sec.params(ENC))


class Store(lib.MapStore):
    def __init__(self, by_hash):
        self.by_hash, self.requests = dict(by_hash), []


def compare(ctx, case, f, t, store, sink, exc):
    want = [(f.root_name, forge.hash_of(f.root))] + f.requests
    ctx.check(store.requests == want, case, lambda: 'requests %s instead of %s' % (text(store.requests), text(want)))
    ctx.check((exc is not None) == f.undefined, case, 'undefined id but no error' if f.undefined else 'not read: %r' % exc)
    ctx.check(sink.bytes() == b''.join(f.data), case, 'delivered %r instead of %r' % (sink.bytes(), f.data))
    ctx.step(len(want))


def text(requests):
    return ['%s@%s' % ('-' if n is None else '/'.join('%d:%s' % (t, v.decode('latin1')) for t, v in n), h.hex()[:6]) for n, h in requests]


def shape(unit, ctx):
    kinds, ids = KINDS[unit['kinds']], IDS[unit['ids']]
    for defs, groups in choices(unit['shape'], unit['defs'], unit['groups']):
        f = Forge(unit['shape'], defs, groups, kinds, ids)
        store, sink = Store(f.wires), lib.Sink()
        t = Traversal(store, sink)
        exc, _ = raises(t.traverse, lib.N('ccnx:/root'), lib.hash_value(forge.hash_of(f.root)))
        case = dict(unit, defs=defs, groups=groups)
        compare(ctx, case, f, t, store, sink, exc)
        if not f.undefined:
            ctx.check(t.count() == f.count, case, 'count %d instead of %d' % (t.count(), f.count))
        ctx.trace('undefined id' if f.undefined else 'read')
        ctx.state((unit['shape'], kinds, ids, defs, groups))
    ctx.sample(last=dict(defs=defs, groups=groups, requests=text(f.requests)))


def read_all(unit, ctx, f, case):
    store, sink = Store(f.wires), lib.Sink()
    t = Traversal(store, sink)
    exc, _ = raises(t.traverse, lib.N('ccnx:/root'), lib.hash_value(forge.hash_of(f.root)))
    compare(ctx, case, f, t, store, sink, exc)
    if not f.undefined:
        ctx.check(t.count() == f.count, case, 'count %d instead of %d' % (t.count(), f.count))
    ctx.trace('undefined id' if f.undefined else 'read')
    ctx.state(case)


def deep(unit, ctx):
    """A chain of manifests: definitions reach down to the end of the chain and up from it to the data after each child"""
    n = unit['depth']
    chain = {m: (('.', m + 1, '.'), ('.',)) if m < n - 1 else (('.',), ('.', '.')) for m in range(n)}
    every = tuple(range(5))
    for rule in ('root', 'rotate', 'even', 'half', 'last', 'all', 'missing'):
        for kinds in (KINDS[3], KINDS[1]):
            for step in (1, 2):
                defs = []
                for m in range(n):
                    defs.append(every if m == 0 and rule != 'missing' else every[:4] if m == 0 else
                                {'root': (), 'missing': (4,) if m == n - 1 else (), 'rotate': (m % 5,), 'even': () if m % 2 else (0, 3), 'half': (1, 2) if m == n // 2 else (),
                                 'last': every if m == n - 1 else (), 'all': every}[rule])
                groups = [(m * step % 4, (m + 2) % 4) if m < n - 1 else (3, 4) for m in range(n)]
                f = Forge(chain, defs, groups, kinds, (0, 1, 256, 7, 1 << 33))
                read_all(unit, ctx, f, dict(unit, rule=rule, kinds=kinds, step=step))
    ctx.sample(depth=n, requests=len(f.requests))


def many(unit, ctx):
    """Many definitions and groups in one manifest, used there and below it"""
    n = unit['n']
    for first in (0, 1, 200):
        ids = [first + i for i in range(n)]
        for order in ('same', 'reversed'):
            gs = list(range(n)) if order == 'same' else list(range(n))[::-1]
            shape_ = {0: [('.',)] * (n // 2) + [(1,)] + [('.',)] * (n - n // 2 - 1), 1: [('.',)] * n}
            f = Forge(shape_, [tuple(range(n)), (n // 2,)], [gs, gs[::-1]], KINDS[3], ids)
            read_all(unit, ctx, f, dict(unit, first=first, order=order))
    ctx.sample(definitions=n)


def some(count):
    """A spread of trees of all shapes, with and without undefined ids"""
    out = []
    for s in SHAPES:
        n = len(SHAPES[s])
        all_defs = [tuple(DEFS[(a + b * k) % 4] for k in range(n)) for a in range(4) for b in (1, 2, 3)] + [((0, 1),) + ((),) * (n - 1), ((1,),) + ((0,),) * (n - 1)]
        for j, d in enumerate(all_defs):
            out.append((s, d, tuple(GROUPS[(j + k) % 4] for k in range(n))))
    step = len(out) / count
    return [out[int(i * step)] for i in range(count)]


def sequences(unit, ctx):
    """One reader over several trees: nothing is left over from one to the next, also after an error"""
    specs = some(unit['count'])
    forged = []
    for i, (s, d, g) in enumerate(specs):
        forged.append(Forge(s, d, g, KINDS[i % 6], IDS[0], salt=i % 3, encrypt=(1,) if i % 4 == 0 else ()))
    wires = {}
    for f in forged:
        wires.update(f.wires)
    ks = keystore()
    for n, idx in enumerate(itertools.product(range(len(forged)), repeat=unit['n'])):
        if n % 8 != unit['part']:
            continue
        store, sink = Store(wires), lib.Sink()
        t = Traversal(store, sink, ks)
        for step, i in enumerate(idx):
            f = forged[i]
            store.requests.clear()
            sink.parts.clear()
            exc, _ = raises(t.traverse, lib.N('ccnx:/root'), lib.hash_value(forge.hash_of(f.root)))
            compare(ctx, dict(trees=[specs[j] for j in idx], step=step), f, t, store, sink, exc)
        ctx.trace('sequence')
        ctx.state(idx)


def no_id(unit, ctx):
    """A group that names no constructor is an error: nothing is asked for under some other name"""
    d = forge.packet(forge.co(b'data'))
    other = forge.packet(forge.co(b'other'))
    for defs in ([], [0], [1], [0, 1], [0, 1, 2]):
        for sizes in ((), ((2, 4),)):
            for first in (None, 0, 1):
                for start in (None, 0, 7):
                    nds = [forge.nc_def(i, forge.schema('P', ((1, b'p%d' % i),))) for i in defs]
                    gs = ([] if first is None else [forge.group([forge.hash_of(other)], first)]) + [forge.group([forge.hash_of(d)], None, start, sizes)]
                    w = forge.packet(forge.co(forge.plain_manifest(forge.node(gs, nds)), ptype=3))
                    store, sink = lib.MapStore([d, other, w]), lib.Sink()
                    exc, _ = raises(Traversal(store, sink).traverse, lib.N('ccnx:/root'), lib.hash_value(forge.hash_of(w)))
                    case = dict(defs=defs, first=first, start=start)
                    ctx.check(exc is not None and forge.hash_of(d) not in [h for _, h in store.requests], case, 'asked for %s' % text(store.requests))
                    ctx.check(sink.bytes() == (b'other' if first in defs else b''), case, 'delivered %r' % sink.bytes())
                    ctx.trace('refused')
                    ctx.step()
                    ctx.state(case)


def stores(unit, ctx):
    """Named packets in the real stores: read exactly when every packet is asked for under its own name"""
    for s, defs, groups in some(60):
        f = Forge(s, defs, groups, KINDS[4], IDS[unit['part'] * 2])
        # give each data packet the name derived for it (or another), when it is asked for once
        names = {}
        for name, h in f.requests:
            names.setdefault(h, set()).add(name)
        if s in ('shared', 'twice'):
            continue
        for wrong in (None, 0, 1):
            g = Named(f, wrong)
            if wrong is not None and g.wrong is None:
                continue
            ok = wrong is None and not f.undefined
            for store_kind in ('memory', 'directory'):
                sink = lib.Sink()
                if store_kind == 'memory':
                    exc, _ = raises(Traversal(TreeIO.PacketMemoryReader([lib.parse(w) for w in g.all]), sink).traverse, lib.N('ccnx:/root'), lib.hash_value(forge.hash_of(g.root)))
                else:
                    with tempfile.TemporaryDirectory() as d:
                        wr = TreeIO.PacketDirectoryWriter(d)
                        for w in g.all:
                            wr.put(lib.parse(w))
                        exc, _ = raises(Traversal(TreeIO.PacketDirectoryReader(d), sink).traverse, lib.N('ccnx:/root'), lib.hash_value(forge.hash_of(g.root)))
                case = dict(shape=s, defs=defs, groups=groups, wrong=wrong, store=store_kind)
                ctx.check((exc is None) == ok, case, 'not read: %r' % exc if ok else 'read although a name differs or an id is undefined')
                ctx.check(sink.bytes() == b''.join(f.data) if ok else b''.join(f.data).startswith(sink.bytes()), case, 'delivered %r' % sink.bytes())
                ctx.trace('read' if ok else 'refused')
                ctx.step(len(g.all))
        ctx.state((s, defs, groups))


class Named:
    """The same tree with each packet named as it is asked for; data packet number `wrong` is named otherwise"""

    def __init__(self, f, wrong):
        self.f, self.all, self.wrong = f, [], None
        self.target, self.seen = wrong, 0
        self.root = self.make(0, {}, ((1, b'root'),))

    def make(self, m, scope, name):
        f = self.f
        scope = dict(scope)
        for i in f.defs[m]:
            scope[i] = (f.kind(m, i), f.prefix(m, i))
        gs = []
        for g in (0, 1):
            ptrs = []
            kind, prefix = scope.get(f.groups[m][g], ('H', None))
            for k, c in enumerate(f.shape[m][g]):
                n = None if kind == 'H' else prefix if kind == 'P' else prefix + ((5, wire.varint(START + 5 * g + k)),)
                if c == '.':
                    if n is not None:
                        if self.seen == self.target:
                            self.wrong = n
                            n = n[:-1] + ((n[-1][0], n[-1][1] + b'x'),)
                        self.seen += 1
                    w = forge.packet(forge.co(b'<%d.%d.%d.%d>' % (f.salt, m, g, k), name=n))
                    self.all.append(w)
                else:
                    w = self.make(int(c), scope, n)
                ptrs.append(forge.hash_of(w))
            gs.append(forge.group(ptrs, f.ids[f.groups[m][g]], START + 5 * g))
        nds = [forge.nc_def(f.ids[i], forge.schema(f.kind(m, i), f.prefix(m, i))) for i in f.defs[m]]
        w = forge.packet(forge.co(forge.plain_manifest(forge.node(gs, nds if nds else None)), ptype=3, name=name))
        self.all.append(w)
        return w
