"""C30: hash group builders and the manifest factory make exactly the manifest they were asked for"""
import itertools
import math

from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.HashValue import HashValue
from ccnpy.flic.HashGroupBuilder import HashGroupBuilder
from ccnpy.flic.ManifestFactory import ManifestFactory
from ccnpy.flic.tlvs.GroupData import GroupData
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.LeafSize import LeafSize
from ccnpy.flic.tlvs.NcId import NcId
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.NodeData import NodeData
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
from ccnpy.flic.tree.HashGroupBuilderPair import HashGroupBuilderPair
from ccnpy.flic.tree.ManifestGraph import ManifestGraph

from .. import lib, wire
from ..engine import raises

PID = 'C30'
TECHNIQUE = 'model checking: exhaustive enumeration of the operation histories of the real builders and of all requests to the real factory, compared with a list and the independently parsed bytes'
BOUND = {
    'quick': 'hash group builders: all histories of 5 operations (append or prepend, direct or indirect, 2 sizes or none, a hash seen before or new) with a group taken after every operation, 6 pairs of limits; the pair of builders with one and two groups: all histories of 6 of its 3 operations; long histories of 300 operations.  Factory: {pointers, group, list of groups, node} x 8 option sets x sizes given or not (0, 255, 65536, 2^32) x definitions x group id x segment x {plain, GCM, CCM+KDF, wrapped} x full context or not x name x expiry x signer; every packet size limit around the size of the manifest; all histories of 3 requests to one factory of which some fail',
    'thorough': 'histories of 6 (pair: 8) operations, 10 encryptions, histories of 4 requests',
}
ASSUMPTIONS = ['the options decide about sizes only where the factory makes the element that holds them (as documented)']


def units(tier):
    d = tier == 'thorough'
    u = [dict(kind='builder', first=i, limits=l, n=6 if d else 5) for i in range(len(OPS)) for l in LIMITS]
    u += [dict(kind='pair', schema=s, limits=l, n=8 if d else 6) for s in ('H1', 'H2', 'P3', 'S1') for l in ((1, 1), (2, 3), (9, 9), (0, 2))]
    u += [dict(kind='long', step=i) for i in (1, 3, 7)]
    u += [dict(kind='requests', enc=e, source=s) for e in (lib.ENCS if d else ('', 'g', 'K', 'w')) for s in SOURCES]
    u += [dict(kind='limit', enc=e, source=s) for e in (lib.ENCS if d else ('', 'g', 'K', 'w')) for s in SOURCES]
    u += [dict(kind='history', enc=e, n=4 if d else 3) for e in ('', 'g', 'w')]
    return u


def run(unit, ctx):
    globals()[unit['kind']](unit, ctx)


def hv(i):
    return HashValue.create_sha256(hb(i))


def hb(i):
    return bytes(28) + i.to_bytes(4, 'big')


# -- builders -----------------------------------------------------------------------------------------------------------

# operation, size, whether the hash was used before
OPS = [(o, s, known) for o in ('append_direct', 'prepend_direct', 'append_indirect', 'prepend_indirect') for s, known in ((None, False), (7, False), (300, True))]
LIMITS = [(None, None), (2, 1), (1, 2), (0, 3), (3, 0), (2, 2)]


def parsed(group):
    """The group as it is on the wire"""
    node = wire.node_of(bytes(group.serialize()))
    return node.groups[0]


class Model:
    def __init__(self, limits):
        self.limits = [math.inf if x is None else x for x in limits]
        self.ptrs = []
        self.count = [0, 0]
        self.size = [0, 0]
        self.new = 0

    def next_hash(self, known):
        if known and self.new:
            return 1
        self.new += 1
        return self.new

    def add(self, op, h, size):
        kind = 0 if op.endswith('_direct') else 1
        if self.count[kind] >= self.limits[kind]:
            return False
        self.ptrs.insert(0 if op.startswith('prepend') else len(self.ptrs), hb(h))
        self.count[kind] += 1
        self.size[kind] += size or 0
        return True


def compare(ctx, b, m, flags):
    nc, seg, leaf, sub = flags
    g = b.hash_group(nc_id=None if nc is None else NcId(nc), start_segment_id=None if seg is None else StartSegmentId(seg), include_leaf_size=leaf, include_subtree_size=sub)
    ctx.step()
    got = parsed(g)
    want = wire.Group(nc_id=nc, start_segment=seg, leaf_size=m.size[0] if leaf else None, subtree_size=sum(m.size) if sub else None, ptrs=tuple(m.ptrs))
    ctx.check(got == want, flags, 'the group has %s instead of %s' % (got, want))
    return g


FLAGS = list(itertools.product((None, 300), (None, 0), (False, True), (False, True)))


def builder(unit, ctx):
    limits = unit['limits']
    for hist in itertools.product(range(len(OPS)), repeat=unit['n'] - 2):
        # the last two operations: without the sizes
        for tail in itertools.product((1, 3 + 2, 6 + 2, 9), repeat=1):
            play(ctx, limits, (unit['first'],) + hist + tail)


def play(ctx, limits, hist):
    kw = {}
    if limits[0] is not None:
        kw = dict(max_direct=limits[0], max_indirect=limits[1])
    b, m = HashGroupBuilder(**kw), Model(limits)
    ctx.case = dict(limits=limits, history=[OPS[i] for i in hist])
    kept = []
    for n, i in enumerate(hist):
        op, size, known = OPS[i]
        h = m.next_hash(known)
        ok = m.add(op, h, size)
        exc, _ = raises(getattr(b, op), hv(h), size)
        ctx.step()
        ctx.check((exc is None) == ok, n, '%s %s' % (op, 'was not refused beyond the limit' if exc is None else 'fails: %r' % exc))
        flags = FLAGS[(sum(hist) + n * 5) % len(FLAGS)]
        if m.ptrs:
            g = compare(ctx, b, m, flags)
            kept.append((g, bytes(g.serialize())))
        got = (b.direct_count(), b.indirect_count(), b.direct_size(), b.indirect_size(), b.is_direct_full(), b.is_indirect_full(), len(b.pointers()))
        want = (m.count[0], m.count[1], m.size[0], m.size[1], m.count[0] >= m.limits[0], m.count[1] >= m.limits[1], len(m.ptrs))
        ctx.check(got == want, n, 'the builder counts %s, not %s' % (got, want))
    for g, s in kept:
        ctx.check(bytes(g.serialize()) == s and tuple(bytes(x.value()) for x in g.pointers()) == parsed(g).ptrs, None, 'a group changed after it was made')
    ctx.state((limits, tuple(m.ptrs), tuple(m.size), tuple(m.count)))
    ctx.trace('ok' if all(m.count) else 'one kind')


def pair(unit, ctx):
    opts = lib.options(dict(schema=unit['schema'], mps=1500))
    name_ctx = NameConstructorContext.create(opts)
    two = unit['schema'] not in ('H1', 'P1')
    seg = unit['schema'].startswith('S')
    ids = [name_ctx.data_schema_impl.nc_id().id(), name_ctx.manifest_schema_impl.nc_id().id()]
    for hist in itertools.product(range(3), repeat=unit['n']):
        ctx.case = dict(unit, history=hist)
        b = HashGroupBuilderPair(name_ctx, *unit['limits'])
        ms = [Model(unit['limits'])] * 2 if not two else [Model((unit['limits'][0], 0)), Model((0, unit['limits'][1]))]
        for n, i in enumerate(hist):
            op = ('prepend_direct', 'prepend_indirect', 'append_indirect')[i]
            k = 0 if i == 0 else 1
            ok = ms[k].add(op, n + 1, n * 50)
            exc, _ = raises(getattr(b, op), hv(n + 1), n * 50)
            ctx.step()
            ctx.check((exc is None) == ok, n, '%s %s' % (op, 'was not refused beyond the limit' if exc is None else 'fails: %r' % exc))
            got = (b.is_direct_full(), b.is_indirect_full(), b.direct_size(), b.indirect_size())
            want = (ms[0].count[0] >= unit['limits'][0], ms[1].count[1] >= unit['limits'][1], ms[0].size[0], ms[1].size[1])
            ctx.check(got == want, n, 'the builders say %s, not %s' % (got, want))
        for leaf, sub in itertools.product((False, True), repeat=2):
            kw = dict(direct_start_segment_id=StartSegmentId(5), indirect_start_segment_id=StartSegmentId(77)) if seg else {}
            groups = [parsed(g) for g in b.hash_groups(include_leaf_size=leaf, include_subtree_size=sub, **kw)]
            want = [wire.Group(nc_id=ids[j], start_segment=(5, 77)[j] if seg else None, leaf_size=m.size[0] if leaf else None,
                               subtree_size=sum(m.size) if sub else None, ptrs=tuple(m.ptrs)) for j, m in enumerate(ms[:2 if two else 1])]
            ctx.check(groups == want, (leaf, sub), 'groups %s instead of %s' % (groups, want))
        ctx.state((unit['schema'], tuple(unit['limits']), hist))
        ctx.trace('two' if two else 'one')


def long(unit, ctx):
    """A builder filled far"""
    b, m = HashGroupBuilder(), Model((None, None))
    for i in range(300):
        op, size, known = OPS[i * unit['step'] % len(OPS)]
        size = i * 1000003 if size else size
        ctx.case = dict(unit, i=i)
        h = m.next_hash(known)
        m.add(op, h, size)
        getattr(b, op)(hv(h), size)
        g = compare(ctx, b, m, FLAGS[i % len(FLAGS)])
        ctx.state(bytes(g.serialize()))
        ctx.trace('ok')


# -- factory --------------------------------------------------------------------------------------------------------------

SOURCES = ('pointers', 'group', 'groups', 'node')
SIZES = (None, 0, 255, 65536, 1 << 32)


def source_of(kind):
    """-> the object, and (subtree size, groups) it has of itself"""
    if kind == 'pointers':
        return Pointers([hv(1), hv(2), hv(1)]), None, [(None, None, None, None, (1, 2, 1))]
    a = HashGroup(group_data=GroupData(leaf_size=LeafSize(3)), pointers=Pointers([hv(1)]))
    b = HashGroup(group_data=GroupData(nc_id=NcId(9), start_segment_id=StartSegmentId(300), subtree_size=SubtreeSize(70000)), pointers=Pointers([hv(4), hv(3)]))
    ga, gb = (None, None, 3, None, (1,)), (9, 300, None, 70000, (4, 3))
    if kind == 'group':
        return a, None, [ga]
    if kind == 'groups':
        return [a, b], None, [ga, gb]
    return Node(node_data=NodeData(subtree_size=SubtreeSize(12)), hash_groups=[b, a]), 12, [gb, ga]


def expected(kind, o, node_size, group_size, leaf, defs, nc, seg):
    """-> the node that the manifest must hold"""
    _, own, groups = source_of(kind)
    groups = [wire.Group(nc_id=g[0], start_segment=g[1], leaf_size=g[2], subtree_size=g[3], ptrs=tuple(hb(i) for i in g[4])) for g in groups]
    if kind == 'node':
        return wire.Node(subtree_size=own, nc_defs=(), groups=tuple(groups), has_data=True)
    if kind == 'pointers':
        groups = [wire.Group(nc_id=nc, start_segment=seg, leaf_size=leaf if 'l' in o else None, subtree_size=group_size if 'g' in o else None, ptrs=groups[0].ptrs)]
    size = node_size if 'n' in o else None
    return wire.Node(subtree_size=size, nc_defs=defs, groups=tuple(groups), has_data=bool(defs) or size is not None)


def node_in(packet, enc, opener):
    p = wire.packet(bytes(packet.serialize()))
    m = wire.manifest(p.payload)
    if lib.ENCS[enc] is None:
        return p, m, m.node
    return p, m, wire.node_of(opener(m))


def requests(unit, ctx):
    name_ctx = NameConstructorContext.create(lib.options(dict(schema='P2', mps=1500)))
    nc_defs = name_ctx.nc_def()
    defs = tuple((i.nc_id().id(), wire.Schema('P', ((1, t),), None, ())) for i, t in zip(nc_defs, (b'a', b'd')))
    signers = {s: lib.signer(s) for s in ('', 'c', 'r')}
    wrapping = unit['enc'] in ('w', 'W', 'n')
    opener = lib.Opener(unit['enc'])
    for o in [''.join(x) for n in range(4) for x in itertools.combinations('ngl', n)]:
        for num, (ns, gs, ls, nd, nc, seg) in enumerate(itertools.product(SIZES, SIZES, SIZES, (False, True), (None, 3), (None, 0, 999))):
            if unit['source'] != 'pointers' and (gs, ls, nc, seg) not in ((None, None, None, None), (255, 0, 3, 999)):
                continue
            if unit['source'] == 'pointers' and o in ('n', 'g', 'l', '') and (ns, gs, ls).count(None) == 0:
                continue
            for full in (False, True) if wrapping else (num % 2 == 0,):
                signs = ('', 'c', 'r')[num % 3]
                name, expiry = ((None, None), ('ccnx:/n', None), ('ccnx:/n/m', 1234567.891))[num % 5 % 3]
                # a manifest can only be opened once the wrapped key is known
                if wrapping and num == 0:
                    full = True
                as_tlv = num % 7 == 0
                ctx.case = dict(unit, opts=o, node_size=ns, group_size=gs, leaf=ls, defs=nd, nc=nc, seg=seg, full=full, sign=signs, name=name, expiry=expiry)
                opts = lib.options(dict(schema='H1', opts=o, mps=1500, enc=''))
                opts.manifest_encryptor = encryptor_of(unit['enc'])
                # the signer given to the request decides, whatever signer the options have
                opts.signer = signers[('', 'c', 'r')[(num + 1) % 3]] if num % 2 else signers[signs]
                graph = ManifestGraph() if num % 11 == 0 else None
                f = ManifestFactory(opts, manifest_graph=graph) if graph is not None else ManifestFactory(tree_options=opts)
                src = source_of(unit['source'])[0]
                exc, p = raises(f.build_packet, src, nc_defs=nc_defs if nd else None,
                                node_subtree_size=SubtreeSize(ns) if as_tlv and ns is not None else ns,
                                group_subtree_size=SubtreeSize(gs) if as_tlv and gs is not None else gs,
                                group_leaf_size=LeafSize(ls) if as_tlv and ls is not None else ls,
                                nc_id=None if nc is None else NcId(nc), start_segment_id=None if seg is None else StartSegmentId(seg),
                                name=None if name is None else lib.N(name), expiry_time=None if expiry is None else ExpiryTime(expiry),
                                signer=signers[signs], include_full_security_context=full)
                ctx.step()
                if exc is not None:
                    ctx.fail(None, 'the factory failed: %r' % exc)
                    continue
                pk, m, node = node_in(p, unit['enc'], opener)
                want = expected(unit['source'], o, ns, gs, ls, defs if nd else (), nc, seg)
                ctx.check(node == want, None, 'the manifest has %s, not %s' % (node, want))
                ctx.check(pk.name == (None if name is None else wire.uri_name(name)), None, 'the packet is named %s' % (pk.name,))
                ctx.check(pk.expiry == (None if expiry is None else round(expiry * 1000)), None, 'the packet expires at %s' % pk.expiry)
                ctx.check((m.sec is not None) == (unit['enc'] != ''), None, 'the manifest %s a security context' % ('has' if m.sec is not None else 'lacks'))
                if wrapping:
                    ctx.check((m.sec.wrapped is not None) == full, None, 'the manifest %s the wrapped key' % ('has' if m.sec.wrapped else 'lacks'))
                how = '' if pk.alg is None else 'r' if len(pk.sig) > 4 else 'c'
                ctx.check(how == signs, None, 'the packet is signed by %r' % how)
                ctx.check((f.cnt_manifests, f.cnt_manifest_bytes) == (1, len(pk.wire)), None, 'the factory counts %s' % ((f.cnt_manifests, f.cnt_manifest_bytes),))
                ctx.state((o, num, full, unit['source'], unit['enc']))
                ctx.trace(('signed ' if how else 'plain ') + ('named' if name else 'nameless'))


_encryptors = {}


def encryptor_of(enc):
    if enc not in _encryptors:
        _encryptors[enc] = lib.encryptor(enc)
    return _encryptors[enc]


def limit(unit, ctx):
    """The manifest may be as long as a packet and not longer; a refused manifest does not count"""
    opts = lib.options(dict(schema='H1', mps=1500, enc=''))
    opts.manifest_encryptor = encryptor_of(unit['enc'])
    opener = lib.Opener(unit['enc'])
    for full in (False, True):
        src = source_of(unit['source'])[0]
        f = ManifestFactory(opts)
        opts.max_packet_size = 5000
        size = len(wire.packet(bytes(f.build_packet(src, include_full_security_context=full).serialize())).payload)
        count, total = f.cnt_manifests, f.cnt_manifest_bytes
        for d in range(-40, 41):
            opts.max_packet_size = size + d
            ctx.case = dict(unit, full=full, size=size, limit=size + d)
            exc, p = raises(f.build_packet, src, include_full_security_context=full)
            ctx.step()
            ctx.check((exc is None) == (d >= 0), None, 'a manifest of %d bytes %s' % (size, 'was made' if exc is None else 'was refused: %r' % exc))
            if exc is None:
                count += 1
                total += len(p.serialize())
            ctx.check((f.cnt_manifests, f.cnt_manifest_bytes) == (count, total), None, 'the factory counts %s, not %s' % ((f.cnt_manifests, f.cnt_manifest_bytes), (count, total)))
            ctx.state((unit['source'], unit['enc'], full, d))
            ctx.trace('made' if exc is None else 'refused')


def history(unit, ctx):
    """One factory, many requests"""
    opener = lib.Opener(unit['enc'])
    opts = lib.options(dict(schema='H1', opts='ngl', mps=700, enc=''))
    opts.manifest_encryptor = encryptor_of(unit['enc'])
    # the wrapped key
    node_in(ManifestFactory(opts).build_packet(source_of('group')[0], include_full_security_context=True), unit['enc'], opener)
    many = Pointers([hv(i) for i in range(30)])
    reqs = [(s, ns) for s in SOURCES for ns in (None, 5)] + [('many', None), ('wrong', None)]
    for hist in itertools.product(range(len(reqs)), repeat=unit['n']):
        ctx.case = dict(unit, history=[reqs[i] for i in hist])
        f = ManifestFactory(opts)
        total, made, kept = 0, 0, []
        for i in hist:
            s, ns = reqs[i]
            src = many if s == 'many' else 'text' if s == 'wrong' else source_of(s)[0]
            exc, p = raises(f.build_packet, src, node_subtree_size=ns, group_subtree_size=ns, group_leaf_size=ns)
            ctx.step()
            ctx.check((exc is None) == (s in SOURCES), None, '%s: %r' % (s, exc))
            if exc is None:
                made += 1
                w = bytes(p.serialize())
                total += len(w)
                kept.append((p, w))
                node = node_in(p, unit['enc'], opener)[2]
                want = expected(s, 'ngl', ns, ns, ns, (), None, None)
                ctx.check(node == want, None, 'the manifest has %s, not %s' % (node, want))
            ctx.check((f.cnt_manifests, f.cnt_manifest_bytes) == (made, total), None, 'the factory counts %s, not %s' % ((f.cnt_manifests, f.cnt_manifest_bytes), (made, total)))
        for p, w in kept:
            ctx.check(bytes(p.serialize()) == w, None, 'a packet changed after it was made')
        ctx.state((hist, unit['enc']))
        ctx.trace(str(made))
