"""C28: the graph of a publication or of a read shows exactly its packets and pointers"""
import hashlib
import itertools
import os
import re
import shutil
import tempfile

from ccnpy.core.HashValue import HashValue
from ccnpy.flic.tlvs.GroupData import GroupData
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tree.ManifestGraph import ManifestGraph

from .. import lib, space, wire
from ..engine import raises

PID = 'C28'
TECHNIQUE = 'model checking: exhaustive enumeration of publications and reads that fill a graph, and of histories of operations on a graph; every saved file compared with an independently built graph'
BOUND = {
    'quick': '12 schema variants x {plain, GCM, wrapped} x degrees {none,2,3} x 6 chunk counts x {written, read, both into one}; repeated chunks (shared packets); manifests with 127-1900 pointers; publications that fail (no room at 20 packet sizes, input breaks in read 0-2), then one that succeeds, with one graph; every triple of 10 unusual names; a publication of 6000 packets; labels for all chunk numbers and manifest ids below 70000 and around the powers of 2 and 10 to 2^64; all histories of 4 operations out of 10 (add data, add manifests, also known ones, pause, resume, save) on hash values that agree in their first 3, 4, 8 and 31 bytes',
    'thorough': 'as quick with 10 encryptions, 5 degrees, 15 chunk counts, 20000 packets, histories of 6 operations',
}
ASSUMPTIONS = ['the saved file is read as the DOT language defines it']


def units(tier):
    d = tier == 'thorough'
    u = [dict(kind='large', schema=s, n=20000 if d else 6000) for s in ('H1', 'S1')]
    u += [dict(kind='grid', schema=s, enc=e, degs=[None, 2, 3] + ([5, 7] if d else []), nbs=[1, 2, 3, 5, 9, 20] + ([4, 6, 7, 8, 11, 13, 30, 50, 100] if d else []))
          for s in space.SCHEMAS for e in (lib.ENCS if d else ('', 'g', 'w'))]
    u += [dict(kind='repeat', schema=s) for s in space.SCHEMAS]
    u += space.names_units(tier) + space.wide_units(tier) + space.alike_units(tier)
    u += [dict(kind='failed', schema=s, enc=e) for s in space.SCHEMAS for e in ('', 'g', 'w')]
    u += [dict(kind='numbers', first=a, n=5000) for a in range(0, 1100000 if d else 70000, 5000)] + [dict(kind='numbers', first=None)]
    u += [dict(kind='history', first=i, n=6 if d else 4) for i in range(len(OPS))]
    return u


def run(unit, ctx):
    d = tempfile.mkdtemp(prefix='c28-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    try:
        globals()[unit['kind']](unit, ctx, os.path.join(d, 'g.dot'))
    finally:
        shutil.rmtree(d, ignore_errors=True)


STRING = r'"(?:[^"\\]|\\.)*"|[-\w.]+'
NODE = re.compile(r'^(%s)\s*(?:\[(.*)\])?;$' % STRING)
EDGE = re.compile(r'^(%s)\s*->\s*(%s)\s*(?:\[(.*)\])?;$' % (STRING, STRING))
ATTR = re.compile(r'(\w+)=(%s)(?:,\s*|$)' % STRING)


def parse_dot(text):
    """-> {node id: attributes}, list of edges"""
    text = text.strip()
    assert text.startswith('strict digraph') or text.startswith('digraph'), text[:50]
    body = text[text.index('{') + 1:text.rindex('}')]
    nodes, edges = {}, []
    for line in body.split('\n'):
        line = line.strip()
        if not line:
            continue
        m = EDGE.match(line)
        if m:
            edges.append((m[1].strip('"'), m[2].strip('"')))
            continue
        m = NODE.match(line)
        assert m, 'not DOT: %r' % line
        attrs = {}
        pos = 0
        while m[2] and pos < len(m[2]):
            a = ATTR.match(m[2], pos)
            assert a, 'not DOT attributes: %r' % m[2][pos:]
            attrs[a[1]] = a[2].strip('"')
            pos = a.end()
        n = m[1].strip('"')
        assert n not in nodes, 'node twice: %r' % n
        nodes[n] = attrs
    return nodes, edges


def compare(ctx, case, graph, path, kinds, pointers):
    """kinds: {hash: is data}; pointers: {hash: tuple of hashes}"""
    ctx.step()
    graph.save(path)
    with open(path) as f:
        nodes, edges = parse_dot(f.read())
    # a pointer to a packet that was not added is drawn to a node of its own
    want = set(kinds) | {h for p in pointers.values() for h in p}
    ctx.check(len(nodes) + len({x for e in edges for x in e} - set(nodes)) == len(want), case, '%d nodes are drawn for %d packets' % (len(nodes), len(want)))
    # the identity of a node starts with the hash of its packet
    by = {}
    ids = set(nodes) | {x for e in edges for x in e}
    for n in ids:
        hexes = n.removeprefix('0x')
        owners = [h for h in want if h.hex().startswith(hexes)] if len(want) < 2000 else None
        if owners is None:
            if len(hexes) == 64 and bytes.fromhex(hexes) in want:
                by[n] = bytes.fromhex(hexes)
            continue
        ctx.check(len(owners) == 1, case, 'node %s stands for %d packets' % (n, len(owners)))
        if owners:
            by[n] = owners[0]
    if len(want) >= 2000 and len(by) != len(ids):
        short = {}
        for h in want:
            for k in (6, 8, 10, 12, 16, 32):
                short.setdefault(h.hex()[:k], []).append(h)
        for n in ids:
            o = short.get(n.removeprefix('0x'), [])
            ctx.check(len(o) == 1 or n in by, case, 'node %s stands for %d packets' % (n, len(o)))
            if o:
                by.setdefault(n, o[0])
    for n, a in nodes.items():
        h = by.get(n)
        if h in kinds:
            data = (a.get('color') == 'green', a.get('shape') == 'o')
            ctx.check(data == (kinds[h],) * 2, case, 'packet %s (%s) is drawn as %r' % (n, 'data' if kinds[h] else 'manifest', a))
    got = {(by.get(a), by.get(b)) for a, b in edges}
    ctx.check(len(got) == len(edges), case, 'an edge is drawn twice')
    wanted = {(h, p) for h, ps in pointers.items() for p in ps}
    ctx.check(got == wanted, case, '%d pointers are drawn, %d exist, %d in common' % (len(got), len(wanted), len(got & wanted)))
    return nodes, by


def graph_of(tree):
    kinds, pointers = {}, {}
    for v in tree.visits:
        h = v['packet'].hash
        kinds[h] = v['node'] is None
        if v['node'] is not None:
            pointers[h] = tuple(p for g in v['node'].groups for p in g.ptrs)
    return kinds, pointers


def check_pub(ctx, case, cfg, content, path, how=('written', 'read', 'both'), **publish):
    written = ManifestGraph()
    pub = lib.publish(cfg, content, graph=written, **publish)
    tree = pub.tree()
    kinds, pointers = graph_of(tree)
    for h in how:
        if h == 'read':
            sink = lib.Sink()
            t = lib.Traversal(lib.MapStore(pub.wires), sink, lib.keystore(cfg['enc'], cfg['sign']), build_graph=True)
            t.traverse(lib.root_name_of(cfg), lib.hash_value(pub.root_hash))
            g = t.get_graph()
        elif h == 'written':
            g = written
        else:
            # two publications into one graph
            g = ManifestGraph()
            kinds, pointers = {}, {}
            for n in (len(content), len(content) // 2 + 1):
                p2 = lib.publish(cfg, content[:n], graph=g)
                k, p = graph_of(p2.tree())
                kinds, pointers = {**kinds, **k}, {**pointers, **p}
        nodes, by = compare(ctx, dict(case, graph=h), g, path, kinds, pointers)
        if h == 'read' and cfg['schema'][0] == 'S':
            # labelled by the number in its name
            for v in tree.visits[1:]:
                name = v['packet'].name
                label = [a.get('label') for n, a in nodes.items() if by.get(n) == v['packet'].hash] if len(nodes) < 100 else []
                ctx.check(all(x == str(wire.num(name[-1][1])) for x in label), case, 'a packet with number %d is labelled %r' % (wire.num(name[-1][1]), label))
        ctx.trace('%s %s' % (cfg['schema'], h))
        ctx.state((cfg['schema'], h, len(kinds), tuple(sorted(len(p) for p in pointers.values()))))
    ctx.sample(case=case, packets=len(kinds), edges=sum(len(set(p)) for p in pointers.values()))


def grid(unit, ctx, path):
    base = dict(schema=unit['schema'], enc=unit['enc'], opts='n', sign='', deg=None)
    for rel in (5, 100):
        for deg in unit['degs']:
            cfg = dict(base, mps=space.workable(base) + rel, deg=deg)
            for n in space.sizes(cfg, unit['nbs'], [1]):
                case = dict(cfg, size=n)
                ctx.case = case
                with ctx.guard(case):
                    check_pub(ctx, case, cfg, lib.data(n), path)


def names(unit, ctx, path):
    for cfg, n in space.run_names(unit):
        case = dict(cfg, size=n)
        ctx.case = case
        with ctx.guard(case):
            check_pub(ctx, case, cfg, lib.data(n), path, how=('written', 'read'))


def wide(unit, ctx, path):
    for cfg, n, how in space.run_wide(unit):
        case = dict(cfg, size=n, **how)
        ctx.case = case
        with ctx.guard(case):
            check_pub(ctx, case, cfg, lib.data(n), path, how=('written', 'read'), **how)


def alike(unit, ctx, path):
    for cfg, n, how in space.run_alike(unit):
        case = dict(cfg, size=n, **how)
        ctx.case = case
        with ctx.guard(case):
            check_pub(ctx, case, cfg, space.alike(n, lib.payload_size(cfg), how['content']), path, how=('written', 'read'))


class Broken(Exception):
    pass


class Source:
    """An input that fails in its k-th read call"""

    def __init__(self, content, k):
        self.input, self.k = lib.Input(content), k

    def read(self, n=-1):
        if self.k == 0:
            raise Broken
        self.k -= 1
        return self.input.read(n)


def failed(unit, ctx, path):
    """A publication that fails (its packets are too small, or its input breaks), then one that succeeds, with one graph"""
    base = dict(schema=unit['schema'], enc=unit['enc'], opts='n', sign='', deg=2)
    good = dict(base, mps=space.workable(base) + 40)
    n = 5 * lib.payload_size(good) + 1
    for rel in list(range(-200, 0, 10)):
        for k in (None, 0, 1, 2):
            if k is not None and rel != -200:
                continue
            g = ManifestGraph()
            bad = dict(base, mps=space.workable(base) + rel) if k is None else good
            case = dict(bad, size=n, input_fails=k, then=good)
            ctx.case = case
            exc, p1 = raises(lib.publish, bad, lib.data(n, 7000), graph=g, source=None if k is None else Source(lib.data(n, 7000), k))
            if exc is None:
                ctx.trace('no failure')
                continue
            with ctx.guard(case):
                # what is added after the failure is drawn
                g.add_data(HashValue.create_sha256(h(0)), None)
                pub = lib.publish(good, lib.data(n), graph=g)
                g.save(path)
                with open(path) as f:
                    nodes, edges = parse_dot(f.read())
                ids = set(nodes) | {x for e in edges for x in e}
                kinds, pointers = graph_of(pub.tree())
                kinds[h(0)] = True
                for what in kinds:
                    mine = [x for x in ids if what.hex().startswith(x.removeprefix('0x'))]
                    ctx.check(len(mine) == 1, case, 'a packet added after the failed publication is drawn %d times' % len(mine))
                for a, ps in pointers.items():
                    for b in ps:
                        ctx.check(any(a.hex().startswith(x.removeprefix('0x')) and b.hex().startswith(y.removeprefix('0x')) for x, y in edges), case,
                                  'a pointer of the good publication is not drawn')
                ctx.step()
                ctx.trace('%s, then %d packets' % (type(exc).__name__, len(kinds)))
                ctx.state((sorted(case.items(), key=str).__repr__(), len(ids)))


def repeat(unit, ctx, path):
    cfg = dict(schema=unit['schema'], enc='', opts='', sign='', deg=2)
    cfg['mps'] = space.workable(cfg) + 40
    p = lib.payload_size(cfg)
    for nb in range(2, 13):
        for pattern in (b'\0', b'ab', b'abb'):
            content = b''.join(bytes([pattern[i % len(pattern)]]) * p for i in range(nb))
            case = dict(cfg, chunks=nb, pattern=pattern)
            ctx.case = case
            with ctx.guard(case):
                check_pub(ctx, case, cfg, content, path, how=('written', 'read'))


def large(unit, ctx, path):
    cfg = dict(schema=unit['schema'], enc='', opts='', sign='', deg=20)
    cfg['mps'] = space.workable(cfg) + 600
    n = (unit['n'] - 1) * lib.payload_size(cfg) + 1
    case = dict(cfg, size=n)
    ctx.case = case
    with ctx.guard(case):
        check_pub(ctx, case, cfg, lib.data(n), path, how=('written', 'read'))


def numbers(unit, ctx, path):
    """A packet named by its chunk number or manifest id is labelled by it, every number"""
    if unit['first'] is None:
        ns = sorted({b ** e + d for b in (2, 10) for e in range(65) for d in (-2, -1, 0, 1, 2) if 0 <= b ** e + d < 1 << 64})
    else:
        ns = range(unit['first'], unit['first'] + unit['n'])
    for suffix in (5, 0x10):
        kind, part = ('chunk id', 'data') if suffix == 5 else ('manifest id', 'manifest')
        case = dict(unit, suffix=kind)
        with ctx.guard(case):
            g = ManifestGraph()
            want = {}
            empty = Node(hash_groups=[HashGroup(group_data=None, pointers=Pointers([HashValue.create_sha256(h(0))]))])
            base = lib.N('ccnx:/a')
            for n in ns:
                x = hashlib.sha256(b'%d' % n).digest()
                name = base.append_chunk_id(n) if suffix == 5 else base.append_manifest_id(n)
                if part == 'data':
                    g.add_data(HashValue.create_sha256(x), name)
                else:
                    g.add_manifest(HashValue.create_sha256(x), empty, name)
                want[x.hex()] = str(n)
            g.save(path)
            with open(path) as f:
                nodes, _ = parse_dot(f.read())
            got = {}
            for i, a in nodes.items():
                i = i.removeprefix('0x')
                if len(i) == 64:
                    got[i] = a.get('label')
            for i, label in want.items():
                if i in got:
                    ctx.check(got[i] == label, dict(case, number=int(label)), 'labelled %r' % got[i])
            # identities may be shorter than the whole hash: then at least every label is there
            labels = {a.get('label') for a in nodes.values()}
            ctx.check(set(want.values()) <= labels, case, 'numbers without a label: %s' % sorted(set(want.values()) - labels)[:5])
            ctx.step(len(want))
            ctx.state((suffix, unit['first'], len(labels)))
            ctx.trace('%s labels' % kind)


# -- histories of operations -------------------------------------------------------------------------------------------

def h(i):
    """Hash values that agree in their first bytes"""
    b = bytearray(hashlib.sha256(b'graph').digest())
    if i:
        at = [None, 3, 4, 8, 31][i]
        b[at] ^= 0x10
    return bytes(b)


OPS = [('data', 0), ('data', 1), ('data', 2), ('data', 4), ('manifest', 3, (0, 1)), ('manifest', 2, (4, 0, 4)), ('manifest', 0, (2, 3)), ('manifest', 3, (1,)),
       ('pause',), ('resume',), ('save',)]


def history(unit, ctx, path):
    for rest in itertools.product(range(len(OPS)), repeat=unit['n'] - 1):
        seq = [OPS[i] for i in (unit['first'],) + rest]
        case = dict(ops=[list(o) for o in seq])
        ctx.case = case
        with ctx.guard(case):
            g = ManifestGraph()
            kinds, pointers, paused = {}, {}, False
            for op in seq + [('save',)]:
                if op[0] == 'pause':
                    g.pause()
                    paused = True
                elif op[0] == 'resume':
                    g.resume()
                    paused = False
                elif op[0] == 'save':
                    compare(ctx, case, g, path, kinds, pointers)
                elif op[0] == 'data':
                    g.add_data(HashValue.create_sha256(h(op[1])), None)
                    if not paused:
                        kinds[h(op[1])] = True
                        pointers.pop(h(op[1]), None)
                else:
                    node = Node(hash_groups=[HashGroup(group_data=None, pointers=Pointers([HashValue.create_sha256(h(i)) for i in op[2]]))])
                    g.add_manifest(HashValue.create_sha256(h(op[1])), node, None)
                    if not paused:
                        kinds[h(op[1])] = False
                        pointers[h(op[1])] = tuple(h(i) for i in op[2])
            ctx.state((sorted(kinds.items()), sorted(pointers.items()), paused))
            ctx.trace('%d packets %d pointers' % (len(kinds), sum(len(set(p)) for p in pointers.values())))
