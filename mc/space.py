"""The bounded space of publications shared by the tree properties (C01-C05)"""
import itertools

from . import lib, wire

SCHEMAS = list(lib.SCHEMAS)
ALL_OPTS = 'xdrngl'


def _name_len(name):
    return 4 + sum(4 + len(v) for _, v in name)


def workable(cfg):
    """
    A packet size at which a publication has to be possible, whatever the data: an upper bound (by the wire format) of
    one data packet with one byte, an inner manifest with two pointers, and the manifest in the root packet.
    """
    t, kw = lib.SCHEMAS[cfg['schema']]
    root, m, d = lib.expected_prefixes(cfg)
    o = cfg.get('opts', '')
    e = lib.ENCS[cfg.get('enc', '')]
    named = t != 'H'
    seg = 7 if t == 'S' else 0
    data = 8 + 4 + (_name_len(d) + seg if named else 0) + (12 if 'd' in o else 0) + 5 + 4 + (7 if seg else 0) + 1
    sec = 0
    if e is not None:
        sec = 4 + 4 + 8 + 16 + 5 + 20
        if 'kdf' in e:
            sec += 4 + 5 + (4 + len(e['info']) if 'info' in e else 0)
    node_data = 4 + 12
    group = 4 + 4 + 8 + 8 + 24 + 4 + 36
    inner = 8 + 4 + (_name_len(m) + seg if named else 0) + (12 if 'x' in o else 0) + 5 + 4 + sec + 4 + node_data + 2 * group
    locs = [root] + [x for ls in lib.locators_of(cfg) for x in ls] if t == 'H' else []
    names = [m, d] if named else [root] + locs
    ncdefs = sum(4 + 8 + 4 + 8 + _name_len(x) + 6 for x in names)
    rootm = sec + (40 + 5 + 4 + 256 if e and 'wrap' in e else 0) + 4 + node_data + ncdefs + group
    return max(data, inner, rootm)


def cfgs(schemas, encs, optss, mpss, degs, signs=('',)):
    for s, e, o, mps, deg, sg in itertools.product(schemas, encs, optss, mpss, degs, signs):
        yield dict(schema=s, enc=e, opts=o, mps=mps, deg=deg, sign=sg)


def sizes(cfg, nbs, tails):
    """Input sizes: nb chunks, the last one with `tail` bytes ('f' full, '-' one less than full)"""
    p = lib.payload_size(cfg)
    out = []
    for nb in nbs:
        for t in tails:
            if p is None:
                n = nb
            else:
                n = (nb - 1) * p + {'f': p, '-': max(1, p - 1)}.get(t, min(p, t if isinstance(t, int) else 1))
            if n not in out:
                out.append(n)
    return out


def base_units(tier, encs=None, signs=('',)):
    """Schema x encryption x options x degree; each unit runs over packet sizes and input sizes"""
    deep = tier == 'thorough'
    encs = encs or (list(lib.ENCS) if deep else ['', 'g', 'K', 'w'])
    out = []
    for s in SCHEMAS:
        for e in encs:
            for o in (['', 'x', 'd', 'n', 'g', 'l', 'gl', 'xn', ALL_OPTS] if deep else ['', 'n', 'gl', ALL_OPTS]):
                out.append(dict(kind='grid', schema=s, enc=e, opts=o,
                                rel=[5, 37, 150, 400] if not deep else [0, 11, 23, 37, 80, 150, 400, 900],
                                degs=[None, 2, 3, 5] if not deep else [None, 2, 3, 4, 5, 7, 10],
                                nbs=[1, 2, 3, 4, 6, 9, 13, 20] if not deep else list(range(1, 26)) + [31, 40, 64, 100],
                                tails=[1, 'f'] if not deep else [1, '-', 'f'], signs=list(signs)))
    return out


def sign_units(tier):
    out = []
    for s in ('H1', 'P2', 'S1', 'S3'):
        for sg in ('c', 'r'):
            for e in ('', 'g', 'w', 'n', 'W', 'k', 'G', 'c', 'C'):
                out.append(dict(kind='grid', schema=s, enc=e, opts='r', rel=[60], degs=[3], nbs=[1, 3, 5, 11],
                                tails=[1], signs=[sg]))
    return out


def long_units(tier):
    """Many chunks (chunk and manifest numbers of two and three bytes), and large packets (sizes of two to four bytes)"""
    out = []
    for s in ('H2', 'P2', 'S1', 'S4'):
        for nb in (255, 256, 257, 300) + ((1000, 5000) if tier == 'thorough' else ()):
            for deg in (2, 3, 7, None):
                out.append(dict(kind='abs', schema=s, enc='', opts='ngl', mps=[420], degs=[deg], nbs=[nb], tails=[1]))
        for mps, nbs in ((1500, (2, 50)), (9000, (1, 8, 30)), (65535, (1, 2, 4))):
            out.append(dict(kind='abs', schema=s, enc='', opts='ngl', mps=[mps], degs=[None, 3], nbs=list(nbs), tails=[1, 'f']))
        out.append(dict(kind='abs', schema=s, enc='G', opts='ngl', mps=[65535], degs=[2], nbs=[260] if tier == 'thorough' else [4], tails=[1]))
    return out


def short_units(tier):
    """Inputs whose read calls return less than asked for, and data packets written before the tree is made"""
    return [dict(kind='short', schema=s, enc=e, opts=ALL_OPTS, n=4 if tier == 'thorough' else 3)
            for s in SCHEMAS for e in ('', 'g')]


def vast_units(tier):
    """Chunk numbers of three bytes, tens of thousands of packets: one byte in each"""
    u = [dict(kind='vast', schema='S1', mps=65000, deg=None, n=65540), dict(kind='vast', schema='H2', mps=30000, deg=100, n=192000)]
    if tier == 'thorough':
        u += [dict(kind='vast', schema=s, mps=2000, deg=7, n=65540) for s in ('H1', 'P2', 'S4')]
    return u


def names_units(tier):
    """Root names, prefixes and locators with every kind of component"""
    return [dict(kind='names', schema=s, root=i) for s in ('H1', 'P1', 'S1') for i in range(lib.N_ODD)]


def run_names(unit):
    for j, k in itertools.product(range(lib.N_ODD), repeat=2):
        if unit['schema'] == 'S1' and j == k:
            continue
        base = dict(schema=unit['schema'], enc='', opts='g', sign='', deg=3, odd=[unit['root'], j, k])
        cfg = dict(base, mps=workable(base) + 20)
        yield cfg, 4 * lib.payload_size(cfg) + 1


def confused_units(tier):
    """Publications one after the other whose names look alike"""
    return [dict(kind='confused', schema=s, role=r) for s in ('H1', 'P1', 'S1') for r in range(4)]


def run_confused(unit):
    some = [0] + list(range(lib.N_ODD, len(lib.ODD)))
    for pair in itertools.permutations(some, 2):
        for i in pair:
            odd = [3, 5, 7]
            odd[unit['role'] % 3] = i
            if unit['role'] == 3:
                # the name of the publication is the only one given
                odd[1:] = [7 if unit['schema'] == 'S1' else None, None]
            base = dict(schema=unit['schema'], enc='', opts='', sign='', deg=None, odd=odd)
            yield dict(base, mps=600), 700


def aged_units(tier):
    """Publications late in the life of a process: the numbers of its name constructors have one, two and three bytes"""
    return [dict(kind='aged', schema=s, enc=e) for s in SCHEMAS for e in ('', 'g')]


def run_aged(unit):
    base = dict(schema=unit['schema'], enc=unit['enc'], opts='n', sign='', deg=None)
    opts = lib.options(dict(base, mps=1500))
    for age in (250, 65530):
        while True:
            c = lib.NameConstructorContext.create(opts)
            if max(c.manifest_schema_impl.nc_id().id(), c.data_schema_impl.nc_id().id()) >= age:
                break
        for rel in list(range(-60, 40, 20)) * 2:
            cfg = dict(base, mps=workable(base) + rel, age=age)
            for n in sizes(cfg, [2, 9], [1]):
                yield cfg, n


WIDE = (127, 128, 129, 255, 256, 257)


def wide_units(tier, degs=(128, 256, 257), schemas=None):
    """Manifests with up to 1800 pointers: small data packets under large manifests"""
    out = []
    for s in schemas or (SCHEMAS if tier == 'thorough' else ('H1', 'P2', 'S1')):
        for d in degs:
            out.append(dict(kind='wide', schema=s, enc='', cases=[[20000, d, n] for n in (d - 1, d, d + 1, 2 * d + 1)]))
        out.append(dict(kind='wide', schema=s, enc='g', cases=[[4000, None, 101], [5000, None, 130], [9500, None, 260], [20000, 300, 700], [20000, 500, 502]]))
        out.append(dict(kind='wide', schema=s, enc='', cases=[[65535, None, 1900], [65535, 1000, 1001]]))
    return out


def run_wide(unit):
    for mps, deg, nb in unit['cases']:
        cfg = dict(schema=unit['schema'], enc=unit['enc'], opts='ngl', sign='', mps=mps, deg=deg)
        chunk_mps = workable(dict(cfg, enc='', opts='')) // 2
        p = payload_size(cfg, chunk_mps)
        yield cfg, (nb - 1) * p + 1, dict(chunk_mps=chunk_mps)


def payload_size(cfg, mps):
    return lib.payload_size(dict(cfg, mps=mps, enc='', opts='', deg=None), chunk=True)


def tall_units(tier):
    """High trees"""
    return [dict(kind='abs', schema=s, enc='', opts='ngl', mps=[420], degs=[d], nbs=[n], tails=[1])
            for s in ('H1', 'S1') for d, n in (((2, 1500), (3, 2500)) if tier != 'thorough' else ((2, 6000), (3, 9000), (5, 20000)))]


def numbered_units(tier):
    """Chunk numbers that begin where a wider number is needed, in the smallest packets"""
    return [dict(kind='numbered', schema=s, at=[250, 65530] + ([0xFFFFF0] if tier == 'thorough' and s == 'S1' else [])) for s in ('H2', 'P2', 'S1', 'S2', 'S4')]


def run_numbered(unit):
    for at in unit['at']:
        for rel in (0, 33):
            base = dict(schema=unit['schema'], enc='', opts='', sign='', deg=3)
            cfg = dict(base, mps=workable(base) + rel)
            for nb in (1, 12):
                yield cfg, (nb - 1) * lib.payload_size(cfg) + 1, dict(advance=at)


def alike_units(tier):
    """Inputs whose chunks repeat, so that a manifest points to one packet several times"""
    return [dict(kind='alike', schema=s, enc=e) for s in SCHEMAS for e in ('', 'g')]


def run_alike(unit):
    for deg in (None, 2, 3, 6, 9):
        base = dict(schema=unit['schema'], enc=unit['enc'], opts='ngl', sign='', deg=deg)
        cfg = dict(base, mps=workable(base) + (400 if deg in (None, 6, 9) else 40))
        p = lib.payload_size(cfg)
        for nb in (2, 3, 5, 8, 12, 17, 30):
            for pattern in ('a', 'ab', 'abb', 'aab' + 'b' * 9):
                for tail in (0, 1):
                    yield cfg, nb * p + tail, dict(content=pattern)


def alike(n, p, pattern):
    return b''.join(pattern[i % len(pattern)].encode() * p for i in range(n // p + 1))[:n]


# -- trees over data that somebody else holds ----------------------------------------------------------------------------

CLAIMED = {
    # totals near 2 to that: the numbers of chunks
    8: [1, 2, 4, 7, 12],
    16: [1, 2, 3, 5, 9, 40],
    24: [257, 300],
    # every chunk larger than 2 to the power of 32
    40: [2, 40],
    52: [40],
    32: [65538, 70000],
}


def claimed_units(tier, schemas=('H2', 'P2', 'S1')):
    """Trees over chunks whose sizes and hashes are given, with totals of one to eight bytes"""
    u = []
    for s in schemas:
        for o in ('n', 'g', 'l', 'ngl'):
            for e in ('', 'g') if o == 'ngl' else ('',):
                for near in (8, 16):
                    u.append(dict(kind='claimed', schema=s, enc=e, opts=o, near=near, rels=list(range(-24, 16)), degs=[None, 3]))
                u.append(dict(kind='claimed', schema=s, enc=e, opts=o, near=24, rels=[0, 7], degs=[None, 7]))
                for near in (40, 52):
                    u.append(dict(kind='claimed', schema=s, enc=e, opts=o, near=near, rels=[0, 7, 100], degs=[None, 2, 3]))
        u.append(dict(kind='claimed', schema=s, enc='', opts='ngl', near=32, rels=[8000 if tier != 'thorough' else 1500], degs=[None]))
    return u


class Claimed:
    """A tree over claimed chunks: for every manifest, what it says and what it leads to"""

    def __init__(self, cfg, wires, chunks, opener):
        self.wires = wires
        self.leaves = {c: n for c, n in chunks}
        self.manifests = {lib.wire_hash(w): w for w in wires}
        self.nodes = {}
        # from the root down, as the keys are in the root
        self.visits = []
        self.opener = opener
        self.order = []
        self.bytes = wire.trampoline(self.walk(lib.wire_hash(wires[-1]), 0))

    def walk(self, h, depth):
        p = wire.packet(self.manifests[h])
        m = wire.manifest(p.payload)
        node = m.node if m.node is not None else wire.node_of(self.opener(m))
        rec = dict(depth=depth, node=node, bytes=0, groups=[])
        self.visits.append(rec)
        for g in node.groups:
            leaf = sub = 0
            for ptr in g.ptrs:
                if ptr in self.leaves:
                    n = self.leaves[ptr]
                    leaf += n
                    self.order.append(ptr)
                else:
                    n = yield self.walk(ptr, depth + 1)
                sub += n
            rec['groups'].append((g, leaf, sub))
            rec['bytes'] += sub
        return rec['bytes']


def claimed(unit, ctx):
    """-> (cfg, number of chunks, wires, Claimed)"""
    from ccnpy.flic.ManifestTree import ManifestTree
    from ccnpy.flic.name_constructor.FileMetadata import ChunkMetadata, FileMetadata
    near = unit['near']
    for rel in unit['rels']:
        for deg in unit['degs']:
            base = dict(schema=unit['schema'], enc=unit['enc'], opts=unit['opts'], sign='', deg=deg)
            cfg = dict(base, mps=workable(base) + rel)
            for nb in CLAIMED[near]:
                for d in (-1, 0, 1, 2) if near < 24 else (0,):
                    total = (1 << near) + d
                    each = max(1, total // nb)
                    case = dict(cfg, chunks=nb, total=total)
                    ctx.case = case
                    chunks = [(lib.hashlib.sha256(b'chunk %d' % i).digest(), each if i < nb - 1 else total - each * (nb - 1)) for i in range(nb)]
                    with ctx.guard(case):
                        meta = FileMetadata(total_bytes=sum(n for _, n in chunks),
                                            chunk_metadata=[ChunkMetadata(chunk_number=i, payload_bytes=n, content_object_hash=lib.hash_value(h)) for i, (h, n) in enumerate(chunks)])
                        w = lib.TreeIO.PacketMemoryWriter()
                        try:
                            ManifestTree(data_input=meta, packet_output=w, tree_options=lib.options(cfg)).build()
                        except Exception:
                            if rel >= 0:
                                raise
                            ctx.trace('refused')
                            continue
                        wires = [p.serialize().tobytes() for p in w.packets]
                        tree = Claimed(cfg, wires, chunks, lib.Opener(cfg['enc']))
                        ctx.check(tree.order == [h for h, _ in chunks], case, 'the chunks are not pointed to in order')
                        yield cfg, case, wires, tree


def run_vast(unit):
    yield dict(schema=unit['schema'], enc='', opts='ngl', sign='', mps=unit['mps'], deg=unit['deg']), unit['n'], dict(reads=[1 if unit['schema'][0] == 'S' else 32])


def run_short(unit):
    """-> (cfg, size, how to publish)"""
    base = dict(schema=unit['schema'], enc=unit['enc'], opts=unit['opts'], sign='')
    cfg = dict(base, mps=workable(base) + 60, deg=3)
    p = lib.payload_size(cfg)
    for k in range(1, unit['n'] + 1):
        for reads in itertools.product((32, p // 2, p), repeat=k):
            for n in (p, 3 * p + 40, 7 * p):
                yield cfg, n, dict(reads=list(reads), prepared=k == 2)


def run_units(unit):
    """-> (cfg, size)"""
    for o in [unit['opts']]:
        for sg in unit.get('signs', ['']):
            base = dict(schema=unit['schema'], enc=unit['enc'], opts=o, sign=sg, mps=0, deg=None)
            mpss = unit['mps'] if unit['kind'] == 'abs' else [workable(base) + r for r in unit['rel']]
            for mps in mpss:
                for deg in unit['degs']:
                    cfg = dict(base, mps=mps, deg=deg)
                    for n in sizes(cfg, unit['nbs'], unit['tails']):
                        yield cfg, n


def room_units(tier):
    """Every packet size from hopeless to roomy"""
    out = []
    deep = tier == 'thorough'
    for s in SCHEMAS:
        for e in (['', 'g', 'w'] if not deep else list(lib.ENCS)):
            for o in (['', ALL_OPTS] if not deep else ['', 'x', 'n', 'gl', ALL_OPTS]):
                out.append(dict(kind='room', schema=s, enc=e, opts=o, lo=-230, hi=130, step=2 if not deep else 1,
                                degs=[None] if not deep else [None, 2, 3], nbs=[3, 12] if not deep else [1, 2, 5, 12, 40]))
    return out


def run_room(unit):
    base = dict(schema=unit['schema'], enc=unit['enc'], opts=unit['opts'])
    for rel in range(unit['lo'], unit['hi'], unit['step']):
        mps = workable(base) + rel
        for deg in unit['degs']:
            cfg = dict(schema=unit['schema'], enc=unit['enc'], opts=unit['opts'], sign='', mps=mps, deg=deg)
            for n in sizes(cfg, unit['nbs'], [1]):
                yield cfg, n


def publications(unit, ctx, reads=None):
    """Publish every case of the unit; a publication that has room but fails is reported.  -> (cfg, content, Published)"""
    from .engine import raises
    gen = {'room': run_room, 'short': run_short, 'vast': run_vast, 'names': run_names, 'confused': run_confused, 'aged': run_aged,
           'wide': run_wide, 'numbered': run_numbered, 'alike': run_alike}.get(unit['kind'], run_units)(unit)
    for cfg, n, *how in gen:
        how = dict(how[0]) if how else {}
        content = lib.data(n)
        case = dict(cfg, size=n, **how)
        if 'content' in how:
            content = alike(n, lib.payload_size(cfg), how['content'])
        cfg = dict(cfg, **how)
        how.pop('content', None)
        ctx.case = case
        ctx.step()
        exc, pub = raises(lib.publish, cfg, content, **how)
        if exc is not None:
            ctx.trace('refused: ' + type(exc).__name__)
            if cfg['mps'] >= workable(cfg) and cfg['mps'] < 65536:
                ctx.fail(case, 'publishing failed although there is room: %s: %s' % (type(exc).__name__, exc))
            continue
        yield cfg, content, pub
