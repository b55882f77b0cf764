"""C05: names follow the schema and agree with what the reader derives"""
from .. import lib, space, wire

PID = 'C05'
BOUND = {
    'quick': 'the publication grid (12 schema variants x 4 encryptions x 4 option sets x 4 packet sizes x degrees {none,2,3,5} x 16 input sizes), every chunk count 1..60 for degrees 2..9 in the segmented schemas, all patterns of up to 3 read sizes; 255..300 and 65540 chunks, all histories of 3 publications that share a name context over 4 input sizes; manifests with up to 1900 pointers; high trees; numbers that start at each width; inputs whose chunks repeat; publications one after the other with names that look alike',
    'thorough': 'the deep publication grid, every chunk count 1..300 for degrees 2..12, up to 70000 chunks in one input, histories of 4 publications over 5 sizes; manifests with up to 1900 pointers; high trees; numbers that start at each width; inputs whose chunks repeat; publications one after the other with names that look alike',
}
ASSUMPTIONS = ['chunks are pairwise different']
UNIT_TIMEOUT = {'quick': 600}


def units(tier):
    u = space.base_units(tier) + space.long_units(tier) + space.short_units(tier)
    deep = tier == 'thorough'
    for s in ('S1', 'S3', 'S4'):
        for deg in range(2, 13 if deep else 10):
            hi = 301 if deep else 61
            for a in range(1, hi, 20):
                u.append(dict(kind='abs', schema=s, enc='', opts='', mps=[420], degs=[deg], nbs=list(range(a, min(a + 20, hi))), tails=[1]))
        if deep:
            u.append(dict(kind='abs', schema=s, enc='', opts='', mps=[420], degs=[None], nbs=[66000], tails=[1]))
    for s in space.SCHEMAS:
        u.append(dict(kind='shared', schema=s, depth=4 if deep else 3))
    u[1:1] = space.vast_units(tier)
    u += space.names_units(tier) + space.confused_units(tier) + space.aged_units(tier) + space.tall_units(tier) + space.numbered_units(tier) + space.alike_units(tier)
    u[1:1] = space.wide_units(tier)
    return u


def run(unit, ctx):
    if unit['kind'] == 'shared':
        return shared(unit, ctx)
    for cfg, content, pub in space.publications(unit, ctx):
        check_pub(ctx, dict(cfg, size=len(content)), cfg, content, pub, cfg.get('advance', 0))


def check_pub(ctx, case, cfg, content, pub, first_chunk):
    """Returns the number of data packets"""
    t = lib.SCHEMAS[cfg['schema']][0]
    root, mprefix, dprefix = lib.expected_prefixes(cfg)
    try:
        tree = pub.tree()
    except Exception as e:
        ctx.fail(case, 'the packets written form no tree: %s: %s' % (type(e).__name__, e))
        return 0
    ps = tree.packets
    ctx.step(len(ps))
    ctx.check(ps[-1].name == root, case, 'the root is named %r' % (ps[-1].name,))
    data = [p for p in ps if p.ptype == wire.DATA]
    manifests = [p for p in ps[:-1] if p.ptype == wire.MANIFEST]
    for i, p in enumerate(data):
        want = None if t == 'H' else dprefix if t == 'P' else dprefix + ((wire.CHUNK, wire.varint(first_chunk + i)),)
        ctx.check(p.name == want, case, 'data packet %d is named %r, not %r' % (i, p.name, want))
        fc = first_chunk + i if t == 'S' and i == len(data) - 1 else None
        ctx.check(p.fcid == fc, case, 'data packet %d has final chunk number %r, not %r' % (i, p.fcid, fc))
    for p in manifests:
        if t == 'H':
            ok = p.name is None
        elif t == 'P':
            ok = p.name == mprefix
        else:
            ok = (p.name is not None and p.name[:-1] == mprefix and p.name[-1][0] == wire.MANIFEST_ID
                  and p.name[-1][1] == wire.varint(wire.num(p.name[-1][1])))
        ctx.check(ok, case, 'a manifest is named %r' % (p.name,))
        ctx.check(p.fcid is None, case, 'a manifest has a final chunk number')
    ctx.check(ps[-1].fcid is None, case, 'the root has a final chunk number')
    if t == 'S':
        # (the caller chose the root name; one that itself ends in a number under a prefix may be met again)
        names = [p.name for p in (ps[:-1] if root and root[:-1] in (mprefix, dprefix) else ps)]
        ctx.check(len(set(names)) == len(names) or 'content' in cfg, case, 'two packets share a name')
    for v in tree.visits[1:]:
        ctx.check(v['want'] == v['packet'].name, case, 'a reader derives %r for the packet named %r' % (v['want'], v['packet'].name))
    # the names that the reader of the code under test asks for
    store = {}

    class Store(lib.MapStore):
        def __init__(self, wires):
            super().__init__(wires)
            store['s'] = self
    with ctx.guard(case):
        lib.read(pub, cls=Store)
        asked = store['s'].requests
        want = [(v['packet'].name, v['packet'].hash) for v in tree.visits]
        ctx.check(asked == want, case, 'the reader asked for other names than the packets have')
    ctx.state((t, tuple(p.name[-1] if p.name else None for p in ps)))
    ctx.trace('%s %d manifests' % (t, min(len(manifests), 20)))
    ctx.sample(case=case, last_name=repr(ps[-2].name))
    return len(data)


def shared(unit, ctx):
    """Publications that share a name context continue the chunk numbers"""
    import itertools
    cfg = dict(schema=unit['schema'], enc='', opts='', sign='', deg=3)
    cfg['mps'] = space.workable(cfg) + 40
    p = lib.payload_size(cfg)
    counts = [1, 2, 5, 9] if unit['depth'] == 3 else [1, 2, 5, 9, 14]
    for seq in itertools.product(counts, repeat=unit['depth']):
        case = dict(cfg, chunks=list(seq), share='context')
        ctx.case = case
        with ctx.guard(case):
            opts = lib.options(cfg)
            nc = lib.NameConstructorContext.create(opts)
            first = 0
            for i, nb in enumerate(seq):
                content = lib.data((nb - 1) * p + 1, seed=17 * i)
                pub = lib.publish(cfg, content, opts=opts, name_context=nc)
                first += check_pub(ctx, dict(case, publication=i), cfg, content, pub, first)
