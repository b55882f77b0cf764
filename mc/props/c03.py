"""C03: the tree points to every packet exactly once, in order, within its degree"""
from .. import lib, space, wire

PID = 'C03'
BOUND = {
    'quick': 'the publication grid (12 schema variants x 4 encryptions x 4 option sets x 4 packet sizes x degrees {none,2,3,5} x 16 input sizes), every chunk count 1..60 for every degree 2..9 in 3 schemas, all patterns of up to 3 read sizes; 255..300 and 65540 chunks; manifests with 127..1900 pointers; high trees (degree 2 and 3); inputs whose chunks repeat',
    'thorough': 'the deep publication grid, every chunk count 1..300 for every degree 2..12 in 4 schemas, patterns of 4 read sizes, up to 5000 chunks; manifests with 127..1900 pointers; high trees (degree 2 and 3); inputs whose chunks repeat',
}
ASSUMPTIONS = ['chunks are pairwise different, so packets are pairwise different']


def units(tier):
    u = space.base_units(tier) + space.long_units(tier) + space.short_units(tier)
    deep = tier == 'thorough'
    for s in ('H1', 'P2', 'S1') + (('S3',) if deep else ()):
        for deg in range(2, 13 if deep else 10):
            hi = 301 if deep else 61
            for a in range(1, hi, 20):
                u.append(dict(kind='abs', schema=s, enc='', opts='', mps=[420], degs=[deg], nbs=list(range(a, min(a + 20, hi))), tails=[1]))
    for s in ('H1', 'S1'):
        for sg in ('c', 'r'):
            u.append(dict(kind='grid', schema=s, enc='', opts='r', rel=[60], degs=[3], nbs=[1, 2, 5, 11], tails=[1], signs=[sg]))
    u[1:1] = space.vast_units(tier)
    u += space.aged_units(tier) + space.alike_units(tier) + space.tall_units(tier)
    u[1:1] = space.wide_units(tier, degs=space.WIDE)
    return u


def run(unit, ctx):
    for cfg, content, pub in space.publications(unit, ctx):
        case = dict(cfg, size=len(content))
        try:
            tree = pub.tree()
        except Exception as e:
            ctx.fail(case, 'the packets written form no tree: %s: %s' % (type(e).__name__, e))
            continue
        check(ctx, case, cfg, content, tree)


def check(ctx, case, cfg, content, tree):
    visited = [v['packet'].hash for v in tree.visits]
    ctx.step(len(visited))
    written = [p.hash for p in tree.packets]
    if 'content' not in cfg:
        ctx.check(len(set(visited)) == len(visited), case, 'a packet is pointed to %d times' % (max(map(visited.count, set(visited))) if len(visited) < 3000 else 2))
    else:
        # equal chunks may be one packet
        visited, written = [list(dict.fromkeys(x)) for x in (visited, written)]
    ctx.check(sorted(visited) == sorted(written), case, '%d packets written, %d reached' % (len(written), len(visited)))
    ctx.check(tree.data == content, case, 'the chunks in tree order are not the input')
    chunk_order = [p.hash for p in tree.packets if p.ptype == wire.DATA]
    ctx.check('content' in cfg or [v['packet'].hash for v in tree.visits if v['node'] is None] == chunk_order, case, 'chunks are not visited in the order written')
    pos = {h: i for i, h in enumerate(written)}
    ctx.check(pos[visited[0]] == len(written) - 1, case, 'the root is not written last')
    for v in tree.visits:
        if v['node'] is None:
            continue
        ptrs = [p for g in v['node'].groups for p in g.ptrs]
        if v['depth'] == 0:
            ctx.check(len(ptrs) == 1, case, 'the root has %d pointers' % len(ptrs))
        else:
            ctx.check(len(ptrs) >= 1, case, 'a manifest without pointers')
            if cfg['deg'] is not None:
                ctx.check(len(ptrs) <= cfg['deg'], case, 'a manifest has %d pointers, the degree is %d' % (len(ptrs), cfg['deg']))
        for p in ptrs:
            ctx.check(pos[p] < pos[v['packet'].hash], case, 'a packet is written before one that it points to')
    depth = max(v['depth'] for v in tree.visits)
    ctx.state(tuple((v['depth'], v['node'] is None) for v in tree.visits))
    ctx.trace('depth %d' % depth)
    ctx.sample(case=case, packets=len(written), depth=depth)
