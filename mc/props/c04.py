"""C04: size annotations equal the bytes they describe"""
from .. import lib, space, wire

PID = 'C04'
BOUND = {
    'quick': '12 schema variants x 4 encryptions x all 8 subsets of {node size, group size, leaf size} x 3 packet sizes x degrees {none,2,3,5} x 16 input sizes; all patterns of up to 3 read sizes; 255..300 and 65540 chunks; sizes up to 270000 bytes; manifests with up to 1900 pointers; high trees; inputs whose chunks repeat; trees over chunks held elsewhere, with totals around 2^8, 2^16, 2^24, 2^32, 2^40 and 2^52 bytes',
    'thorough': '10 encryptions, 6 packet sizes, 6 degrees, 30 chunk counts x 3 tails; patterns of 4 read sizes, up to 5000 chunks; sizes above 2^24; manifests with up to 1900 pointers; high trees; inputs whose chunks repeat; trees over chunks held elsewhere, with totals around 2^8, 2^16, 2^24, 2^32, 2^40 and 2^52 bytes',
}
ASSUMPTIONS = ['chunks are pairwise different']


def units(tier):
    deep = tier == 'thorough'
    u = []
    for s in space.SCHEMAS:
        for e in (list(lib.ENCS) if deep else ['', 'g', 'K', 'w']):
            for o in ('', 'n', 'g', 'l', 'ng', 'nl', 'gl', 'ngl'):
                u.append(dict(kind='grid', schema=s, enc=e, opts=o, rel=[5, 60, 300] if not deep else [5, 20, 60, 150, 300, 700],
                              degs=[None, 2, 3, 5] if not deep else [None, 2, 3, 4, 5, 8],
                              nbs=[1, 2, 3, 4, 6, 9, 13, 20] if not deep else list(range(1, 26)) + [31, 40, 64, 100],
                              tails=[1, 'f'] if not deep else [1, '-', 'f']))
    u += space.long_units(tier) + space.short_units(tier)
    if deep:
        for s in ('H2', 'S1'):
            u.append(dict(kind='abs', schema=s, enc='', opts='ngl', mps=[60000], degs=[3], nbs=[281], tails=[1]))
    u[1:1] = space.vast_units(tier)
    u += space.aged_units(tier) + space.tall_units(tier) + space.alike_units(tier)
    u[1:1] = space.wide_units(tier)
    u += space.claimed_units(tier)
    return u


def run(unit, ctx):
    if unit['kind'] == 'claimed':
        o = unit['opts']
        for cfg, case, wires, tree in space.claimed(unit, ctx):
            for v in tree.visits:
                ctx.step()
                node = v['node']
                d = v['depth']

                def right(got, want, option):
                    # without the option there need be no size, in the root never
                    return got == want or got is None and (option not in o or d == 0)
                ctx.check(right(node.subtree_size, v['bytes'], 'n'), case, 'node subtree size %r at depth %d, reachable %d' % (node.subtree_size, d, v['bytes']))
                for g, leaf, sub in v['groups']:
                    ctx.check(right(g.subtree_size, sub, 'g'), case, 'group subtree size %r at depth %d, reachable %d' % (g.subtree_size, d, sub))
                    ctx.check(right(g.leaf_size, leaf, 'l'), case, 'leaf size %r at depth %d, direct bytes %d' % (g.leaf_size, d, leaf))
            ctx.state((sorted(case.items(), key=repr), tree.bytes))
            ctx.trace('total of %d bytes' % len(wire.varint(tree.bytes)))
        return
    for cfg, content, pub in space.publications(unit, ctx):
        case = dict(cfg, size=len(content))
        try:
            tree = pub.tree()
        except Exception as e:
            ctx.fail(case, 'the packets written form no tree: %s: %s' % (type(e).__name__, e))
            continue
        o = cfg['opts']
        seen = set()
        for v in tree.visits:
            node = v['node']
            if node is None:
                continue
            ctx.step()
            where = 'depth %d' % v['depth']
            if 'n' in o:
                ctx.check(node.subtree_size is not None, case, 'no node subtree size at ' + where)
            if node.subtree_size is not None:
                ctx.check(node.subtree_size == (v['bytes'] if 'n' in o or v['depth'] == 0 and node.subtree_size is not None else None), case, 'node subtree size %d at %s, reachable %d' % (node.subtree_size, where, v['bytes']))
            for g, leaf, sub, kinds in v['groups']:
                if 'g' in o:
                    ctx.check(g.subtree_size is not None, case, 'no group subtree size at ' + where)
                if g.subtree_size is not None:
                    ctx.check(g.subtree_size == (sub if 'g' in o or v['depth'] == 0 and g.subtree_size is not None else None), case, 'group subtree size %d at %s, reachable %d' % (g.subtree_size, where, sub))
                if 'l' in o and v['depth'] > 0:
                    ctx.check(g.leaf_size is not None, case, 'no leaf size at ' + where)
                if g.leaf_size is not None:
                    ctx.check(g.leaf_size == leaf, case, 'leaf size %d at %s, direct bytes %d' % (g.leaf_size, where, leaf))
                seen.add((v['depth'], kinds, leaf, sub))
            if v['depth'] == 0 and 'n' in o:
                ctx.check(node.subtree_size == len(content), case, 'the root says %d bytes' % node.subtree_size)
        ctx.state((o, tuple(sorted(seen))))
        ctx.trace('groups %s' % ','.join(sorted({k[1] if len(k[1]) < 6 else 'long' for k in seen}))[:60])
        ctx.sample(case=case)
