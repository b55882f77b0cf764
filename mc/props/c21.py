"""C21: the tree planner always returns a tree that can hold all the data"""
import contextlib
import hashlib
import io
import math

from ccnpy.core.HashValue import HashValue
from ccnpy.flic.ManifestFactory import ManifestFactory
from ccnpy.flic.name_constructor.FileMetadata import ChunkMetadata, FileMetadata
from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
from ccnpy.flic.tree.TreeBuilder import TreeBuilder
from ccnpy.flic.tree.TreeOptimizer import TreeOptimizer
from ccnpy.flic.tree.TreeParameters import TreeParameters

from .. import lib, wire

PID = 'C21'
TECHNIQUE = 'model checking: exhaustive enumeration of all planning problems within the bound, each plan compared with a brute-force search over all trees and then executed by the real tree builder, whose every manifest is walked independently'
BOUND = {
    'quick': 'plans: every number of data objects 1..400 with every number of pointers 2..16, and 1..60 with 17..45 (a 1500-byte packet has at most 45), every method, every plan of those that return several; numbers around every power of 2 to 2^62 and of 10, and just above what a full tree of any shape holds, with 2..45, 64, 100, 277 and 280 pointers; trees: every distinct plan of every method for 1..120 data objects and 2..10 pointers, in the hashed, prefix and segmented schemas',
    'thorough': 'plans: 1..3000 with 2..45 pointers; trees: 1..400 data objects, 2..12 pointers',
}
ASSUMPTIONS = ['capacity is that of the planned regular tree: k internal nodes with d direct and m indirect pointers, every unused indirect pointer a leaf of d+m pointers; one manifest with d pointers when m is 0']
LISTS = ('minimize_k', 'minimize_waste')
ONES = ('minimize_k_min_waste', 'minimize_waste_min_height')


def units(tier):
    d = tier == 'thorough'
    u = []
    top = 3000 if d else 400
    for q in range(2, 46 if d else 17):
        for a in range(1, top + 1, 600 if d else 400):
            u.append(dict(kind='plans', q=q, a=a, b=min(top, a + (600 if d else 400) - 1)))
    if not d:
        u += [dict(kind='plans', q=q, a=1, b=60) for q in range(17, 46)]
    u += [dict(kind='vast', q=q) for q in list(range(2, 46)) + [64, 100, 277, 280] + ([1000, 1818] if d else [])]
    step = 20
    for q in range(2, 13 if d else 11):
        for s in ('H1', 'P2', 'S1'):
            for a in range(1, 401 if d else 121, step):
                u.append(dict(kind='trees', q=q, schema=s, a=a, b=min(400 if d else 120, a + step - 1)))
    return u


def run(unit, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()[unit['kind']](unit, ctx)


def capacity(k, d, m):
    """The data pointers of a tree of k internal nodes, counted node by node"""
    if m == 0:
        return d if k == 1 else -1      # a node that can have no child: a tree of one node
    if k == 0:
        return d + m                    # one leaf
    open_slots, have = 1, 0
    for _ in range(k):
        open_slots += m - 1
        have += d
    return have + open_slots * (d + m)


def fewest(n, d, m):
    if m == 0:
        return 1 if n <= d else None
    k = 0
    while capacity(k, d, m) < n:
        k += 1
    return k


def candidates(n, q):
    """(d, m) -> (fewest internal nodes that hold n, unused capacity then)"""
    out = {}
    for m in range(q):
        d = q - m
        k = fewest(n, d, m)
        if k is not None:
            out[d, m] = (k, capacity(k, d, m) - n)
    return out


def plans_of(o, name):
    r = getattr(o, name)()
    return r if name in LISTS else [r]


def plans(unit, ctx):
    q = unit['q']
    for n in range(unit['a'], unit['b'] + 1):
        cand = candidates(n, q)
        best_k = min(k for k, w in cand.values())
        best_w = min(w for k, w in cand.values())
        o = TreeOptimizer(n, q)
        got = {}
        for name in LISTS + ONES + LISTS:       # the lists again: planning has no memory
            case = dict(data=n, pointers=q, method=name)
            ctx.step()
            with ctx.guard(case):
                ps = plans_of(o, name)
                ctx.check(len(ps) > 0, case, 'no plan')
                for p in ps:
                    check_plan(ctx, dict(case, plan=repr(p)), p, n, q)
                view = [(p.direct_per_node(), p.indirect_per_node(), p.num_internal_nodes(), p.waste(), p.num_leaf_nodes(), p.total_nodes(), p.tree_height()) for p in ps]
                ctx.check(got.setdefault(name, view) == view, case, 'planning again gives another result')
                ctx.check(len({(v[0], v[1]) for v in view}) == len(view), case, 'a plan is given twice: %s' % view)
                for v in view:
                    if name in ('minimize_k', 'minimize_k_min_waste'):
                        ctx.check(v[2] <= best_k, case, '%d internal nodes, %d suffice' % (v[2], best_k))
                    else:
                        ctx.check(v[3] <= best_w, case, 'waste %d, %d is possible' % (v[3], best_w))
                    ctx.state((n, q, v))
                ctx.trace('%s %s' % (name, 'one level' if best_k == 0 else 'chain' if view[0][1] == 1 else 'tree'))
        if len(got) == 4:
            case = dict(data=n, pointers=q)
            least = min(w for k, w in cand.values() if k == best_k)
            ctx.check(got['minimize_k_min_waste'][0][3] == least, case, 'minimize_k_min_waste: waste %d, %d is possible with as few internal nodes' % (got['minimize_k_min_waste'][0][3], least))
            ctx.check(sorted(v[:2] for v in got['minimize_k']) == sorted(dm for dm, (k, w) in cand.items() if k == best_k), case, 'minimize_k does not give all the best plans: %s' % got['minimize_k'])
            ctx.check(sorted(v[:2] for v in got['minimize_waste']) == sorted(dm for dm, (k, w) in cand.items() if w == best_w), case, 'minimize_waste does not give all the best plans: %s' % got['minimize_waste'])
            lowest = min(v[6] for v in got['minimize_waste'])
            ctx.check(got['minimize_waste_min_height'][0][6] == lowest, case, 'minimize_waste_min_height: height %d, a plan of height %d has the same waste' % (got['minimize_waste_min_height'][0][6], lowest))
        ctx.sample(data=n, pointers=q, fewest=best_k, least_waste=best_w)


def ceiling(a, b):
    return -(-a // b)


def holds(height, d, m):
    """The data pointers of the fullest tree of that height"""
    return d * sum(m ** i for i in range(height)) + (d + m) * m ** height


def full(q):
    """Just as many data objects as a full tree holds, or a few more"""
    for m in range(2, q + 1):
        height = 0
        while holds(height, q - m, m) < 1 << 40:
            yield from (holds(height, q - m, m) + x for x in (0, 1, 2))
            height += 1


def vast(unit, ctx):
    """Numbers of data objects around the powers of 2 and 10, against exact integer arithmetic"""
    q = unit['q']
    ns = sorted({b ** e + x for b, top in ((2, 62), (10, 18), (q, 8)) for e in range(1, top + 1) for x in (-2, -1, 0, 1, 2, q) if 0 < b ** e + x < 1 << 63} | set(full(q)))
    for n in ns:
        cand = {}
        for m in range(q):
            d = q - m
            if m == 0:
                if n <= d:
                    cand[d, m] = (1, d - n)
                continue
            k = max(0, ceiling(n - q, d + (m - 1) * q))
            cand[d, m] = (k, q + k * (d + (m - 1) * q) - n)
        best_k = min(k for k, w in cand.values())
        best_w = min(w for k, w in cand.values())
        o = TreeOptimizer(n, q)
        for name in LISTS + ONES:
            case = dict(data=n, pointers=q, method=name)
            ctx.step()
            with ctx.guard(case):
                ps = plans_of(o, name)
                ctx.check(len(ps) > 0, case, 'no plan')
                for p in ps:
                    d, m, k = p.direct_per_node(), p.indirect_per_node(), p.num_internal_nodes()
                    ctx.check(d + m == q and isinstance(k, int), case, 'plan %r' % p)
                    cap = q + k * (d + (m - 1) * q) if m else d
                    ctx.check(cap >= n and p.waste() == cap - n, case, 'capacity %d and waste %r for %d data objects: %r' % (cap, p.waste(), n, p))
                    if name in ('minimize_k', 'minimize_k_min_waste'):
                        ctx.check(k <= best_k, case, '%d internal nodes, %d suffice' % (k, best_k))
                    else:
                        ctx.check(p.waste() <= best_w, case, 'waste %d, %d is possible' % (p.waste(), best_w))
                    # the height reaches that of the fullest tree with as many internal nodes
                    h, room = 0, 1
                    while m > 1 and room < k:
                        h, room = h + 1, room * m + 1
                    if m > 1 and k:
                        ctx.check(p.tree_height() >= h, case, 'height %d, but %d internal nodes with %d children each need %d' % (p.tree_height(), k, m, h))
                    if m > 1:
                        h = 0
                        while holds(h, d, m) < n:
                            h += 1
                        ctx.check(p.tree_height() >= h, case, 'height %d, but %d data objects need %d: %r' % (p.tree_height(), n, h, p))
                ctx.trace(name)
        ctx.state((q, n))


def check_plan(ctx, case, p, n, q):
    d, m, k = p.direct_per_node(), p.indirect_per_node(), p.num_internal_nodes()
    ctx.check(isinstance(d, int) and isinstance(m, int) and d >= 0 and m >= 0 and d + m == q, case, '%r direct and %r indirect are not %d pointers' % (d, m, q))
    ctx.check(isinstance(k, int) and k >= 0, case, '%r internal nodes' % (k,))
    cap = capacity(k, d, m)
    ctx.check(cap >= n, case, 'capacity %d for %d data objects' % (cap, n))
    ctx.check(p.waste() == cap - n, case, 'waste %r, the unused capacity is %d' % (p.waste(), cap - n))
    ctx.check(p.num_data_objects() == n and p.num_pointers() == q, case, 'the plan is for %r objects and %r pointers' % (p.num_data_objects(), p.num_pointers()))
    leaf = p.num_leaf_nodes()
    ctx.check(isinstance(leaf, int) and leaf >= 0 and leaf * q + k * d >= n, case, '%r leaves and %d internal nodes cannot hold %d' % (leaf, k, n))
    ctx.check(p.total_nodes() == leaf + k and p.total_nodes() >= 1, case, '%r manifests in all' % p.total_nodes())
    ctx.check(isinstance(p.tree_height(), int) and p.tree_height() >= 0, case, 'height %r' % p.tree_height())


def chunk(i, name):
    return ChunkMetadata(i, 100 + i % 7, HashValue.create_sha256(hashlib.sha256(b'chunk %d' % i).digest()), name)


def trees(unit, ctx):
    q, s = unit['q'], unit['schema']
    for n in range(unit['a'], unit['b'] + 1):
        opts = lib.options(dict(schema=s, opts='', enc='', sign='', mps=1500, deg=q))
        done = set()
        for name in LISTS + ONES:
            for p in plans_of(TreeOptimizer(n, q), name):
                key = (p.direct_per_node(), p.indirect_per_node(), p.num_internal_nodes())
                if key in done:
                    continue
                done.add(key)
                case = dict(data=n, pointers=q, schema=s, method=name, plan=repr(p))
                with ctx.guard(case):
                    check_tree(ctx, case, n, q, p, opts)


def check_tree(ctx, case, n, q, p, opts):
    nctx = NameConstructorContext.create(opts)
    metadata = FileMetadata([chunk(i, None) for i in range(n)], sum(100 + i % 7 for i in range(n)))
    sink = []

    class Out:
        def put(self, packet):
            sink.append(packet.serialize().tobytes())

    builder = TreeBuilder(file_metadata=metadata, tree_parameters=TreeParameters(metadata, opts.max_packet_size, p), manifest_factory=ManifestFactory(tree_options=opts),
                          packet_output=Out(), tree_options=opts, name_ctx=nctx)
    top = builder.build()
    packets = {}
    names = []
    for w in sink:
        pk = wire.packet(w)
        packets[pk.hash] = wire.manifest(pk.payload).node
        names.append(pk.name)
    ctx.check(len(packets) == len(sink), case, 'a manifest is written twice')
    if opts.schema_type == lib.TYPES['S']:
        ctx.check(len(set(map(tuple, names))) == len(names), case, 'two manifests have the same name')
    want = {hashlib.sha256(b'chunk %d' % i).digest(): i for i in range(n)}
    met, leaves, internal = [], 0, 0
    seen = set()

    def walk(h, depth):
        nonlocal leaves, internal
        ctx.step()
        ctx.check(h not in seen, case, 'a manifest is pointed to twice')
        seen.add(h)
        ptrs = [x for g in packets[h].groups for x in g.ptrs]
        direct = [x for x in ptrs if x in want]
        indirect = [x for x in ptrs if x in packets]
        ctx.check(len(direct) + len(indirect) == len(ptrs), case, 'a pointer to nothing')
        ctx.check(1 <= len(ptrs) <= q, case, 'a manifest with %d pointers' % len(ptrs))
        if indirect:
            ctx.check(len(indirect) <= p.indirect_per_node(), case, '%d indirect pointers in an internal node' % len(indirect))
            internal += 1
        else:
            leaves += 1
        high = depth
        for x in ptrs:
            if x in want:
                met.append(want[x])
            else:
                high = max(high, walk(x, depth + 1))
        return high

    high = walk(wire.packet(top.serialize().tobytes()).hash, 0)
    ctx.check(met == list(range(n)), case, 'the tree delivers chunks %s' % met[:50])
    ctx.check(len(seen) == len(packets), case, '%d manifests written, %d reached' % (len(packets), len(seen)))
    ctx.check(high <= p.tree_height(), case, 'the tree has height %d, the plan says %d' % (high, p.tree_height()))
    ctx.state((n, q, p.direct_per_node(), p.indirect_per_node(), tuple(met[:5]), high, leaves, internal))
    ctx.trace('height %d of %d' % (high, p.tree_height()))
    ctx.sample(case=case, height=high, leaves=leaves, internal=internal)
