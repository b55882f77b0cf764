"""C27: the definitions in a publication say of every packet under which name or locators it can be fetched"""
import itertools
import os
import shutil
import tempfile

from ccnpy.core.HashValue import HashValue
from ccnpy.core.Link import Link
from ccnpy.core.Packet import Packet
from ccnpy.flic.tlvs.Locator import Locator
from ccnpy.flic.tlvs.Locators import Locators
from ccnpy.flic.tlvs.Manifest import Manifest

from .. import lib, space, wire

PID = 'C27'
TECHNIQUE = 'model checking: exhaustive enumeration of publications over schemas, prefixes, locators and histories on shared objects; the definitions of each tree, decoded by an independent reader, compared with the configured ones'
BOUND = {
    'quick': '12 schema variants x 4 encryptions x degrees {none,2,3} x 5 input sizes; all pairs of 12 locators (names of every kind, key and content restrictions, none) for manifests and data x 2 encryptions; every triple of 10 unusual names x 3 schemas; all histories of 3 publications over 3 sizes that share the options, the name context, both or neither; definition numbers of one, two and three bytes; the writer program with every locator option; publications one after the other with names that look alike',
    'thorough': 'as quick with 10 encryptions, 6 degrees, 12 input sizes, and histories of 4 publications over 4 sizes; publications one after the other with names that look alike',
}
ASSUMPTIONS = ['a locator list has one link (the code refuses more)']

H = bytes(range(32))
# (name index in lib.ODD, key id restriction, content restriction)
LINKS = [None, (0, None, None), (2, None, None), (5, None, None), (6, None, None), (8, None, None), (9, None, None),
         (0, H, None), (0, None, H), (0, H, H[::-1]), (0, H[::-1], H), (7, H, H)]


def units(tier):
    d = tier == 'thorough'
    u = [dict(kind='grid', schema=s, enc=e, degs=[None, 2, 3] + ([5, 7, 10] if d else []), nbs=[1, 2, 5, 9, 20] + ([3, 4, 6, 7, 13, 31, 64] if d else []))
         for s in space.SCHEMAS for e in (lib.ENCS if d else ('', 'g', 'K', 'w'))]
    u += [dict(kind='links', m=i, enc=e) for i in range(len(LINKS)) for e in ('', 'g')]
    u += space.names_units(tier) + space.confused_units(tier) + space.aged_units(tier)
    u += [dict(kind='history', schema=s, n=4 if d else 3, counts=[1, 4, 9, 14] if d else [1, 4, 9]) for s in space.SCHEMAS]
    u += [dict(kind='cli', part=i) for i in range(4)]
    return u


def run(unit, ctx):
    if unit['kind'] in ('names', 'confused', 'aged'):
        for cfg, content, pub in space.publications(unit, ctx):
            check_pub(ctx, dict(cfg, size=len(content)), cfg, pub)
        return
    globals()[unit['kind']](unit, ctx)


def expected(cfg, links=None):
    """-> what a definition for manifests and one for data must say"""
    t = lib.SCHEMAS[cfg['schema']][0]
    root, m, d = lib.expected_prefixes(cfg)
    if t == 'P':
        return wire.Schema('P', m, None, ()), wire.Schema('P', d, None, ())
    if t == 'S':
        return wire.Schema('S', m, wire.MANIFEST_ID, ()), wire.Schema('S', d, wire.CHUNK, ())
    locs = [tuple((wire.name_tlv(n)) for n in l) for l in lib.locators_of(cfg)]
    if links:
        locs = [(link_bytes(LINKS[i]) if LINKS[i] else wire.name_tlv(root),) for i in links]
    return tuple(wire.Schema('H', None, None, l) for l in locs)


def link_bytes(link):
    n, keyid, digest = link
    b = wire.name_tlv(lib.ODD[n])
    for t, h in ((2, keyid), (3, digest)):
        if h is not None:
            b += wire.tlv(t, wire.tlv(1, h))
    return b


def link_of(link):
    n, keyid, digest = link
    hv = [None if h is None else HashValue.create_sha256(h) for h in (keyid, digest)]
    return Locators([Locator(Link(lib.name_of(lib.ODD[n]), *hv))])


def check_pub(ctx, case, cfg, pub, links=None):
    ctx.step()
    try:
        tree = pub.tree()
    except Exception as e:
        ctx.fail(case, 'the packets written form no tree: %s: %s' % (type(e).__name__, e))
        return
    for_manifest, for_data = expected(cfg, links)
    root = tree.visits[0]
    defs = {}
    for i, s in root['node'].nc_defs:
        ctx.check(i not in defs, case, 'two definitions for %r' % i)
        defs[i] = s
    ctx.check(1 <= len(defs) <= 2, case, '%d definitions' % len(defs))
    for v in tree.visits[1:]:
        ctx.check(v['node'] is None or not v['node'].nc_defs, case, 'a definition in an inner manifest')
    used = set()
    for v in tree.visits:
        for g, _, _, kinds in v.get('groups', ()):
            ctx.check(g.nc_id in defs, case, 'a group without a definition: %r' % g.nc_id)
            used.add(g.nc_id)
            for k in set(kinds):
                want = for_data if k == 'd' else for_manifest
                ctx.check(defs.get(g.nc_id) == want, case, 'a group of %s refers to %r, not %r' % ('data' if k == 'd' else 'manifests', defs.get(g.nc_id), want))
    wanted = {for_manifest, for_data}
    ctx.check(set(defs.values()) == wanted, case, 'defined %r, not %r' % (set(defs.values()), wanted))
    # what the code under test makes of it
    if cfg.get('enc', '') == '':
        with ctx.guard(case):
            p = lib.parse(pub.wires[-1])
            node = Manifest.from_content_object(p.body()).node()
            for d in node.node_data().nc_defs():
                want = defs[d.nc_id().id()]
                s = d.schema()
                if want.kind == 'H':
                    got = tuple(bytes(x.serialize())[4:] for x in s.locators())
                    ctx.check(got == want.locators and s.count() == 1, case, 'the reader sees the locators %r' % (got,))
                    name = wire.name_of(wire.tlvs(want.locators[0])[0][1])
                    ctx.check(lib.ref_name(s.locators()[0].name()) == name, case, 'the reader sees the locator %r' % (s.locators()[0].name(),))
                else:
                    ctx.check(lib.ref_name(s.name()) == want.name, case, 'the reader sees the prefix %r' % (s.name(),))
    ctx.state((cfg['schema'], tuple(defs.values()), len(pub.packets)))
    ctx.trace('%s %d definitions, %d used' % (cfg['schema'], len(defs), len(used)))
    ctx.sample(case=case, definitions=repr(sorted(defs.items())))


def grid(unit, ctx):
    for opts in ('', space.ALL_OPTS):
        base = dict(schema=unit['schema'], enc=unit['enc'], opts=opts, sign='', deg=None)
        for rel in (5, 150):
            for deg in unit['degs']:
                cfg = dict(base, mps=space.workable(base) + rel, deg=deg)
                for n in space.sizes(cfg, unit['nbs'], [1]):
                    case = dict(cfg, size=n)
                    ctx.case = case
                    with ctx.guard(case):
                        check_pub(ctx, case, cfg, lib.publish(cfg, lib.data(n)))


def links(unit, ctx):
    for d in range(len(LINKS)):
        for deg in (None, 3):
            cfg = dict(schema='H1', enc=unit['enc'], opts='n', sign='', mps=2000, deg=deg)
            for n in (1, 9000):
                case = dict(cfg, size=n, links=[unit['m'], d])
                ctx.case = case
                with ctx.guard(case):
                    opts = lib.options(cfg)
                    opts.manifest_locators = link_of(LINKS[unit['m']]) if LINKS[unit['m']] else None
                    opts.data_locators = link_of(LINKS[d]) if LINKS[d] else None
                    check_pub(ctx, case, cfg, lib.publish(cfg, lib.data(n), opts=opts), [unit['m'], d])


def history(unit, ctx):
    cfg = dict(schema=unit['schema'], enc='', opts='', sign='', deg=3)
    cfg['mps'] = space.workable(cfg) + 40
    p = lib.payload_size(cfg)
    for seq in itertools.product(unit['counts'], repeat=unit['n']):
        for share in ('options', 'context', 'both', 'neither'):
            case = dict(cfg, chunks=list(seq), share=share)
            ctx.case = case
            with ctx.guard(case):
                opts = lib.options(cfg)
                nc = lib.NameConstructorContext.create(opts)
                for i, nb in enumerate(seq):
                    pub = lib.publish(cfg, lib.data((nb - 1) * p + 1, seed=17 * i), opts=opts if share in ('options', 'both') else None,
                                      name_context=nc if share in ('context', 'both') else None)
                    check_pub(ctx, dict(case, publication=i), cfg, pub)


def cli(unit, ctx):
    """The writer program"""
    from . import c22
    d = tempfile.mkdtemp(prefix='c27-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    try:
        c22.write_keys(d)
        c22.preload()
        i = 0
        for s, loc in [('Hashed', l) for l in ('', 'm', 'd', 'md')] + [('Prefix', ''), ('Segmented', '')]:
            for crypto in ('plain', 'new'):
                for deg in (None, 2):
                    i += 1
                    if i % 4 != unit['part']:
                        continue
                    c = dict(c22.default(s, crypto), loc=loc, deg=deg, data=12001)
                    case = dict(schema=s, crypto=crypto, locators=loc, deg=deg)
                    ctx.case = case
                    with ctx.guard(case):
                        out = 'o%d' % i
                        os.mkdir(os.path.join(d, out))
                        with open(os.path.join(d, 'in'), 'wb') as f:
                            f.write(lib.data(c['data']))
                        argv = [a for a in c22.writer_args(c, c22.NAME, out, 'in') if a != '--link']
                        code, text = c22.program('manifest_writer', argv, d, '')
                        ctx.check(code == 0, case, 'the writer failed: %r' % text[-300:])
                        wires = []
                        for n in os.listdir(os.path.join(d, out)):
                            with open(os.path.join(d, out, n), 'rb') as f:
                                wires.append(f.read())
                        root, = [w for w in wires if wire.packet(w).sig is not None]
                        wires.remove(root)
                        name = wire.uri_name(c22.NAME)
                        cfg = dict(schema=s, enc='' if crypto == 'plain' else 'w')
                        if s == 'Hashed':
                            locs = {'m': 'ccnx:/manifest', 'd': 'ccnx:/data/here'}
                            want = [wire.Schema('H', None, None, (wire.name_tlv(wire.uri_name(locs[k]) if k in loc else name),)) for k in 'md']
                        elif s == 'Prefix':
                            want = [wire.Schema('P', name, None, ())] * 2
                        else:
                            want = [wire.Schema('S', wire.uri_name('ccnx:/foo.com/m'), wire.MANIFEST_ID, ()),
                                    wire.Schema('S', wire.uri_name('ccnx:/foo.com/d'), wire.CHUNK, ())]
                        tree = wire.Tree(wires + [root], lib.Opener('w' if crypto == 'new' else ''))
                        defs = dict(tree.visits[0]['node'].nc_defs)
                        ctx.check(set(defs.values()) == set(want), case, 'defined %r' % (defs,))
                        for v in tree.visits:
                            for g, _, _, kinds in v.get('groups', ()):
                                for k in set(kinds):
                                    ctx.check(defs.get(g.nc_id) == want[k == 'd'], case, 'a group of %s refers to %r' % (k, defs.get(g.nc_id)))
                        ctx.step(len(tree.visits))
                        ctx.state((s, crypto, loc, deg, tuple(defs.values())))
                        ctx.trace('%s %s' % (s, loc))
    finally:
        shutil.rmtree(d, ignore_errors=True)
