"""C02: every packet except the root fits the maximum packet size"""
from .. import lib, space, wire

PID = 'C02'
BOUND = {
    'quick': 'every second packet size of a 360-byte window around the smallest workable one x 12 schema variants x {plain, GCM, wrapped} x 2 option sets x 2 input sizes; the publication grid (4 encryptions, 4 option sets, 4 packet sizes, 4 degrees, 16 input sizes); all patterns of up to 3 read sizes; 255..300 and 65540 chunks; packets up to 65535 bytes; input sizes around every point where a size field grows; manifests with up to 1900 pointers; high trees; inputs whose chunks repeat; chunk numbers that start at each width; trees over chunks held elsewhere, with totals around 2^8, 2^16, 2^24, 2^32, 2^40 and 2^52 bytes; 70000 manifests in the smallest packets that are possible',
    'thorough': 'every packet size of the window x 10 encryptions x 5 option sets x 3 degrees x 5 sizes; the deep publication grid; patterns of 4 read sizes, up to 5000 chunks; manifests with up to 1900 pointers; high trees; inputs whose chunks repeat; chunk numbers that start at each width; trees over chunks held elsewhere, with totals around 2^8, 2^16, 2^24, 2^32, 2^40 and 2^52 bytes; 70000 manifests in the smallest packets that are possible',
}
ASSUMPTIONS = ['the wire length of a packet is the number of bytes given to the packet writer']


def units(tier):
    u = space.base_units(tier) + space.room_units(tier) + space.long_units(tier) + space.short_units(tier)
    for s in space.SCHEMAS:
        for e in ('', 'g', 'K'):
            u.append(dict(kind='width', schema=s, enc=e, opts=space.ALL_OPTS))
    u[1:1] = space.vast_units(tier)
    u += space.aged_units(tier) + space.tall_units(tier) + space.numbered_units(tier) + space.alike_units(tier)
    u[1:1] = space.wide_units(tier)
    u += space.claimed_units(tier)
    # first, as they take longest
    u[1:1] = [dict(kind='tight', schema=s, opts=o, chunks=70000) for s in ('S1', 'S2', 'S3', 'S4') for o in (('', 'x', 'n', 'ngl') if tier == 'thorough' else ('x', 'n'))]
    return u


def width_cases(unit, ctx):
    """Inputs whose size fields need one, two, three bytes, with packet sizes that leave no byte unused"""
    base = dict(schema=unit['schema'], enc=unit['enc'], opts=unit['opts'], sign='', deg=None, mps=0)
    for rel in range(0, 40):
        cfg = dict(base, mps=space.workable(base) + rel)
        for n in (255, 256, 257, 65535, 65536):
            if n > 60000 and rel % 8:
                continue
            yield cfg, n


def run(unit, ctx):
    if unit['kind'] == 'claimed':
        for cfg, case, wires, tree in space.claimed(unit, ctx):
            ctx.step(len(wires))
            big = max(map(len, wires[:-1]), default=0)
            ctx.check(big <= cfg['mps'], case, 'a manifest has %d bytes, the maximum is %d' % (big, cfg['mps']))
            ctx.state((sorted(case.items(), key=repr), big))
            ctx.trace('total of %d bytes' % len(wire.varint(tree.bytes)))
        return
    if unit['kind'] == 'tight':
        return tight(unit, ctx)
    if unit['kind'] == 'width':
        gen = width(unit, ctx)
    else:
        gen = space.publications(unit, ctx)
    for cfg, content, pub in gen:
        case = dict(cfg, size=len(content))
        big = 0
        for i, w in enumerate(pub.wires[:-1]):
            ctx.step()
            big = max(big, len(w))
            if len(w) > cfg['mps']:
                ctx.fail(case, 'packet %d of %d has %d bytes, the maximum is %d' % (i, len(pub.wires), len(w), cfg['mps']))
                break
            declared = int.from_bytes(w[2:4], 'big')
            if declared != len(w):
                ctx.fail(case, 'packet %d has %d bytes and says %d' % (i, len(w), declared))
                break
        ctx.check(pub.wires[-1] == pub.root.serialize().tobytes(), case, 'the root is not the last packet written')
        ctx.state((sorted(case.items(), key=repr), big))
        ctx.trace('slack %s' % ('0' if big == cfg['mps'] else 'more'))
        ctx.sample(case=case, largest=big)


def width(unit, ctx):
    for cfg, n in width_cases(unit, ctx):
        content = lib.data(n)
        case = dict(cfg, size=n)
        ctx.case = case
        with ctx.guard(case):
            yield cfg, content, lib.publish(cfg, content)


def tight(unit, ctx):
    """The smallest packets with two pointers, and so many manifests that their numbers have three bytes"""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.ManifestTree import ManifestTree
    from ccnpy.flic.name_constructor.FileMetadata import ChunkMetadata, FileMetadata
    total = (1 << 24) - 1
    base = dict(schema=unit['schema'], enc='', opts=unit['opts'], sign='', deg=None)

    def build(mps, nb):
        sizes = [total // nb] * (nb - 1) + [total - total // nb * (nb - 1)]
        chunks = [ChunkMetadata(chunk_number=i, payload_bytes=n, content_object_hash=HashValue.create_sha256(lib.hashlib.sha256(b'chunk %d' % i).digest())) for i, n in enumerate(sizes)]
        lengths = []

        class Lengths:
            def put(self, packet):
                lengths.append(len(packet.serialize()))

        ManifestTree(data_input=FileMetadata(total_bytes=total, chunk_metadata=chunks), packet_output=Lengths(), tree_options=lib.options(dict(base, mps=mps))).build()
        return lengths

    top = space.workable(base)
    for mps in range(top - 150, top + 1):
        try:
            build(mps, 3)
            break
        except Exception:
            ctx.trace('refused')
    for nb in (300, unit['chunks']):
        case = dict(base, mps=mps, chunks=nb)
        ctx.case = case
        with ctx.guard(case):
            lengths = build(mps, nb)
            big = max(lengths[:-1])
            ctx.check(big <= mps, case, 'a manifest has %d bytes, the maximum is %d' % (big, mps))
            ctx.step(len(lengths))
            ctx.state((sorted(case.items(), key=repr), big))
            ctx.trace('%d bytes of slack' % (mps - big))
            ctx.sample(case=case, largest=big)
