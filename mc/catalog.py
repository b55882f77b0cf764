"""
A catalogue of the element types of the library with values, the encoding that the wire format gives them (built here on
plain bytes, not by the code under test), and what their accessors have to return.  Shared by C08 and C19.
"""
import hashlib
import itertools
from array import array
from collections import namedtuple

from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.FinalChunkId import FinalChunkId
from ccnpy.core.HashValue import HashValue
from ccnpy.core.KeyId import KeyId
from ccnpy.core.KeyLink import KeyLink
from ccnpy.core.Link import Link
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Pad import Pad
from ccnpy.core.Payload import Payload
from ccnpy.core.PayloadType import PayloadType
from ccnpy.core.SignatureTime import SignatureTime
from ccnpy.core.Tlv import Tlv
from ccnpy.core.ValidationAlg import ValidationAlg, ValidationAlg_Crc32c, ValidationAlg_RsaSha256
from ccnpy.core.ValidationPayload import ValidationPayload
from ccnpy.flic.RsaOaepCtx.HashAlg import HashAlg
from ccnpy.flic.RsaOaepCtx.RsaOaepWrapper import RsaOaepWrapper
from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
from ccnpy.flic.aeadctx.AeadData import AeadData
from ccnpy.flic.tlvs.AeadCtx import AeadCtx
from ccnpy.flic.tlvs.AeadMode import AeadMode
from ccnpy.flic.tlvs.AuthTag import AuthTag
from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
from ccnpy.flic.tlvs.GroupData import GroupData
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.KdfAlg import KdfAlg
from ccnpy.flic.tlvs.KdfData import KdfData
from ccnpy.flic.tlvs.KdfInfo import KdfInfo
from ccnpy.flic.tlvs.KeyNumber import KeyNumber
from ccnpy.flic.tlvs.LeafDigest import LeafDigest
from ccnpy.flic.tlvs.LeafSize import LeafSize
from ccnpy.flic.tlvs.Locator import Locator
from ccnpy.flic.tlvs.Locators import Locators
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.NcDef import NcDef
from ccnpy.flic.tlvs.NcId import NcId
from ccnpy.flic.tlvs.NcSchema import HashSchema, NcSchema, PrefixSchema, SegmentedSchema
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.NodeData import NodeData
from ccnpy.flic.tlvs.Nonce import Nonce
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.ProtocolFlags import ProtocolFlags
from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
from ccnpy.flic.tlvs.SecurityCtx import SecurityCtx
from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
from ccnpy.flic.tlvs.SubtreeDigest import SubtreeDigest
from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
from ccnpy.flic.tlvs.Vendor import Vendor

from . import wire

# -- specifications of encodings --------------------------------------------------------------------------------------


class S:
    """An element: type, and either its bytes or its child elements.  many: it may appear more than once in its parent."""

    def __init__(self, t, v, many=False):
        self.t, self.v, self.many = t, v, many

    def enc(self):
        return wire.tlv(self.t, self.v if isinstance(self.v, bytes) else enc(self.v))


def enc(specs):
    return b''.join(s.enc() for s in specs)


def only(*specs):
    return [s for s in specs if s is not None]


# A value: kind of element, name, thunk that builds it, its specification, how to parse it, accessor name -> expected
Value = namedtuple('Value', 'kind label build spec parse accessors sequence')

INTS = [0, 1, 0x7F, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFFF, 0x1000000, 0xFFFFFFFF, 0x100000000, 0xFFFFFFFFFF, 2 ** 53, 2 ** 63, 2 ** 64 - 1]
SOME = [0, 0xFF, 0x100, 0x1000000, 2 ** 64 - 1]


def tlv_parse(cls):
    return lambda b: cls.parse(Tlv.deserialize(array('B', b)))


def octets(n, seed=b''):
    out = b''
    i = 0
    while len(out) < n:
        out += hashlib.sha256(b'%s %d' % (seed, i)).digest()
        i += 1
    return out[:n]


def plain(x):
    """What an accessor returned, as plain data"""
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, array):
        return x.tobytes()
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if hasattr(x, 'serialize'):
        return bytes(x.serialize())
    raise TypeError(type(x))


def b_hash(alg, v):
    return wire.tlv(alg, v)


# -- scalar elements ----------------------------------------------------------------------------------------------------

INTEGERS = [(SubtreeSize, 2), (LeafSize, 0), (NcId, 5), (StartSegmentId, 4), (KeyNumber, 0), (KdfAlg, 6), (HashAlg, 3)]
OCTETS = [(Payload, 1), (Nonce, 1), (AuthTag, 3), (EncryptedNode, 2), (KdfInfo, 7), (ProtocolFlags, 1), (WrappedKey, 4)]


def scalars():
    for cls, t in INTEGERS:
        for n in INTS:
            yield Value(cls.__name__, str(n), lambda cls=cls, n=n: cls(n), S(t, wire.varint(n)), tlv_parse(cls), {'value': n}, False)
    for n in INTS:
        yield Value('FinalChunkId', str(n), lambda n=n: FinalChunkId(n), S(7, wire.varint(n)), tlv_parse(FinalChunkId), {}, False)
    for n in (1, 2, 3, 4):
        yield Value('AeadMode', str(n), lambda n=n: AeadMode(n), S(2, bytes([n])), tlv_parse(AeadMode),
                    {'value': n, 'key_bits': 128 if n in (1, 3) else 256, 'is_aes_gcm_128': n == 1, 'is_aes_gcm_256': n == 2,
                     'is_aes_ccm_128': n == 3, 'is_aes_ccm_256': n == 4}, False)
    for n in (0, 1, 0x10, 0xFF, 0x100, 0xFFFF):
        yield Value('SuffixComponentType', str(n), lambda n=n: SuffixComponentType(n), S(2, n.to_bytes(2, 'big')),
                    tlv_parse(SuffixComponentType), {'value': n}, False)
    for n in range(0, 5):
        yield Value('PayloadType', str(n), lambda n=n: PayloadType(n), S(5, bytes([n])), tlv_parse(PayloadType),
                    {'is_data': n == 0, 'is_key': n == 1, 'is_link': n == 2, 'is_manifest': n == 3}, False)
    for cls, t in OCTETS:
        for n in (0, 1, 2, 3, 31, 32, 255, 256, 257, 1000, 65535):
            v = octets(n)
            for how in ('bytes', 'list', 'array') if n < 300 else ('bytes',):
                x = {'bytes': v, 'list': list(v), 'array': array('B', v)}[how]
                if how == 'list' and n == 0:
                    x = []
                yield Value(cls.__name__, '%d octets from %s' % (n, how), lambda cls=cls, x=x: cls(x), S(t, v), tlv_parse(cls),
                            {'value': v}, False)
        for v in (b'\0', b'\0\0\0', b'\xff' * 5):
            yield Value(cls.__name__, v.hex(), lambda cls=cls, v=v: cls(v), S(t, v), tlv_parse(cls), {'value': v}, False)
    for n in (0, 1, 5, 256):
        yield Value('Pad', str(n), lambda n=n: Pad(n), S(0xFFE, bytes(n)), tlv_parse(Pad), {}, False)
    for n in (0, 1, 32, 256):
        v = octets(n)
        yield Value('ValidationPayload', str(n), lambda v=v: ValidationPayload(array('B', v)), S(4, v), tlv_parse(ValidationPayload),
                    {'payload': v}, False)
    for ms in (0, 1, 999, 1000, 1234567, 2 ** 32, 1700000000123, 2 ** 51 - 1):
        for cls, t in ((ExpiryTime, 6), (SignatureTime, 15)):
            yield Value(cls.__name__, str(ms), lambda cls=cls, ms=ms: cls(ms / 1000), S(t, ms.to_bytes(8, 'big')), tlv_parse(cls),
                        {'milliseconds': ms}, False)
    for sec, ms in ((1.0004, 1000), (1.0006, 1001), (1700000000.12349, 1700000000123), (0.0004, 0), (7, 7000)):
        for cls, t in ((ExpiryTime, 6), (SignatureTime, 15)):
            yield Value(cls.__name__, '%r s' % sec, lambda cls=cls, sec=sec: cls(sec), S(t, ms.to_bytes(8, 'big')), tlv_parse(cls),
                        {'milliseconds': ms}, False)


def hashes():
    """(label, alg, bytes)"""
    for alg in (1, 2, 9):
        for n in (0, 1, 31, 32, 33, 64, 256):
            if alg == 1 or n in (32, 64):
                yield 'alg %d, %d octets' % (alg, n), alg, octets(n, b'h%d' % alg)
    yield 'zeros', 1, bytes(32)


def hash_spec(alg, v):
    return S(alg, v)


def hash_elements():
    for label, alg, v in hashes():
        hv = lambda alg=alg, v=v: HashValue(alg, array('B', v))
        yield Value('HashValue', label, hv, S(alg, v), lambda b: HashValue.deserialize(array('B', b)),
                    {'hash_algorithm': alg, 'value': v}, False)
        for cls, t in ((KeyId, 9), (SubtreeDigest, 3), (LeafDigest, 1)):
            yield Value(cls.__name__, label, lambda cls=cls, hv=hv: cls(hv()), S(t, [S(alg, v)]), tlv_parse(cls), {'digest': wire.tlv(alg, v)}, False)


# -- names and links ----------------------------------------------------------------------------------------------------

def name_list():
    """Lists of (type, value)"""
    yield ()
    comps = [(1, b'a'), (1, b''), (1, 'é/€'.encode()), (1, b'x' * 300), (2, b'\x01\xff'), (5, b'\0'), (5, b'\xff'), (5, b'\1\0'), (16, b'\0\1\2'[1:]),
             (0x1234, b'\x80\x81')]
    for c in comps:
        yield (c,)
    for a, b in itertools.product(comps[:1] + comps[2:3] + comps[5:9], repeat=2):
        yield (a, b)
    yield ((1, b'a'), (1, b'b'), (1, b'c'), (5, b'\7'))


def build_name(comps):
    if comps and all(t == 1 for t, _ in comps):
        return Name([NameComponent.create_name_segment(v) for _, v in comps])
    return Name([NameComponent(t, array('B', v)) if t != 1 else NameComponent.create_name_segment(v) for t, v in comps])


def name_spec(comps):
    return S(0, [S(t, v, many=True) for t, v in comps])


NAMES = list(name_list())
FEW_NAMES = [((1, b'a'),), ((1, b'a'), (1, b'b' * 20)), ((1, b'c'), (5, b'\1\0'))]


def names():
    for comps in NAMES:
        yield Value('Name', repr(comps)[:60], lambda c=comps: build_name(c), name_spec(comps), tlv_parse(Name), {'count': len(comps)}, False)


def link_variants():
    hv = [None, (1, octets(32)), (2, octets(64, b'z'))]
    for nm in [None] + FEW_NAMES:
        for k in hv:
            for d in hv:
                yield nm, k, d


def link_spec(nm, k, d):
    return only(None if nm is None else name_spec(nm), None if k is None else S(2, [S(*k)]), None if d is None else S(3, [S(*d)]))


def build_link(nm, k, d):
    return Link(name=None if nm is None else build_name(nm), keyid=None if k is None else HashValue(k[0], array('B', k[1])),
                digest=None if d is None else HashValue(d[0], array('B', d[1])))


def links():
    for nm, k, d in link_variants():
        acc = {'name': None if nm is None else name_spec(nm).enc(), 'keyid': None if k is None else wire.tlv(*k),
               'digest': None if d is None else wire.tlv(*d)}
        label = repr((nm, k and k[0], d and d[0]))[:80]
        spec = link_spec(nm, k, d)
        if spec:
            yield Value('Link', label, lambda a=(nm, k, d): build_link(*a), spec, lambda b: Link.deserialize(array('B', b)), acc, True)
        yield Value('KeyLink', label, lambda a=(nm, k, d): KeyLink(build_link(*a)), S(0xE, spec), tlv_parse(KeyLink), {}, False)
        if nm is not None:
            yield Value('Locator', label, lambda a=(nm, k, d): Locator(build_link(*a)), S(0xD, spec), tlv_parse(Locator), {'name': name_spec(nm).enc()}, False)


LOCATOR_LISTS = [[(FEW_NAMES[0], None, None)], [(FEW_NAMES[1], (1, octets(32)), None), (FEW_NAMES[0], None, (1, octets(32)))],
                 [(n, None, None) for n in FEW_NAMES]]


def locators_spec(l):
    return S(6, [S(0xD, link_spec(*x), many=True) for x in l])


def build_locators(l):
    return Locators([Locator(build_link(*x)) for x in l])


def locators():
    for l in LOCATOR_LISTS:
        yield Value('Locators', '%d links' % len(l), lambda l=l: build_locators(l), locators_spec(l), tlv_parse(Locators), {'count': len(l)}, False)


# -- name constructors ---------------------------------------------------------------------------------------------------

def schema_variants():
    flags = [None, b'', b'\1\2']
    locs = [None] + LOCATOR_LISTS
    for l in locs:
        for f in flags:
            if l is not None:
                yield 'H', None, None, l, f
            for nm in FEW_NAMES[:2]:
                yield 'P', nm, None, l, f
                for sx in (5, 16, 0xFFFF):
                    yield 'S', nm, sx, l, f


def schema_spec(kind, nm, sx, l, f):
    fl = None if f is None else S(1, f)
    lo = None if l is None else locators_spec(l)
    if kind == 'H':
        return S(0x10, only(lo, fl))
    if kind == 'P':
        return S(0x11, only(name_spec(nm), lo, fl))
    return S(0x12, only(name_spec(nm), S(2, sx.to_bytes(2, 'big')), lo, fl))


def build_schema(kind, nm, sx, l, f):
    kw = dict(locators=None if l is None else build_locators(l), flags=None if f is None else ProtocolFlags(f))
    if kind == 'H':
        return HashSchema(**kw)
    if kind == 'P':
        return PrefixSchema(name=build_name(nm), **kw)
    return SegmentedSchema(name=build_name(nm), suffix_type=SuffixComponentType(sx), **kw)


SCHEMAS = list(schema_variants())


def schemas():
    for v in SCHEMAS:
        kind, nm, sx, l, f = v
        acc = {'flags': None if f is None else wire.tlv(1, f), 'locators': None if l is None else locators_spec(l).enc(),
               'count': 0 if l is None else len(l)}
        if nm is not None:
            acc['name'] = name_spec(nm).enc()
        if sx is not None:
            acc['suffix_type'] = wire.tlv(2, sx.to_bytes(2, 'big'))
        cls = {'H': HashSchema, 'P': PrefixSchema, 'S': SegmentedSchema}[kind]
        for parser in (cls, NcSchema):
            yield Value(parser.__name__ if parser is cls else 'NcSchema', '%s suffix %r locators %r flags %r' % (kind, sx, l and len(l), f),
                        lambda v=v: build_schema(*v), schema_spec(*v), tlv_parse(parser), acc, False)
        for i in (0, 255, 256):
            yield Value('NcDef', '%d %s' % (i, kind), lambda v=v, i=i: NcDef(NcId(i), build_schema(*v)),
                        S(4, [S(5, wire.varint(i)), schema_spec(*v)]), tlv_parse(NcDef),
                        {'nc_id': wire.tlv(5, wire.varint(i)), 'schema': schema_spec(*v).enc()}, False)


FEW_SCHEMAS = [SCHEMAS[0], [s for s in SCHEMAS if s[0] == 'H'][0], [s for s in SCHEMAS if s[0] == 'S'][-1]]


# -- groups, nodes and manifests ------------------------------------------------------------------------------------------

def group_data_variants(deep):
    vals = [None] + (SOME if deep else [0, 0x10000])
    dig = [None, (1, octets(32, b'd'))]
    for ss, ls, nc, st in itertools.product(vals, repeat=4):
        for sd, ld in itertools.product(dig, repeat=2):
            yield ss, sd, ls, ld, nc, st


def _int(t, n):
    return None if n is None else S(t, wire.varint(n))


def _dig(t, d):
    return None if d is None else S(t, [S(*d)])


def gd_spec(ss, sd, ls, ld, nc, st):
    return S(0xB, only(_int(2, ss), _dig(3, sd), _int(0, ls), _dig(1, ld), _int(5, nc), _int(4, st)))


def build_gd(ss, sd, ls, ld, nc, st):
    o = lambda cls, x: None if x is None else cls(x)
    h = lambda cls, x: None if x is None else cls(HashValue(x[0], array('B', x[1])))
    return GroupData(subtree_size=o(SubtreeSize, ss), subtree_digest=h(SubtreeDigest, sd), leaf_size=o(LeafSize, ls),
                     leaf_digest=h(LeafDigest, ld), nc_id=o(NcId, nc), start_segment_id=o(StartSegmentId, st))


def group_datas(deep):
    for v in group_data_variants(deep):
        ss, sd, ls, ld, nc, st = v
        e = lambda s: None if s is None else s.enc()
        yield Value('GroupData', repr((ss, bool(sd), ls, bool(ld), nc, st)), lambda v=v: build_gd(*v), gd_spec(*v), tlv_parse(GroupData),
                    {'subtree_size': e(_int(2, ss)), 'subtree_digest': e(_dig(3, sd)), 'leaf_size': e(_int(0, ls)),
                     'leaf_digest': e(_dig(1, ld)), 'nc_id': e(_int(5, nc)), 'start_segment_id': e(_int(4, st))}, False)


GDS = [None, (None,) * 6, (None, None, None, None, 3, None), (1000, None, 0, None, 1, 7),
       (2 ** 40, (1, octets(32)), 5, (1, octets(32, b'l')), 256, 2 ** 32)]
PTRS = [1, 2, 3, 9]


def ptr_values(n, alg=1):
    return [(alg, octets(32, b'p%d' % i)) for i in range(n)]


def ptr_spec(n):
    return S(7, [S(a, v, many=True) for a, v in ptr_values(n)])


def build_ptrs(n):
    return Pointers([HashValue(a, array('B', v)) for a, v in ptr_values(n)])


def group_spec(gd, n):
    return S(1, only(None if gd is None else gd_spec(*gd), None if n is None else ptr_spec(n)), many=True)


def build_group(gd, n):
    return HashGroup(group_data=None if gd is None else build_gd(*gd), pointers=None if n is None else build_ptrs(n))


def groups():
    for n in PTRS:
        yield Value('Pointers', '%d pointers' % n, lambda n=n: build_ptrs(n), ptr_spec(n), tlv_parse(Pointers), {}, False)
    for gd in GDS:
        for n in PTRS:
            yield Value('HashGroup', '%r %d' % (gd and gd[0], n), lambda gd=gd, n=n: build_group(gd, n), group_spec(gd, n), tlv_parse(HashGroup),
                        {'group_data': None if gd is None else gd_spec(*gd).enc(), 'pointers': ptr_spec(n).enc()}, False)


VENDORS = [(0, b''), (0xFFFFFF, b'\1'), (9, b'abc')]


def vendor_spec(v):
    return S(0xFFF, v[0].to_bytes(3, 'big') + v[1], many=True)


def build_vendor(v):
    return Vendor(v[0], list(v[1]))


def vendors():
    for v in VENDORS:
        yield Value('Vendor', repr(v), lambda v=v: build_vendor(v), vendor_spec(v), tlv_parse(Vendor), {'pen': v[0], 'payload': v[1]}, False)


def nd_variants(deep):
    sizes = [None] + (SOME if deep else [0, 256])
    for ss in sizes:
        for sd in (None, (1, octets(32, b's'))):
            for l in [None] + (LOCATOR_LISTS if deep else LOCATOR_LISTS[:2]):
                for nd in ((), (0,), (2,), (0, 1, 2)):
                    for vs in ((), (1,), (0,), (0, 1, 2)):
                        yield ss, sd, l, nd, vs


def nd_spec(ss, sd, l, nd, vs):
    return S(0, only(_int(2, ss), _dig(3, sd), None if l is None else locators_spec(l)) +
             [S(4, [S(5, wire.varint(i)), schema_spec(*FEW_SCHEMAS[i])], many=True) for i in nd] + [vendor_spec(VENDORS[i]) for i in vs])


def build_nd(ss, sd, l, nd, vs):
    return NodeData(subtree_size=None if ss is None else SubtreeSize(ss),
                    subtree_digest=None if sd is None else SubtreeDigest(HashValue(sd[0], array('B', sd[1]))),
                    locators=None if l is None else build_locators(l),
                    vendors=[build_vendor(VENDORS[i]) for i in vs] if vs else None,
                    nc_defs=[NcDef(NcId(i), build_schema(*FEW_SCHEMAS[i])) for i in nd] if nd else None)


def node_datas(deep):
    for v in nd_variants(deep):
        ss, sd, l, nd, vs = v
        yield Value('NodeData', repr((ss, bool(sd), l and len(l), nd, vs)), lambda v=v: build_nd(*v), nd_spec(*v), tlv_parse(NodeData),
                    {'subtree_size': None if ss is None else wire.tlv(2, wire.varint(ss)), 'subtree_digest': None if sd is None else _dig(3, sd).enc(),
                     'locators': None if l is None else locators_spec(l).enc(),
                     'vendor_tags': [vendor_spec(VENDORS[i]).enc() for i in vs] if vs else None,
                     'nc_defs': [wire.tlv(4, wire.tlv(5, wire.varint(i)) + schema_spec(*FEW_SCHEMAS[i]).enc()) for i in nd]}, False)


NDS = [None, (None, None, None, (), ()), (1000, None, None, (), ()), (2 ** 32, (1, octets(32)), LOCATOR_LISTS[0], (0, 2), (1,))]
GROUP_LISTS = [[(GDS[1], 1)], [(None, 2)], [(GDS[2], 1), (GDS[3], 2)], [(GDS[4], 3), (GDS[2], 1), (GDS[3], 1)]]


def node_spec(nd, gl, pad=None):
    kids = only(None if nd is None else nd_spec(*nd)) + [group_spec(*g) for g in gl]
    if pad is not None:
        have = 4 + len(enc(kids))
        if pad - have >= 4:
            kids.append(S(0xFFE, bytes(pad - have - 4), many=True))
    return S(1, kids)


def build_node(nd, gl, pad=None):
    return Node(node_data=None if nd is None else build_nd(*nd), hash_groups=[build_group(*g) for g in gl], pad_length=pad)


def node_variants():
    for nd in NDS:
        for gl in GROUP_LISTS:
            size = len(node_spec(nd, gl).enc())
            for pad in (None, 0, size, size + 3, size + 4, size + 5, size + 100):
                yield nd, gl, pad


def nodes():
    for nd, gl, pad in node_variants():
        yield Value('Node', 'data %d, %d groups, pad %r' % (NDS.index(nd), len(gl), pad), lambda a=(nd, gl, pad): build_node(*a),
                    node_spec(nd, gl, pad), tlv_parse(Node),
                    {'node_data': None if nd is None else nd_spec(*nd).enc(), 'hash_groups': [group_spec(*g).enc() for g in gl],
                     'has_node_data': nd is not None,
                     'hash_values': [wire.tlv(*p) for g in gl for p in ptr_values(g[1])]}, False)


def kdf_variants():
    yield None
    for a in (1, 2, 3):
        for i in (None, b'', b'info'):
            yield a, i


def kdf_spec(k):
    return None if k is None else S(5, only(S(6, wire.varint(k[0])), None if k[1] is None else S(7, k[1])))


def build_kdf(k):
    return None if k is None else KdfData(KdfAlg(k[0]), None if k[1] is None else KdfInfo(k[1]))


def aead_variants(deep=True):
    for kn in (0, 1234, 2 ** 64 - 1):
        for nonce in (b'', octets(8), octets(12), bytes(12)):
            for mode in (1, 2, 3, 4):
                for k in list(kdf_variants()) if deep else [None, (1, None), (2, b'info')]:
                    yield kn, nonce, mode, k


def aead_spec(kn, nonce, mode, k):
    return only(S(0, wire.varint(kn)), S(1, nonce), S(2, bytes([mode])), kdf_spec(k))


def build_aead(kn, nonce, mode, k):
    return AeadData(KeyNumber(kn), Nonce(nonce), AeadMode(mode), build_kdf(k))


def wrapper_variants():
    yield None
    for key in (b'\1' * 20, octets(256)):
        for link in (None, LOCATOR_LISTS[1][0]):
            yield (1, octets(32, b'k')), link, 1, key
    yield (2, octets(64, b'k')), None, 2, octets(512)


def wrapper_spec(w):
    if w is None:
        return []
    kid, link, alg, key = w
    return only(S(9, [S(*kid)]), None if link is None else S(0xE, link_spec(*link)), S(3, wire.varint(alg)), S(4, key))


def build_wrapper(w):
    if w is None:
        return None
    kid, link, alg, key = w
    return RsaOaepWrapper(key_id=KeyId(HashValue(kid[0], array('B', kid[1]))), hash_alg=HashAlg(alg),
                          wrapped_key=WrappedKey(array('B', key)), key_link=None if link is None else KeyLink(build_link(*link)))


def kdfs():
    for k in kdf_variants():
        if k is not None:
            yield Value('KdfData', repr(k), lambda k=k: build_kdf(k), kdf_spec(k), tlv_parse(KdfData),
                        {'kdf_alg': wire.tlv(6, wire.varint(k[0])), 'kdf_info': None if k[1] is None else wire.tlv(7, k[1])}, False)


def contexts(deep):
    for a in aead_variants(deep):
        kn, nonce, mode, k = a
        acc = {'key_number': wire.tlv(0, wire.varint(kn)), 'nonce': wire.tlv(1, nonce), 'mode': wire.tlv(2, bytes([mode])),
               'kdf_data': None if k is None else kdf_spec(k).enc()}
        label = repr((kn, len(nonce), mode, k))
        yield Value('AeadData', label, lambda a=a: build_aead(*a), aead_spec(*a), lambda b: AeadData.parse(array('B', b)), acc, True)
        ctx_acc = {x: acc[x] for x in ('key_number', 'nonce')}
        ctx_acc['aead_data'] = enc(aead_spec(*a))
        for p in (AeadCtx, SecurityCtx):
            yield Value('AeadCtx by ' + p.__name__, label, lambda a=a: AeadCtx(build_aead(*a)), S(0, [S(0, aead_spec(*a))]), tlv_parse(p), ctx_acc, False)
        if len(nonce) != 8:
            continue
        for w in wrapper_variants():
            racc = dict(ctx_acc, rsa_oaep_wrapper=None if w is None else enc(wrapper_spec(w)))
            racc['key_id'] = None if w is None else wire.tlv(9, wire.tlv(*w[0]))
            for p in (RsaOaepCtx, SecurityCtx):
                yield Value('RsaOaepCtx by ' + p.__name__, label + repr(w and len(w[3])), lambda a=a, w=w: RsaOaepCtx(build_aead(*a), build_wrapper(w)),
                            S(0, [S(1, aead_spec(*a) + wrapper_spec(w))]), tlv_parse(p), racc, False)
    for w in wrapper_variants():
        if w is not None:
            yield Value('RsaOaepWrapper', repr((w[0][0], bool(w[1]), len(w[3]))), lambda w=w: build_wrapper(w), wrapper_spec(w),
                        lambda b: RsaOaepWrapper.parse(array('B', b)),
                        {'key_id': wire.tlv(9, wire.tlv(*w[0])), 'wrapped_key': wire.tlv(4, w[3]), 'is_sha_256': w[2] == 1, 'is_sha_512': w[2] == 2,
                         'key_link': None if w[1] is None else wire.tlv(0xE, enc(link_spec(*w[1])))}, True)


def manifests():
    few_aead = [(1234, octets(8), 1, None), (1, octets(12), 4, (1, b'info'))]
    for nd, gl, pad in list(node_variants())[::3]:
        yield Value('Manifest', 'plain', lambda a=(nd, gl, pad): Manifest(node=build_node(*a)), [node_spec(nd, gl, pad)],
                    lambda b: Manifest.deserialize(array('B', b)),
                    {'node': node_spec(nd, gl, pad).enc(), 'security_ctx': None, 'auth_tag': None, 'is_encrypted': False}, True)
    for a in few_aead:
        for ct in (b'', octets(50)):
            for tag in (None, octets(16)):
                for w in [False] + list(wrapper_variants()):
                    ctx = S(0, [S(0, aead_spec(*a))]) if w is False else S(0, [S(1, aead_spec(*a) + wrapper_spec(w))])

                    def build(a=a, ct=ct, tag=tag, w=w):
                        c = AeadCtx(build_aead(*a)) if w is False else RsaOaepCtx(build_aead(*a), build_wrapper(w))
                        return Manifest(security_ctx=c, node=EncryptedNode(ct), auth_tag=None if tag is None else AuthTag(tag))
                    yield Value('Manifest', 'encrypted', build, only(ctx, S(2, ct), None if tag is None else S(3, tag)),
                                lambda b: Manifest.deserialize(array('B', b)),
                                {'node': wire.tlv(2, ct), 'security_ctx': ctx.enc(), 'auth_tag': None if tag is None else wire.tlv(3, tag), 'is_encrypted': True}, True)


def validation_algs():
    yield Value('ValidationAlg', 'crc32c', ValidationAlg_Crc32c, S(3, [S(2, b'')]), tlv_parse(ValidationAlg), {}, False)
    for kid in ((1, octets(32)), (2, octets(64))):
        for ms in (0, 1, 1700000000123):
            yield Value('ValidationAlg', 'rsa %d' % ms,
                        lambda kid=kid, ms=ms: ValidationAlg_RsaSha256(keyid=HashValue(kid[0], array('B', kid[1])), signature_time=SignatureTime(ms / 1000)),
                        S(3, [S(4, [S(9, [S(*kid)]), S(15, ms.to_bytes(8, 'big'))])]), tlv_parse(ValidationAlg),
                        {'keyid': wire.tlv(*kid), 'signature_time': wire.tlv(15, ms.to_bytes(8, 'big')), 'public_key': None, 'key_link': None}, False)


def catalogue(deep=False):
    yield from scalars()
    yield from hash_elements()
    yield from names()
    yield from links()
    yield from locators()
    yield from schemas()
    yield from group_datas(deep)
    yield from groups()
    yield from vendors()
    yield from node_datas(deep)
    yield from nodes()
    yield from kdfs()
    yield from contexts(deep)
    yield from manifests()
    yield from validation_algs()


def encoding(v):
    return enc(v.spec) if v.sequence else v.spec.enc()


# -- malformed encodings ----------------------------------------------------------------------------------------------------

def cuts(v):
    """Every proper prefix of the encoding that ends inside an element"""
    b = encoding(v)
    ok = {0} | ({sum(len(s.enc()) for s in v.spec[:i]) for i in range(len(v.spec) + 1)} if v.sequence else set())
    if not v.sequence:
        ok = set()
    for k in range(len(b)):
        if k not in ok:
            yield 'cut to %d' % k, b[:k]


def rewrite(specs):
    """
    -> (label, list of encoded siblings) for every malformation inside `specs`, with the lengths of everything around it correct:
    a duplicated child, a child cut short inside, a child whose length exceeds its container.
    """
    for i, s in enumerate(specs):
        before, after = enc(specs[:i]), enc(specs[i + 1:])
        me = s.enc()
        if not s.many:
            yield 'type %d twice' % s.t, before + me + me + after
            yield 'type %d again at the end' % s.t, before + me + after + me
            if isinstance(s.v, bytes) and s.v:
                yield 'type %d again with another value' % s.t, before + me + after + wire.tlv(s.t, bytes([s.v[0] ^ 1]) + s.v[1:])
        rest = len(me) - 4 + len(after)
        for extra in (1, 2, 4, 0xFFFF - rest):
            if 0 < extra and rest + extra <= 0xFFFF:
                yield 'length of type %d exceeds its container by %d' % (s.t, extra), before + me[:2] + (rest + extra).to_bytes(2, 'big') + me[4:] + after
        if i == len(specs) - 1:
            for k in range(1, len(me)):
                yield 'last child (type %d) cut to %d' % (s.t, k), before + me[:k]
        if not isinstance(s.v, bytes):
            for label, inner in rewrite(s.v):
                yield label + ' in type %d' % s.t, before + wire.tlv(s.t, inner) + after


def malformed(v):
    yield from cuts(v)
    if v.sequence:
        yield from rewrite(v.spec)
    elif not isinstance(v.spec.v, bytes):
        for label, inner in rewrite(v.spec.v):
            if len(inner) <= 0xFFFF:
                yield label, wire.tlv(v.spec.t, inner)
