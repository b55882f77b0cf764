"""Drivers around the code under test: publish an input under a configuration, read it back, and the reference for both."""
import contextlib
import hashlib
import io
import itertools
from array import array

from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Link import Link
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Packet import Packet
from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
from ccnpy.crypto.Crc32c import Crc32cSigner
from ccnpy.crypto.HpkeKdfIdentifiers import HpkeKdfIdentifiers
from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.crypto.RsaSha256 import RsaSha256Signer
from ccnpy.flic.ManifestTree import ManifestTree
from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
from ccnpy.flic.name_constructor.SchemaType import SchemaType
from ccnpy.flic.tlvs.KdfAlg import KdfAlg
from ccnpy.flic.tlvs.KdfData import KdfData
from ccnpy.flic.tlvs.KdfInfo import KdfInfo
from ccnpy.flic.tlvs.Locator import Locator
from ccnpy.flic.tlvs.Locators import Locators
from ccnpy.flic.tree.Traversal import Traversal
from ccnpy.flic.tree.TreeIO import TreeIO

from . import keys, wire

N = Name.from_uri
LONG = 'x' * 40
ROOT_URI = 'ccnx:/a'

# schema variants: (type, options given as URIs)
SCHEMAS = {
    'H1': ('H', {}),
    'H2': ('H', dict(data_locators='ccnx:/d')),
    'H3': ('H', dict(manifest_locators='ccnx:/m/m', data_locators='ccnx:/d')),
    'H4': ('H', dict(manifest_locators='ccnx:/m', data_locators='ccnx:/m')),
    'P1': ('P', {}),
    'P2': ('P', dict(data_prefix='ccnx:/d')),
    'P3': ('P', dict(manifest_prefix='ccnx:/' + LONG, data_prefix='ccnx:/d')),
    'P4': ('P', dict(manifest_prefix='ccnx:/m', data_prefix='ccnx:/m')),
    'S1': ('S', dict(manifest_prefix='ccnx:/m', data_prefix='ccnx:/d')),
    'S2': ('S', dict(manifest_prefix='ccnx:/' + LONG, data_prefix='ccnx:/d')),
    'S3': ('S', dict(data_prefix='ccnx:/' + LONG)),
    'S4': ('S', dict(manifest_prefix='ccnx:/a/m')),
}
TYPES = {'H': SchemaType.HASHED, 'P': SchemaType.PREFIX, 'S': SchemaType.SEGMENTED}
# options by letter: x manifest expiry, d data expiry, r root expiry, n node subtree size, g group subtree size, l leaf size
ENCS = {
    '': None,
    'g': dict(mode='GCM', bits=128, salt=7),
    'G': dict(mode='GCM', bits=256, salt=None),
    'c': dict(mode='CCM', bits=128, salt=0xFFFFFFFF),
    'C': dict(mode='CCM', bits=256, salt=None),
    'k': dict(mode='GCM', bits=128, salt=1, kdf=1, kdf_salt=5),
    'K': dict(mode='CCM', bits=256, salt=None, kdf=2, info=b'info'),
    'w': dict(mode='GCM', bits=256, salt=9, wrap='RSAA'),
    'W': dict(mode='CCM', bits=128, salt=10, wrap='RSAA', kdf=3, info=b'i'),
    'n': dict(mode='GCM', bits=256, wrap='RSAA', new=True),
}
EXP_M, EXP_D, EXP_R = 1700000000.123, 1800000000.5, 1900000000.0
_rsa = {}


def rsa(name):
    if name not in _rsa:
        _rsa[name] = RsaKey(getattr(keys, name))
    return _rsa[name]


def rsa_public(name):
    k = name + '.pub'
    if k not in _rsa:
        _rsa[k] = RsaKey(keys.public_pem(getattr(keys, name)))
    return _rsa[k]


def enc_key(e):
    return hashlib.sha512(b'key %d %s' % (e['bits'], e['mode'].encode())).digest()[:e['bits'] // 8]


KEYNUM = 1234


def kdf_data(e):
    if 'kdf' not in e:
        return None
    info = KdfInfo(e['info']) if 'info' in e else None
    return KdfData(KdfAlg(e['kdf']), info)


def aead_params(e, keynum=KEYNUM):
    cls = AeadGcm if e['mode'] == 'GCM' else AeadCcm
    return AeadParameters(key=cls(enc_key(e)), key_number=keynum, aead_salt=e['salt'], kdf_data=kdf_data(e),
                          kdf_salt=e.get('kdf_salt'))


def encryptor(enc):
    e = ENCS[enc]
    if e is None:
        return None
    if e.get('new'):
        return RsaOaepEncryptor.create_with_new_content_key(rsa(e['wrap']), kdf_data(e))
    if 'wrap' in e:
        return RsaOaepEncryptor(rsa(e['wrap']), aead_params(e))
    return AeadEncryptor(aead_params(e))


def keystore(enc='', sign=''):
    """What a reader needs for that configuration"""
    ks = InsecureKeystore()
    e = ENCS[enc]
    if e is not None:
        if 'wrap' in e:
            ks.add_rsa_key('wrap', rsa(e['wrap']))
        else:
            ks.add_aes_key(aead_params(e))
    if sign == 'r':
        ks.add_rsa_key('sign', rsa_public('RSAB'))
    return ks


class Opener:
    """Opens the manifests of one publication independently of the code"""

    def __init__(self, enc):
        self.e = ENCS[enc]
        self.unwrapped = None

    def __call__(self, m):
        e = self.e
        if e is None:
            raise wire.TreeError('encrypted manifest in a plain publication')
        if 'wrap' in e:
            if m.sec.wrapped is not None:
                self.unwrapped = wire.unwrap(m.sec, keys.private(getattr(keys, e['wrap'])))
            if self.unwrapped is None:
                raise wire.TreeError('no wrapped key before an encrypted manifest')
            salt, key = self.unwrapped
            return wire.decrypt(m, key, salt, e.get('kdf_salt'))
        return wire.decrypt(m, enc_key(e), e['salt'], e.get('kdf_salt'))


def signer(sign):
    return {'': None, 'c': Crc32cSigner(), 'r': None}[sign] if sign != 'r' else RsaSha256Signer(rsa('RSAB'))


def options(cfg):
    """cfg: dict(schema, opts, enc, sign, mps, deg[, name])"""
    t, kw = SCHEMAS[cfg['schema']]
    kw = {k: (Locators.from_uri(v) if k.endswith('locators') else N(v)) for k, v in kw.items()}
    root = root_name_of(cfg)
    if 'odd' in cfg:
        # (root, manifests, data), None: as configured by default
        _, m, d = [None if i is None else name_of(ODD[i]) for i in cfg['odd']]
        kw = {}
        for k, x in (('manifest', m), ('data', d)):
            if x is not None and t == 'H':
                kw[k + '_locators'] = Locators.from_name(x) if k == 'manifest' else Locators([Locator(Link(x))])
            elif x is not None:
                kw[k + '_prefix'] = x
    o = cfg.get('opts', '')
    if 'x' in o:
        kw['manifest_expiry_time'] = ExpiryTime(EXP_M)
    if 'd' in o:
        kw['data_expiry_time'] = ExpiryTime(EXP_D)
    if 'r' in o:
        kw['root_expiry_time'] = ExpiryTime(EXP_R)
    return ManifestTreeOptions(name=root, schema_type=TYPES[t], signer=signer(cfg.get('sign', '')),
                               manifest_encryptor=encryptor(cfg.get('enc', '')), add_node_subtree_size='n' in o,
                               add_group_subtree_size='g' in o, add_group_leaf_size='l' in o,
                               max_tree_degree=cfg.get('deg'), max_packet_size=cfg['mps'], **kw)


# names with unusual components
ODD = [
    ((1, b'a'),), ((1, b''),), ((1, b'\xff\x00'),), ((5, b'\x00'),), ((1, b'a'), (0x10, b'\1')), ((2, b'ip'), (0xFFFF, b'z')), ((1, b'seg'),) * 30,
    ((1, b'y' * 250),), ((1, 'é/'.encode()), (5, b'\x00\x01')), (), ((1, b'q"\\'), (1, b'a:b,c=[d];')), ((1, b'\r\n'),),
]

N_ODD = len(ODD)
# names that differ although they look alike (when displayed, folded, decoded, trimmed or cut)
ODD += [
    ((1, b'a/b'),), ((1, b'a'), (1, b'b')), ((1, b'a/Name=b'),), ((1, b'a'), (5, b'\5')), ((1, b'a'), (5, b'\0\5')), ((1, b'a'), (0x10, b'\5')),
    ((1, b'a'), (1, b'ChunkId=5')), ((1, b'A'),), ((1, b'a '),), ((1, b'\xff'),), ((1, b'\\xff'),), ((1, 'é'.encode()),), ((1, 'e\u0301'.encode()),),
    ((1, b'a%2Fb'),), ((1, b'a'), (1, b'')), ((1, b'x' * 100 + b'1'),), ((1, b'x' * 100 + b'2'),), ((1, b'a\0'),),
]


def locators_of(cfg):
    """(manifest locators, data locators) of a hashed publication in reference form"""
    root, m, d = expected_prefixes(cfg)
    if 'odd' in cfg:
        return (m,), (d,)
    kw = SCHEMAS[cfg['schema']][1]
    return tuple((wire.uri_name(kw[k]),) if k in kw else (root,) for k in ('manifest_locators', 'data_locators'))


def name_of(components):
    return Name([NameComponent(t, v) for t, v in components])


_data = b''


def data(n, seed=0):
    """n bytes without repetition of chunks"""
    global _data
    if len(_data) < n + seed:
        blocks = [_data]
        have = len(_data)
        i = have // 32
        while have < n + seed:
            blocks.append(hashlib.sha256(b'data %d' % i).digest())
            have += 32
            i += 1
        _data = b''.join(blocks)
    return _data[seed:seed + n]


class Input:
    """A data input whose read calls return the amounts of `reads` (cyclic), at most what was asked for"""

    def __init__(self, content, reads=None):
        self.content, self.pos = content, 0
        self.reads = itertools.cycle(reads) if reads else None

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.content)
        if self.reads is not None:
            n = min(n, next(self.reads))
        b = self.content[self.pos:self.pos + n]
        self.pos += len(b)
        return b


class Recorder(TreeIO.PacketMemoryWriter):
    pass


class Published:
    def __init__(self, cfg, content, packets, root, opts, writer):
        self.cfg, self.content, self.packets, self.root, self.opts, self.writer = cfg, content, packets, root, opts, writer
        self._wires = None

    @property
    def wires(self):
        if self._wires is None:
            self._wires = [p.serialize().tobytes() for p in self.packets]
        return self._wires

    @property
    def root_hash(self):
        return hashlib.sha256(self.wires[-1][8:]).digest()

    def tree(self):
        return wire.Tree(self.wires, Opener(self.cfg.get('enc', '')))


def publish(cfg, content, opts=None, name_context=None, reads=None, graph=None, prepared=False, source=None, chunk_mps=None, advance=0):
    """chunk_mps: the data packets are written with another maximum size; advance: the number of the first chunk"""
    opts = opts or options(cfg)
    w = TreeIO.PacketMemoryWriter()
    source = source or Input(content, reads)
    if chunk_mps:
        prepared = True
        name_context = NameConstructorContext.create(options(dict(cfg, mps=chunk_mps)))
    if advance:
        name_context = name_context or NameConstructorContext.create(opts)
        for _ in range(advance):
            name_context.data_schema_impl.get_next_name()
    if prepared:
        # the caller writes the data packets, the tree is built over them
        name_context = name_context or NameConstructorContext.create(opts)
        source = name_context.data_schema_impl.chunk_data(source, w)
    t = ManifestTree(data_input=source, packet_output=w, tree_options=opts, name_context=name_context,
                     manifest_graph=graph)
    root = t.build()
    return Published(cfg, content, list(w.packets), root, opts, w)


def parse(w):
    return Packet.deserialize(array('B', w))


def hash_value(h):
    return HashValue.create_sha256(h)


class Sink:
    def __init__(self):
        self.parts = []

    def write(self, b):
        self.parts.append(bytes(b))

    def bytes(self):
        return b''.join(self.parts)


class MapStore:
    """A packet store over wire bytes that hands out freshly parsed packets and records what was asked for"""

    def __init__(self, wires):
        self.by_hash = {}
        for w in wires:
            self.by_hash.setdefault(wire_hash(w), w)
        self.requests = []

    def get(self, name, hash_restriction, forwarding_hints=None):
        h = bytes(hash_restriction.value())
        self.requests.append((None if name is None else ref_name(name), h))
        return parse(self.by_hash[h])

    def close(self):
        pass


def ref_name(name):
    """The components of a Name of the code under test as the reference sees them"""
    return wire.name_of(name.serialize().tobytes()[4:])


def wire_hash(w):
    return hashlib.sha256(w[w[7]:]).digest()


def read(pub=None, wires=None, ks=None, root_name=None, root_hash=None, packets=None, sink=None, cls=MapStore, traversal=None):
    """Traverse from the root; returns the bytes delivered"""
    cfg = pub.cfg
    if ks is None:
        ks = keystore(cfg.get('enc', ''), cfg.get('sign', ''))
    store = TreeIO.PacketMemoryReader(packets) if packets is not None else cls(wires if wires is not None else pub.wires)
    sink = sink or Sink()
    t = Traversal(store, sink, ks)
    t.traverse(root_name or root_name_of(cfg), root_hash or hash_value(pub.root_hash))
    return sink.bytes()


def root_name_of(cfg):
    return name_of(ODD[cfg['odd'][0]]) if 'odd' in cfg else N(cfg.get('name', ROOT_URI))


_payload = {}


def payload_size(cfg, chunk=False):
    """Payload bytes of a full data packet (measured on a publication of this configuration), None if nothing can be published"""
    k = (cfg['schema'], 'd' in cfg.get('opts', ''), cfg['mps'], repr(cfg.get('odd')), cfg.get('name'))
    if chunk:
        # of data packets alone, whatever room manifests need
        k += ('chunk',)
    if k not in _payload:
        if chunk:
            w = TreeIO.PacketMemoryWriter()
            NameConstructorContext.create(options(cfg)).data_schema_impl.chunk_data(Input(data(3 * cfg['mps'])), w)
            _payload[k] = max(len(wire.packet(x.serialize().tobytes()).payload) for x in w.packets)
            return _payload[k]
        plain = dict(cfg, enc='', sign='', opts='d' if 'd' in cfg.get('opts', '') else '')
        try:
            _payload[k] = max(len(wire.packet(w).payload) for w in publish(plain, data(3 * cfg['mps'])).wires
                              if wire.packet(w).ptype == wire.DATA)
        except Exception:
            _payload[k] = None
    return _payload[k]


# -- the reference for a publication ------------------------------------------------------------------------------------

def expected_prefixes(cfg):
    """(root name, manifest prefix, data prefix) in reference form"""
    t, kw = SCHEMAS[cfg['schema']]
    if 'odd' in cfg:
        return tuple(ODD[cfg['odd'][0] if i is None else i] for i in cfg['odd'])
    root = wire.uri_name(cfg.get('name', ROOT_URI))
    m = wire.uri_name(kw['manifest_prefix']) if 'manifest_prefix' in kw else root
    d = wire.uri_name(kw['data_prefix']) if 'data_prefix' in kw else root
    return root, m, d


def cfg_text(cfg, **kw):
    return dict(cfg, **kw)
