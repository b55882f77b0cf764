"""Encryption settings shared by C11 to C16, and what they mean (independent of the code under test)."""
import hashlib
from array import array
from collections import namedtuple

from ccnpy.core.Tlv import Tlv
from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.tlvs.KdfAlg import KdfAlg
from ccnpy.flic.tlvs.KdfData import KdfData
from ccnpy.flic.tlvs.KdfInfo import KdfInfo
from ccnpy.flic.tlvs.Manifest import Manifest

from . import catalog, wire

# kdf: None or algorithm number; info: None or bytes; seed: which key
Setting = namedtuple('Setting', 'mode bits salt keynum kdf info kdf_salt seed', defaults=('GCM', 128, None, 1234, None, None, None, 0))

MODE_NUMBER = {('GCM', 128): 1, ('GCM', 256): 2, ('CCM', 128): 3, ('CCM', 256): 4}


def key_bytes(s):
    return hashlib.sha512(b'content key %d' % s.seed).digest()[:s.bits // 8]


def params(s, key=None):
    cls = AeadGcm if s.mode == 'GCM' else AeadCcm
    kdf = None if s.kdf is None else KdfData(KdfAlg(s.kdf), None if s.info is None else KdfInfo(s.info))
    return AeadParameters(key=cls(key or key_bytes(s)), key_number=s.keynum, aead_salt=s.salt, kdf_data=kdf, kdf_salt=s.kdf_salt)


def text(s):
    return {k: (v.hex() if isinstance(v, bytes) else v) for k, v in s._asdict().items()}


def check_fields(s, sec):
    """Message if the security context on the wire is not what the setting prescribes"""
    want = dict(keynum=s.keynum, mode=MODE_NUMBER[s.mode, s.bits], kdf_alg=s.kdf, kdf_info=s.info)
    for k, v in want.items():
        if getattr(sec, k) != v:
            return '%s on the wire is %r, not %r' % (k, getattr(sec, k), v)
    n = 12 if s.salt is None else 8
    if len(sec.nonce) != n:
        return 'the nonce has %d bytes, not %d' % (len(sec.nonce), n)


def parse_manifest(b):
    return Manifest.deserialize(array('B', b))


# nodes: (node data, hash groups, padding) of the catalogue
NODES = [
    (None, [(None, 1)], None),
    (catalog.NDS[2], catalog.GROUP_LISTS[2], None),
    (catalog.NDS[3], catalog.GROUP_LISTS[3], None),
    (catalog.NDS[1], [(catalog.GDS[4], 40)], None),
    (None, [(None, 1)], 100),
]


def build_node(i):
    return catalog.build_node(*NODES[i])


def node_value(i):
    """Value bytes of the node's TLV"""
    return catalog.enc(catalog.node_spec(*NODES[i]).v)
