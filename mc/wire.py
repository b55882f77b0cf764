"""
An independent reading of the wire formats (CCNx packets and FLIC manifests), on plain bytes.

Nothing here uses the code under test.  It is the reference side of the checks.
"""
import hashlib
import hmac
from collections import namedtuple

from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM

NAME, PAYLOAD_TYPE, PAYLOAD, EXPIRY, FINAL_CHUNK = 0x0000, 0x0005, 0x0001, 0x0006, 0x0007
CONTENT, VAL_ALG, VAL_PAYLOAD = 0x0002, 0x0003, 0x0004
SEG, IPID, CHUNK, MANIFEST_ID = 0x0001, 0x0002, 0x0005, 0x0010
DATA, KEY, LINK, MANIFEST = 0, 1, 2, 3


class Malformed(Exception):
    pass


def tlv(t, v):
    return t.to_bytes(2, 'big') + len(v).to_bytes(2, 'big') + bytes(v)


def tlvs(b):
    """A list of (type, value) that fills b exactly"""
    out = []
    i = 0
    while i < len(b):
        if len(b) - i < 4:
            raise Malformed('short tlv header at %d of %d' % (i, len(b)))
        t = int.from_bytes(b[i:i + 2], 'big')
        n = int.from_bytes(b[i + 2:i + 4], 'big')
        if i + 4 + n > len(b):
            raise Malformed('tlv type %d length %d exceeds its container' % (t, n))
        out.append((t, b[i + 4:i + 4 + n]))
        i += 4 + n
    return out


def one(items, t):
    v = [x for k, x in items if k == t]
    if len(v) > 1:
        raise Malformed('type %d more than once' % t)
    return v[0] if v else None


def num(b):
    return None if b is None else int.from_bytes(b, 'big')


def varint(n):
    for w in (1, 2, 3, 4, 8):
        if n < 1 << (8 * w):
            return n.to_bytes(w, 'big')
    raise ValueError(n)


def name_of(b):
    """A name is a tuple of (type, bytes)"""
    return None if b is None else tuple(tlvs(b))


def uri_name(uri):
    assert uri.startswith('ccnx:/')
    return tuple((SEG, p.encode()) for p in uri[len('ccnx:/'):].split('/') if p)


def name_tlv(name):
    return tlv(NAME, b''.join(tlv(t, v) for t, v in name))


Packet = namedtuple('Packet', 'wire hash name expiry ptype payload fcid alg sig header_len fields length covered')


def packet(wire):
    wire = bytes(wire)
    if len(wire) < 8 or wire[0] != 1 or wire[1] != 1:
        raise Malformed('not a content object packet')
    length = int.from_bytes(wire[2:4], 'big')
    hlen = wire[7]
    if length != len(wire) or hlen < 8 or hlen > length:
        raise Malformed('lengths: header says %d/%d, %d bytes' % (length, hlen, len(wire)))
    msg = wire[hlen:]
    top = tlvs(msg)
    if [t for t, _ in top] not in ([CONTENT], [CONTENT, VAL_ALG, VAL_PAYLOAD]):
        raise Malformed('packet elements %r' % [t for t, _ in top])
    co = tlvs(top[0][1])
    covered = msg
    if len(top) == 3:
        covered = msg[:len(msg) - 4 - len(top[2][1])]
    return Packet(wire=wire, hash=hashlib.sha256(msg).digest(), name=name_of(one(co, NAME)),
                  expiry=num(one(co, EXPIRY)), ptype=num(one(co, PAYLOAD_TYPE)), payload=one(co, PAYLOAD),
                  fcid=num(one(co, FINAL_CHUNK)), alg=top[1][1] if len(top) == 3 else None,
                  sig=top[2][1] if len(top) == 3 else None, header_len=hlen, fields=wire[4:7], length=length,
                  covered=covered)


# -- manifests --------------------------------------------------------------------------------------------------------

Group = namedtuple('Group', 'nc_id start_segment leaf_size subtree_size ptrs')
Node = namedtuple('Node', 'subtree_size nc_defs groups has_data')
Schema = namedtuple('Schema', 'kind name suffix locators')      # kind: 'H', 'P', 'S'
Sec = namedtuple('Sec', 'kind keynum nonce mode kdf_alg kdf_info wrapped keyid hashalg raw kdf_raw')
Manifest_ = namedtuple('Manifest_', 'sec node encrypted tag')


def schema_of(t, v):
    items = tlvs(v)
    if t == 0x10:
        locs = one(items, 6)
        return Schema('H', None, None, tuple(x for k, x in tlvs(locs)) if locs is not None else ())
    name = name_of(one(items, 0))
    if t == 0x11:
        return Schema('P', name, None, ())
    if t == 0x12:
        return Schema('S', name, num(one(items, 2)), ())
    raise Malformed('schema type %d' % t)


def node_of(value):
    items = tlvs(value)
    nd = one(items, 0)
    subtree = None
    nc_defs = []
    if nd is not None:
        ndi = tlvs(nd)
        subtree = num(one(ndi, 2))
        for t, v in ndi:
            if t == 4:
                di = tlvs(v)
                (st, sv), = [x for x in di if x[0] in (0x10, 0x11, 0x12)]
                nc_defs.append((num(one(di, 5)), schema_of(st, sv)))
    groups = []
    for t, v in items:
        if t != 1:
            continue
        gi = tlvs(v)
        gd = tlvs(one(gi, 0xB) or b'')
        p = tlvs(one(gi, 7))
        for pt, pv in p:
            if pt != 1 or len(pv) != 32:
                raise Malformed('pointer type %d length %d' % (pt, len(pv)))
        groups.append(Group(nc_id=num(one(gd, 5)), start_segment=num(one(gd, 4)), leaf_size=num(one(gd, 0)),
                            subtree_size=num(one(gd, 2)), ptrs=tuple(pv for _, pv in p)))
    return Node(subtree_size=subtree, nc_defs=tuple(nc_defs), groups=tuple(groups), has_data=nd is not None)


def sec_of(value):
    (t, v), = tlvs(value)
    items = tlvs(v)
    kdf = one(items, 5)
    ki = tlvs(kdf) if kdf is not None else []
    keyid = one(items, 9)
    return Sec(kind={0: 'aead', 1: 'rsa'}[t], keynum=num(one(items, 0)), nonce=one(items, 1), mode=num(one(items, 2)),
               kdf_alg=num(one(ki, 6)), kdf_info=one(ki, 7), wrapped=one(items, 4), keyid=keyid,
               hashalg=num(one(items, 3)), raw=tlv(0, value), kdf_raw=kdf)


def manifest(payload):
    """payload of a manifest content object -> Manifest_"""
    items = tlvs(payload)
    sec = one(items, 0)
    clear, enc, tag = one(items, 1), one(items, 2), one(items, 3)
    if (clear is None) == (enc is None):
        raise Malformed('manifest needs one node')
    return Manifest_(sec=None if sec is None else sec_of(sec), node=None if clear is None else node_of(clear),
                     encrypted=enc, tag=tag)


# -- cryptography of manifests ------------------------------------------------------------------------------------

HASHES = {1: ('sha256', hashes.SHA256), 2: ('sha384', hashes.SHA384), 3: ('sha512', hashes.SHA512)}


def hkdf(alg, key, salt, info, length):
    name = HASHES[alg][0]
    hl = hashlib.new(name).digest_size
    prk = hmac.new(salt if salt else b'\0' * hl, key, name).digest()
    out, t, i = b'', b'', 1
    while len(out) < length:
        t = hmac.new(prk, t + info + bytes([i]), name).digest()
        out += t
        i += 1
    return out[:length]


def kdf_info_bytes(sec):
    info = b'FLIC' + tlv(0, varint(sec.keynum)) + tlv(2, varint(sec.mode))
    if sec.kdf_info is not None:
        info += tlv(7, sec.kdf_info)
    return info


def content_key(sec, key, kdf_salt=None):
    if sec.kdf_alg is None:
        return key
    return hkdf(sec.kdf_alg, key, None if kdf_salt is None else kdf_salt.to_bytes(4, 'big'), kdf_info_bytes(sec), len(key))


def aead(mode, key):
    if mode in (1, 2, 'GCM'):
        return AESGCM(key)
    return AESCCM(key)


def decrypt(m, key, salt=None, kdf_salt=None):
    """Decrypt a Manifest_ with a content key -> the node's value bytes (raises cryptography's InvalidTag)"""
    iv = (b'' if salt is None else salt.to_bytes(4, 'big')) + m.sec.nonce
    return aead(m.sec.mode, content_key(m.sec, key, kdf_salt)).decrypt(iv, m.encrypted + m.tag, m.sec.raw)


def oaep_label(sec):
    label = b'FLIC RSA-OAEP' + tlv(0, varint(sec.keynum)) + tlv(2, varint(sec.mode))
    if sec.kdf_raw is not None:
        label += tlv(5, sec.kdf_raw)
    label += tlv(9, sec.keyid) + tlv(3, varint(sec.hashalg))
    return label


def unwrap(sec, private_key):
    """-> (salt int, content key)   private_key: a cryptography RSA private key"""
    plain = private_key.decrypt(sec.wrapped, padding.OAEP(mgf=padding.MGF1(hashes.SHA256()), algorithm=hashes.SHA256(),
                                                        label=oaep_label(sec)))
    return int.from_bytes(plain[:4], 'big'), plain[4:]


# -- trees --------------------------------------------------------------------------------------------------------------

class TreeError(Exception):
    pass


class Tree:
    """
    The tree that a list of packets (wire bytes, in the order written) forms, from its root (the last).

    visit: list of (depth, packet, node or None, expected name, nc scope) in preorder
    """

    def __init__(self, wires, opener=None, root_index=-1, max_visits=10 ** 6):
        self.packets = [packet(w) for w in wires]
        self.by_hash = {}
        for i, p in enumerate(self.packets):
            self.by_hash.setdefault(p.hash, i)
        self.opener = opener
        self.root = self.packets[root_index]
        self.visits = []
        self.max_visits = max_visits
        leaves = []
        trampoline(self._walk(self.root, 0, {}, self.root.name, leaves))
        self.data = b''.join(leaves)

    def node(self, p):
        m = manifest(p.payload)
        if m.node is not None:
            return m.node
        return node_of(self.opener(m))

    def _walk(self, p, depth, scope, want_name, leaves):
        if len(self.visits) > self.max_visits:
            raise TreeError('too many visits')
        if p.ptype == DATA:
            self.visits.append(dict(depth=depth, packet=p, node=None, want=want_name, bytes=len(p.payload)))
            leaves.append(p.payload)
            return len(p.payload)
        if p.ptype != MANIFEST:
            raise TreeError('payload type %r' % p.ptype)
        node = self.node(p)
        scope = dict(scope)
        for nc, schema in node.nc_defs:
            scope[nc] = schema
        rec = dict(depth=depth, packet=p, node=node, want=want_name, bytes=0, groups=[])
        self.visits.append(rec)
        for g in node.groups:
            schema = scope[g.nc_id]
            leaf = sub = 0
            kinds = ''
            for k, ptr in enumerate(g.ptrs):
                if ptr not in self.by_hash:
                    raise TreeError('pointer to a packet that was not written')
                child = self.packets[self.by_hash[ptr]]
                n = yield self._walk(child, depth + 1, scope, derive(schema, g.start_segment, k), leaves)
                sub += n
                if child.ptype == DATA:
                    leaf += n
                    kinds += 'd'
                else:
                    kinds += 'm'
            rec['groups'].append((g, leaf, sub, kinds))
            rec['bytes'] += sub
        return rec['bytes']


def trampoline(walk):
    """Runs a recursive walk, whose calls are yields, without using the stack"""
    stack, value = [walk], None
    while stack:
        try:
            nxt = stack[-1].send(value)
        except StopIteration as e:
            stack.pop()
            value = e.value
        else:
            stack.append(nxt)
            value = None
    return value


def derive(schema, start, k):
    """The name a reader asks for: schema, the group's start segment id, the pointer's place in the group"""
    if schema.kind == 'H':
        return None
    if schema.kind == 'P':
        return schema.name
    return schema.name + ((schema.suffix, varint(start + k)),)
