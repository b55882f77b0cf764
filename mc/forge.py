"""Packets and trees made from plain bytes, without the code under test (for readers: signatures, encryption, name constructors)."""
import hashlib

from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding

from . import catalog, keys, sec, wire


def crc32c(data):
    """Castagnoli CRC, reflected, bit by bit over a table"""
    c = 0xFFFFFFFF
    for b in data:
        c = TABLE[(c ^ b) & 0xFF] ^ (c >> 8)
    return c ^ 0xFFFFFFFF


def _table():
    out = []
    for i in range(256):
        for _ in range(8):
            i = (i >> 1) ^ (0x82F63B78 if i & 1 else 0)
        out.append(i)
    return out


TABLE = _table()


def header(n, hlen=8, fields=b'\0\0\0'):
    return b'\1\1' + n.to_bytes(2, 'big') + fields + bytes([hlen])


def co(payload, ptype=0, name=None, expiry=None, fcid=None):
    """An encoded content object"""
    out = b'' if name is None else wire.name_tlv(name)
    if expiry is not None:
        out += wire.tlv(6, expiry.to_bytes(8, 'big'))
    out += wire.tlv(5, bytes([ptype])) + wire.tlv(1, payload)
    if fcid is not None:
        out += wire.tlv(7, wire.varint(fcid))
    return wire.tlv(2, out)


def rsa_alg(pem, ms=1700000000123, extra=b''):
    return wire.tlv(3, wire.tlv(4, wire.tlv(9, wire.tlv(1, keys.keyid(pem))) + wire.tlv(15, ms.to_bytes(8, 'big')) + extra))


CRC_ALG = wire.tlv(3, wire.tlv(2, b''))


def rsa_sign(pem, *parts):
    return keys.private(pem).sign(b''.join(parts), padding.PKCS1v15(), hashes.SHA256())


def rsa_good(pem, sig, covered):
    try:
        keys.private(pem).public_key().verify(sig, covered, padding.PKCS1v15(), hashes.SHA256())
        return True
    except Exception:
        return False


def validation(body, how, alg=None):
    """how: None, 'crc', ('rsa', signing pem, pem whose key id is claimed)"""
    if how is None:
        return b''
    if how == 'crc':
        alg = alg or CRC_ALG
        return alg + wire.tlv(4, crc32c(body + alg).to_bytes(4, 'big'))
    _, pem, claim = how
    alg = alg or rsa_alg(claim)
    return alg + wire.tlv(4, rsa_sign(pem, body, alg))


def packet(body, how=None, optional=b'', alg=None):
    b = optional + body + validation(body, how, alg)
    return header(8 + len(b), 8 + len(optional)) + b


def hash_of(w):
    return hashlib.sha256(w[w[7]:]).digest()


# -- nodes -----------------------------------------------------------------------------------------------------------

def group(ptrs, nc=None, start=None, sizes=()):
    gd = b''
    for t, n in sizes:
        gd += wire.tlv(t, wire.varint(n))
    if nc is not None:
        gd += wire.tlv(5, wire.varint(nc))
    if start is not None:
        gd += wire.tlv(4, wire.varint(start))
    return wire.tlv(1, (wire.tlv(0xB, gd) if gd or nc is not None else b'') + wire.tlv(7, b''.join(wire.tlv(1, p) for p in ptrs)))


def schema(kind, name=None, suffix=5, locators=None):
    """kind H P S"""
    loc = b'' if locators is None else wire.tlv(6, b''.join(wire.tlv(0xD, wire.name_tlv(n)) for n in locators))
    if kind == 'H':
        return wire.tlv(0x10, loc or wire.tlv(6, wire.tlv(0xD, wire.name_tlv(((1, b'l'),)))))
    if kind == 'P':
        return wire.tlv(0x11, wire.name_tlv(name) + loc)
    return wire.tlv(0x12, wire.name_tlv(name) + wire.tlv(2, suffix.to_bytes(2, 'big')) + loc)


def nc_def(i, schema_tlv):
    return wire.tlv(4, wire.tlv(5, wire.varint(i)) + schema_tlv)


def node(groups, nc_defs=None, size=None):
    """Value of a Node TLV"""
    nd = b''
    if size is not None:
        nd += wire.tlv(2, wire.varint(size))
    for d in nc_defs or []:
        nd += d
    return (wire.tlv(0, nd) if nc_defs is not None or size is not None else b'') + b''.join(groups)


def plain_manifest(value):
    return wire.tlv(1, value)


def encrypted_manifest(value, s, nonce, rsa=None, wrapper=False, key=None):
    """Payload of a manifest encrypted under Setting s.  rsa: PEM of the wrapping key (then an RSA-OAEP context)"""
    spec = catalog.enc(catalog.aead_spec(s.keynum, nonce, sec.MODE_NUMBER[s.mode, s.bits], None if s.kdf is None else (s.kdf, s.info)))
    kb = key or sec.key_bytes(s)
    if rsa is None:
        ctx = wire.tlv(0, wire.tlv(0, spec))
    else:
        if wrapper:
            kid = wire.tlv(1, keys.keyid(rsa))
            fake = wire.Sec(kind='rsa', keynum=s.keynum, nonce=None, mode=sec.MODE_NUMBER[s.mode, s.bits], kdf_alg=s.kdf, kdf_info=s.info, wrapped=None,
                            keyid=kid, hashalg=1, raw=None, kdf_raw=None if s.kdf is None else catalog.kdf_spec((s.kdf, s.info)).enc()[4:])
            wk = keys.private(rsa).public_key().encrypt(
                (s.salt or 0).to_bytes(4, 'big') + kb,
                padding.OAEP(mgf=padding.MGF1(hashes.SHA256()), algorithm=hashes.SHA256(), label=wire.oaep_label(fake)))
            spec += wire.tlv(9, kid) + wire.tlv(3, b'\1') + wire.tlv(4, wk)
        ctx = wire.tlv(0, wire.tlv(1, spec))
    sc = wire.sec_of(ctx[4:])
    ck = wire.content_key(sc, kb, s.kdf_salt)
    iv = (b'' if s.salt is None else s.salt.to_bytes(4, 'big')) + nonce
    ct = wire.aead(sc.mode, ck).encrypt(iv, value, ctx)
    return ctx + wire.tlv(2, ct[:-16]) + wire.tlv(3, ct[-16:])
