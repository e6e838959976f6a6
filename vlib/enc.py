"""Independent encryption and decryption of OpenPGP messages (RFC 4880 5.1,
5.3, 5.7, 5.13, 5.14).  Imports nothing from the code under test."""
import hashlib
import random

from vlib import gcrypt, keys, ref

SYMS = sorted(ref.KEY_LEN)


def weak(sym, key):
    """Some ciphers have keys which references refuse"""
    try:
        gcrypt.ECB(sym, key)
    except Exception:
        return True
    return False


def seipd_body(sym, key, plain, prefix, mdc=None, repeat=None, cut=0):
    """body of an integrity protected data packet; mdc: what to append instead
    of the correct packet; repeat: the two repeated octets"""
    head = prefix + (prefix[-2:] if repeat is None else repeat)
    if mdc is None:
        mdc = b'\xd3\x14' + hashlib.sha1(head + plain + b'\xd3\x14').digest()
    return b'\1' + gcrypt.cfb_encrypt(gcrypt.ECB(sym, key),
                                      b'\0' * ref.BLOCK_LEN[sym],
                                      head + plain + mdc)


def seipd_open(sym, key, body):
    """-> octets of the packets inside"""
    bs = ref.BLOCK_LEN[sym]
    if body[:1] != b'\1':
        raise ValueError('version')
    plain = gcrypt.cfb_decrypt(gcrypt.ECB(sym, key), b'\0' * bs, body[1:])
    if plain[bs - 2:bs] != plain[bs:bs + 2]:
        raise ValueError('prefix')
    if plain[-22:-20] != b'\xd3\x14' or hashlib.sha1(
            plain[:-20]).digest() != plain[-20:] or len(plain) < bs + 24:
        raise ValueError('modification detection')
    return plain[bs + 2:-22]


def sed_body(sym, key, plain, prefix, repeat=None):
    """with the resynchronisation of section 13.9"""
    bs = ref.BLOCK_LEN[sym]
    ecb = gcrypt.ECB(sym, key)
    head = gcrypt.cfb_encrypt(ecb, b'\0' * bs, prefix + (
        prefix[-2:] if repeat is None else repeat))
    return head + gcrypt.cfb_encrypt(ecb, head[2:], plain)


def sed_open(sym, key, body):
    bs = ref.BLOCK_LEN[sym]
    ecb = gcrypt.ECB(sym, key)
    head = gcrypt.cfb_decrypt(ecb, b'\0' * bs, body[:bs + 2])
    if len(head) < bs + 2 or head[bs - 2:bs] != head[bs:]:
        raise ValueError('prefix')
    return gcrypt.cfb_decrypt(ecb, body[2:bs + 2], body[bs + 2:])


def checksum(key):
    return (sum(key) % 65536).to_bytes(2, 'big')


def pkesk_body(k, key_id, sym, key, rnd, alg=None, payload=None):
    payload = payload or bytes([sym]) + key + checksum(key)
    return b'\3' + key_id + bytes([alg or (1 if k.kind == 'rsa' else 16)]) + \
        b''.join(ref.mpi(n) for n in k.encrypt(payload, rnd))


def pkesk_open(k, body):
    """-> key ID, algorithm, symmetric algorithm, session key"""
    if body[0] != 3:
        raise ValueError('version')
    vals, o = [], 10
    while o < len(body):
        n, o = ref.read_mpi(body, o)
        vals.append(n)
    m = k.decrypt(vals)
    if checksum(m[1:-2]) != m[-2:] or len(m) != 3 + ref.KEY_LEN[m[0]]:
        raise ValueError('session key')
    return body[1:9], body[9], m[0], m[1:-2]


def skesk_body(sym, s2k, esk=b''):
    """s2k: (mode, hash, salt, coded count)"""
    mode, h, salt, coded = s2k
    return b'\4' + bytes([sym, mode, h]) + (salt if mode else b'') + (
        bytes([coded]) if mode == 3 else b'') + esk


def s2k_key(sym, s2k, passphrase):
    mode, h, salt, coded = s2k
    return ref.s2k(mode, h, ref.KEY_LEN[sym], passphrase, salt,
                   ref.s2k_decode_count(coded))


def skesk_esk(kek_sym, kek, sym, key):
    return gcrypt.cfb_encrypt(gcrypt.ECB(kek_sym, kek),
                              b'\0' * ref.BLOCK_LEN[kek_sym],
                              bytes([sym]) + key)


def skesk_open(body, passphrase):
    """-> symmetric algorithm, session key"""
    if body[0] != 4:
        raise ValueError('version')
    sym, mode, h = body[1:4]
    o = 4
    salt, coded = b'', 0
    if mode:
        salt = body[o:o + 8]
        o += 8
    if mode == 3:
        coded = body[o]
        o += 1
    kek = s2k_key(sym, (mode, h, salt, coded), passphrase)
    if o == len(body):
        return sym, kek
    m = gcrypt.cfb_decrypt(gcrypt.ECB(sym, kek), b'\0' * ref.BLOCK_LEN[sym],
                           body[o:])
    if ref.KEY_LEN.get(m[0]) != len(m) - 1:
        raise ValueError('session key')
    return m[0], m[1:]


def rnd(d):
    return random.Random(d.draw(1 << 30))


def data_packet(d, sym, key, plain, integrity, fmt=None):
    """an encrypted data packet of any framing"""
    prefix = d.bytes(ref.BLOCK_LEN[sym])
    body = (seipd_body if integrity else sed_body)(sym, key, plain, prefix)
    tag = 18 if integrity else 9
    how = d.draw(4) if fmt is None else fmt
    if how == 0 or (how == 1 and tag > 15):
        return ref.new_packet(tag, body)
    if how == 1:
        return ref.old_packet(tag, body)
    if how == 2 and tag < 16:
        # of indeterminate length
        return ref.old_packet(tag, body, 3)
    exps, n = [], len(body)
    e = 9
    while n >= 1 << e and d.draw(4):
        exps.append(e)
        n -= 1 << e
        e = d.choice([x for x in range(0, 13) if 1 << x <= max(1, n)] or [0])
    return ref.partial_packet(tag, body, exps)
