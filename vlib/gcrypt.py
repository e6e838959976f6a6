"""libgcrypt through ctypes: an implementation of ciphers and key derivation
that shares nothing with the code under test."""
from vlib.engine import Reject
import ctypes

_g = ctypes.CDLL('libgcrypt.so.20')
_g.gcry_check_version.restype = ctypes.c_char_p
_g.gcry_check_version(None)
_g.gcry_control(37, 0)      # no secure memory
_g.gcry_control(38, 0)      # initialisation finished
for _f in ('gcry_cipher_open', 'gcry_cipher_setkey', 'gcry_cipher_encrypt',
           'gcry_cipher_decrypt', 'gcry_kdf_derive'):
    getattr(_g, _f).restype = ctypes.c_uint
_g.gcry_cipher_open.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int,
                                ctypes.c_uint]
_g.gcry_cipher_close.argtypes = [ctypes.c_void_p]
_g.gcry_cipher_close.restype = None
_g.gcry_cipher_setkey.argtypes = [ctypes.c_void_p, ctypes.c_char_p,
                                  ctypes.c_size_t]
for _f in ('gcry_cipher_encrypt', 'gcry_cipher_decrypt'):
    getattr(_g, _f).argtypes = [ctypes.c_void_p, ctypes.c_char_p,
                                ctypes.c_size_t, ctypes.c_char_p,
                                ctypes.c_size_t]
_g.gcry_kdf_derive.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int,
                               ctypes.c_int, ctypes.c_char_p, ctypes.c_size_t,
                               ctypes.c_ulong, ctypes.c_size_t,
                               ctypes.c_char_p]

# OpenPGP algorithm number -> libgcrypt number
CIPHER = {1: 1, 2: 2, 3: 3, 4: 4, 7: 7, 8: 8, 9: 9, 10: 10,
          11: 310, 12: 311, 13: 312}


class WeakKey(Reject):
    pass


class ECB(object):
    """The bare block cipher."""

    def __init__(self, algo, key):
        self._h = ctypes.c_void_p()
        if _g.gcry_cipher_open(ctypes.byref(self._h), CIPHER[algo], 1, 0):
            raise RuntimeError('no cipher %d' % algo)
        rc = _g.gcry_cipher_setkey(self._h, bytes(key), len(key))
        if rc & 0xffff == 43:
            raise WeakKey()
        if rc:
            raise RuntimeError('setkey: %d' % (rc & 0xffff))

    def __del__(self):
        if self._h:
            _g.gcry_cipher_close(self._h)

    def _run(self, f, data):
        data = bytes(data)
        out = ctypes.create_string_buffer(len(data) or 1)
        rc = f(self._h, out, len(data), data, len(data))
        if rc:
            raise RuntimeError('cipher: %d' % (rc & 0xffff))
        return out.raw[:len(data)]

    def encrypt(self, data):
        return self._run(_g.gcry_cipher_encrypt, data)

    def decrypt(self, data):
        return self._run(_g.gcry_cipher_decrypt, data)


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def cfb_encrypt(ecb, iv, data, seg=None):
    """Textbook CFB with shifts of seg octets; a last short piece is allowed."""
    seg = seg or len(iv)
    reg, out = bytes(iv), b''
    for i in range(0, len(data), seg):
        c = xor(data[i:i + seg], ecb.encrypt(reg))
        out += c
        reg = (reg + c)[-len(iv):]
    return out


def cfb_decrypt(ecb, iv, data, seg=None):
    seg = seg or len(iv)
    reg, out = bytes(iv), b''
    for i in range(0, len(data), seg):
        c = bytes(data[i:i + seg])
        out += xor(c, ecb.encrypt(reg))
        reg = (reg + c)[-len(iv):]
    return out


def cbc_encrypt(ecb, iv, data):
    out, prev = b'', bytes(iv)
    n = len(iv)
    for i in range(0, len(data), n):
        prev = ecb.encrypt(xor(data[i:i + n], prev))
        out += prev
    return out


def ofb(ecb, iv, data):
    out, reg, n = b'', bytes(iv), len(iv)
    for i in range(0, len(data), n):
        reg = ecb.encrypt(reg)
        out += xor(data[i:i + n], reg)
    return out


def ctr(ecb, blocks, data):
    out = b''
    n = len(blocks[0]) if blocks else 1
    for k, i in enumerate(range(0, len(data), n)):
        out += xor(data[i:i + n], ecb.encrypt(blocks[k]))
    return out


def openpgp_encrypt(ecb, prefix, data, resync=True):
    """RFC 4880 section 13.9; prefix: the random block."""
    n = len(prefix)
    start = bytes(prefix) + bytes(prefix[-2:])
    if not resync:
        return cfb_encrypt(ecb, bytes(n), start + data)
    head = cfb_encrypt(ecb, bytes(n), start)
    return head + cfb_encrypt(ecb, head[-n:], data)


def openpgp_decrypt(ecb, n, data, resync=True):
    """-> prefix with its repetition, data"""
    if not resync:
        out = cfb_decrypt(ecb, bytes(n), data)
        return out[:n + 2], out[n + 2:]
    return (cfb_decrypt(ecb, bytes(n), data[:n + 2]),
            cfb_decrypt(ecb, data[2:n + 2], data[n + 2:]))


def s2k(mode, hash_algo, keylen, passphrase, salt=b'', count=None):
    """mode: the OpenPGP specifier 0, 1 or 3"""
    md = hash_algo
    out = ctypes.create_string_buffer(keylen)
    sub = {0: 16, 1: 17, 3: 19}[mode]
    # libgcrypt wants a non-empty passphrase pointer; lengths decide
    rc = _g.gcry_kdf_derive(bytes(passphrase), len(passphrase), sub, md,
                            bytes(salt) or None, len(salt), count or 0,
                            keylen, out)
    if rc:
        raise RuntimeError('kdf: %d' % (rc & 0xffff))
    return out.raw


def keygrip(kind, **numbers):
    """20 octets; kind 'rsa', 'dsa' or 'elg'"""
    def number(n):
        b = n.to_bytes(n.bit_length() // 8 + 1, 'big') if n else b''
        return b'%d:' % len(b) + b
    text = b'(10:public-key(%d:%s' % (len(kind), kind.encode())
    for name in {'rsa': 'ne', 'dsa': 'pqgy', 'elg': 'pgy'}[kind]:
        text += b'(1:%s%s)' % (name.encode(), number(numbers[name]))
    text += b'))'
    sexp = ctypes.c_void_p()
    rc = _g.gcry_sexp_new(ctypes.byref(sexp), text, len(text), 0)
    if rc:
        raise RuntimeError('sexp: %d' % (rc & 0xffff))
    out = ctypes.create_string_buffer(20)
    try:
        if not _g.gcry_pk_get_keygrip(sexp, out):
            raise RuntimeError('no keygrip')
    finally:
        _g.gcry_sexp_release(sexp)
    return out.raw


_g.gcry_sexp_new.restype = ctypes.c_uint
_g.gcry_sexp_new.argtypes = [ctypes.c_void_p, ctypes.c_char_p,
                             ctypes.c_size_t, ctypes.c_int]
_g.gcry_sexp_release.restype = None
_g.gcry_sexp_release.argtypes = [ctypes.c_void_p]
_g.gcry_pk_get_keygrip.restype = ctypes.c_void_p
_g.gcry_pk_get_keygrip.argtypes = [ctypes.c_void_p, ctypes.c_char_p]
