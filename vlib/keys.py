"""Independent key material: real keys (keypool.json), reference signing,
verification, encryption and packet building.  Imports nothing from the code
under test."""
import hashlib
import json
import os
import random
import struct

from vlib import gcrypt, ref

_DIR = os.path.dirname(os.path.abspath(__file__))

DIGEST_INFO = {
    1: '3020300c06082a864886f70d020505000410',
    2: '3021300906052b0e03021a05000414',
    3: '3021300906052b2403020105000414',
    8: '3031300d060960864801650304020105000420',
    9: '3041300d060960864801650304020205000430',
    10: '3051300d060960864801650304020305000440',
    11: '302d300d06096086480165030402040500041c',
}
DIGEST_INFO = {k: bytes.fromhex(v) for k, v in DIGEST_INFO.items()}


def b2i(b):
    return int.from_bytes(b, 'big')


def i2b(n, length=None):
    return n.to_bytes((n.bit_length() + 7) // 8 if length is None else length,
                      'big')


class K(object):
    """numbers of one key"""

    def __init__(self, index, d):
        self.index = index
        self.kind = d['kind']
        for k, v in d.items():
            if k != 'kind':
                setattr(self, k, int(v, 16))
        self.alg = {'rsa': 1, 'dsa': 17, 'elg': 16}[self.kind]
        self.bits = (self.n if self.kind == 'rsa' else self.p).bit_length()

    def __repr__(self):
        return '%s%d#%d' % (self.kind, self.bits, self.index)

    def public_numbers(self):
        if self.kind == 'rsa':
            return [self.n, self.e]
        if self.kind == 'dsa':
            return [self.p, self.q, self.g, self.y]
        return [self.p, self.g, self.y]

    def secret_numbers(self):
        if self.kind == 'rsa':
            return [self.d, self.p, self.q, self.u]
        return [self.x]

    def public_body(self, ctime=1400000000, alg=None, version=4, days=0):
        out = bytes([version]) + struct.pack('>I', ctime)
        if version < 4:
            out += struct.pack('>H', days)
        out += bytes([alg or self.alg])
        return out + b''.join(ref.mpi(n) for n in self.public_numbers())

    # -- signatures ---------------------------------------------------------
    def sign_digest(self, hash_alg, digest, rnd=None):
        """-> list of MPIs"""
        rnd = rnd or random.Random(digest)
        if self.kind == 'rsa':
            m = emsa(hash_alg, digest, (self.bits + 7) // 8)
            return [pow(b2i(m), self.d, self.n)]
        if self.kind == 'dsa':
            h = b2i(digest[:(self.q.bit_length() + 7) // 8])
            while 1:
                k = rnd.randrange(1, self.q)
                r = pow(self.g, k, self.p) % self.q
                s = pow(k, -1, self.q) * (h + self.x * r) % self.q
                if r and s:
                    return [r, s]
        m = b2i(emsa(hash_alg, digest, self.elg_len()))
        while 1:
            k = rnd.randrange(2, self.p - 1)
            if gcd(k, self.p - 1) != 1:
                continue
            r = pow(self.g, k, self.p)
            s = pow(k, -1, self.p - 1) * (m - self.x * r) % (self.p - 1)
            if s:
                return [r, s]

    def elg_len(self):
        return (self.bits + 7) // 8

    def verify_digest(self, hash_alg, digest, values):
        if self.kind == 'rsa':
            if len(values) != 1 or not 0 <= values[0] < self.n:
                return False
            m = emsa(hash_alg, digest, (self.bits + 7) // 8)
            return pow(values[0], self.e, self.n) == b2i(m)
        if len(values) != 2:
            return False
        r, s = values
        if self.kind == 'dsa':
            if not (0 < r < self.q and 0 < s < self.q):
                return False
            h = b2i(digest[:(self.q.bit_length() + 7) // 8])
            w = pow(s, -1, self.q)
            v = pow(self.g, h * w % self.q, self.p) * \
                pow(self.y, r * w % self.q, self.p) % self.p % self.q
            return v == r
        if not (0 < r < self.p and 0 < s < self.p - 1):
            return False
        m = b2i(emsa(hash_alg, digest, self.elg_len()))
        return pow(self.y, r, self.p) * pow(r, s, self.p) % self.p == \
            pow(self.g, m, self.p)

    # -- encryption ---------------------------------------------------------
    def encrypt(self, payload, rnd):
        k = (self.bits + 7) // 8
        m = b2i(pkcs1_pad(payload, k, rnd))
        if self.kind == 'rsa':
            return [pow(m, self.e, self.n)]
        y = rnd.randrange(2, self.p - 1)
        return [pow(self.g, y, self.p), m * pow(self.y, y, self.p) % self.p]

    def decrypt(self, values):
        k = (self.bits + 7) // 8
        if self.kind == 'rsa':
            m = pow(values[0], self.d, self.n)
        else:
            m = values[1] * pow(values[0], -self.x, self.p) % self.p
        m = i2b(m, k)
        if m[:2] != b'\0\2' or 0 not in m[2:]:
            raise ValueError('padding')
        i = m.index(0, 2)
        if i < 10:
            raise ValueError('padding')
        return m[i + 1:]


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def emsa(hash_alg, digest, k):
    t = DIGEST_INFO[hash_alg] + digest
    if k < len(t) + 11:
        raise ValueError('modulus too short')
    return b'\0\1' + b'\xff' * (k - len(t) - 3) + b'\0' + t


def pkcs1_pad(payload, k, rnd):
    n = k - 3 - len(payload)
    if n < 8:
        raise ValueError('payload too long')
    return b'\0\2' + bytes(rnd.randrange(1, 256) for _ in range(n)) + \
        b'\0' + payload


POOL = [K(i, d) for i, d in
        enumerate(json.load(open(os.path.join(_DIR, 'keypool.json'))))]
RSA = [k for k in POOL if k.kind == 'rsa']
DSA = [k for k in POOL if k.kind == 'dsa']
ELG = [k for k in POOL if k.kind == 'elg']
SMALL = [k for k in POOL if k.bits <= 1100]


# --- secret key protection ----------------------------------------------------
class Protection(object):
    """usage: 0 none, 254 SHA-1, 255 checksum, 'legacy' (MD5, algorithm in the
    usage octet)"""

    def __init__(self, usage=0, sym=0, mode=3, hash_alg=2, salt=b'\0' * 8,
                 coded=0, iv=None):
        self.usage, self.sym, self.mode = usage, sym, mode
        self.hash_alg, self.salt, self.coded = hash_alg, salt, coded
        self.iv = iv if usage else None

    def __repr__(self):
        return 'Protection(%r, sym=%d, s2k=%d, hash=%d, coded=%d)' % (
            self.usage, self.sym, self.mode, self.hash_alg, self.coded)

    def specifier(self):
        return bytes([self.mode, self.hash_alg]) + \
            (self.salt if self.mode else b'') + \
            (bytes([self.coded]) if self.mode == 3 else b'')

    def key(self, passphrase):
        if self.usage == 'legacy':
            return ref.s2k(0, 1, ref.KEY_LEN[self.sym], passphrase)
        return ref.s2k(self.mode, self.hash_alg, ref.KEY_LEN[self.sym],
                       passphrase, self.salt,
                       ref.s2k_decode_count(self.coded))

    def header(self):
        if self.usage == 0:
            return b'\0'
        if self.usage == 'legacy':
            return bytes([self.sym]) + self.iv
        return bytes([self.usage, self.sym]) + self.specifier() + self.iv

    def trailer(self, plain):
        if self.usage == 254:
            return hashlib.sha1(plain).digest()
        return struct.pack('>H', sum(plain) & 0xffff)

    def protect(self, numbers, passphrase, version=4):
        """the octets after the header"""
        plain = b''.join(ref.mpi(n) for n in numbers)
        if self.usage == 0:
            return plain + self.trailer(plain)
        ecb = gcrypt.ECB(self.sym, self.key(passphrase))
        if version >= 4:
            return gcrypt.cfb_encrypt(ecb, self.iv,
                                      plain + self.trailer(plain))
        out, iv = b'', self.iv
        for n in numbers:
            m = ref.mpi(n)
            c = gcrypt.cfb_encrypt(ecb, iv, m[2:])
            out += m[:2] + c
            iv = (iv + c)[-len(iv):]
        return out + self.trailer(plain)

    def unprotect(self, data, passphrase, version=4):
        """-> list of numbers, or None when the integrity check fails"""
        if self.usage:
            ecb = gcrypt.ECB(self.sym, self.key(passphrase))
        if self.usage == 0:
            plain = data
        elif version >= 4:
            plain = gcrypt.cfb_decrypt(ecb, self.iv, data)
        else:
            plain, iv, o = b'', self.iv, 0
            while o < len(data) - 2:
                n = (b2i(data[o:o + 2]) + 7) // 8
                c = data[o + 2:o + 2 + n]
                plain += data[o:o + 2] + gcrypt.cfb_decrypt(ecb, iv, c)
                iv = (iv + c)[-len(iv):]
                o += 2 + n
            plain += data[o:]
        cut = len(plain) - (20 if self.usage == 254 else 2)
        if cut < 0 or plain[cut:] != self.trailer(plain[:cut]):
            return None
        out, o = [], 0
        while o < cut:
            try:
                n, o = ref.read_mpi(plain[:cut], o)
            except (ValueError, IndexError):
                return None
            out.append(n)
        return out


def protections(d, version=4):
    # (a SHA-1 hash is only defined for version 4)
    usage = d.choice([254, 255, 'legacy', 0] if version >= 4
                     else [255, 'legacy', 0])
    if not usage:
        return Protection()
    sym = d.choice(sorted(ref.KEY_LEN))
    return Protection(usage, sym, d.choice([3, 1, 0]),
                      d.choice(sorted(ref.HASH)), d.bytes(8), d.draw(20),
                      d.bytes(ref.BLOCK_LEN[sym]))


# --- signatures -----------------------------------------------------------------
def key_data(body):
    return b'\x99' + struct.pack('>H', len(body)) + body


def uid_data(data, sig_version=4):
    return (b'\xb4' + struct.pack('>I', len(data)) if sig_version >= 4
            else b'') + data


def attr_data(data, sig_version=4):
    return (b'\xd1' + struct.pack('>I', len(data)) if sig_version >= 4
            else b'') + data


def trailer_v4(sigtype, pkalg, hash_alg, hashed):
    part = bytes([4, sigtype, pkalg, hash_alg]) + \
        struct.pack('>H', len(hashed)) + hashed
    return part + b'\x04\xff' + struct.pack('>I', len(part))


def trailer_v3(sigtype, ctime):
    return bytes([sigtype]) + struct.pack('>I', ctime)


def signature_v4(key, sigtype, data, hash_alg=8, hashed=b'', unhashed=b'',
                 alg=None, rnd=None):
    """body of a version 4 signature by `key` over `data`"""
    alg = alg or key.alg
    h = ref.new_hash(hash_alg)
    h.update(data + trailer_v4(sigtype, alg, hash_alg, hashed))
    digest = h.digest()
    return ref.sig_v4(sigtype, alg, hash_alg, hashed, unhashed, digest[:2],
                      key.sign_digest(hash_alg, digest, rnd))


def signature_v3(key, sigtype, data, key_id, ctime=1400000001, hash_alg=1,
                 alg=None, rnd=None):
    alg = alg or key.alg
    h = ref.new_hash(hash_alg)
    h.update(data + trailer_v3(sigtype, ctime))
    digest = h.digest()
    return ref.sig_v3(sigtype, ctime, key_id, alg, hash_alg, digest[:2],
                      key.sign_digest(hash_alg, digest, rnd))


def created(t):
    return ref.subpacket(2, struct.pack('>I', t))


def issuer(key_id):
    return ref.subpacket(16, key_id)


def key_id_of(body):
    """8 octets"""
    return bytes.fromhex(ref.fingerprint_v4(body))[-8:]


def key_id_v3(key):
    n = key.n if key.kind == 'rsa' else key.p
    return i2b(n, max(8, (n.bit_length() + 7) // 8))[-8:]


def parse_sig_v4(body):
    """independent parse -> dict"""
    sigtype, pkalg, hash_alg, n = struct.unpack('>BBBH', body[1:6])
    hashed = body[6:6 + n]
    o = 6 + n
    m, = struct.unpack('>H', body[o:o + 2])
    unhashed = body[o + 2:o + 2 + m]
    o += 2 + m
    hash2 = body[o:o + 2]
    o += 2
    vals = []
    while o < len(body):
        v, o = ref.read_mpi(body, o)
        vals.append(v)
    return dict(sigtype=sigtype, pkalg=pkalg, hash_alg=hash_alg,
                hashed=hashed, unhashed=unhashed, hash2=hash2, values=vals)


def verify_sig(key, body, data):
    """does the signature packet body verify over `data` under `key`?"""
    body = bytes(body)
    if body[0] == 4:
        s = parse_sig_v4(body)
        data += trailer_v4(s['sigtype'], s['pkalg'], s['hash_alg'],
                           s['hashed'])
    else:
        s = dict(sigtype=body[2], pkalg=body[15], hash_alg=body[16],
                 hash2=body[17:19], values=[])
        ctime, = struct.unpack('>I', body[3:7])
        data += trailer_v3(s['sigtype'], ctime)
        o = 19
        while o < len(body):
            v, o = ref.read_mpi(body, o)
            s['values'].append(v)
    h = ref.new_hash(s['hash_alg'])
    h.update(data)
    digest = h.digest()
    if digest[:2] != s['hash2']:
        return False
    return key.verify_digest(s['hash_alg'], digest, s['values'])
