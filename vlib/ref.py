"""Independent reference implementations (RFC 4880), written from the RFC.
Nothing here imports the code under test."""
import hashlib
import struct


# --- numbers ---------------------------------------------------------------
def mpi(n):
    return struct.pack('>H', n.bit_length()) + \
        n.to_bytes((n.bit_length() + 7) // 8, 'big')


def be(n, width):
    return n.to_bytes(width, 'big')


def read_mpi(b, o):
    bits = (b[o] << 8) | b[o + 1]
    ln = (bits + 7) // 8
    if o + 2 + ln > len(b):
        raise ValueError('short mpi')
    return int.from_bytes(b[o + 2:o + 2 + ln], 'big'), o + 2 + ln


def crc24(data):
    crc = 0xB704CE
    for byte in data:
        crc ^= byte << 16
        for _ in range(8):
            crc <<= 1
            if crc & 0x1000000:
                crc ^= 0x1864CFB
    return crc & 0xFFFFFF


# --- packet framing ----------------------------------------------------------
def new_length(n):
    if n < 192:
        return bytes([n])
    if n < 8384:
        n -= 192
        return bytes([192 + (n >> 8), n & 255])
    return b'\xff' + struct.pack('>I', n)


def new_packet(tag, body, lenform=None):
    if lenform == 5:
        ln = b'\xff' + struct.pack('>I', len(body))
    elif lenform == 2:
        k = len(body) - 192
        ln = bytes([192 + (k >> 8), k & 255])
    else:
        ln = new_length(len(body))
    return bytes([0xC0 | tag]) + ln + bytes(body)


def old_packet(tag, body, lenform=None):
    n = len(body)
    if lenform is None:
        lenform = 0 if n < 256 else 1 if n < 65536 else 2
    ln = {0: '>B', 1: '>H', 2: '>I'}
    h = bytes([0x80 | (tag << 2) | lenform])
    if lenform == 3:
        return h + bytes(body)
    return h + struct.pack(ln[lenform], n) + bytes(body)


def partial_packet(tag, body, exps):
    """exps: exponents of the partial chunks, the rest is the final chunk."""
    out = bytearray([0xC0 | tag])
    o = 0
    for e in exps:
        out.append(224 + e)
        out += body[o:o + (1 << e)]
        o += 1 << e
    assert o <= len(body)
    out += new_length(len(body) - o) + body[o:]
    return bytes(out)


def packet(fmt, tag, body):
    """fmt 'new' or 'old'"""
    return new_packet(tag, body) if fmt == 'new' else old_packet(tag, body)


def read_packet(b, o=0):
    """-> (fmt, tag, body, next offset)"""
    t = b[o]
    if not t & 0x80:
        raise ValueError('not a packet')
    o += 1
    if not t & 0x40:
        tag = (t >> 2) & 15
        lt = t & 3
        if lt == 3:
            return 'old', tag, bytes(b[o:]), len(b)
        w = 1 << lt
        if o + w > len(b):
            raise ValueError('short')
        n = int.from_bytes(b[o:o + w], 'big')
        o += w
        if o + n > len(b):
            raise ValueError('short')
        return 'old', tag, bytes(b[o:o + n]), o + n
    tag = t & 63
    body = b''
    while True:
        if o >= len(b):
            raise ValueError('short')
        c = b[o]
        o += 1
        part = False
        if c < 192:
            n = c
        elif c < 224:
            if o >= len(b):
                raise ValueError('short')
            n = ((c - 192) << 8) + b[o] + 192
            o += 1
        elif c == 255:
            if o + 4 > len(b):
                raise ValueError('short')
            n = int.from_bytes(b[o:o + 4], 'big')
            o += 4
        else:
            n = 1 << (c & 31)
            part = True
        if o + n > len(b):
            raise ValueError('short')
        body += bytes(b[o:o + n])
        o += n
        if not part:
            return 'new', tag, body, o


def read_packets(b):
    o = 0
    out = []
    while o < len(b):
        f, t, body, o = read_packet(b, o)
        out.append((f, t, body))
    return out


def subpacket(type_, body, critical=False, lenform=None):
    n = len(body) + 1
    if lenform == 5:
        ln = b'\xff' + struct.pack('>I', n)
    elif lenform == 2:
        ln = bytes([192 + ((n - 192) >> 8), (n - 192) & 255])
    elif n < 192:
        ln = bytes([n])
    elif n < 8384:
        ln = bytes([192 + ((n - 192) >> 8), (n - 192) & 255])
    else:
        ln = b'\xff' + struct.pack('>I', n)
    return ln + bytes([type_ | (0x80 if critical else 0)]) + bytes(body)


def read_subpackets(b):
    o = 0
    out = []
    while o < len(b):
        c = b[o]
        o += 1
        if c < 192:
            n = c
        elif c < 255:
            n = ((c - 192) << 8) + b[o] + 192
            o += 1
        else:
            n = int.from_bytes(b[o:o + 4], 'big')
            o += 4
        out.append((b[o] & 0x7f, bool(b[o] & 0x80), bytes(b[o + 1:o + n])))
        o += n
    return out


def sig_v4(sigtype, pkalgo, hashalgo, hashed, unhashed, hash2, mpis):
    return (bytes([4, sigtype, pkalgo, hashalgo]) +
            struct.pack('>H', len(hashed)) + hashed +
            struct.pack('>H', len(unhashed)) + unhashed +
            hash2 + b''.join(mpi(m) for m in mpis))


def sig_v3(sigtype, ctime, keyid, pkalgo, hashalgo, hash2, mpis):
    return (b'\x03\x05' + bytes([sigtype]) + struct.pack('>I', ctime) + keyid +
            bytes([pkalgo, hashalgo]) + hash2 + b''.join(mpi(m) for m in mpis))


# --- S2K -----------------------------------------------------------------------
HASH = {1: 'md5', 2: 'sha1', 3: 'ripemd160', 8: 'sha256', 9: 'sha384',
        10: 'sha512', 11: 'sha224'}
HASH_LEN = {1: 16, 2: 20, 3: 20, 8: 32, 9: 48, 10: 64, 11: 28}
KEY_LEN = {1: 16, 2: 24, 3: 16, 4: 16, 7: 16, 8: 24, 9: 32, 10: 32,
           11: 16, 12: 24, 13: 32}
BLOCK_LEN = {1: 8, 2: 8, 3: 8, 4: 8, 7: 16, 8: 16, 9: 16, 10: 16,
             11: 16, 12: 16, 13: 16}


def new_hash(algo):
    return hashlib.new(HASH[algo])


def s2k_decode_count(c):
    return (16 + (c & 15)) << ((c >> 4) + 6)


def s2k(mode, hash_algo, keylen, passphrase, salt=b'', count=None):
    out = b''
    i = 0
    if mode == 0:
        stream = passphrase
    elif mode == 1:
        stream = salt + passphrase
    else:
        unit = salt + passphrase
        count = max(count, len(unit))
        stream = (unit * (count // len(unit) + 1))[:count]
    while len(out) < keylen:
        h = new_hash(hash_algo)
        h.update(b'\0' * i)
        h.update(stream)
        out += h.digest()
        i += 1
    return out[:keylen]


# --- keys ------------------------------------------------------------------------
def fingerprint_v4(public_body):
    return hashlib.sha1(b'\x99' + struct.pack('>H', len(public_body)) +
                        public_body).hexdigest().upper()


def fingerprint_v3(n, e):
    return hashlib.md5(n.to_bytes((n.bit_length() + 7) // 8, 'big') +
                       e.to_bytes((e.bit_length() + 7) // 8, 'big')
                       ).hexdigest().upper()
