"""C07 String-to-key derivation"""
from vlib.engine import Suite, check, eq
from vlib import gcrypt, ref

from pgp import s2k, utils

suite = Suite('C07', 'Every specifier type, hash and cipher with passphrases '
              'of 0..2000 octets, random salts and coded counts (weighted to '
              'small ones; larger ones are in the thorough tier). '
              'Non-trivial: the passphrase is not empty.')

HASHES = sorted(ref.HASH)
CIPHERS = sorted(ref.KEY_LEN)


def passphrase(d):
    k = d.draw(8)
    if k == 0:
        return b''
    if k == 1:
        return d.text(1, 12).encode('utf8')
    if k == 2:
        return d.blob(1, 2000, mean=700)
    return d.blob(1, 80, mean=12, edges=(8, 16, 55, 56, 64))


def make(mode, h, c, salt, count):
    if mode == 0:
        return s2k.SimpleS2K(h, c)
    if mode == 1:
        return s2k.SaltedS2K(h, c, salt)
    return s2k.IteratedAndSaltedS2K(h, c, salt, count)


def spec_bytes(mode, h, salt, coded):
    return bytes([mode, h]) + (salt if mode else b'') + \
        (bytes([coded]) if mode == 3 else b'')


def params(d, maxcount=16):
    mode = d.choice([3, 1, 0])
    h = d.choice(HASHES)
    c = d.choice(CIPHERS)
    salt = d.bytes(8)
    coded = d.draw(maxcount)
    d.label('mode %d' % mode)
    return mode, h, c, salt, coded


def derive(d, maxcount):
    mode, h, c, salt, coded = params(d, maxcount)
    pw = passphrase(d)
    d.note('spec', (mode, h, c, salt.hex(), coded))
    d.note('passphrase', pw)
    d.nontrivial(len(pw) > 0)
    count = ref.s2k_decode_count(coded)
    n = ref.KEY_LEN[c]
    if n > ref.HASH_LEN[h]:
        d.label('key longer than the hash')
    if len(pw) + 8 > count and mode == 3:
        d.label('count shorter than salt and passphrase')
    want = ref.s2k(mode, h, n, pw, salt, count)
    if pw:
        other = gcrypt.s2k(mode, h, n, pw, salt, count)
        if other != want:
            raise RuntimeError('the two references disagree')
    if d.bool():
        obj = make(mode, h, c, d.choice([bytes, bytearray])(salt), count)
    else:
        pre = d.bytes(d.draw(4))
        obj, _ = s2k.parse_s2k_bytes(
            c, bytearray(pre + spec_bytes(mode, h, salt, coded) +
                         d.bytes(d.draw(4))), len(pre))
    eq(bytes(obj.to_key(d.choice([bytes, bytearray])(pw))), want,
       'derived key')
    # the derivation must not disturb the parameters or later derivations
    eq(bytes(obj.to_key(pw)), want, 'key derived a second time')
    eq(bytes(obj.__bytes__()), spec_bytes(mode, h, salt, coded),
       'specifier octets after derivation')


@suite.prop(quick=6000, thorough=100000)
def derivation(d):
    """The derived key equals the one of the RFC (and of libgcrypt)."""
    derive(d, 16)


@suite.prop(quick=250, thorough=4000, timeout=60)
def large_counts(d):
    """Counts up to 2^21 octets (quick) - mixed with long passphrases."""
    derive(d, 180)


@suite.prop(quick=6000, thorough=60000)
def specifier(d):
    """Parsing and writing specifiers is the identity, in any surrounding."""
    mode = d.choice([3, 1, 0, 101, 102])
    c = d.choice(CIPHERS)
    h = d.choice(HASHES + [0, 255])
    salt = d.bytes(8)
    coded = d.draw(256)
    serial = None
    if mode == 101:
        body = bytes([101, h]) + b'GNU\x01'
    elif mode == 102:
        serial = d.blob(0, 20, mean=16, edges=(16,))
        body = bytes([101, h]) + b'GNU\x02' + bytes([len(serial)]) + serial
    else:
        body = spec_bytes(mode, h, salt, coded)
    pre, post = d.blob(0, 6), d.blob(0, 6)
    d.note('spec', body)
    d.nontrivial()
    d.label('mode %d' % mode)
    obj, off = s2k.parse_s2k_bytes(
        c, d.choice([bytearray, bytes])(pre + body + post), len(pre))
    eq(off, len(pre) + len(body), 'offset after the specifier')
    eq(bytes(obj.__bytes__()), body, 'specifier octets')
    eq(obj.hash_algorithm, h, 'hash algorithm')
    eq(obj.symmetric_algorithm, c, 'cipher')
    if mode in (1, 3):
        eq(bytes(obj.salt), salt, 'salt')
    if mode == 3:
        eq(obj.count, ref.s2k_decode_count(coded), 'count')
    if mode == 102:
        eq(obj.serial_number.upper(), serial.hex().upper(), 'serial number')
    obj2, _ = s2k.parse_s2k_bytes(c, bytearray(body), 0)
    check(obj == obj2, 'equal specifiers differ')
    if mode < 100:
        obj3 = make(mode, h, c, salt, ref.s2k_decode_count(coded))
        eq(bytes(obj3.__bytes__()), body, 'octets of the built specifier')
        check(obj == obj3, 'parsed and built specifiers differ')
        # any other value makes a different specifier
        m = d.choice([0, 1, 3, mode, mode])
        h2 = d.choice([h, d.choice(HASHES)])
        bit = 1 << d.draw(64)
        s2 = d.choice([salt, d.bytes(8), (int.from_bytes(
            salt, 'big') ^ bit).to_bytes(8, 'big')])
        k2 = d.choice([coded, d.draw(256)])
        c2 = d.choice([c, d.choice(CIPHERS)])
        obj4 = make(m, h2, c2, s2, ref.s2k_decode_count(k2))
        same = (spec_bytes(m, h2, s2, k2), c2) == (body, c)
        eq(bool(obj == obj4), same, 'equality of specifiers')


@suite.prop(quick=600, thorough=3000)
def unknown_specifiers(d):
    """Types and extensions that are not implemented are refused."""
    t = d.choice([d.draw(256), 101])
    if t in (0, 1, 3):
        d.reject()
    body = bytes([t, 2]) + (b'GNU' if d.bool() else d.choice(
        [d.bytes(3), b'GNV', b'gnu', b'GN\0'])) + \
        bytes([d.choice([0, 3, 4, d.draw(256)])]) + d.bytes(12)
    if t == 101 and body[2:5] == b'GNU' and body[5] in (1, 2):
        d.reject()
    d.note('spec', body)
    d.nontrivial()
    try:
        obj, _ = s2k.parse_s2k_bytes(9, bytearray(body), 0)
    except ValueError:
        return
    check(False, 'unknown specifier accepted', obj)
