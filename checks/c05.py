"""C05 Key packets, fingerprints and key IDs"""
import struct
import time
import warnings

from vlib.engine import Suite, check, eq
from vlib import gcrypt, ref
from vlib.clock import ZONES, Zone, timestamp

from pgp import s2k
from pgp.packets import constants as C
from pgp.packets import packets as P
from pgp import transferrable_keys as T

warnings.simplefilter('ignore')

suite = Suite('C05', 'Key packets from our own writer: public and secret, '
              'primary and subkey, versions 2, 3 and 4, RSA, DSA and ElGamal '
              'with integers of 1..4096 bits (some up to 65535), all protection forms (none, '
              'MD5, each S2K method with checksum or SHA-1, GnuPG dummy and '
              'card), creation times over the whole 32-bit range and around '
              'daylight saving changes in several time zones. Non-trivial: '
              'every case.')

def num(d):
    if d.draw(60) == 0:
        d.label('huge number')
        return (1 << d.int(4097, 65534)) + d.draw(1 << 20)
    return d.bigint(d.choice([8, 16, 160, 1024, 2048, 4096])) or 1


FIELDS = ('modulus', 'exponent', 'prime', 'group_order', 'group_generator',
          'key_value')


def public(d):
    """-> version, body, values by attribute"""
    v = d.weighted([(7, 4), (2, 3), (1, 2)])
    alg = d.choice([1, 2, 3, 16, 17, 20]) if v == 4 else \
        d.choice([1, 1, 1, 2, 3, 16])
    t = timestamp(d)
    days = None
    body = bytes([v]) + struct.pack('>I', t)
    if v < 4:
        days = d.edge_int(0, 65535, (1, 255, 256))
        body += struct.pack('>H', days)
    body += bytes([alg])
    f = dict.fromkeys(FIELDS)
    names = {1: ('modulus', 'exponent'),
             16: ('prime', 'group_generator', 'key_value'),
             17: ('prime', 'group_order', 'group_generator', 'key_value')}
    names[2] = names[3] = names[1]
    names[20] = names[16]
    for n in names[alg]:
        f[n] = num(d)
        body += ref.mpi(f[n])
    f.update(version=v, creation_time=t, public_key_algorithm=alg,
             expiration_days=days)
    d.label('v%d algorithm %d' % (v, alg))
    if v < 4:
        n, e = (f[x] for x in names[alg][:2])
        # RFC 4880 section 12.2; the other kinds hash the same way in GnuPG
        f['fingerprint'] = ref.fingerprint_v3(n, e)
        f['key_id'] = ('%016X' % n)[-16:]
    else:
        f['fingerprint'] = ref.fingerprint_v4(body)
        f['key_id'] = f['fingerprint'][-16:]
    f['bits'] = f[names[alg][0]].bit_length()
    return body, f


def secret(d):
    """-> octets after the public part, values by attribute"""
    kind = d.weighted([(2, 'none'), (2, 'md5'), (6, 's2k'), (1, 'gnu')])
    enc = d.blob(0, 700, mean=120, edges=[0, 1, 20])
    if d.bool(0.4):
        # leads that look like counters, lengths or octets of zero
        enc = bytes([0] * d.int(1, 4)) + enc
    d.label('protection ' + kind)
    if kind == 'none':
        return b'\0' + enc, {
            's2k_specification': None, 'symmetric_algorithm': 0, 'iv': None,
            'encrypted_portion': enc, 'checksum': True, 'hash': False}
    alg = d.choice(sorted(ref.KEY_LEN))
    iv = d.bytes(ref.BLOCK_LEN[alg])
    if kind == 'md5':
        return bytes([alg]) + iv + enc, {
            's2k_specification': None, 'symmetric_algorithm': alg, 'iv': iv,
            'encrypted_portion': enc, 'checksum': True, 'hash': False}
    usage = d.choice([254, 255])
    f = {'symmetric_algorithm': alg, 'iv': iv, 'encrypted_portion': enc,
         'checksum': usage == 255, 'hash': usage == 254}
    h = d.choice(sorted(ref.HASH))
    if kind == 'gnu':
        f['iv'] = None
        if d.bool():
            spec = s2k.GnuPGS2K(h, 1001, alg)
            raw = bytes([101, h]) + b'GNU\x01'
            f['encrypted_portion'] = b''
            enc = b''
        else:
            serial = d.bytes(d.int(1, 16))
            spec = s2k.GnuPGS2K(h, 1002, alg, serial.hex().upper(),
                                len(serial))
            raw = bytes([101, h]) + b'GNU\x02' + bytes([len(serial)]) + serial
            f['encrypted_portion'] = b''
            enc = b''
        f['s2k_specification'] = spec
        return bytes([usage, alg]) + raw + enc, f
    mode, salt, c = d.choice([0, 1, 3]), d.bytes(8), d.int(0, 255)
    n = ref.s2k_decode_count(c)
    if mode == 0:
        raw, spec = bytes([0, h]), s2k.SimpleS2K(h, alg)
    elif mode == 1:
        raw, spec = bytes([1, h]) + salt, s2k.SaltedS2K(h, alg, salt)
    else:
        raw = bytes([3, h]) + salt + bytes([c])
        spec = s2k.IteratedAndSaltedS2K(h, alg, salt, n)
    f['s2k_specification'] = spec
    return bytes([usage, alg]) + raw + iv + enc, f


KINDS = {
    'public': (6, P.PublicKeyPacket),
    'public subkey': (14, P.PublicSubkeyPacket),
    'secret': (5, P.SecretKeyPacket),
    'secret subkey': (7, P.SecretSubkeyPacket),
}


def key(d, kind=None):
    kind = kind or d.choice(sorted(KINDS))
    tag, cls = KINDS[kind]
    body, f = public(d)
    pub = body
    s = {}
    if kind.startswith('secret'):
        more, s = secret(d)
        body += more
    fmt = d.choice(['new', 'old'])
    hf = C.NEW_PACKET_HEADER_TYPE if fmt == 'new' else C.OLD_PACKET_HEADER_TYPE
    d.label(kind)
    d.nontrivial()
    return {'kind': kind, 'tag': tag, 'cls': cls, 'body': body, 'pub': pub,
            'public': f, 'secret': s, 'fmt': fmt, 'hf': hf,
            'raw': ref.packet(fmt, tag, body)}


def norm(v):
    return bytes(v) if isinstance(v, (bytes, bytearray)) else v


def verify_packet(p, k):
    check(type(p) is k['cls'], 'class', type(p))
    for n, v in sorted(list(k['public'].items()) + list(k['secret'].items())):
        if n == 'bits':
            continue
        eq(norm(getattr(p, n)), norm(v), n)
    eq(p.type, k['tag'], 'type')
    eq(bytes(p.content), k['body'], 'content')
    eq(bytes(p.public_content), k['pub'], 'public part')
    eq(bytes(p), k['raw'], 'packet octets')
    if not k['secret'] and len(k['pub']) < 65536:
        eq(bytes(p.get_content_for_signature_hash(4)),
           b'\x99' + struct.pack('>H', len(k['pub'])) + k['pub'],
           'octets for signatures')


@suite.prop(quick=2500, thorough=60000)
def parse(d):
    """parse: fields are what the octets mean, and the octets come back."""
    k = key(d)
    off, p = P.packet_from_packet_data(k['raw'] + b'\x99x')
    eq(off, len(k['raw']), 'next offset')
    verify_packet(p, k)
    q = P.packet_from_packet_data(k['raw'])[1]
    check(p == q, 'two parses of the same octets differ')


@suite.prop(quick=2500, thorough=60000)
def build(d):
    """build: values serialise to the RFC layout and parse back."""
    k = key(d)
    f, s = k['public'], k['secret']
    p = k['cls'](k['hf'], f['version'], f['creation_time'],
                 f['public_key_algorithm'], f['expiration_days'],
                 *[f[n] for n in FIELDS])
    if s:
        p = k['cls'](k['hf'], f['version'], f['creation_time'],
                     f['public_key_algorithm'], f['expiration_days'],
                     *([f[n] for n in FIELDS] + [
                         s['s2k_specification'], s['symmetric_algorithm'],
                         s['iv'], s['encrypted_portion'], s['checksum'],
                         s['hash']]))
    verify_packet(p, k)
    q = P.packet_from_packet_data(k['raw'])[1]
    check(p == q and q == p, 'built and parsed packets differ')


@suite.prop(quick=2000, thorough=50000)
def differ(d):
    """differ: key packets that differ in one octet are not equal."""
    k = key(d)
    body = bytearray(k['body'])
    i = d.choice([1, 2, 3, 4, len(k['pub']) - 1] +
                 [len(body) - 1] * (len(k['secret'].get('encrypted_portion')
                                        or b'') > 0))
    body[i] ^= 1
    if i == len(k['pub']) - 1 and body[i - 2:i] == b'\0\1':
        d.reject()
    p = P.packet_from_packet_data(k['raw'])[1]
    q = P.packet_from_packet_data(
        ref.packet(k['fmt'], k['tag'], bytes(body)))[1]
    check(not p == q, 'key packets that differ at octet %d are equal' % i)
    if i < len(k['pub']) - 1 and k['public']['version'] == 4:
        check(p.fingerprint != q.fingerprint, 'fingerprints are equal')


def keygrip(f):
    if f['public_key_algorithm'] in (1, 2, 3):
        x = gcrypt.keygrip('rsa', n=f['modulus'], e=f['exponent'])
    else:
        x = gcrypt.keygrip(
            'dsa' if f['public_key_algorithm'] == 17 else 'elg',
            p=f['prime'], g=f['group_generator'], y=f['key_value'],
            q=f.get('group_order'))
    return x.hex().upper()


@suite.prop(quick=3000, thorough=70000)
def objects(d):
    """objects: key objects give back the packet and its identifiers."""
    kind = d.choice(sorted(KINDS))
    k = key(d, kind)
    f = k['public']
    zone = d.choice(ZONES)
    p = P.packet_from_packet_data(k['raw'])[1]
    with Zone(zone):
        d.label('zone ' + zone.split(',')[0])
        holder = None
        if kind == 'public':
            o = T.TransferablePublicKey.from_packet(p)
        elif kind == 'secret':
            o = T.TransferableSecretKey.from_packet(p)
        else:
            pk = key(d, kind.split()[0])
            pp = P.packet_from_packet_data(pk['raw'])[1]
            if kind == 'public subkey':
                holder = T.TransferablePublicKey.from_packet(pp)
                o = T.PublicSubkey.from_packet(holder, p)
            else:
                holder = T.TransferableSecretKey.from_packet(pp)
                o = T.SecretSubkey.from_packet(holder, p)
        eq(o.fingerprint, f['fingerprint'], 'fingerprint')
        eq(o.key_id, f['key_id'], 'key ID')
        eq(o.bit_length, f['bits'], 'bit length')
        eq(o.keygrip, keygrip(f), 'keygrip')
        eq(o.version, f['version'], 'version')
        eq(o.public_key_algorithm, f['public_key_algorithm'], 'algorithm')
        # The time shown is this instant on the clocks of the zone
        eq(o.creation_time.timetuple()[:6],
           time.localtime(f['creation_time'])[:6], 'creation time')
        if f['version'] < 4:
            e = o.expiration_time
            if f['expiration_days']:
                eq(e.timestamp() - o.creation_time.timestamp(),
                   86400.0 * f['expiration_days'], 'expiry')
            else:
                check(e is None, 'expiry', e)
        eq(bytes(o.to_packet()), k['raw'], 'packet of the object')
        other = C.OLD_PACKET_HEADER_TYPE \
            if k['hf'] == C.NEW_PACKET_HEADER_TYPE \
            else C.NEW_PACKET_HEADER_TYPE
        eq(bytes(o.to_packet(other)),
           ref.packet('old' if k['fmt'] == 'new' else 'new', k['tag'],
                      k['body']), 'packet in the other format')
        if kind.startswith('secret'):
            pub = o.to_public_key()
            tag = 6 if kind == 'secret' else 14
            eq(bytes(pub.to_packet()), ref.packet(k['fmt'], tag, k['pub']),
               'public key packet')
            eq(pub.fingerprint, f['fingerprint'], 'public fingerprint')
            eq(pub.key_id, f['key_id'], 'public key ID')
            eq(pub.keygrip, keygrip(f), 'public keygrip')
        del holder
