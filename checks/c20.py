"""C20 Properties come from the newest self-signature"""
import datetime
import struct
import warnings

from vlib.engine import Suite, check, eq
from vlib import keys, ref, tkeys
from vlib.clock import ZONES, Zone, timestamp

from pgp import signature as S
from pgp import transferrable_keys as T
from pgp.packets import packets as P
from pgp.packets import parsers

warnings.simplefilter('ignore')

suite = Suite('C20', 'Keys of version 4 (some 3) whose elements hold 0..7 '
              'signatures each: own and foreign, newest in any place, of each '
              'type that may be there, versions 3 and 4, each with a random '
              'choice of property subpackets in random areas. Oracle: the '
              'newest applicable own signature in a table. Non-trivial: an '
              'element with at least two signatures of which one is own.')

KEYS = [k for k in keys.SMALL]
APPLICABLE = {'key': (0x1f,), 'uid': (0x10, 0x11, 0x12, 0x13),
              'attr': (0x10, 0x11, 0x12, 0x13), 'subkey': (0x18,)}
REVOCATION = {'key': 0x20, 'uid': 0x30, 'attr': 0x30, 'subkey': 0x28}
FLAGS = [('may_certify_others', 1), ('may_sign_data', 2),
         ('may_encrypt_comms', 4), ('may_encrypt_storage', 8),
         ('may_have_been_split', 16), ('may_be_used_for_auth', 32),
         ('may_have_multiple_owners', 128)]
NAMES = [n for n, _ in FLAGS] + [
    'preferred_compression_algorithms', 'preferred_hash_algorithms',
    'preferred_symmetric_algorithms', 'key_server_should_not_modify',
    'preferred_key_server', 'primary_user_id', 'policy_uri',
    'supports_modification_detection', 'revocation_keys',
    'expiration_time']


def algs(d):
    return bytes(d.int(0, 255) for _ in range(d.int(1, 4)))


def subpackets(d, revocation):
    """-> octets of property subpackets, values"""
    out, f = [], {}
    want = d.draw(1 << 10)
    if want & 1:
        b = d.int(0, 255)
        out.append(ref.subpacket(27, bytes([b])))
        f.update((n, bool(b & m)) for n, m in FLAGS)
    for bit, t, n in ((2, 22, 'preferred_compression_algorithms'),
                      (4, 21, 'preferred_hash_algorithms'),
                      (8, 11, 'preferred_symmetric_algorithms')):
        if want & bit:
            v = algs(d)
            out.append(ref.subpacket(t, v))
            f[n] = list(v)
    if want & 16:
        v = d.bool()
        out.append(ref.subpacket(23, b'\x80' if v else b'\0'))
        f['key_server_should_not_modify'] = v
    for bit, t, n in ((32, 24, 'preferred_key_server'),
                      (64, 26, 'policy_uri')):
        if want & bit:
            v = 'http://' + d.text(0, 8, alphabet='abc/\u00e9')
            out.append(ref.subpacket(t, v.encode('utf8')))
            f[n] = v
    if want & 128:
        v = d.bool()
        out.append(ref.subpacket(25, bytes([v])))
        f['primary_user_id'] = v
        v = d.bool()
        out.append(ref.subpacket(30, bytes([v])))
        f['supports_modification_detection'] = v
    if want & 256:
        v = d.bytes(20)
        out.append(ref.subpacket(12, b'\x80\x01' + v))
        f['revocation_keys'] = [v.hex().upper()]
    if want & 512:
        v = d.int(1, 10 ** 8)
        out.append(ref.subpacket(9, struct.pack('>I', v)))
        f['expiration_time'] = v
    if revocation and d.bool(0.8):
        code, why = d.choice([0, 1, 2, 3, 32, 100]), d.text(0, 10, 'abc ')
        out.append(ref.subpacket(29, bytes([code]) + why.encode('utf8')))
        f['revocation_code'], f['revocation_reason'] = code, why
    return out, f


def noise(d):
    """subpackets that say nothing about the key"""
    return d.choice([
        lambda: ref.subpacket(4, bytes([d.draw(2)])),
        lambda: ref.subpacket(5, d.bytes(2)),
        lambda: ref.subpacket(6, b'<[^>]+[@.]example\\.com>$\0'),
        lambda: ref.subpacket(7, bytes([d.draw(2)])),
        lambda: ref.subpacket(20, b'\x80\0\0\0\0\1\0\1nv'),
        lambda: ref.subpacket(28, b'someone'),
        lambda: ref.subpacket(100 + d.draw(11), d.bytes(d.draw(9))),
        ])()


def stranger(d, own_id, other_id):
    """the ID of another key, often one much like our own"""
    k = d.draw(6)
    if k < 2:
        return other_id
    if k == 2:
        return d.bytes(4) + own_id[4:]
    if k == 3:
        return own_id[:4] + d.bytes(4)
    if k == 4:
        i = d.draw(8)
        return own_id[:i] + bytes([own_id[i] ^ 1 << d.draw(8)]) + \
            own_id[i + 1:]
    return d.bytes(8)


class Sig(object):
    pass


def signature(d, sigtype, own_id, used, other_id):
    s = Sig()
    s.type = sigtype
    s.own = d.bool(0.65)
    s.fmt = d.choice(['new', 'old'])
    while 1:
        s.time = d.int(1350000000, 1350000000 + 20) if d.bool(0.3) \
            else timestamp(d)
        if s.time not in used:
            break
        s.time = (s.time + d.int(1, 10 ** 6)) % 2 ** 32
        if s.time not in used:
            break
    used.add(s.time)
    issuer = own_id if s.own else stranger(d, own_id, other_id)
    s.values = {}
    if d.draw(8) == 0:
        s.body = ref.sig_v3(sigtype, s.time, issuer, 1, 2, d.bytes(2), [5])
        return s
    subs, s.values = subpackets(d, sigtype in REVOCATION.values())
    while d.draw(3) == 0:
        subs.append(noise(d))
    subs = [(x, d.bool(0.85)) for x in subs]
    hashed = [keys.created(s.time)] + [x for x, h in subs if h]
    unhashed = [x for x, h in subs if not h]
    if d.draw(8) or s.own:
        (hashed if d.bool() else unhashed).append(keys.issuer(issuer))
    s.body = ref.sig_v4(sigtype, 1, 8, b''.join(d.shuffle(hashed)),
                        b''.join(d.shuffle(unhashed)), d.bytes(2), [5])
    return s


def make(d):
    ctimes = []
    version = d.weighted([(9, 4), (1, 3)])

    def packet(d):
        k = KEYS[d.draw(len(KEYS))]
        if version == 3:
            k = d.choice([x for x in KEYS if x.kind == 'rsa'])
        t = timestamp(d)
        ctimes.append(t)
        d.ks.append(k)
        # (version 3 keys have their own validity period)
        days = d.choice([0, 30, d.int(0, 400), d.int(0, 65535)]) \
            if version < 4 else 0
        d.days.append(days)
        return version, k.public_body(t, version=version, days=days)
    d.ks, d.days = [], []
    own = []

    def sig(d, sigtype):
        s = signature(d, sigtype, own[0], used, other)
        s.element = None
        sigs.append(s)
        return s.body
    used, sigs = set(), []
    other = d.bytes(8)

    def packet_and_id(d):
        v, body = packet(d)
        if not own:
            own.append(keys.key_id_of(body) if v >= 4
                       else keys.key_id_v3(d.ks[-1]))
        return v, body
    els = tkeys.key(d, 'public', packet_and_id, sig, sizes=(6, 2, 2, 2))
    # the signatures of each element in order
    i = 0
    for e in els:
        e.made = sigs[i:i + len(e.sigs)]
        i += len(e.sigs)
    n = 0
    for e in els:
        if e.kind in ('key', 'subkey'):
            e.ctime = ctimes[n]
            e.days = d.days[n]
            n += 1
        else:
            e.ctime = ctimes[0]
    return version, els


def newest(sigs, types):
    best = None
    for s in sigs:
        if s.own and s.type in types and (best is None or
                                          s.time > best.time):
            best = s
    return best


def verify_element(d, o, e, version):
    best = newest(e.made, APPLICABLE[e.kind])
    rev = newest(e.made, (REVOCATION[e.kind],))
    where = e.kind + ' element: '
    if e.kind == 'key' and version < 4:
        best = rev = None
        expected_revoked = bool(newest(e.made, (0x20,)))
    else:
        expected_revoked = rev is not None
    values = best.values if best else {}
    for n in NAMES:
        got = getattr(o, n)
        if n == 'expiration_time' and version < 4 and e.kind == 'key':
            eq(got and got.timestamp(),
               e.days and e.ctime + 86400 * e.days or None, where + n)
            continue
        if n not in values:
            check(got in (None, []), where + '%s is %r but the newest '
                  'self-signature has none' % (n, got))
            continue
        v = values[n]
        if n == 'expiration_time':
            v = datetime.datetime.fromtimestamp(e.ctime + v)
            eq(got, v, where + n)
            eq(got.timestamp(), v.timestamp(), where + n)
            continue
        if n == 'revocation_keys':
            got = [r.fingerprint for r in got]
        elif isinstance(v, list):
            got = list(got)
        eq(got, v, where + n)
    values = rev.values if rev else {}
    for n in ('revocation_code', 'revocation_reason'):
        eq(getattr(o, n), values.get(n), where + n)
    eq(bool(o.revoked), expected_revoked, where + 'revoked')
    t = o.creation_time
    if e.kind in ('key', 'subkey'):
        eq(int(t.timestamp()), e.ctime, where + 'creation time')
    elif best is None:
        check(t is None, where + 'creation time without self-signature', t)
    else:
        eq(int(t.timestamp()), best.time, where + 'creation time')
    eq([bytes(s.to_packet().content) for s in o.self_signatures],
       [s.body for s in e.made if s.own], where + 'self-signatures')


def objects(key, els):
    lists = {'key': [key], 'uid': list(key.user_ids),
             'attr': list(key.user_attributes), 'subkey': list(key.subkeys)}
    return [(lists[e.kind].pop(0), e) for e in els]


def load(els):
    return T.TransferablePublicKey.from_packets(
        parsers.parse_binary_packet_data(bytearray(b''.join(tkeys.raw(els)))))


@suite.prop(quick=2500, thorough=60000)
def properties(d):
    """properties: of every element, and after reordering its signatures"""
    version, els = make(d)
    d.label('version %d' % version)
    d.note('key', [(e.kind, [('%02x' % s.type, 'own' if s.own else 'other',
                              s.time) for s in e.made]) for e in els])
    d.nontrivial(any(len(e.made) > 1 and any(s.own for s in e.made)
                     for e in els))
    with Zone(d.choice(ZONES)):
        key = load(els)
        for o, e in objects(key, els):
            verify_element(d, o, e, version)
        for o, e in objects(key, els):
            order = d.shuffle(list(range(len(e.made))))
            e.made = [e.made[i] for i in order]
            o.signatures[:] = [o.signatures[i] for i in order]
        for o, e in objects(key, els):
            verify_element(d, o, e, version)


@suite.prop(quick=800, thorough=15000)
def foreign(d):
    """foreign: adding and removing signatures of others changes nothing, and
    own ones take effect"""
    version, els = make(d)
    d.note('key', [(e.kind, [('%02x' % s.type, 'own' if s.own else 'other',
                              s.time) for s in e.made]) for e in els])
    key = load(els)
    pairs = objects(key, els)
    o, e = d.choice(pairs)
    own_id = bytes.fromhex(key.key_id)
    used = set(s.time for s in e.made)
    d.nontrivial()
    for _ in range(d.int(1, 6)):
        if e.made and d.bool(0.4):
            i = d.draw(len(e.made))
            del e.made[i]
            del o.signatures[i]
        else:
            types = APPLICABLE[e.kind] + (REVOCATION[e.kind],)
            s = signature(d, d.choice(types), own_id, used, d.bytes(8))
            i = d.draw(len(e.made) + 1)
            e.made.insert(i, s)
            o.signatures.insert(i, T.KeySignature.from_packet(
                P.packet_from_packet_data(ref.packet(s.fmt, 2, s.body))[1],
                o))
        for o2, e2 in pairs:
            verify_element(d, o2, e2, version)


@suite.prop(quick=600, thorough=10000)
def setting(d):
    """setting: a property that is set is the newest self-signature's, and
    no other signature changes"""
    version, els = make(d)
    key = load(els)
    revoking = d.draw(5) == 0
    types = REVOCATION if revoking else {
        k: v for k, v in APPLICABLE.items()}
    if version < 4 and d.bool():
        days = d.choice([0, 1, d.int(1, 65535)])
        d.note('set', days)
        d.nontrivial()
        with Zone(d.choice(ZONES)):
            key = load(els)
            key.expiration_time = datetime.datetime.fromtimestamp(
                els[0].ctime + 86400 * days) if days else None
            els[0].days = days
            body = els[0].body
            eq(bytes(key.to_packet().content), body[:5] +
               struct.pack('>H', days) + body[7:], 'packet of the key')
            for o, e in objects(key, els):
                verify_element(d, o, e, version)
        return
    types = {k: v if isinstance(v, tuple) else (v,) for k, v in types.items()}
    pairs = [(o, e) for o, e in objects(key, els)
             if (version >= 4 or e.kind != 'key') and
             newest(e.made, types[e.kind])]
    if not pairs:
        d.reject()
    o, e = d.choice(pairs)
    best = newest(e.made, types[e.kind])
    if best.body[0] != 4:
        d.reject()
    n = d.choice(NAMES) if not revoking else d.choice(
        ['revocation_code', 'revocation_reason'])
    if n.endswith('algorithms'):
        v = list(algs(d))
    elif n in ('preferred_key_server', 'policy_uri'):
        v = 'http://' + d.text(0, 5, 'abc')
    elif n == 'revocation_code':
        v = d.choice([0, 1, 2, 3, 32, 255])
        best.values.setdefault('revocation_reason', '')
    elif n == 'revocation_reason':
        v = d.text(0, 9, 'abc \u00e9')
        best.values.setdefault('revocation_code', 0)
    elif n == 'expiration_time':
        v = d.int(1, 2 * 10 ** 8)
    elif n == 'revocation_keys':
        v = [d.bytes(20).hex().upper() for _ in range(d.int(1, 2))]
    else:
        v = d.bool()
    d.note('set', (e.kind, n, v))
    d.nontrivial(len(e.made) > 1)
    if n == 'expiration_time':
        setattr(o, n, datetime.datetime.fromtimestamp(e.ctime + v))
    elif n == 'revocation_keys':
        setattr(o, n, [S.RevocationKeyInfo(17, x, False) for x in v])
    else:
        setattr(o, n, v)
    if n in dict(FLAGS):
        for f, _ in FLAGS:
            best.values.setdefault(f, False)
    best.values[n] = v
    for s, m in zip(o.signatures, e.made):
        b = bytes(s.to_packet().content)
        if m is best:
            m.body = b
        else:
            eq(b, m.body, 'another signature')
    for o2, e2 in objects(key, els):
        verify_element(d, o2, e2, version)


def signed_octets(els, e, sigtype, hashed, h):
    """what a version 4 signature on the element signs"""
    data = keys.key_data(els[0].body)
    if e.kind == 'uid':
        data += keys.uid_data(e.body)
    elif e.kind == 'attr':
        data += keys.attr_data(e.body)
    elif e.kind == 'subkey':
        data += keys.key_data(e.body)
    return data + keys.trailer_v4(sigtype, 1, h, hashed)


class Cert(object):
    pass


@suite.prop(quick=1500, thorough=30000)
def states(d):
    """states: each signature is revoked or expired exactly when it says so
    or its issuer does"""
    zone = d.choice(ZONES)
    with Zone(zone):
        run_states(d, zone)


def run_states(d, zone):
    def packet(d):
        return 4, d.choice(KEYS).public_body(1400000000)
    els = tkeys.key(d, 'public', packet, tkeys.simple_sig, sizes=(0, 2, 1, 1))
    e = d.choice(els)
    for x in els:
        x.sigs, x.made = ([], [])
        if x.kind == 'subkey':
            x.sigs = [('new', tkeys.simple_sig(d, 0x18))]
    own_id = keys.key_id_of(els[0].body)
    issuers = [own_id, stranger(d, own_id, d.bytes(8)), d.bytes(8)]
    data = b''.join(tkeys.raw(els))
    key = T.TransferablePublicKey.from_packets(
        parsers.parse_binary_packet_data(bytearray(data)))
    o, e = d.choice([p for p in objects(key, els)])
    now = timestamp(d)
    made = []
    t0 = d.int(1300000000, 1400000000)
    for i in range(d.int(1, 5)):
        s = Cert()
        s.type = d.choice(APPLICABLE[e.kind])
        s.issuer = d.choice(issuers)
        s.time = t0 + i
        s.h = d.choice([1, 2, 8, 10])
        s.alg = 1
        extra = []
        s.irrevocable = s.expires = None
        if d.bool(0.3):
            s.irrevocable = d.bool()
            extra.append(ref.subpacket(7, bytes([not s.irrevocable])))
        if d.bool(0.4):
            if d.bool() and 0 < now - s.time < 2 ** 32:
                s.expires = max(1, min(2 ** 32 - 1, now - s.time +
                                       d.edge_int(-4000, 4000, (0, 1, -1))))
            else:
                s.expires = d.edge_int(0, 2 ** 32 - 1, (0, 1))
            extra.append(ref.subpacket(3, struct.pack('>I', s.expires)))
        s.hashed = b''.join(d.shuffle([keys.created(s.time),
                                       keys.issuer(s.issuer)] + extra))
        s.revokes = None
        s.body = ref.sig_v4(s.type, 1, s.h, s.hashed, b'', d.bytes(2), [5])
        made.append(s)
    certs = list(made)
    for i in range(d.int(0, 3)):
        r = Cert()
        r.type = REVOCATION[e.kind]
        r.issuer = d.choice(issuers)
        r.time = t0 + 100 + i
        r.irrevocable = r.expires = None
        r.hashed = keys.created(r.time) + keys.issuer(r.issuer)
        r.names = None
        if d.bool(0.6):
            r.names = d.choice(certs)
            digest = ref.new_hash(r.names.h)
            digest.update(signed_octets(els, e, r.names.type, r.names.hashed,
                                        r.names.h))
            digest = digest.digest()
            if d.draw(6) == 0:
                digest = d.bytes(len(digest))
                r.hashed += ref.subpacket(31, bytes([1, r.names.h]) + digest)
                r.names = 'another'
            else:
                r.hashed += ref.subpacket(31, bytes([1, r.names.h]) + digest)
        r.body = ref.sig_v4(r.type, 1, 8, r.hashed, b'', d.bytes(2), [5])
        made.append(r)
    made = d.shuffle(made)
    d.note('element', e.kind)
    d.note('signatures', [('%02x' % s.type, issuers.index(s.issuer), s.time,
                           'irrevocable' if s.irrevocable else '',
                           s.expires, getattr(s, 'names', None)
                           and (s.names if isinstance(s.names, str) else
                                s.names.time)) for s in made])
    d.note('now', (now, zone))
    d.nontrivial(len(made) > 1)
    o.signatures = [T.KeySignature.from_packet(P.packet_from_packet_data(
        ref.packet('new', 2, s.body))[1], o) for s in made]
    for x in o.signatures:
        x.get_current_time = lambda: datetime.datetime.fromtimestamp(now)
    current = []
    sure = True
    for s, x in zip(made, o.signatures):
        what = 'signature %d: ' % s.time
        eq(bool(x.revocation), s not in certs, what + 'is a revocation')
        expired = bool(s.expires) and now > s.time + s.expires
        eq(bool(x.expired), expired, what + 'expired')
        got = x.revoked
        if s not in certs:
            check(not got, what + 'a revocation is revoked')
            continue
        expected = False
        for r in made:
            if r in certs or s.irrevocable or r.issuer != s.issuer:
                continue
            if r.names is s:
                expected = True
            elif r.names is None:
                if [y for y in made if y.issuer == s.issuer and
                        y is not r] == [s]:
                    # it can mean no other
                    if e.kind != 'key':
                        expected = True
                    elif not expected:
                        expected = None
                elif not expected:
                    # which one is not said
                    expected = None
        if expected is None:
            d.label('gray')
            if s.issuer == own_id:
                sure = False
        else:
            d.label('revoked' if expected else 'not revoked')
            eq(bool(got), expected, what + 'revoked')
        if s.issuer == own_id and not expected and not expired:
            current.append(s.body)
    if sure:
        eq([bytes(x.to_packet().content)
            for x in o.current_self_signatures], current,
           'current self-signatures')
    else:
        o.current_self_signatures
