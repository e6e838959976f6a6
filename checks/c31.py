"""C31 Times and revocations that speak against a signature are noticed"""
import datetime
import struct
import warnings

from vlib.engine import Suite, Violation, check, eq
from vlib import keys, objects, ref

from pgp import exceptions as X
from pgp import signature as S
from pgp import signature_verification as V
from pgp.packets import parsers

warnings.simplefilter('ignore')

suite = Suite('C31', 'Signatures of versions 3 and 4, irrevocable or not, by '
              'primary keys and subkeys with 0..6 signatures on the key: '
              'direct signatures and bindings with expiry and designated '
              'revokers, revocations, each by the owner, a designated '
              'revoker or a stranger with a similar key ID, at times around '
              'each other and around the current time. Oracle: a table of '
              'what applies. Non-trivial: something speaks against the '
              'signature, or a revocation is there that does not count.')

NOW = 1400000000


def near(d, *points):
    if d.draw(6) == 0:
        return d.int(1, 2 ** 32 - 1)
    t = d.choice(points) + d.choice([0, 0, 1, -1, d.int(-60, 60),
                                     d.int(-10 ** 8, 10 ** 8)])
    return min(max(t, 1), 2 ** 32 - 1)


class Case(object):
    pass


def make(d):
    c = Case()
    k, s = d.choice(keys.SMALL), d.choice(keys.SMALL)
    c.key_time = near(d, NOW, NOW - 1000, NOW - 10 ** 7)
    c.sig_time = near(d, NOW, c.key_time, NOW - 500)
    c.usual = d.bool(0.65)
    if c.usual:
        c.key_time = NOW - d.choice([0, d.int(0, 50), d.int(1, 10 ** 8)])
        c.sig_time = c.key_time + d.size(0, NOW - c.key_time, 1000)
    pub = k.public_body(c.key_time)
    own = keys.key_id_of(pub)
    c.subkey = d.draw(3) == 0
    revoker = d.bytes(20)
    c.expiry = None
    c.revoked = []
    designated = None
    noise = []
    groups = [[], []]
    # the properties of the key
    subs = b''
    if d.bool():
        n = d.choice([d.int(1, 10 ** 8), max(1, NOW - c.key_time +
                                             d.int(-100, 100))])
        c.expiry = c.key_time + n
        subs += ref.subpacket(9, struct.pack('>I', n))
    if d.bool():
        designated = revoker
        for r in d.shuffle([revoker] + [d.bytes(20) for _ in
                                        range(d.choice([0, 0, 1, 3]))]):
            subs += ref.subpacket(12, bytes([d.choice([0x80, 0xc0]),
                                             d.choice([1, 17])]) + r)
    kind = 0x18 if c.subkey else 0x1f
    if subs or c.subkey:
        groups[0].append(ref.sig_v4(
            kind, 1, 8, keys.created(c.key_time) + subs + keys.issuer(own),
            b'', d.bytes(2), [5]))
    else:
        c.expiry = None
    if d.draw(4) == 0:
        # a stranger has no say in it
        groups[0].append(ref.sig_v4(
            kind, 1, 8, keys.created(NOW + 10 ** 8) + keys.issuer(
                d.bytes(8)) + ref.subpacket(12, b'\x80\x01' + revoker),
            b'', d.bytes(2), [5]))
        d.label('stranger names a revoker')
        noise.append(1)
    for _ in range(d.weighted([(4, 0), (4, 1), (2, 2), (1, 4)])):
        who = d.choice(['owner', 'revoker', 'stranger', 'similar'])
        t = near(d, NOW, c.key_time, c.sig_time)
        issuer = {'owner': own, 'revoker': revoker[-8:],
                  'stranger': d.bytes(8),
                  'similar': d.bytes(4) + d.choice([own, revoker])[-4:]}[who]
        d.label('revocation by ' + who)
        groups[1].append(ref.sig_v4(
            0x28 if c.subkey else 0x20, 1, 8,
            keys.created(t) + keys.issuer(issuer),
            b'', d.bytes(2), [5]))
        if who == 'owner' or who == 'revoker' and designated:
            c.revoked.append(t)
        else:
            noise.append(1)
    # the signature
    v3 = d.draw(4) == 0
    c.revocable = None
    if v3:
        body = ref.sig_v3(0, c.sig_time, own, 1, 8, d.bytes(2), [5])
    else:
        hashed = keys.created(c.sig_time)
        c.revocable = d.choice([None, None, True, False])
        if c.revocable is not None:
            hashed += ref.subpacket(7, bytes([c.revocable]))
        body = ref.sig_v4(0, 1, 8, hashed, keys.issuer(own), d.bytes(2), [5])
    c.body = body
    parts = [ref.new_packet(6, pub)]
    sigs = d.shuffle(groups[0] + groups[1])
    if c.subkey:
        parts.append(ref.new_packet(13, b'A <a@b.c>'))
        parts.append(ref.new_packet(14, s.public_body(c.key_time)))
        sigs = d.shuffle(groups[0]) + d.shuffle(groups[1])
    parts += [ref.new_packet(2, x) for x in sigs]
    key = objects.load_public(b''.join(parts))
    c.primary = key
    c.key = key.subkeys[0] if c.subkey else key
    p, = parsers.parse_binary_packet_data(ref.new_packet(2, body))
    c.sig = S.BaseSignature.from_packet(p, b'document')
    c.now = near(d, NOW, c.key_time, c.sig_time, *(
        [c.expiry] if c.expiry else []))
    if c.usual:
        c.now = NOW
    c.noise = bool(noise)
    return c


@suite.prop(quick=4000, thorough=80000)
def verdict(d):
    """verdict: errors and results are those that apply"""
    c = make(d)
    if c.now == c.expiry:
        c.now += 1
    d.note('case', vars(c))
    errors, warns = [], []
    if c.sig_time < c.key_time:
        errors.append(X.SignatureCreatedBeforeContent)
    if c.key_time > c.now:
        errors.append(X.SigningKeyCreatedInTheFuture)
    if c.sig_time > c.now:
        errors.append(X.SignatureCreatedInTheFuture)
    expired = c.expiry is not None and c.expiry < c.now
    revoked = bool(c.revoked) and c.revocable is not False
    if expired:
        warns.append(X.SigningKeyHasExpired)
    if revoked:
        warns += [X.SigningKeyHasBeenRevoked, X.SignedByRevokedKey]
    d.label('subkey' if c.subkey else 'primary key')
    for e in errors + warns[:2]:
        d.label(e.__name__)
    d.nontrivial(errors or warns or c.noise)
    strict = d.bool()
    d.label('strict' if strict else 'lax')
    now = datetime.datetime.fromtimestamp(c.now)
    allowed = errors + (warns if strict else [])
    try:
        got = V.check_signature_values(c.key, c.sig, now, strict)
    except X.SignatureTimeConflict as e:
        check(type(e) in errors, 'an error that does not apply', repr(e))
    except X.SignatureWarning as e:
        check(type(e) in allowed, 'a warning that does not apply', repr(e))
        check(not errors, 'a warning instead of an error', repr(e))
        if type(e) is X.SignedByRevokedKey:
            check(min(c.revoked) <= c.sig_time, 'the key was not revoked '
                  'then', min(c.revoked), c.sig_time)
    else:
        check(not allowed, 'accepted, but these apply', allowed)
        eq(tuple(map(bool, got)), (expired, revoked), 'expired, revoked')
    eq(bytes(c.sig.to_packet().content), c.body, 'the signature')
