"""C04 Signature packets and subpackets"""
import struct
import warnings

from vlib.engine import Suite, check, eq
from vlib import ref

from pgp.packets import constants as C
from pgp.packets import packets as P
from pgp.packets import signature_subpackets as S

warnings.simplefilter('ignore')

suite = Suite('C04', 'Signature packets written by our own RFC 4880 writer: '
              'versions 2, 3 and 4, every subpacket type (known with values, '
              'known with further octets, unknown, private), critical bits, '
              '1-, 2- and 5-octet lengths, any order and multiplicity in both '
              'areas. Non-trivial: a version 2/3 packet, or a version 4 '
              'packet with at least one subpacket.')


def u8(d):
    return d.edge_int(0, 255, (1, 2, 127, 128))


def u32(d):
    return d.edge_int(0, 2 ** 32 - 1, (255, 65535, 2 ** 31, 1400000000))


def hx(b):
    return b.hex().upper()


def utf(d, lo=0, hi=60):
    return d.text(lo, hi)


def octets(d, lo, hi, mean=12):
    return d.blob(lo, hi, mean=mean, edges=[lo, 1])


# Every generator returns (type, body, {attr: value}, build, canonical):
# build() makes an equal subpacket from values, or is None; canonical tells
# whether the body is the one a writer makes from those values.

def f_time(type_, cls):
    def gen(d):
        t = u32(d)
        return type_, struct.pack('>I', t), {'time': t}, \
            lambda c: cls(c, t), True
    return gen


def f_bool(type_, cls, attr):
    def gen(d):
        v = d.bool()
        return type_, bytes([v]), {attr: v}, lambda c: cls(c, v), True
    return gen


def f_trust(d):
    a, b = u8(d), u8(d)
    return 5, bytes([a, b]), {'depth': a, 'amount': b}, \
        lambda c: S.TrustSubpacket(c, a, b), True


def f_regex(d):
    p = ''.join(chr(d.int(32, 126)) for _ in range(d.size(0, 40, 8)))
    return 6, p.encode() + b'\0', {'pattern': p}, \
        lambda c: S.RegularExpressionSubpacket(c, p), True


def f_prefs(type_, cls):
    def gen(d):
        v = list(octets(d, 0, 40, 5))
        return type_, bytes(v), {'preferred_algorithms': v}, \
            lambda c: cls(c, v), True
    return gen


def f_arr(d):
    strong, alg, fp = d.bool(), u8(d), d.bytes(20)
    return 10, bytes([0x80 if strong else 0, alg]) + fp, \
        {'strong_request': strong, 'public_key_algorithm': alg,
         'fingerprint': hx(fp)}, \
        lambda c: S.AdditionalRecipientRequestSubpacket(
            c, strong, alg, hx(fp)), True


def f_revkey(d):
    sens, alg, fp = d.bool(), u8(d), d.bytes(20)
    as_bytes = d.bool(0.3)
    return 12, bytes([0xC0 if sens else 0x80, alg]) + fp, \
        {'sensitive': sens, 'public_key_algorithm': alg,
         'fingerprint': hx(fp)}, \
        lambda c: S.RevocationKeySubpacket(
            c, fp if as_bytes else hx(fp), alg, sens), True


def f_issuer(d):
    k = d.bytes(8)
    return 16, k, {'key_id': hx(k)}, lambda c: S.IssuerSubpacket(c, hx(k)), True


def f_notation(d):
    hr = d.bool()
    name = utf(d, 1, 20).replace('@', '.')
    ns = d.choice([None, 'example.com', utf(d, 1, 15)])
    raw = (name + ('@' + ns if ns is not None else '')).encode()
    if hr:
        v = utf(d, 0, 60)
        rv = v.encode()
    else:
        v = rv = octets(d, 0, 3000, 30)
    body = bytes([0x80 if hr else 0, 0, 0, 0]) + \
        struct.pack('>HH', len(raw), len(rv)) + raw + rv
    return 20, body, {'name': name, 'namespace': ns,
                      'human_readable': hr, 'value': v}, \
        lambda c: S.NotationSubpacket(c, name, ns, hr, v), True


def f_kspref(d):
    b = u8(d)
    extra = octets(d, 0, d.choice([0, 0, 4]), 2)
    v = bool(b & 0x80)
    if d.draw(12) == 11:
        # no octets of flags
        return 23, b'', {'no_modify': False}, None, False
    return 23, bytes([b]) + extra, {'no_modify': v}, \
        lambda c: S.KeyServerPreferencesSubpacket(c, v), \
        not extra and not b & 0x7f


def f_text(type_, cls, attr, lo=1):
    def gen(d):
        t = utf(d, lo, d.choice([30, 300]))
        if len(t.encode()) > 3000:
            t = t[:100]
        return type_, t.encode(), {attr: t}, lambda c: cls(c, t), True
    return gen


KF = [(0x01, 'may_certify_others'), (0x02, 'may_sign_data'),
      (0x04, 'may_encrypt_comms'), (0x08, 'may_encrypt_storage'),
      (0x10, 'may_have_been_split'), (0x20, 'may_be_used_for_auth'),
      (0x80, 'may_have_multiple_owners')]


def f_keyflags(d):
    b = u8(d)
    extra = octets(d, 0, d.choice([0, 0, 4]), 2)
    if d.draw(12) == 11:
        return 27, b'', dict((n, False) for m, n in KF), None, False
    vals = dict((n, bool(b & m)) for m, n in KF)
    return 27, bytes([b]) + extra, vals, \
        lambda c: S.KeyFlagsSubpacket(c, **vals), not extra and not b & 0x40


def f_reason(d):
    code, t = u8(d), utf(d, 0, 60)
    return 29, bytes([code]) + t.encode(), \
        {'revocation_code': code, 'revocation_reason': t}, \
        lambda c: S.RevocationReasonSubpacket(c, code, t), True


def f_features(d):
    b = u8(d)
    extra = octets(d, 0, d.choice([0, 0, 4]), 2)
    v = bool(b & 1)
    if d.draw(12) == 11:
        return 30, b'', {'supports_modification_detection': False}, None, \
            False
    return 30, bytes([b]) + extra, \
        {'supports_modification_detection': v}, \
        lambda c: S.FeaturesSubpacket(c, v), not extra and b < 2


def f_target(d):
    pk = u8(d)
    h = d.choice(sorted(ref.HASH_LEN) + [99])
    dig = d.bytes(ref.HASH_LEN.get(h) or d.int(1, 70))
    if len(dig) == 0:
        dig = b'\0'
    return 31, bytes([pk, h]) + dig, \
        {'public_key_algorithm': pk, 'hash_algorithm': h, 'hash': hx(dig)}, \
        lambda c: S.TargetSubpacket(c, pk, h, hx(dig), len(dig)), True


def f_embedded(d):
    body, fields, build, _ = signature(d, 1)

    def chk(sig):
        check(isinstance(sig, P.SignaturePacket), 'embedded', type(sig))
        fields_equal(sig, fields)
    return 32, body, {'signature': chk}, \
        (lambda c: S.EmbeddedSignatureSubpacket(c, build(C.NEW_PACKET_HEADER_TYPE))) \
        if build else None, True


def f_text_undecodable(d):
    t = d.choice([24, 26, 28])
    return t, b'x' + d.bytes(d.int(1, 20)) + b'\xff\xfe', {}, None, False


KNOWN_TYPES = set([2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 16] + list(range(20, 33)))


def f_unknown(d):
    t = d.int(0, 127)
    if t in KNOWN_TYPES:
        t = d.int(100, 110)
    n = d.weighted([(60, 'small'), (10, 'two'), (6, 'high'), (3, 'big')])
    if n == 'small':
        body = d.bytes(d.int(0, 60))
    elif n == 'two':
        body = bytes([d.int(0, 255)]) * d.edge_int(190, 8382, (191, 192, 193))
    elif n == 'high':
        body = bytes([d.int(0, 255)]) * d.edge_int(8383, 16318, (8384,))
    else:
        body = bytes([d.int(0, 255)]) * d.edge_int(16319, 20000, (16320,))
    return t, body, {}, lambda c: S.SignatureSubpacket(t, c, body), \
        len(body) + 1 < 8384 or n == 'big'


GENS = [
    f_time(2, S.CreationTimeSubpacket),
    f_time(3, S.ExpirationSecondsSubpacket),
    f_bool(4, S.ExportableSubpacket, 'exportable'),
    f_trust, f_regex,
    f_bool(7, S.RevocableSubpacket, 'revocable'),
    f_time(9, S.KeyExpirationTimeSubpacket),
    f_arr,
    f_prefs(11, S.PreferredSymmetricAlgorithmsSubpacket),
    f_revkey, f_issuer, f_notation,
    f_prefs(21, S.PreferredHashAlgorithmsSubpacket),
    f_prefs(22, S.PreferredCompressionAlgorithmsSubpacket),
    f_kspref,
    f_text(24, S.PreferredKeyServerSubpacket, 'uri', 0),
    f_bool(25, S.PrimaryUserIDSubpacket, 'primary'),
    f_text(26, S.PolicyURISubpacket, 'uri', 0),
    f_keyflags,
    f_text(28, S.UserIDSubpacket, 'user_id', 0),
    f_reason, f_features, f_target, f_embedded,
    f_text_undecodable, f_unknown,
]
CLASSES = {
    2: 'CreationTime', 3: 'ExpirationSeconds', 4: 'Exportable', 5: 'Trust',
    6: 'RegularExpression', 7: 'Revocable', 9: 'KeyExpirationTime',
    10: 'AdditionalRecipientRequest', 11: 'PreferredSymmetricAlgorithms',
    12: 'RevocationKey', 16: 'Issuer', 20: 'Notation',
    21: 'PreferredHashAlgorithms', 22: 'PreferredCompressionAlgorithms',
    23: 'KeyServerPreferences', 24: 'PreferredKeyServer', 25: 'PrimaryUserID',
    26: 'PolicyURI', 27: 'KeyFlags', 28: 'UserID', 29: 'RevocationReason',
    30: 'Features', 31: 'Target', 32: 'EmbeddedSignature'}


def subpacket(d, depth=0):
    while True:
        g = d.choice(GENS)
        if g is f_embedded and (depth or d.bool(0.6)):
            continue
        break
    t, body, fields, build, canonical = g(d)
    crit = d.bool(0.2)
    n = len(body) + 1
    form = None
    if d.bool(0.08):
        form = 5
    elif 8384 <= n < 16320:
        form = d.choice([2, 5])
    raw = ref.subpacket(t, body, crit, form)
    if raw != ref.subpacket(t, body, crit):
        canonical = False
    d.label('type %s%s' % (t if t in CLASSES else 'unknown',
                           ' critical' if crit else ''))
    if form:
        d.label('%d-octet length' % form)
    return {'type': t, 'critical': crit, 'fields': fields, 'raw': raw,
            'body': body, 'canonical': canonical,
            'build': (lambda: build(crit)) if build else None}


def signature(d, depth=0):
    """-> body, fields, build(header format), nontrivial"""
    st, pk, h, h2 = u8(d), d.choice([1, 3, 17, u8(d)]), u8(d), d.bytes(2)
    mpis = [d.bigint(d.choice([8, 64, 1024, 4096]))
            for _ in range(2 if pk == 17 else 1)]
    if d.draw(8) == 7:
        mpis[d.draw(len(mpis))] = 0
    f = {'signature_type': st, 'public_key_algorithm': pk,
         'hash_algorithm': h, 'hash2': h2, 'signature_values': mpis}
    if d.bool(0.2):
        v = d.choice([3, 3, 2])
        ct, kid = u32(d), d.bytes(8)
        body = bytes([v]) + ref.sig_v3(st, ct, kid, pk, h, h2, mpis)[1:]
        f.update(version=v, creation_time=ct, key_id=hx(kid))
        d.label('version %d' % v)
        return body, f, lambda hf: P.SignaturePacket(
            hf, v, st, pk, h, bytearray(h2), mpis, ct, hx(kid)), True
    d.label('version 4')
    areas = []
    for _ in range(2):
        sps = [subpacket(d, depth) for _ in range(d.size(0, 8, 2))]
        while sum(len(s['raw']) for s in sps) > 65535:
            sps.pop()
        if len(sps) > 1 and d.bool(0.15):
            sps.append(sps[0])
            if sum(len(s['raw']) for s in sps) > 65535:
                sps.pop()
        areas.append(sps)
    ha, ua = areas
    body = ref.sig_v4(st, pk, h, b''.join(s['raw'] for s in ha),
                      b''.join(s['raw'] for s in ua), h2, mpis)
    f.update(version=4,
             hashed_subpackets=lambda x: sps_equal(x, ha),
             unhashed_subpackets=lambda x: sps_equal(x, ua))
    build = None
    if all(s['build'] and s['canonical'] for s in ha + ua):
        def build(hf):
            return P.SignaturePacket(
                hf, 4, st, pk, h, bytearray(h2), mpis,
                hashed_subpackets=[s['build']() for s in ha],
                unhashed_subpackets=[s['build']() for s in ua])
    return body, f, build, bool(ha or ua)


def value(v):
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    return v


def fields_equal(obj, fields):
    for k in sorted(fields):
        got = getattr(obj, k)
        if callable(fields[k]):
            fields[k](got)
        else:
            eq(value(got), value(fields[k]), type(obj).__name__ + '.' + k)


def sp_equal(sp, want):
    eq(sp.type, want['type'], 'subpacket type')
    eq(bool(sp.critical), want['critical'], 'critical bit')
    eq(type(sp).__name__,
       CLASSES.get(want['type'], 'Signature') + 'Subpacket', 'class')
    fields_equal(sp, want['fields'])
    eq(bytes(sp), want['raw'], 'octets of subpacket type %d' % want['type'])


def sps_equal(sps, wants):
    eq(len(sps), len(wants), 'number of subpackets')
    for s, w in zip(sps, wants):
        sp_equal(s, w)


def wrap(d, body):
    fmt = d.choice(['new', 'old'])
    hf = C.NEW_PACKET_HEADER_TYPE if fmt == 'new' else C.OLD_PACKET_HEADER_TYPE
    return ref.packet(fmt, 2, body), hf


@suite.prop(quick=2500, thorough=60000)
def parse(d):
    """parse: fields are what the octets mean, and the octets come back."""
    body, f, build, nt = signature(d)
    d.nontrivial(nt)
    raw, hf = wrap(d, body)
    off, p = P.packet_from_packet_data(raw + b'\x99tail')
    eq(off, len(raw), 'next offset')
    check(type(p) is P.SignaturePacket, 'class', type(p))
    fields_equal(p, f)
    eq(bytes(p.content), body, 'content')
    eq(bytes(p), raw, 'packet octets')
    off, q = P.packet_from_packet_data(raw)
    check(p == q, 'two parses of the same octets differ')


@suite.prop(quick=2500, thorough=60000)
def build(d):
    """build: values serialise to the RFC layout and parse back."""
    body, f, build, nt = signature(d)
    if build is None:
        d.reject()
    d.nontrivial(nt)
    raw, hf = wrap(d, body)
    p = build(hf)
    fields_equal_built = dict((k, v) for k, v in f.items() if not callable(v))
    fields_equal(p, fields_equal_built)
    eq(bytes(p), raw, 'octets')
    off, q = P.packet_from_packet_data(raw)
    check(p == q, 'built and parsed packets differ')
    check(q == p, 'parsed and built packets differ')


@suite.prop(quick=4000, thorough=100000)
def single(d):
    """single: one subpacket, in front of others."""
    s = subpacket(d)
    d.nontrivial()
    pre, post = d.bytes(d.int(0, 5)), d.bytes(d.int(0, 5))
    buf = bytearray(pre + s['raw'] + post)
    sp, off = S.signature_subpacket_from_data(buf, len(pre))
    eq(off, len(pre) + len(s['raw']), 'offset')
    sp_equal(sp, s)
    eq(bytes(sp.content) if s['canonical'] else b'',
       s['body'] if s['canonical'] else b'', 'content')
    if s['build'] and s['canonical']:
        b = s['build']()
        eq(bytes(b), s['raw'], 'built subpacket')
        fields_equal(b, dict((k, v) for k, v in s['fields'].items()
                             if not callable(v)))
        check(b == sp and sp == b and hash(b) == hash(sp), 'equality')


@suite.prop(quick=2500, thorough=60000)
def subpackets_differ(d):
    """subpackets differ: those of different octets are not equal."""
    a = subpacket(d)
    b = d.draw(4)
    raw = bytearray(a['raw'])
    n = 1 if raw[0] < 192 else 2 if raw[0] < 255 else 5
    if b == 0:
        raw[n] ^= 0x80
        d.label('critical or not')
    elif b == 1:
        raw[n] ^= 1 << d.draw(7)
        d.label('another type')
    elif len(raw) > n + 1:
        raw[n + 1 + d.draw(len(raw) - n - 1)] ^= 1 << d.draw(8)
        d.label('another content')
    else:
        d.reject()
    p = S.signature_subpacket_from_data(bytearray(a['raw']), 0)[0]
    try:
        q = S.signature_subpacket_from_data(bytearray(raw), 0)[0]
        same = bytes(q) == bytes(p)
    except Exception:
        d.reject()      # not well-formed any more
    if same:
        d.reject()
    d.note('octets', (a['raw'], bytes(raw)))
    d.nontrivial()
    check(p != q and not p == q, 'subpackets of different octets are equal')


@suite.prop(quick=2500, thorough=60000)
def differ(d):
    """differ: packets that differ in any part are not equal."""
    body, f, build, nt = signature(d)
    b2 = bytearray(body)
    # change the fixed part or the last octet of the integers
    where = d.choice([1, 2, 3, -1] if body[0] == 4 else
                     [2, 3, 6, 7, 14, 15, 16, 17, 18, -1])
    b2[where] ^= 1
    if where == -1 and f['signature_values'][-1] < 2:
        d.reject()
    d.nontrivial(nt)
    p = P.packet_from_packet_data(ref.packet('new', 2, body))[1]
    q = P.packet_from_packet_data(ref.packet('new', 2, bytes(b2)))[1]
    check(not p == q, 'packets that differ at octet %d are equal' % where)


@suite.prop(quick=2500, thorough=60000)
def update(d):
    """update: changing a value of a parsed subpacket changes its octets."""
    g = d.choice([x for x in GENS if x not in (
        f_embedded, f_text_undecodable, f_unknown)])
    t, body, fields, build, canonical = g(d)
    t2, body2, fields2, build2, canonical2 = g(d)
    if not canonical2 or t == 31:
        d.reject()
    crit, crit2 = d.bool(0.3), d.bool(0.3)
    sp, _ = S.signature_subpacket_from_data(
        bytearray(ref.subpacket(t, body, crit)), 0)
    if crit != crit2:
        sp.critical = crit2
    for k, v in fields2.items():
        setattr(sp, k, v)
    same = all(value(fields[k]) == value(fields2[k]) for k in fields) \
        and crit == crit2
    d.nontrivial(not same)
    eq(bytes(sp), ref.subpacket(t, body if same else body2, crit2),
       'octets after the change')
