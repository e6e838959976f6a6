"""C02 Packet bodies of every non-key kind"""
import datetime

from vlib.engine import Suite, check, eq
from vlib import ref

from pgp import s2k
from pgp.packets import constants as C
from pgp.packets import packets as P
from pgp.packets import user_attribute_subpackets as U

suite = Suite('C02', 'Bodies of every packet kind other than keys and '
              'signatures, generated from field values with a writer of our '
              'own (lengths 0..3000, edge values for every integer field, '
              'text with non-ASCII and undecodable octets). Non-trivial: '
              'every case. Oracle: the RFC 4880 section 5 layouts.')

SYM = sorted(ref.KEY_LEN)
HASHES = sorted(ref.HASH)


def u8(d):
    return d.edge_int(0, 255, (1, 2, 3, 127, 128))


def u32(d):
    return d.edge_int(0, 2 ** 32 - 1, (255, 65535, 2 ** 31, 1400000000))


def keyid(d):
    if d.bool(0.1):
        return b'\x00' * 7 + bytes([d.int(1, 255)])
    return d.bytes(8) or b'\x01' * 8


def hx(b):
    return b.hex().upper()


def utf8(d, n=40):
    return d.text(0, n)


def big(d, mean=60):
    return d.blob(0, 3000, mean=mean, edges=[0, 1, 2, 191, 192, 256])


# Each kind returns: tag, body, expected fields {attr: value}, class, builder
# of an equal packet from its field values.

def pkesk(d):
    kid = keyid(d)
    wild = d.bool(0.25)
    if wild:
        kid = b'\0' * 8
    algo = d.choice([1, 2, 3, 16])
    esk = ref.mpi(d.bigint(600))
    if algo == 16:
        esk += ref.mpi(d.bigint(600))
    body = b'\x03' + kid + bytes([algo]) + esk
    want_id = None if wild or kid == b'\0' * 8 else hx(kid)
    d.label('wild card key ID' if want_id is None else 'named key ID')
    f = {'version': 3, 'key_id': want_id, 'public_key_algorithm': algo,
         'encrypted_session_key': esk}
    return C.PUBLIC_KEY_ENCRYPTED_SESSION_KEY_PACKET_TYPE, body, f, \
        P.PublicKeyEncryptedSessionKeyPacket, \
        lambda h: P.PublicKeyEncryptedSessionKeyPacket(
            h, 3, want_id, algo, bytearray(esk))


def s2k_spec(d, sym):
    mode = d.choice([0, 1, 3])
    h = d.choice(HASHES)
    salt = d.bytes(8)
    c = u8(d)
    n = ref.s2k_decode_count(c)
    if mode == 0:
        return bytes([0, h]), s2k.SimpleS2K(h, sym), (0, h, b'', None)
    if mode == 1:
        return bytes([1, h]) + salt, s2k.SaltedS2K(h, sym, bytearray(salt)), \
            (1, h, salt, None)
    return bytes([3, h]) + salt + bytes([c]), \
        s2k.IteratedAndSaltedS2K(h, sym, bytearray(salt), n), (3, h, salt, n)


def skesk(d):
    sym = d.choice(SYM)
    raw, spec, val = s2k_spec(d, sym)
    esk = None
    if d.bool(0.7):
        esk = d.bytes(1 + ref.KEY_LEN[d.choice(SYM)]) if d.draw(8) else \
            d.bytes(d.int(1, 9))
    body = bytes([4, sym]) + raw + (esk or b'')
    d.label('with session key' if esk else 'without session key')
    f = {'version': 4, 'symmetric_algorithm': sym,
         'encrypted_session_key': esk,
         's2k_specification': lambda s: eq(
             (s.mode, s.hash_algorithm, bytes(s.salt), s.count), val, 's2k')}
    return C.SYMMETRIC_KEY_ENCRYPTED_SESSION_KEY_PACKET_TYPE, body, f, \
        P.SymmetricKeyEncryptedSessionKeyPacket, \
        lambda h: P.SymmetricKeyEncryptedSessionKeyPacket(
            h, 4, sym, spec, esk)


def one_pass(d):
    st, ha, pa, kid = u8(d), u8(d), u8(d), keyid(d)
    nested = d.choice([0, 1, 1, 255])
    body = bytes([3, st, ha, pa]) + kid + bytes([nested])
    f = {'version': 3, 'signature_type': st, 'hash_algorithm': ha,
         'public_key_algorithm': pa, 'key_id': hx(kid), 'nested': nested}
    return C.ONE_PASS_SIGNATURE_PACKET_TYPE, body, f, \
        P.OnePassSignaturePacket, \
        lambda h: P.OnePassSignaturePacket(h, 3, st, ha, pa, hx(kid), nested)


def compressed(d):
    a, data = u8(d), big(d)
    return C.COMPRESSED_DATA_PACKET_TYPE, bytes([a]) + data, \
        {'compression_algorithm': a, 'compressed_data': data}, \
        P.CompressedDataPacket, \
        lambda h: P.CompressedDataPacket(h, a, data)


def encrypted(d):
    data = big(d)
    return C.SYMMETRICALLY_ENCRYPTED_DATA_PACKET_TYPE, data, {'data': data}, \
        P.SymmetricallyEncryptedDataPacket, \
        lambda h: P.SymmetricallyEncryptedDataPacket(h, data)


def integrity(d):
    v, data = d.choice([1, 1, 1, 2]), big(d)
    cls = P.SymmetricallyEncryptedAndIntegrityProtectedDataPacket
    return 18, bytes([v]) + data, {'version': v, 'encrypted_data': data}, \
        cls, lambda h: cls(h, v, data)


def marker(d):
    return C.MARKER_PACKET_TYPE, b'PGP', {'old_literal': False}, \
        P.MarkerPacket, lambda h: P.MarkerPacket(h, b'PGP')


def literal(d):
    fmt = d.weighted([(3, b'b'), (3, b'u'), (2, b't'), (1, b'l'), (1, b'1')])
    name = utf8(d, 60)
    while len(name.encode('utf8')) > 255:
        name = name[:-1]
    rawname = name.encode('utf8')
    if d.bool(0.1):
        rawname = d.bytes(d.int(1, 6))
        name = None
        d.label('undecodable file name')
    t = u32(d)
    if fmt == b'u':
        data = d.text(0, 200, mean=20)
        raw = data.encode('utf8')
    elif fmt == b't':
        raw = big(d, 20)
        data = raw.decode('latin-1')
    else:
        raw = data = big(d, 20)
    body = fmt + bytes([len(rawname)]) + rawname + t.to_bytes(4, 'big') + raw
    d.label('format ' + fmt.decode())
    f = {'data_format': fmt, 'time': t, 'data': data}
    if name is not None:
        f['filename'] = name
    # t as the datetime the message layer uses
    when = datetime.datetime.fromtimestamp(t)
    return C.LITERAL_DATA_PACKET_TYPE, body, f, P.LiteralDataPacket, \
        None if name is None else lambda h: P.LiteralDataPacket(
            h, fmt, name, when, data)


def trust(d):
    if d.bool():
        v, c = 0, d.int(0, 127)
        body = bytes([v, c])
    else:
        v, c = u8(d), None
        body = bytes([v])
    f = {'trust_value': v, 'sig_cache': c}
    if c is not None:
        f['checked'] = bool(c & 1)
        f['valid'] = bool(c & 2)
    return C.TRUST_PACKET_TYPE, body, f, P.TrustPacket, \
        lambda h: P.TrustPacket(h, v, c)


def trust_other(d):
    """Any other trust octets: kept as they are."""
    body = d.blob(0, 20, mean=3)
    if body[:1] == b'\0' and len(body) == 2:
        # GnuPG's signature caches have no bit 7
        body = bytes([0, body[1] | 0x80])
    return C.TRUST_PACKET_TYPE, body, \
        {'trust_value': body[0] if body else None}, \
        P.TrustPacket, None


def user_id(d):
    s = utf8(d, 200)
    raw = s.encode('utf8')
    f = {'user_id': s}
    b = lambda h: P.UserIDPacket(h, s)
    if d.bool(0.2):
        raw = d.blob(0, 60, mean=10)
        f, b = {}, None
        d.label('arbitrary octets')
    return C.USER_ID_PACKET_TYPE, raw, f, P.UserIDPacket, b


def image_header(fmt):
    return b'\x10\x00\x01' + bytes([fmt]) + b'\0' * 12


def attr(d):
    subs = d.list(0, 4, attr_sub, mean=2)
    d.label('%d subpackets' % len(subs))
    raw = b''.join(s[0] for s in subs)

    def same(got):
        eq(len(got), len(subs), 'number of subpackets')
        for g, (_, t, fmt, data, _b) in zip(got, subs):
            eq(g.sub_type, t, 'subpacket type')
            if t == 1:
                eq((g.header_version, g.header_length, g.image_format),
                   (1, 16, fmt), 'image header')
                eq(bytes(g.data), data, 'image data')
    build = None
    if all(s[4] for s in subs):
        build = lambda h: P.UserAttributePacket(h, [s[4]() for s in subs])
    return C.USER_ATTRIBUTE_PACKET_TYPE, raw, {'subpackets': same}, \
        P.UserAttributePacket, build


def attr_sub(d):
    data = d.blob(0, 17000, mean=60, edges=[0, 174, 175, 8366, 8367, 8368,
                                            16302, 16303])
    if d.draw(60) == 59:
        data = d.bytes(16) * (d.int(65000, 140000) // 16)
        d.label('large attribute subpacket')
    if d.bool(0.75):
        fmt = d.choice([1, 1, 0, 100, 101, 255])
        body = image_header(fmt) + data
        n = len(body) + 1
        form = d.weighted([(5, None), (1, 5), (1, 2)])
        if form == 2 and not 192 <= n < 16320:
            form = 5
        if form and ref.subpacket(1, body, lenform=form) != \
                ref.subpacket(1, body):
            d.label('attribute subpacket: longer length')
            return ref.subpacket(1, body, lenform=form), 1, fmt, data, None
        return ref.subpacket(1, body), 1, fmt, data, \
            lambda: U.ImageAttributeSubpacket(1, 16, fmt, data)
    t = d.int(2, 255)
    d.label('unknown attribute subpacket')
    return ref.new_length(len(data) + 1) + bytes([t]) + data, t, None, data, \
        None


def old_comment(d):
    s = utf8(d, 100)
    return C.OLD_COMMENT_PACKET_TYPE, s.encode('utf8'), {'comment': s}, \
        P.OldCommentPacket, lambda h: P.OldCommentPacket(h, s)


def gpg_comment(d):
    s = utf8(d, 100)
    return C.GPG_COMMENT_PACKET_TYPE, s.encode('utf8'), {'comment': s}, \
        P.GpgCommentPacket, lambda h: P.GpgCommentPacket(h, s)


def control(d):
    m, c, data = d.bytes(8), u8(d), d.blob(0, 100, mean=10)
    return C.GPG_CONTROL_PACKET_TYPE, m + bytes([c]) + data, \
        {'session_marker': m, 'control': c, 'content_data': data}, \
        P.GpgControlPacket, lambda h: P.GpgControlPacket(h, m, c, data)


def mdc(d):
    b = d.bytes(20)
    return C.MODIFICATION_DETECTION_CODE_PACKET_TYPE, b, {'data': b}, \
        P.ModificationDetectionCodePacket, \
        lambda h: P.ModificationDetectionCodePacket(h, b)


def other(d):
    t = d.choice([x for x in range(1, 64) if x not in P.PACKET_TYPES])
    body = big(d)
    return t, body, {}, P.Packet, \
        lambda h: P.Packet(h, t, bytearray(body))


KINDS = [pkesk, skesk, one_pass, compressed, encrypted, integrity, marker,
         literal, trust, trust_other, user_id, attr, old_comment, gpg_comment,
         control, mdc, other]


def gen(d):
    kind = d.choice(KINDS)
    tag, body, fields, cls, build = d.span(kind)
    d.label(kind.__name__)
    d.note('kind', kind.__name__)
    d.note('body', body)
    d.nontrivial()
    old = tag < 16 and d.bool()
    h = C.OLD_PACKET_HEADER_TYPE if old else C.NEW_PACKET_HEADER_TYPE
    whole = ref.packet('old' if old else 'new', tag, body)
    return tag, body, fields, cls, build, h, whole


def norm(v):
    return bytes(v) if isinstance(v, bytearray) else v


@suite.prop(quick=6000)
def parse(d):
    tag, body, fields, cls, build, h, whole = gen(d)
    end, p = P.packet_from_packet_data(whole, 0)
    eq(end, len(whole), 'octets consumed')
    check(isinstance(p, cls), 'class of parsed packet', type(p), cls)
    eq(p.type, tag, 'tag')
    eq(p.header_format, h, 'header format')
    for k, v in fields.items():
        got = getattr(p, k)
        if callable(v):
            v(got)
        else:
            eq(norm(got), norm(v), 'field ' + k)
            if not isinstance(v, (bytes, bytearray)):
                check(type(got) is type(v) or isinstance(got, int) and
                      isinstance(v, int), 'type of field ' + k, got, v)
    eq(bytes(p.content), body, 'content of parsed packet')
    eq(bytes(p), whole, 'parsed packet serialised')


@suite.prop(quick=6000)
def build(d):
    tag, body, fields, cls, make, h, whole = gen(d)
    if make is None:
        d.reject()
    p = make(h)
    eq(p.type, tag, 'tag')
    eq(bytes(p.content), body, 'content of built packet')
    eq(bytes(p), whole, 'built packet serialised')
    end, q = P.packet_from_packet_data(bytes(p), 0)
    for k, v in fields.items():
        got = getattr(q, k)
        if callable(v):
            v(got)
        else:
            eq(norm(got), norm(v), 'field %s of the packet read back' % k)


@suite.prop(quick=2500)
def equality(d):
    """Packets read from equal octets are equal; of a different body, not
    (for the kinds whose comparison looks at the body)."""
    tag, body, fields, cls, make, h, whole = gen(d)
    p = P.packet_from_packet_data(whole, 0)[1]
    q = P.packet_from_packet_data(bytes(bytearray(whole)), 0)[1]
    check(p == q, 'packets of equal octets differ', body)
    check(not p != q, 'packets of equal octets differ (!=)', body)


@suite.prop(quick=4000)
def differ(d):
    """Packets of one kind with different bodies are not equal."""
    kind = d.choice(KINDS)
    tag, body, fields, cls, make = kind(d)
    if d.bool():
        tag2, body2 = kind(d)[:2]
        d.label(kind.__name__ + ': another')
    else:
        # one octet is another one
        if not body:
            d.reject()
        tag2, body2 = tag, bytearray(body)
        body2[d.draw(len(body))] ^= 1 << d.draw(8)
        d.label(kind.__name__ + ': one octet')
    if tag != tag2 or bytes(body) == bytes(body2):
        d.reject()
    d.note('bodies', (body, body2))
    d.nontrivial()
    p = P.packet_from_packet_data(ref.packet('new', tag, body), 0)[1]
    try:
        q = P.packet_from_packet_data(ref.packet('new', tag,
                                                 bytes(body2)), 0)[1]
        same = bytes(p) == bytes(q)
    except Exception:
        d.reject()      # not well-formed any more
    if same:
        d.reject()      # the octet has no meaning
    check(not p == q, '%s packets of different bodies are equal' %
          kind.__name__)
    check(p != q, '%s packets of different bodies are equal (!=)' %
          kind.__name__)


@suite.prop(quick=1500)
def attribute_subpackets(d):
    """Attribute subpackets that are read and then changed are written with
    their new values; they are equal when their octets are."""
    def one():
        data = d.blob(0, 300, mean=20, edges=[0, 1, 174, 175, 190, 191])
        t = d.choice([1, 1, 1, 2, 100, 255])
        fmt = d.choice([1, 1, 0, 100, 255]) if t == 1 else None
        body = (image_header(fmt) if t == 1 else b'') + data
        return t, fmt, data, ref.subpacket(t, body) if t < 128 else \
            ref.new_length(len(body) + 1) + bytes([t]) + body
    (t, fmt, data, raw), (t2, fmt2, data2, raw2) = one(), one()
    if (t == 1) != (t2 == 1):
        d.reject()
    d.note('subpackets', (raw, raw2))
    d.nontrivial(raw != raw2)

    def read(x):
        pre = d.bytes(d.int(0, 3))
        sp, off = U.user_attribute_subpacket_from_data(
            bytearray(pre + x + b'xy'), len(pre))
        eq(off, len(pre) + len(x), 'octets consumed')
        return sp
    p, q, r = read(raw), read(raw2), read(raw)
    check(p == r and not p != r, 'subpackets of the same octets differ')
    if raw != raw2:
        check(p != q and not p == q, 'different subpackets are equal')
    p.sub_type, p.data = t2, bytearray(data2)
    if t == 1:
        p.image_format = fmt2
    eq(bytes(p), raw2, 'octets of the changed subpacket')
    check(p == q, 'changed subpacket')
    eq(bytes(r), raw, 'octets of another subpacket')


@suite.prop(quick=1500)
def rewrite_format(d):
    """The body does not depend on the header format it arrived in."""
    tag, body, fields, cls, make, h, whole = gen(d)
    if tag > 15:
        d.reject()
    p = P.packet_from_packet_data(ref.packet('new', tag, body), 0)[1]
    q = P.packet_from_packet_data(ref.packet('old', tag, body), 0)[1]
    eq(bytes(p.content), bytes(q.content), 'content')
    p.header_format = C.OLD_PACKET_HEADER_TYPE
    eq(bytes(p), ref.packet('old', tag, body), 'written in the old format')


@suite.prop(quick=600)
def sequence(d):
    """A sequence of packets of all kinds, read together."""
    items = d.list(1, 5, lambda d: gen(d), mean=3)
    data = b''.join(i[6] for i in items)
    from pgp.packets import parsers
    got = list(parsers.parse_binary_packet_data(data))
    eq([bytes(g) for g in got], [i[6] for i in items], 'sequence re-written')
    eq([type(g) for g in got], [i[3] for i in items], 'classes')
