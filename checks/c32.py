"""C32 The octets a signature covers"""
import struct
import warnings

from vlib.engine import Suite, check, eq
from vlib import keys, objects, ref, tkeys
from vlib.clock import ZONES, Zone
from checks import c04, c05
from checks.c16 import canonical

from pgp import message, signature as S, transferrable_keys as T, utils
from pgp.packets import parsers

warnings.simplefilter('ignore')

suite = Suite('C32', 'Documents of any octets, keys and subkeys of every '
              'version and algorithm, public and secret, user IDs and '
              'attributes of any octets and signatures of any version and '
              'subpackets, each as what a signature of version 3 or 4 and '
              'any type covers. Oracle: our own assembly of these octets '
              'from the serialised packets. Non-trivial: every case.')


def trailer(body):
    """of a signature packet body"""
    if body[0] < 4:
        return body[2:7]
    n, = struct.unpack('>H', body[4:6])
    return body[:6 + n] + b'\x04\xff' + struct.pack('>I', 6 + n)


def confirmed(body):
    """a signature that is covered by another"""
    if body[0] >= 4:
        n, = struct.unpack('>H', body[4:6])
        m, = struct.unpack('>H', body[6 + n:8 + n])
        body = body[:6 + n] + b'\0\0' + body[8 + n + m:]
    return b'\x88' + struct.pack('>I', len(body)) + body


def one_packet(d, tag, body):
    p, = parsers.parse_binary_packet_data(bytearray(ref.packet(
        'new' if tag > 15 else d.choice(['new', 'old']), tag, body)))
    return p


@suite.prop(quick=3000, thorough=50000)
def trailers(d):
    """trailers: what a signature adds of itself, and what another signature
    of it covers"""
    body = bytes(c04.signature(d)[0])
    d.nontrivial()
    want = trailer(body)
    p = one_packet(d, 2, body)
    eq(bytes(p.get_signature_hash_trailer()), want, 'trailer of the packet')
    sv = d.choice([3, 4])
    eq(bytes(p.get_content_for_signature_hash(sv)), confirmed(body),
       'content of the packet')
    eq(bytes(p.content), body, 'the packet')
    with Zone(d.choice(ZONES)):
        sig = S.BaseSignature.from_packet(p, b'')
        eq(bytes(sig.to_signable_data(body[2 if body[0] < 4 else 1], sv)),
           want, 'trailer of the signature')
        eq(bytes(utils.get_signable_data(sig, 0x50, sv)), confirmed(body),
           'content of the signature')
        eq(bytes(sig.to_packet().content), body, 'the signature')
    h = d.choice(sorted(ref.HASH))
    t = d.choice([0x40, 0x50])
    tail = keys.trailer_v4(t, 1, h, b'abc') if sv == 4 else \
        keys.trailer_v3(t, 5)
    ours = ref.new_hash(h)
    ours.update(confirmed(body) + tail)
    eq(utils.hash_packet_for_signature(
        p, t, sv, h, 5, 1, None, bytearray(b'abc')).digest(),
       ours.digest(), 'digest of a confirmation')


DOCUMENT = (0, 1)
ELEMENT = {'key': (0x1f, 0x20), 'subkey': (0x18, 0x19, 0x28),
           'uid': (0x10, 0x11, 0x12, 0x13, 0x30),
           'attr': (0x10, 0x11, 0x12, 0x13, 0x30)}


def element_data(els, e, sv):
    data = keys.key_data(els[0].public)
    if e.kind == 'uid':
        data += keys.uid_data(e.body, sv)
    elif e.kind == 'attr':
        data += keys.attr_data(e.body, sv)
    elif e.kind == 'subkey':
        data += keys.key_data(e.public)
    return data


@suite.prop(quick=2500, thorough=40000)
def elements(d):
    """elements: keys and their parts"""
    kind = d.choice(['public', 'secret'])

    def packet(d):
        while 1:
            body, f = c05.public(d)
            if len(body) < 65536:
                return f['version'], body
    els = tkeys.key(d, kind, packet, sizes=(0, 2, 2, 2),
                    secret_tail=lambda d: c05.secret(d)[0])
    d.nontrivial()
    key = (T.TransferablePublicKey if kind == 'public' else
           T.TransferableSecretKey).from_packets(objects.packets_of(
               b''.join(tkeys.raw(els))))
    lists = {'key': [key], 'uid': list(key.user_ids),
             'attr': list(key.user_attributes), 'subkey': list(key.subkeys)}
    pub = one_packet(d, 6, els[0].public)
    for e in els:
        o = lists[e.kind].pop(0)
        sv = d.choice([2, 3, 4])
        t = d.choice(ELEMENT[e.kind])
        want = element_data(els, e, sv)
        d.label('%s, signature version %d' % (e.kind, sv))
        d.note('element', (e.kind, sv, hex(t)))
        eq(bytes(o.to_signable_data(t, sv)), want, 'signed octets of the '
           + e.kind)
        eq(bytes(utils.get_signable_data(o, t, sv)), want,
           'signed octets of the ' + e.kind)
        if e.kind in ('uid', 'attr'):
            f = keys.uid_data if e.kind == 'uid' else keys.attr_data
            p = o.to_packet()
            eq(bytes(p.get_content_for_signature_hash(sv)), f(e.body, sv),
               'content of the packet')
        else:
            p = one_packet(d, 14 if e.kind == 'subkey' else 6, e.public)
        # in one go with the hash
        h, pk, ct = d.choice(sorted(ref.HASH)), d.draw(256), c04.u32(d)
        hashed = d.blob(0, 70000, 30, edges=[0, 255, 256, 65535])[:65535]
        if sv >= 4:
            tail = keys.trailer_v4(t, pk, h, hashed)
        else:
            tail = keys.trailer_v3(t, ct)
        ours = ref.new_hash(h)
        ours.update(want + tail)
        eq(utils.hash_packet_for_signature(
            p, t, sv, h, ct, pk, pub, bytearray(hashed)).digest(),
           ours.digest(), 'digest')
        # of nothing but itself
        tail = keys.trailer_v4(2, pk, h, hashed) if sv >= 4 else \
            keys.trailer_v3(2, ct)
        ours = ref.new_hash(h)
        ours.update(tail)
        eq(utils.hash_packet_for_signature(
            p, 2, sv, h, ct, pk, d.choice([None, pub]),
            bytearray(hashed)).digest(), ours.digest(),
           'digest of a standalone signature')


@suite.prop(quick=150, thorough=3000)
def large(d):
    """large: user IDs and attributes of more than 65535 octets"""
    n = d.int(65500, 70000) if d.draw(3) else d.int(200000, 200100)
    key = objects.public(d.choice(keys.SMALL))
    pub = keys.key_data(bytes(key.to_packet().content))
    sv = d.choice([3, 4])
    t = d.choice(ELEMENT['uid'])
    d.note('size, version', (n, sv))
    d.nontrivial()
    seed = d.bytes(7)
    fill = (seed * (n // 7 + 1))[:n]
    if d.bool():
        body = bytes(65 + x % 26 for x in fill)
        o = T.UserID(key, body.decode('ascii'), [])
        want = keys.uid_data(body, sv)
        p = one_packet(d, 13, body)
    else:
        body = ref.subpacket(1, b'\x10\0\1\1' + b'\0' * 12 + fill)
        p = one_packet(d, 17, body)
        o = T.UserAttribute.from_packet(key, p)
        want = keys.attr_data(body, sv)
    d.label(o.__class__.__name__)
    eq(bytes(o.to_signable_data(t, sv)), pub + want, 'signed octets')
    eq(bytes(p.get_content_for_signature_hash(sv)), want,
       'content of the packet')
    h = d.choice(sorted(ref.HASH))
    tail = keys.trailer_v4(t, 1, h, b'abc') if sv == 4 else \
        keys.trailer_v3(t, 5)
    ours = ref.new_hash(h)
    ours.update(pub + want + tail)
    eq(utils.hash_packet_for_signature(
        p, t, sv, h, 5, 1, key.to_packet(), bytearray(b'abc')).digest(),
       ours.digest(), 'digest')


@suite.prop(quick=3000, thorough=50000)
def documents(d):
    """documents: text, octets, messages and what is wrapped around them"""
    text = d.bool()
    if text:
        s = ''.join(d.choice(['a', 'Z', ' ', '\n', '\r\n', '\r', '\t', '-',
                              '\u00e9', '\u2028', '\x85', '\x0b', '\0',
                              '\U0001f600']) for _ in range(d.size(0, 60, 12)))
        b = s.encode('utf8')
    else:
        b = d.draw(4) and d.blob(0, 20000, mean=60) or b''.join(
            d.choice([b'\r', b'\n', b'a', b' ', b'\x85', b'\xe2\x80\xa8',
                      b'\0']) for _ in range(d.size(0, 40, 10)))
    t = d.choice(DOCUMENT)
    sv = d.choice([2, 3, 4])
    d.note('content', b)
    d.note('type, version', (t, sv))
    d.nontrivial()
    want = canonical(b) if t == 1 else b
    plain = s if text else d.choice([bytes, bytearray])(b)
    eq(bytes(utils.get_signable_data(plain, t, sv)), want, 'document')
    from checks.c10 import T0
    m = message.TextMessage(s, 'f', T0) if text else message.BinaryMessage(
        bytearray(b), 'f', T0)
    for _ in range(d.draw(4)):
        k = d.draw(2)
        d.label('wrapped')
        if k:
            m = m.compress(d.draw(4), d.int(1, 9))
        else:
            m = message.SignedMessageWrapper([], m, d.bool())
    eq(bytes(utils.get_signable_data(m, t, sv)), want, 'message')
    eq(bytes(m.to_signable_data(t, sv)), want, 'message')
