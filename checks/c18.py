"""C18 Transferable keys: structure and serialisation"""
import base64
import gc
import struct

from vlib.engine import Suite, check, eq
from vlib import keys, ref, tkeys
from checks import c04, c05

from pgp import shortcuts, transferrable_keys as T
from pgp.packets import constants as C, parsers

suite = Suite('C18', 'Transferable public and secret keys from an independent '
              'writer: every key packet and signature packet form of C04 and '
              'C05, user IDs of any octets, user attributes with images and '
              'unknown subpackets, freely intermixed, subkeys with several '
              'bindings and revocations, both header formats, trust packets. '
              'Non-trivial: at least two elements with signatures.')

FMT = {'new': C.NEW_PACKET_HEADER_TYPE, 'old': C.OLD_PACKET_HEADER_TYPE}


def key_packet(d):
    if d.bool(0.5):
        # short numbers make short failures
        return 4, keys.SMALL[d.draw(len(keys.SMALL))].public_body(
            d.int(0, 2 ** 32 - 1))
    body, f = c05.public(d)
    return f['version'], body


def secret_tail(d):
    return c05.secret(d)[0]


def sig(d, sigtype):
    if d.draw(3):
        return tkeys.simple_sig(d, sigtype)
    return tkeys.with_type(c04.signature(d, 1)[0], sigtype)


def make(d, kind=None):
    kind = kind or d.choice(['public', 'secret'])
    els = tkeys.key(d, kind, key_packet, sig, secret_tail=secret_tail)
    d.label(kind)
    d.label('%d elements' % len(els))
    d.note('key', [(e.kind, len(e.sigs)) for e in els])
    d.nontrivial(sum(1 for e in els if e.sigs) > 1)
    return kind, els


def verify_element(o, e, key):
    eq(bytes(o.to_packet()), e.raw()[0], 'packet of ' + e.kind)
    eq([bytes(s.to_packet()) for s in o.signatures], e.raw()[1:],
       'signatures of ' + e.kind)
    for s in o.signatures:
        check(s.parent is o, 'the signature belongs to another element')
    if e.kind != 'key':
        check(o.primary_public_key is key,
              'the element belongs to another key')
    if e.kind in ('key', 'subkey'):
        if o.version >= 4:
            eq(o.fingerprint, ref.fingerprint_v4(e.public), 'fingerprint')
    elif e.kind == 'uid':
        eq(o.user_id, e.body.decode('utf8', 'surrogateescape'), 'user ID')
    else:
        subs = ref.read_subpackets(e.body)
        eq(len(o.content_items), len(subs), 'number of content items')
        for item, (t, high, data) in zip(o.content_items, subs):
            t |= high << 7
            # (content behind the header of an image, otherwise all of it)
            eq(bytes(item.data), data[16:] if t == 1 else data,
               'data of a content item')
            if t == 1 and data[3] == 1:
                eq(item.mime_type, 'image/jpeg', 'type of a JPEG image')


def verify(key, els):
    groups = {'key': [key], 'uid': key.user_ids, 'attr': key.user_attributes,
              'subkey': key.subkeys}
    for kind in sorted(groups):
        mine = [e for e in els if e.kind == kind]
        eq(len(groups[kind]), len(mine), 'number of %s elements' % kind)
        for o, e in zip(groups[kind], mine):
            verify_element(o, e, key)
    eq([bytes(p) for p in key.to_packets()], tkeys.raw(els), 'packets')
    for f in ('new', 'old'):
        eq([bytes(p) for p in key.to_packets(FMT[f])], tkeys.raw(els, f),
           'packets in the %s format' % f)


CLASS = {'public': T.TransferablePublicKey, 'secret': T.TransferableSecretKey}


def armor_of(data, kind):
    what = {'public': 'PUBLIC', 'secret': 'PRIVATE'}[kind]
    b = base64.b64encode(data).decode()
    return '-----BEGIN PGP %s KEY BLOCK-----\n\n%s\n=%s\n' \
        '-----END PGP %s KEY BLOCK-----\n' % (
            what, '\n'.join(b[i:i + 64] for i in range(0, len(b), 64)),
            base64.b64encode(struct.pack('>I', ref.crc24(data))[1:]).decode(),
            what)


@suite.prop(quick=2500, thorough=40000)
def structure(d):
    """structure: every packet is attached to its element, and comes back"""
    kind, els = make(d)
    raws = tkeys.raw(els)
    data = b''.join(raws)
    way = d.choice(['packets', 'binary', 'armor text', 'armor octets'])
    d.label('read from ' + way)
    if way == 'packets':
        key = CLASS[kind].from_packets(
            parsers.parse_binary_packet_data(bytearray(data)))
    elif way == 'binary':
        key = shortcuts.read_key(data)
    else:
        a = armor_of(data, kind)
        key = shortcuts.read_key(
            a if way == 'armor text' else a.encode(),
            d.choice([True, False]))
    check(type(key) is CLASS[kind], 'class of the key', type(key))
    verify(key, els)


@suite.prop(quick=1000, thorough=15000)
def serialised(d):
    """serialised: shortcuts write the key, armored or not, and read it"""
    kind, els = make(d)
    key = CLASS[kind].from_packets(
        parsers.parse_binary_packet_data(bytearray(b''.join(tkeys.raw(els)))))
    f = d.choice([None, 'new', 'old'])
    expected = b''.join(tkeys.raw(els, f or 'old'))
    armored = d.bool()
    out = shortcuts.serialize_key(key, armored, FMT[f] if f else None)
    if armored:
        lines = out.strip().split('\n')
        what = 'PGP %s KEY BLOCK-----' % {'public': 'PUBLIC',
                                          'secret': 'PRIVATE'}[kind]
        eq(lines[0].strip(), '-----BEGIN ' + what, 'first line')
        eq(lines[-1].strip(), '-----END ' + what, 'last line')
        i = [x.strip() for x in lines].index('')
        eq(base64.b64decode(''.join(x.strip() for x in lines[i + 1:-2])),
           expected, 'armored data')
    else:
        eq(bytes(out), expected, 'data')
    again = shortcuts.read_key(out, armored)
    eq([bytes(p) for p in again.to_packets()],
       tkeys.raw(els, f or 'old'), 'packets read back')


@suite.prop(quick=1500, thorough=25000)
def publication(d):
    """publication: the public key of a secret key is all of it but the
    secrets"""
    kind, els = make(d, 'secret')
    key = CLASS[kind].from_packets(
        parsers.parse_binary_packet_data(bytearray(b''.join(tkeys.raw(els)))))
    pub = key.to_public_key()
    check(type(pub) is T.TransferablePublicKey, 'class', type(pub))
    expected = tkeys.public_raw(els)
    eq([bytes(p) for p in pub.to_packets()], expected, 'public packets')
    if d.bool():
        # The secret key may be gone or changed
        key.user_ids[:] = []
        key.user_attributes[:] = []
        key.signatures[:] = []
        for e in key.subkeys:
            e.signatures[:] = []
        key.subkeys[:] = []
        del key
        key = None
        gc.collect(0)
        d.label('secret key gone')
        eq([bytes(p) for p in pub.to_packets()], expected,
           'public packets without the secret key')
    else:
        verify(key, els)
    if d.bool(0.3):
        d.label('public key changed')
        for o in [pub] + pub.user_ids + pub.user_attributes + pub.subkeys:
            for s in o.signatures:
                if s.version >= 4:
                    s.signer_user_id = 'Somebody else'
                    s.revocable = False
                s.signature_type = 0x13
                s.hash2 = bytearray(b'!!')
            for item in getattr(o, 'content_items', ()):
                item.data = bytearray(item.data) + b'!'
            del o.signatures[1:]
        for u in pub.user_ids:
            u.user_id = 'Somebody else'
        for l in (pub.user_ids, pub.user_attributes, pub.subkeys):
            l.reverse()
        if key is not None:
            verify(key, els)
        return
    for o, e in zip(pub.user_ids + pub.user_attributes + pub.subkeys,
                    [x for k in ('uid', 'attr', 'subkey')
                     for x in els if x.kind == k]):
        check(o.primary_public_key is pub, 'element of another key')
        for s in o.signatures:
            check(s.parent is o, 'signature of another element')
        data = keys.key_data(els[0].public)
        if e.kind == 'uid':
            data += keys.uid_data(e.body)
        elif e.kind == 'attr':
            data += keys.attr_data(e.body)
        else:
            data += keys.key_data(e.public)
        eq(bytes(o.to_signable_data(0x13, 4)), data, 'data to sign')
    no_secrets(pub)


def no_secrets(pub):
    for o in [pub] + pub.subkeys:
        for s in ['exponent_d', 'exponent_x', 'prime_q',
                  'multiplicative_inverse_u', 'encrypted_portion'] + (
                      ['prime_p'] if o.public_key_algorithm in (1, 2, 3)
                      else []):
            check(not getattr(o, s, None), 'public key with a ' + s)


@suite.prop(quick=600, thorough=8000)
def content(d):
    """content: a picture that is changed or added is written as a picture"""
    pub = keys.SMALL[d.draw(len(keys.SMALL))].public_body()
    e = tkeys.Element('key', 6, pub, 'old', pub)
    e.version = 4
    a = tkeys.Element('attr', 17, tkeys.attr_body(d), 'new')
    key = CLASS['public'].from_packets(parsers.parse_binary_packet_data(
        bytearray(b''.join(tkeys.raw([e, a])))))
    subs = ref.read_subpackets(a.body)
    items = key.user_attributes[0].content_items
    images = [i for i, (t, high, data) in enumerate(subs)
              if t == 1 and not high and data[3] == 1]
    data = d.bytes(d.choice([0, 1, 50, 300, 9000]))
    n = d.draw(len(images) + 1)
    if n < len(images):
        d.label('changed')
        i = images[n]
        items[i].data = data
    else:
        d.label('added')
        i = d.draw(len(items) + 1)
        items.insert(i, T.UserAttributeContentItem('image/jpeg', data))
        subs.insert(i, None)
    d.nontrivial(len(subs) > 1 and data)
    subs[i] = (1, False, b'\x10\0\1\1' + b'\0' * 12 + data)
    got = bytes(key.user_attributes[0].to_packet())
    check(got[0] == 0xd1, 'a user attribute packet')
    got = ref.read_packets(got)[0][2]
    eq(ref.read_subpackets(bytes(got)), subs, 'subpackets')


@suite.prop(quick=800, thorough=10000)
def unlocked(d):
    """unlocked: an unlocked key writes the same packets, and its public key
    has no secret number"""
    version = d.weighted([(3, 4), (1, 3), (1, 2)])

    def packet(d):
        k = keys.SMALL[d.draw(len(keys.SMALL))]
        v = version
        while v < 4 and k.kind != 'rsa':
            k = keys.SMALL[d.draw(len(keys.SMALL))]
        d.ks.append(k)
        return v, k.public_body(d.int(0, 2 ** 32 - 1), version=v)

    d.ks = []
    d.label('version %d' % version)
    prot = keys.protections(d, version)

    def tail(d):
        return prot.header() + prot.protect(d.ks[-1].secret_numbers(), b'pw',
                                            version)
    els = tkeys.key(d, 'secret', packet, secret_tail=tail)
    d.nontrivial(len(els) > 1)
    key = CLASS['secret'].from_packets(
        parsers.parse_binary_packet_data(bytearray(b''.join(tkeys.raw(els)))))
    key.unlock('pw')
    verify(key, els)
    pub = key.to_public_key()
    no_secrets(pub)
    blob = b''.join(bytes(p) for p in pub.to_packets())
    eq(blob, b''.join(tkeys.public_raw(els)), 'public packets')
    for k in d.ks:
        for n in k.secret_numbers():
            check(keys.i2b(n) not in blob, 'a secret number is in the public '
                  'key')
    key.lock()
    verify(key, els)


@suite.prop(quick=600, thorough=10000)
def trust(d):
    """trust: trust packets behind any packet do not hide anything"""
    kind, els = make(d)
    raws = []
    n = 0
    for e in els:
        for i, p in enumerate(e.raw()):
            raws.append(p)
            for _ in range(d.weighted([(5, 0), (5, 1), (1, 2), (1, 3)])):
                n += 1
                raws.append(ref.packet(d.choice(['new', 'old']), 12,
                                       d.bytes(d.choice([1, 2, 6]))))
    d.nontrivial(n)
    key = CLASS[kind].from_packets(
        parsers.parse_binary_packet_data(bytearray(b''.join(raws))))
    verify(key, els)
