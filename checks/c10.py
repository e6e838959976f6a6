"""C10 Signatures verify here and elsewhere"""
import base64
import datetime
import struct
import warnings

from vlib.engine import Suite, check, eq, Violation
from vlib import gpg, keys, objects, ref
from checks.c16 import canonical

from pgp import armor, message, shortcuts, signature as S
from pgp import transferrable_keys as T
from pgp.packets import packets as P, signature_subpackets as SP

warnings.simplefilter('ignore')

suite = Suite('C10', 'Every signing algorithm (RSA 768..2048 bits, DSA, '
              'ElGamal), hash, signature version and type, on messages of '
              'random content and nesting, text, octets, keys, user IDs, '
              'attributes, subkeys and signatures. Oracles: an independent '
              'signer/verifier (vlib.keys), gpgv and gpg. Non-trivial: every '
              'case signs something.')

SIGNERS = [k for k in keys.POOL if k.bits <= 1100]
T0 = datetime.datetime(2014, 5, 1, 12, 34, 56)


def signer(d, pool=SIGNERS):
    """-> K, algorithm, hash, signature version"""
    # (computing with large ElGamal keys is slow)
    k = d.choice([x for x in pool if x.kind != 'elg' or d.draw(3) == 0]
                 or pool)
    alg = d.choice(objects.SIGNING_ALGS[k.kind])
    hs = objects.hashes(k)
    if not hs:
        d.reject()
    h, sv = d.choice(hs), d.weighted([(3, 4), (1, 3)])
    d.label('%s, signature version %d' % (k.kind, sv))
    d.label('hash %d' % h)
    d.note('signer', (k, alg, h, sv))
    d.nontrivial()
    return k, alg, h, sv


def content(d):
    """-> octets, text or None"""
    if d.bool():
        s = ''.join(d.choice(['a', 'Z', ' ', '\n', '\r\n', '\r', '\t', '-',
                              '\u00e9', '\u20ac', '\U0001f600', '\0',
                              'From ', '.']) for _ in range(d.size(0, 60, 12)))
        return s.encode('utf8'), s
    b = d.blob(0, 20000, mean=60, edges=[0, 191, 192, 8383, 8384])
    return b, None


def extra(d):
    """hashed subpackets of the caller"""
    out = []
    for _ in range(d.size(0, 3, 1)):
        k = d.draw(6)
        if k == 0:
            out.append(SP.PolicyURISubpacket(d.bool(), 'http://x/' + d.text(
                0, 9, 'ab\u00e9')))
        elif k == 1:
            out.append(SP.KeyFlagsSubpacket(False, *[d.bool()
                                                     for _ in range(7)]))
        elif k == 2:
            out.append(SP.SignatureSubpacket(
                100 + d.draw(10), False,
                d.blob(0, 9000, 30, edges=[190, 191, 8382, 8383])))
        elif k == 3:
            out.append(SP.ExpirationSecondsSubpacket(False, d.int(0, 10 ** 9)))
        elif k == 4:
            text = d.bool()
            out.append(SP.NotationSubpacket(
                critical=d.bool(), name='n\u00e9', namespace='x.org',
                human_readable=text,
                value=d.text(0, 8) if text else bytearray(d.blob(0, 60, 8))))
        else:
            out.append(SP.PreferredHashAlgorithmsSubpacket(
                False, [d.draw(20) for _ in range(d.int(0, 4))]))
    return out


def message_of(b, s):
    if s is not None:
        return message.TextMessage(s, 'f', T0)
    return message.BinaryMessage(bytearray(b), 'f', T0)


def expect_good(k, sig, data, what):
    check(keys.verify_sig(k, bytes(sig.to_packet().content), data),
          'an independent verifier refuses ' + what)


def fields(sig, k, alg, h, sv, sigtype, key_id):
    eq((sig.version, sig.public_key_algorithm, sig.hash_algorithm,
        sig.signature_type), (sv, alg, h, sigtype), 'header of the signature')
    eq(sig.issuer_key_ids, [key_id], 'issuers')
    now = datetime.datetime.now().timestamp()
    check(abs(sig.creation_time.timestamp() - now) < 100, 'creation time',
          sig.creation_time)


@suite.prop(quick=1500, thorough=30000)
def documents(d):
    """documents: text, octets and messages"""
    k, alg, h, sv = signer(d)
    version = 3 if k.kind == 'rsa' and d.draw(5) == 0 else 4
    b, s = content(d)
    sigtype = d.choice([0, 1, 0, 1, 2])
    if sigtype == 2:
        b, s = b'', None
    d.note('type', sigtype)
    d.note('content', s if s is not None else b)
    key = objects.secret(k, alg, version)
    pub = objects.public(k, alg, version)
    kind = d.choice(['message', 'plain', 'compressed'])
    if kind == 'plain' or sigtype == 2:
        item = s if s is not None else bytes(b)
    else:
        item = message_of(b, s)
        if kind == 'compressed':
            item = item.compress(d.draw(4), d.int(1, 9))
    d.label('%s type %d' % (kind, sigtype))
    more = extra(d) if sv == 4 else []
    copies = list(more)
    sig = key.sign(item, sv, sigtype, h, more or None)
    eq(more, copies, 'the list of the caller')
    fields(sig, k, alg, h, sv, sigtype, pub.key_id)
    data = canonical(b) if sigtype == 1 else b
    expect_good(k, sig, data, 'the signature')
    check(pub.verify(sig, item) is True, 'verify', 'not True')
    check(key.verify(sig, item) is True, 'verify', 'not True')
    # detached
    raw = bytes(sig.to_packet())
    if d.bool():
        raw = objects.packets_of(raw)[0]
        parsed = S.BaseSignature.from_packet(raw, None)
        check(pub.verify(parsed, item) is True, 'verify', 'not True')
        if more:
            got = [bytes(x) for x in parsed.hashed_subpackets]
            eq(got[-len(more):], [bytes(x) for x in more],
               'hashed subpackets of the caller')


def reread(d, m):
    """serialise and parse"""
    data = b''.join(map(bytes, m.to_packets()))
    way = d.draw(3)
    if way == 0:
        return shortcuts.read_message(data)
    text = str(armor.ASCIIArmor(armor.PGP_MESSAGE, data))
    if way == 1:
        return shortcuts.read_message(text.encode('ascii'))
    return shortcuts.read_message(text, armored=True)


@suite.prop(quick=1000, thorough=20000)
def messages(d):
    """messages: signed once or more, nested, compressed, armored, parsed"""
    b, s = content(d)
    m = message_of(b, s)
    d.note('content', s if s is not None else b)
    layers, was_one_pass = [], False
    for _ in range(d.int(1, 3)):
        if d.draw(3) == 0:
            m = m.compress(d.draw(4), d.int(1, 9))
            layers.append('compressed')
            continue
        n = d.weighted([(3, 1), (1, 2), (1, 3)])
        one_pass = d.bool()
        if n == 1:
            k, alg, h, sv = signer(d)
            t = d.choice([0, 1])
            m = m.sign(objects.secret(k, alg), sv, t, h, one_pass)
            made = [(k, alg, t)]
        else:
            sigs, made = [], []
            for _ in range(n):
                k, alg, h, sv = signer(d)
                t = d.choice([0, 1])
                sigs.append(objects.secret(k, alg).sign(m, sv, t, h))
                made.append((k, alg, t))
            m = message.SignedMessageWrapper(sigs, m, one_pass)
        if one_pass or layers[-1:] == ['compressed'] or not layers or \
                was_one_pass:
            layers.append(made)
        else:
            # without one-pass packets there is no telling them apart
            layers[-1] = made + layers[-1]
        was_one_pass = one_pass
    d.note('layers', layers)
    d.nontrivial(any(x != 'compressed' for x in layers))
    again = reread(d, m)
    for layer in reversed(layers):
        if layer == 'compressed':
            again = again.get_message()
            continue
        inner = again.get_message()
        eq(len(again.signatures), len(layer), 'number of signatures')
        for sig, (k, alg, t) in zip(again.signatures, layer):
            pub = objects.public(k, alg)
            eq(sig.signature_type, t, 'type')
            expect_good(k, sig, canonical(b) if t == 1 else b,
                        'a signature of the message')
            check(pub.verify(sig, inner) is True, 'verify', 'not True')
            check(pub.verify(sig, sig.parent) is True, 'verify of the target',
                  'not True')
        again = inner
    eq(again.data if s is not None else bytes(again.data),
       s if s is not None else b, 'content')


@suite.prop(quick=200, thorough=3000)
def defaults(d):
    """defaults: a message signed without naming a hash uses the first one
    the key prefers, and verifies"""
    k, alg, h, sv = signer(d)
    allowed = objects.hashes(k)
    now = 1400000100
    pub = k.public_body(objects.CT, alg)
    kid = keys.key_id_of(pub)
    out = ref.new_packet(5, objects.secret_body(k, alg))
    made = []
    used = set()
    for _ in range(d.int(0, 3)):
        t = now + d.int(0, 1000)
        if t in used:
            continue
        used.add(t)
        prefs = [d.choice(allowed) for _ in range(d.int(1, 4))] \
            if d.bool(0.8) else []
        own = d.bool(0.8)
        sub = keys.created(t) + keys.issuer(kid if own else d.bytes(8))
        if prefs or d.bool():
            sub += ref.subpacket(21, bytes(prefs))
        if own:
            made.append((t, prefs))
        out += ref.new_packet(2, ref.sig_v4(0x1f, alg, 8, sub, b'',
                                            d.bytes(2), [5]))
    out += ref.new_packet(13, b'A <a@b.c>')
    key = objects.load_secret(out)
    key.unlock('')
    prefs = max(made)[1] if made else []
    d.note('preferences', made)
    d.label('%s preferences' % ('some' if prefs else 'no'))
    b, s = content(d)
    d.note('content', s if s is not None else b)
    m = message_of(b, s)
    args = {}
    if d.bool():
        args['signature_type'] = t = d.choice([0, 1])
    else:
        t = 0
    if d.bool():
        args['one_pass'] = d.bool()
    if d.bool():
        args['signature_version'] = sv
    signed = reread(d, m.sign(key, **args))
    sig, = signed.signatures
    if prefs:
        eq(sig.hash_algorithm, prefs[0], 'hash algorithm')
    eq(sig.signature_type, t, 'type')
    eq(sig.version, args.get('signature_version', 4), 'version')
    expect_good(k, sig, canonical(b) if t == 1 else b, 'the signature')
    check(objects.public(k, alg).verify(sig, signed.get_message()) is True,
          'verify', 'not True')


def full(d, version=4):
    k = d.choice([x for x in SIGNERS if x.kind != 'elg' and
                  (version == 4 or x.kind == 'rsa')])
    sub = d.choice([x for x in SIGNERS if x.kind != 'elg'])
    uid = d.text(0, 20).encode('utf8', 'surrogatepass') if d.bool() else \
        d.bytes(d.draw(12))
    attr = ref.subpacket(1, b'\x10\0\1' + bytes([d.choice([1, 100])]) +
                         b'\0' * 12 + d.blob(0, 400, 20),
                         lenform=d.choice([None, None, 5])) + (
        ref.subpacket(d.int(2, 100), d.bytes(4)) if d.bool() else b'')
    f = objects.FullKey(k, sub, d.choice(objects.SIGNING_ALGS[k.kind]),
                        d.int(10 ** 9, 2 ** 32 - 9), uid, attr, version,
                        d.choice(objects.SIGNING_ALGS[sub.kind]))
    d.note('key', (k, sub, uid, attr))
    return f


@suite.prop(quick=1200, thorough=25000)
def elements(d):
    """elements: keys, user IDs, attributes and subkeys, by the owner, others
    and subkeys"""
    f = full(d, d.weighted([(5, 4), (1, 3)]))
    kinds = ['key', 'uid', 'attr'] + ['subkey'] * (f.obj.version > 3)
    kind = d.choice(kinds)
    sigtype = d.choice(objects.TYPES[kind])
    k, alg, h, sv = signer(d)
    key = objects.secret(k, alg)
    who = d.choice(['owner', 'other', 'subkey'] if f.obj.version > 3
                   else ['owner', 'other'])
    if who != 'other':
        key = f.obj if who == 'owner' else f.obj.subkeys[0]
        k = f.k if who == 'owner' else f.sub
        alg = key.public_key_algorithm
        h = d.choice(objects.hashes(k))
    d.label('%s %02x by %s' % (kind, sigtype, who))
    d.note('signature', (kind, sigtype, who, k, h, sv))
    public = f.obj.to_public_key()
    obj = f.obj if d.bool() else public
    element = f.element(kind, obj)
    data = f.data(kind) if sv == 4 else f.data_v3(kind)
    sig = key.sign(element, sv, sigtype, h)
    check(isinstance(sig, T.KeySignature), 'class of the signature')
    fields(sig, k, alg, h, sv, sigtype, key.key_id)
    expect_good(k, sig, data, 'the signature')
    pub = key.to_public_key()
    check(pub.verify(sig, element) is True, 'verify', 'not True')
    eq(sig.is_self_signature(), who != 'other', 'is_self_signature')
    # in the whole key, written and read again
    element.signatures.insert(0, sig)
    if sigtype != 0x19:
        if kind == 'subkey' and sigtype == 0x28:
            element.signatures.append(element.signatures.pop(0))
        key2 = shortcuts.read_key(shortcuts.serialize_key(obj, d.bool()))
        e2 = f.element(kind, key2)
        sig2 = e2.signatures[-1 if sigtype == 0x28 else 0]
        check(pub.verify(sig2, e2) is True, 'verify after reading',
              'not True')
        check(pub.verify(sig2, sig2.parent) is True, 'verify after reading',
              'not True')
        eq(sig2.is_self_signature(), who != 'other', 'is_self_signature')


def big_body(d, ctime, version=4):
    """the public part of a key with numbers of unusual sizes (never used,
    only signed)"""
    def number(bits):
        return (1 << (bits - 1)) | d.draw(1 << 62) << (bits // 2) | \
            d.draw(1 << 32) | 1

    def bits():
        return d.weighted([
            (3, lambda: d.choice([1, 8, 160, 512, 1024])),
            (3, lambda: d.int(8000, 8400)), (3, lambda: d.int(15000, 17000)),
            (1, lambda: d.int(2, 20000)), (1, lambda: 32000)])()
    alg = d.choice([1, 1, 16, 17] if version == 4 else [1])
    numbers = [number(bits()) for _ in range({1: 2, 16: 3, 17: 4}[alg])]
    if alg == 1 and d.bool(0.2):
        # as long as numbers can be
        numbers = [number(65535 - d.draw(3)), number(d.choice([2, 65535]))]
    out = bytes([version]) + struct.pack('>I', ctime)
    if version < 4:
        out += struct.pack('>H', d.draw(1000))
    return out + bytes([alg]) + b''.join(ref.mpi(n) for n in numbers)


@suite.prop(quick=400, thorough=8000)
def big(d):
    """big: long keys and attributes are certified as a whole"""
    version = d.weighted([(5, 4), (1, 3)])
    pub = big_body(d, d.int(10 ** 9, 2 ** 32 - 9), version)
    sub_pub = big_body(d, d.int(10 ** 9, 2 ** 32 - 9))
    uid = d.blob(0, 70000, 30, edges=[191, 192, 255, 256, 8383, 65535, 65536])
    if len(uid) > 300:
        # (surrogate escapes take long)
        uid = bytes(c & 0x7f for c in uid)
    attr = ref.subpacket(1, b'\x10\0\1' + bytes([d.choice([1, 100])]) +
                         b'\0' * 12 + d.blob(0, 70000, 2000, edges=[
                             16319 - 17, 16320 - 17, 65535, 65536]))
    packets = [ref.new_packet(6, pub), ref.new_packet(13, uid),
               ref.new_packet(17, attr)]
    if version > 3:
        packets += [ref.new_packet(14, sub_pub), ref.new_packet(
            2, ref.sig_v4(0x18, 1, 2, b'', b'', b'\0\0', [1]))]
    target = objects.load_public(b''.join(packets))
    kind = d.choice(['key', 'uid', 'attr'] + ['subkey'] * (version > 3))
    element = {'key': [target], 'uid': target.user_ids,
               'attr': target.user_attributes,
               'subkey': target.subkeys}[kind][0]
    sigtype = d.choice(objects.TYPES[kind])
    k, alg, h, sv = signer(d)
    data = keys.key_data(pub)
    if kind == 'uid':
        data += keys.uid_data(uid, sv)
    elif kind == 'attr':
        data += keys.attr_data(attr, sv)
    elif kind == 'subkey':
        data += keys.key_data(sub_pub)
    size = len(data)
    d.label('%s of %s octets' % (kind, '> 64 K' if size >> 16 else
                                 '> 8 K' if size >> 13 else
                                 '> 2 K' if size >> 11 else 'few'))
    d.note('target', (kind, version, [(x.bit_length()) for x in
                                      (keys.b2i(pub), keys.b2i(sub_pub))],
                      len(uid), len(attr)))
    d.nontrivial(size > 2048)
    sig = objects.secret(k, alg).sign(element, sv, sigtype, h)
    expect_good(k, sig, data, 'the signature')
    check(objects.public(k, alg).verify(sig, element) is True, 'verify',
          'not True')


@suite.prop(quick=300, thorough=5000)
def confirmations(d):
    """confirmations: signatures over signatures"""
    k, alg, h, sv = signer(d)
    k2, alg2, h2, sv2 = signer(d)
    data = d.bytes(5)
    if d.bool():
        inner = objects.secret(k2, alg2).sign(data, sv2, 0, h2)
    else:
        # with subpackets in both areas
        kid = bytes.fromhex(objects.public(k2, alg2).key_id)
        if sv2 == 4:
            areas = [b''.join(ref.subpacket(100 + d.draw(9), d.blob(
                0, 9000, 12, edges=[190, 191, 8382, 8383]), d.bool())
                for _ in range(d.draw(4))) for _ in range(2)]
            inner = keys.signature_v4(
                k2, 0, data, h2, keys.created(d.int(0, 2 ** 32 - 1)) +
                areas[0], keys.issuer(kid) + areas[1], alg2)
        else:
            inner = keys.signature_v3(k2, 0, data, kid, d.int(
                0, 2 ** 32 - 1), h2, alg2)
        inner = S.BaseSignature.from_packet(objects.packets_of(ref.packet(
            d.choice(['new', 'old']), 2, inner))[0], None)
    body = bytes(inner.to_packet().content)
    sig = objects.secret(k, alg).sign(inner, sv, 0x50, h)
    # all but the unhashed subpackets
    if sv2 == 4:
        n, = struct.unpack('>H', body[4:6])
        m, = struct.unpack('>H', body[6 + n:8 + n])
        cut = body[:6 + n] + b'\0\0' + body[8 + n + m:]
    else:
        cut = body
    data = b'\x88' + struct.pack('>I', len(cut)) + cut
    expect_good(k, sig, data, 'the confirmation')
    check(objects.public(k, alg).verify(sig, inner) is True, 'verify',
          'not True')


@suite.prop(quick=1000, thorough=20000)
def made_elsewhere(d):
    """made elsewhere: signatures of the reference signer are accepted"""
    f = full(d)
    k, alg, h, sv = signer(d)
    kind = d.choice(['doc', 'text', 'key', 'uid', 'attr', 'subkey'])
    pub = objects.public(k, alg)
    if kind in ('doc', 'text'):
        b, s = content(d)
        sigtype = int(kind == 'text')
        data = canonical(b) if sigtype else b
        item = message_of(b, s) if d.bool() else s if s is not None else b
        if sv == 4 and d.draw(4) == 3:
            item = None
            d.label('digest with leading zeros')
    else:
        sigtype = d.choice(objects.TYPES[kind])
        data = f.data(kind) if sv == 4 else f.data_v3(kind)
        item = f.element(kind)
    kid = bytes.fromhex(pub.key_id)
    d.note('type', (kind, sigtype))
    if sv == 4:
        iss, ct = keys.issuer(kid), keys.created(d.int(0, 2 ** 32 - 1))
        rest = b''.join(ref.subpacket(100, d.bytes(d.draw(9)), d.bool())
                        for _ in range(d.draw(3)))
        if d.draw(12) == 11:
            # as long as the area can be
            n = d.int(65500, 65535) - len(rest + iss + ct)
            rest += ref.subpacket(101, b'\5' * (n - 6), lenform=5)
            d.label('long area')
        if d.bool():
            hashed, unhashed = ct + iss + rest, b''
        else:
            hashed, unhashed = rest + ct, iss
        if item is None:
            # digests and signatures with leading zeros
            for i in range(400):
                b = b'%d' % i
                digest = ref.new_hash(h)
                digest.update(b + keys.trailer_v4(sigtype, alg, h, hashed))
                if not digest.digest()[0]:
                    break
            item = data = b
        body = keys.signature_v4(k, sigtype, data, h, hashed, unhashed, alg)
    else:
        body = keys.signature_v3(k, sigtype, data, kid, d.int(
            0, 2 ** 32 - 1), h, alg)
    d.label('%s type %02x' % (kind, sigtype))
    d.note('body', body)
    sig = S.BaseSignature.from_packet(objects.packets_of(ref.packet(
        d.choice(['new', 'old']), 2, body))[0], None)
    check(pub.verify(sig, item) is True, 'verify', 'not True')


def gpg_hashes(k):
    out = [h for h in objects.hashes(k) if h != 1]
    if k.kind == 'dsa':
        out = [h for h in out if ref.HASH_LEN[h] * 8 >= k.q.bit_length()]
    return out


def gpg_text(b):
    """GnuPG cuts long lines, knows only LF and CRLF and drops NULs and CRs
    at the end of lines from text that it signs."""
    return b.replace(b'\r\n', b'\n').replace(b'\r', b'').replace(
        b'\0', b'')[:15000]


GPG_SIGNERS = [k for k in keys.RSA + keys.DSA]


@suite.prop(quick=200, thorough=3000)
def gpgv(d):
    """gpgv: GnuPG accepts our signatures of documents and messages"""
    k = d.choice(GPG_SIGNERS)
    alg = objects.SIGNING_ALGS[k.kind][0]
    h, sv = d.choice(gpg_hashes(k)), d.choice([4, 4, 3])
    d.note('signer', (k, h, sv))
    d.label('%s, signature version %d' % (k.kind, sv))
    b, s = content(d)
    d.note('content', s if s is not None else b)
    d.nontrivial()
    key = objects.secret(k, alg)
    cert = gpg.certificate(k)[0]
    sigtype = d.choice([0, 1])
    inline = d.bool()
    d.label('%s type %d' % ('inline' if inline else 'detached', sigtype))
    d.note('form', 'inline' if inline else 'detached')
    d.note('type', sigtype)
    with gpg.Scratch() as tmp:
        ring = tmp.write('k.gpg', cert)
        if sigtype == 1 and not inline:
            b = gpg_text(b)
            s = s and b.decode('utf8')
        if not inline:
            sig = key.sign(message_of(b, s) if d.bool() else b, sv, sigtype,
                           h)
            out = bytes(sig.to_packet())
            if d.bool():
                out = str(armor.ASCIIArmor(armor.PGP_SIGNATURE, out)).encode()
            files = [tmp.write('s', out), tmp.write('d', b)]
        else:
            if sigtype == 1:
                # GnuPG hashes the octets of inline text as they are
                b = canonical(b)
                s = s and b.decode('utf8')
            m = message_of(b, s)
            m = m.sign(key, sv, sigtype, h, d.bool())
            if d.bool():
                m = m.compress(d.int(1, 3), 6)
            out = b''.join(map(bytes, m.to_packets()))
            if d.bool():
                out = str(armor.ASCIIArmor(armor.PGP_MESSAGE, out)).encode()
            files = [tmp.write('s', out)]
        ok, err = tmp.gpgv(ring, *files)
        check(ok, 'gpgv refuses the signature', err.decode(errors='replace'))


@suite.prop(quick=60, thorough=800)
def gpg_certificates(d):
    """gpg certificates: GnuPG accepts our self-signatures, bindings and
    certifications"""
    k, sub = d.choice(GPG_SIGNERS), d.choice(keys.RSA + keys.ELG)
    other = d.choice([x for x in GPG_SIGNERS if x is not k])
    f = objects.FullKey(k, sub, uid=b'x' + d.text(0, 9, 'abc \u00e9').encode(
        'utf8'), sub_alg=sub.alg)
    d.note('key', (k, sub, other))
    d.nontrivial()
    obj = f.obj
    ocert, oid, _ = gpg.certificate(other)
    okey = objects.secret(other)
    uid, attr, subkey = obj.user_ids[0], obj.user_attributes[0], \
        obj.subkeys[0]
    hs, ho = gpg_hashes(k), gpg_hashes(other)
    v = lambda: d.choice([4, 4, 3])
    own = d.choice([0x10, 0x11, 0x12, 0x13])
    uid.signatures = [obj.sign(uid, 4, own, d.choice(hs), [
        SP.KeyFlagsSubpacket(False, may_certify_others=True,
                             may_sign_data=True, may_encrypt_comms=False,
                             may_encrypt_storage=False,
                             may_be_used_for_auth=False,
                             may_have_been_split=False,
                             may_have_multiple_owners=False)])]
    attr.signatures = [obj.sign(attr, 4, d.choice([0x10, 0x13]),
                                d.choice(hs))]
    subkey.signatures = [obj.sign(subkey, 4, 0x18, d.choice(hs), [
        SP.KeyFlagsSubpacket(False, may_certify_others=False,
                             may_sign_data=False, may_encrypt_comms=True,
                             may_encrypt_storage=True,
                             may_be_used_for_auth=False,
                             may_have_been_split=False,
                             may_have_multiple_owners=False)])]
    n = 3
    for e in (uid, attr):
        if d.bool():
            t = d.choice([0x10, 0x11, 0x12, 0x13])
            e.signatures.append(okey.sign(e, v(), t, d.choice(ho)))
            n += 1
    if d.bool():
        obj.signatures.append(obj.sign(obj, 4, 0x1f, d.choice(hs)))
        n += 1
        d.label('direct key signature')
    if d.bool(0.3):
        subkey.signatures.append(obj.sign(subkey, 4, 0x28, d.choice(hs)))
        n += 1
        d.label('subkey revocation')
    if d.bool(0.2):
        obj.signatures.append(obj.sign(obj, 4, 0x20, d.choice(hs)))
        n += 1
        d.label('key revocation')
    if d.bool(0.3):
        uid.signatures.append(obj.sign(uid, 4, 0x30, d.choice(hs)))
        n += 1
        d.label('user ID revocation')
    data = shortcuts.serialize_key(obj.to_public_key(), d.bool())
    if isinstance(data, str):
        data = data.encode()
    with gpg.Home() as home:
        for x in (ocert, data):
            r = home.gpg('--no-autostart', '--import', data=x)
            check(r.returncode == 0, 'gpg does not import the key', r.stderr)
        r = home.gpg('--no-autostart', '--with-colons', '--check-sigs',
                     obj.key_id)
        lines = [x.split(':') for x in r.stdout.decode('utf8', 'replace')
                 .split('\n')]
        sigs = [x for x in lines if x[0] in ('sig', 'rev')]
        bad = [x for x in sigs if x[1] != '!']
        check(not bad, 'gpg finds a bad signature', bad)
        eq(len(sigs), n, 'number of signatures gpg found good')


@suite.prop(quick=40, thorough=600)
def gpg_made(d):
    """gpg made: signatures of GnuPG are accepted"""
    k, sub = d.choice(GPG_SIGNERS), d.choice(keys.RSA + keys.DSA)
    cert, kid, sid = gpg.certificate(k, sub=sub, secret=True, sub_flags=12,
                                     uid=b'owner')
    d.note('key', (k, sub))
    d.nontrivial()
    with gpg.Home() as home:
        r = home.gpg('--import', data=cert)
        check(r.returncode == 0, 'harness: gpg import', r.stderr)
        for _ in range(5):
            b, s = content(d)
            h = d.choice(gpg_hashes(k))
            args = ['-u', kid.hex(), '--digest-algo', gpg.HASH_NAMES[h],
                    '-o', '-']
            if d.bool(0.3):
                args += ['--sig-notation', 'x@example.org=v', '--set-filename',
                         'f']
            if d.bool(0.3):
                args += ['--default-sig-expire', '2y']
            how = d.choice(['detach', 'detach text', 'inline', 'inline text',
                            'clear'])
            args += {'detach': ['--detach-sign'],
                     'detach text': ['--detach-sign', '--textmode'],
                     'inline': ['--sign'],
                     'inline text': ['--sign', '--textmode'],
                     'clear': ['--clearsign']}[how]
            if how.startswith('inline'):
                args += ['-z', '0'] if d.bool() else \
                    ['--compress-algo', d.choice(['zip', 'zlib', 'bzip2'])]
            if 'text' in how:
                b, s = gpg_text(b), None
            if how == 'clear' or d.bool():
                args.append('--armor')
            if how == 'clear':
                # no trailing white space, final line ending not signed
                b = b'\n'.join(d.text(0, 8, 'abc-').rstrip().encode()
                               for _ in range(d.int(1, 5))) + b'\n'
                s = None
            d.label(how)
            d.note('content', s if s is not None else b)
            d.note('form', args)
            r = home.gpg(*args, data=b)
            if r.returncode:
                raise Violation('harness: gpg --sign failed: %r %r' % (
                    args, r.stderr))
            out = r.stdout
            pub = objects.load_public(gpg.certificate(k, uid=b'owner')[0])
            if how.startswith('inline'):
                m = shortcuts.read_message(out)
                while not isinstance(m, message.SignedMessageWrapper):
                    m = m.get_message()
                check(pub.verify(m.signatures[0], m.get_message()) is True,
                      'verify', 'not True')
                continue
            if how == 'clear':
                i = out.index(b'-----BEGIN PGP SIGNATURE')
                out = out[i:]
                b = b[:-1]
            if out.startswith(b'--'):
                pkts = list(shortcuts.parse_ascii_packet_data(out.decode()))
            else:
                pkts = objects.packets_of(out)
            sig = S.BaseSignature.from_packet(pkts[0], None)
            item = b if s is None or d.bool() else s
            check(pub.verify(sig, item) is True, 'verify', 'not True')
            check(pub.verify(sig, message_of(b, s)) is True, 'verify',
                  'not True')
