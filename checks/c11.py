"""C11 No signature verifies after anything it covers is altered"""
import copy
import struct
import warnings

from vlib.engine import Suite, check, eq, Violation
from vlib import keys, objects, ref
from checks.c10 import SIGNERS, T0, content, full, message_of, signer
from checks.c16 import canonical

from pgp import armor, message, shortcuts, signature as S

warnings.simplefilter('ignore')

suite = Suite('C11', 'Genuine signatures (every signing algorithm, hash, '
              'version and type, made here or by an independent signer) of '
              'documents, messages, keys, user IDs, attributes, subkeys and '
              'signatures, then one change: of the content, of each field, '
              'of the numbers, of the padding, of the key, of the element '
              'they are presented for, or of octets that are not covered. '
              'The 16-bit hash prefix is recomputed in most cases, so that '
              'the numbers decide. Oracle: an independent verifier. '
              'Non-trivial: the change altered what is covered.')

NUM_FIELDS = ('values', 'padding', 'key')


class Sig(object):
    """Fields of a signature packet and its octets"""

    def __init__(self, k, alg, h, sv, sigtype, key_id, data, hashed=b'',
                 unhashed=b'', ctime=1400000001):
        self.k, self.alg, self.h, self.sv = k, alg, h, sv
        self.sigtype, self.key_id, self.ctime = sigtype, key_id, ctime
        self.hashed, self.unhashed = hashed, unhashed
        self.covered = data
        self.values = k.sign_digest(h, self.digest())
        self.fix()

    def trailer(self):
        if self.sv == 4:
            return keys.trailer_v4(self.sigtype, self.alg, self.h,
                                   self.hashed)
        return keys.trailer_v3(self.sigtype, self.ctime)

    def digest(self):
        x = ref.new_hash(self.h)
        x.update(self.covered + self.trailer())
        return x.digest()

    def fix(self):
        self.hash2 = self.digest()[:2]

    def body(self):
        if self.sv == 4:
            return ref.sig_v4(self.sigtype, self.alg, self.h, self.hashed,
                              self.unhashed, self.hash2, self.values)
        return ref.sig_v3(self.sigtype, self.ctime, self.key_id, self.alg,
                          self.h, self.hash2, self.values)

    def state(self):
        return (self.covered + self.trailer(), self.alg, self.h,
                tuple(self.values))

    def object(self, d):
        return S.BaseSignature.from_packet(objects.packets_of(ref.packet(
            d.choice(['new', 'old']), 2, self.body()))[0], None)


def make(d, k, alg, h, sv, sigtype, data, pub):
    kid = bytes.fromhex(pub.key_id)
    if sv == 3:
        return Sig(k, alg, h, 3, sigtype, kid, data,
                   ctime=d.int(0, 2 ** 32 - 1))
    hashed = keys.created(d.int(0, 2 ** 32 - 1))
    for _ in range(d.size(0, 3, 1)):
        hashed += ref.subpacket(d.choice([20 + 80, 101, 27, 11, 23]),
                                d.bytes(d.int(1, 6)), d.bool())
    unhashed = b''
    if d.bool():
        hashed += keys.issuer(kid)
    else:
        unhashed += keys.issuer(kid)
    return Sig(k, alg, h, 4, sigtype, kid, data, hashed, unhashed)


def accepted(pub, sig, item):
    """did the verification succeed?"""
    try:
        return bool(pub.verify(sig, item))
    except Exception:
        return False


def bend(d, b):
    """other octets"""
    b = bytearray(b)
    k = d.draw(7)
    if k == 0 and b:
        i = d.draw(len(b))
        b[i] ^= 1 << d.draw(8)
    elif k == 1:
        i = d.draw(len(b) + 1)
        b[i:i] = d.bytes(d.int(1, 3))
    elif k == 2 and b:
        i = d.draw(len(b))
        del b[i:i + d.int(1, 3)]
    elif k == 3:
        b += d.choice([b'\0', b'\n', b' ', b'\r\n', b'\xb4\0\0\0\0'])
    elif k == 4 and len(b) > 1:
        i = d.int(1, len(b) - 1)
        b = b[i:] + b[:i]
    elif k == 5 and b:
        i = d.draw(len(b))
        b[i:i + 1] = b[i:i + 1].swapcase()
    else:
        b = bytearray(d.choice([b'', b'\0', b'x' * len(b)]))
    return bytes(b)


def bend_numbers(d, k, values):
    values = list(values)
    if k.kind == 'rsa':
        mods = [k.n, k.n]
    elif k.kind == 'dsa':
        mods = [k.q, k.q]
    else:
        mods = [k.p, k.p - 1]
    how = d.draw(10)
    i = d.draw(len(values))
    if how == 0:
        values[i] += d.choice([1, 2, mods[i], 2 * mods[i]])
    elif how == 1:
        values[i] ^= 1 << d.draw(max(1, values[i].bit_length()))
    elif how == 2:
        values[i] = d.choice([0, 1, mods[i] - 1, mods[i]])
    elif how == 3:
        values[i] = mods[i] - values[i]
    elif how == 4:
        values.reverse()
        if len(values) < 2:
            values[0] >>= 8
    elif how == 5:
        values.append(d.choice([0, 1, values[0]]))
    elif how == 6 and len(values) > 1:
        values = values[:1]
    elif how == 7:
        values = [d.choice([0, 1]) for _ in values]
    elif how == 8:
        values[i] = values[i] * 256 + d.draw(256)
    else:
        # multiplicative relations of RSA
        values[i] = values[i] * d.int(2, 9) % mods[i]
    return values


def bad_padding(d, k, h, digest):
    """RSA: numbers made with the secret key over a wrong encoding"""
    n = (k.bits + 7) // 8
    info = keys.DIGEST_INFO[h]
    how = d.draw(8)
    t = info + digest
    room = n - len(t) - 3
    if how == 0:
        # octets after the digest
        g = d.int(1, room - 8)
        m = b'\0\1' + b'\xff' * (room - g) + b'\0' + t + b'x' * g
    elif how == 1:
        m = b'\0\2' + b'\xff' * room + b'\0' + t
    elif how == 2:
        m = b'\0\1' + b'\xff' * (room - 1) + b'\xfe\0' + t
    elif how == 3:
        h2 = d.choice([x for x in ref.HASH if x != h and
                       ref.HASH_LEN[x] == ref.HASH_LEN[h]] or [None])
        if h2 is None:
            t = b'\x31' + t[1:]
        else:
            t = keys.DIGEST_INFO[h2] + digest
        m = b'\0\1' + b'\xff' * (n - len(t) - 3) + b'\0' + t
    elif how == 4:
        # the digest alone
        m = b'\0\1' + b'\xff' * (n - len(digest) - 3) + b'\0' + digest
    elif how == 5:
        m = b'\0' * (n - len(t)) + t
    elif how == 6:
        m = b'\1\1' + b'\xff' * room + b'\0' + t
        if keys.b2i(m) >= k.n:
            m = b'\0\0' + m[2:]
    else:
        j = len(info) + d.draw(len(digest))
        t = t[:j] + bytes([t[j] ^ (1 << d.draw(8))]) + t[j + 1:]
        m = b'\0\1' + b'\xff' * room + b'\0' + t
    return [pow(keys.b2i(m), k.d, k.n)]


CHANGES = ['content', 'content', 'type', 'hash', 'algorithm', 'hashed',
           'values', 'values', 'padding', 'key', 'uncovered']


def change(d, sig, pub, recover, item):
    """Apply one change; -> name, public key object, its K, item.
    recover(item octets, type) is the covered data of a document."""
    k = sig.k
    how = d.choice(CHANGES)
    if how == 'padding' and k.kind != 'rsa':
        how = 'values'
    if how == 'content' and recover is None:
        how = 'hashed'
    if how == 'hashed' and sig.sv == 3:
        how = 'time'
    if how == 'content':
        item = bend(d, item)
    elif how == 'type':
        sig.sigtype = d.choice([x for x in (
            0, 1, 2, 0x10, 0x11, 0x12, 0x13, 0x18, 0x19, 0x1f, 0x20, 0x28,
            0x30, 0x40) if x != sig.sigtype])
    elif how == 'hash':
        sig.h = d.choice([x for x in ref.HASH if x != sig.h])
    elif how == 'algorithm':
        sig.alg = d.choice([x for x in (1, 2, 3, 16, 17, 20, 0, 99)
                            if x != sig.alg])
    elif how == 'time':
        sig.ctime ^= 1 << d.draw(32)
    elif how == 'hashed':
        n = d.draw(5)
        subs = ref.read_subpackets(sig.hashed)
        if n == 0:
            sig.hashed += ref.subpacket(d.choice([3, 9, 100]), d.bytes(4))
        elif n == 1:
            j = d.draw(len(subs))
            del subs[j]
            sig.hashed = b''.join(ref.subpacket(t, b, c)
                                  for t, c, b in subs)
        elif n == 2:
            j = d.draw(len(subs))
            t, c, b = subs[j]
            subs[j] = (t, not c, b)
            sig.hashed = b''.join(ref.subpacket(t, b, c)
                                  for t, c, b in subs)
        elif n == 3:
            # into the unhashed area
            j = d.draw(len(subs))
            t, c, b = subs.pop(j)
            sig.hashed = b''.join(ref.subpacket(t, b, c)
                                  for t, c, b in subs)
            sig.unhashed += ref.subpacket(t, b, c)
        else:
            j = d.draw(len(sig.hashed))
            x = bytearray(sig.hashed)
            x[j] ^= 1 << d.draw(8)
            sig.hashed = bytes(x)
    elif how == 'values':
        sig.values = bend_numbers(d, k, sig.values)
    elif how == 'padding':
        sig.values = bad_padding(d, k, sig.h, sig.digest())
    elif how == 'key':
        others = [x for x in SIGNERS if x.kind == k.kind and x is not k and
                  (x.kind != 'dsa' or x.q.bit_length() == k.q.bit_length())]
        if not others:
            d.reject()
        k = d.choice(others)
        pub = objects.public(k, sig.alg)
        # under its name
        kid = bytes.fromhex(pub.key_id)
        if sig.sv == 4 and sig.unhashed:
            sig.unhashed = keys.issuer(kid)
        elif sig.sv == 4:
            sig.unhashed = keys.issuer(kid)
        sig.key_id = kid
    else:
        n = d.draw(3)
        if sig.sv == 4 and n:
            sig.unhashed += ref.subpacket(
                d.choice([100, 20 + 81, 24]), d.bytes(d.draw(20)))
        elif sig.sv == 4:
            sig.unhashed = ref.subpacket(110, d.bytes(3)) + sig.unhashed
    if recover is not None:
        sig.covered = recover(item, sig.sigtype)
    return how, pub, k, item


def decide(d, before, sig, how, k, same_key, pub, item):
    """the oracle, and the verdict of the code under test"""
    altered = sig.state() != before or not same_key
    d.nontrivial(altered)
    d.label(how if altered else 'nothing covered changed')
    fixed = d.draw(5) > 0
    if fixed and sig.h in ref.HASH:
        sig.fix()
    body = sig.body()
    good = not altered
    if altered and sig.h in ref.HASH and how != 'algorithm':
        # changes of covered data always invalidate: the harness would be
        # wrong about that only if the independent verifier disagreed
        try:
            if keys.verify_sig(k, body, sig.covered):
                raise Violation('harness: the change has no effect: ' + how)
        except (ValueError, IndexError):
            pass
    d.note('change', how)
    d.note('signature', body)
    try:
        obj = sig.object(d)
    except Exception:
        check(not good, 'the signature is no longer read', how)
        return
    if good:
        check(pub.verify(obj, item) is True, 'verify', 'not True')
    else:
        check(not accepted(pub, obj, item), 'accepted after a change of the '
              + how)


@suite.prop(quick=6000, thorough=100000)
def documents(d):
    """documents"""
    k, alg, h, sv = signer(d)
    b, s = content(d)
    d.note('content', b)
    sigtype = d.choice([0, 1])

    def covered(x, t):
        return canonical(x) if t == 1 else x
    pub = objects.public(k, alg)
    sig = make(d, k, alg, h, sv, sigtype, covered(b, sigtype), pub)
    before = sig.state()
    how, pub2, k2, b2 = change(d, sig, pub, covered, b)
    form = d.draw(3)
    if form == 0:
        item = b2
    elif form == 1:
        item = message.BinaryMessage(bytearray(b2), "f", T0)
        if d.bool():
            item = item.compress(d.draw(4), 6)
    else:
        try:
            item = b2.decode('utf8')
        except UnicodeError:
            item = bytearray(b2)
        else:
            if d.bool():
                item = message.TextMessage(item, "f", T0)
    decide(d, before, sig, how, k2, k2 is k, pub2, item)


def ref_data(f, kind, sv):
    return f.data(kind) if sv == 4 else f.data_v3(kind)


@suite.prop(quick=2500, thorough=40000)
def elements(d):
    """elements: fields, numbers and key of a signature on a key element"""
    f = full(d)
    k, alg, h, sv = signer(d)
    kind = d.choice(['key', 'uid', 'attr', 'subkey'])
    sigtype = d.choice(objects.TYPES[kind])
    pub = objects.public(k, alg)
    sig = make(d, k, alg, h, sv, sigtype, ref_data(f, kind, sv), pub)
    before = sig.state()
    how, pub2, k2, _ = change(d, sig, pub, None, None)
    decide(d, before, sig, how, k2, k2 is k, pub2, f.element(kind))


@suite.prop(quick=1500, thorough=20000)
def substitutions(d):
    """substitutions: presented for another element, or the element altered"""
    ka, kb, sub = (d.choice([x for x in SIGNERS if x.kind != 'elg'])
                   for _ in range(3))
    uid = d.text(0, 12).encode('utf8', 'surrogatepass')
    attr = ref.subpacket(d.int(2, 60), d.bytes(d.int(0, 6)))
    if d.bool(0.3):
        # the same octets as user ID and attribute
        uid = attr
    f = objects.FullKey(ka, sub, d.choice(objects.SIGNING_ALGS[ka.kind]),
                        d.int(10 ** 9, 2 ** 32 - 9), uid, attr,
                        sub_alg=d.choice(objects.SIGNING_ALGS[sub.kind]))
    # a similar key
    how = d.draw(7)
    args = dict(k=ka, sub=sub, alg=f.obj.public_key_algorithm,
                ctime=struct.unpack('>I', f.pub[1:5])[0], uid=uid, attr=attr,
                sub_alg=f.obj.subkeys[0].public_key_algorithm)
    if how == 0:
        args['uid'] = bend(d, uid)
    elif how == 1:
        args['attr'] = ref.subpacket(d.int(2, 60), d.bytes(d.int(0, 6)))
    elif how == 2:
        args['k'] = kb
        args['alg'] = kb.alg
    elif how == 3:
        args['ctime'] += d.choice([1, -1])
    elif how == 4:
        args['sub'] = d.choice([x for x in SIGNERS if x.kind != 'elg'])
        args['sub_alg'] = args['sub'].alg
    elif how == 5:
        args['alg'] = d.choice(objects.SIGNING_ALGS[ka.kind])
    else:
        args['sub_alg'] = d.choice(objects.SIGNING_ALGS[sub.kind])
    g = objects.FullKey(**args)
    k, alg, h, sv = signer(d)
    kind = d.choice(['key', 'uid', 'attr', 'subkey'])
    sigtype = d.choice(objects.TYPES[kind])
    pub = objects.public(k, alg)
    data = ref_data(f, kind, sv)
    if d.bool():
        sig = make(d, k, alg, h, sv, sigtype, data, pub).object(d)
    else:
        sig = objects.secret(k, alg).sign(f.element(kind), sv, sigtype, h)
    d.note('signature', (kind, sigtype, k, h, sv))
    d.note('similar key', args)
    for other, name in ((f, 'its own key'), (g, 'a similar key')):
        for kind2 in ('key', 'uid', 'attr', 'subkey'):
            same = ref_data(other, kind2, sv) == data
            d.nontrivial(not same)
            whole = other.obj if d.bool() else other.obj.to_public_key()
            element = other.element(kind2, whole)
            if same:
                check(pub.verify(sig, element) is True, 'verify', 'not True')
            else:
                check(not accepted(pub, sig, element),
                      'a signature of the %s accepted for the %s of %s' % (
                          kind, kind2, name))
    for item in (b'', 'x', uid, message.BinaryMessage(bytearray(uid), "f", T0)):
        if bytes(item.data if hasattr(item, 'data') else item.encode()
                 if isinstance(item, str) else item) != data:
            check(not accepted(pub, sig, item),
                  'a signature of the %s accepted for data' % kind)


@suite.prop(quick=600, thorough=8000)
def confirmations(d):
    """confirmations: the signature they confirm is altered"""
    k, alg, h, sv = signer(d)
    pub = objects.public(k, alg)
    k2, alg2, h2, sv2 = signer(d)
    pub2 = objects.public(k2, alg2)
    inner = make(d, k2, alg2, h2, sv2, 0, b'data', pub2)

    def covered(x):
        keep, x.unhashed = x.unhashed, b''
        body = x.body()
        x.unhashed = keep
        return b'\x88' + struct.pack('>I', len(body)) + body
    sig = make(d, k, alg, h, sv, 0x50, covered(inner), pub).object(d)
    check(pub.verify(sig, inner.object(d)) is True, 'verify', 'not True')
    was = covered(inner)
    how, _, _, _ = change(d, inner, pub2, lambda x, t: x, b'data')
    if d.bool():
        inner.fix() if inner.h in ref.HASH else None
    try:
        obj = inner.object(d)
    except Exception:
        d.reject()
    d.note('change', how)
    now = covered(inner)
    # (the same octets come back)
    eq(bytes(obj.to_packet().content), inner.body(), 'octets')
    d.nontrivial(now != was)
    d.label(how if now != was else 'nothing covered changed')
    if now == was:
        check(pub.verify(sig, obj) is True, 'verify', 'not True')
    else:
        check(not accepted(pub, sig, obj), 'accepted after a change of the '
              'confirmed signature', how)


def fields(sig):
    body = bytes(sig.to_packet().content)
    if body[0] == 4:
        s = keys.parse_sig_v4(body)
        return s['sigtype'], s['pkalg'], s['hash_alg'], s['hashed'], \
            s['values']
    return body[2], body[15], body[16], body[3:7], list(sig.signature_values)


@suite.prop(quick=600, thorough=8000)
def marks(d):
    """marks: the parts that say quickly that a signature is not right: the
    first octets of the digest and the key that made it"""
    k, alg, h, sv = signer(d)
    pub = objects.public(k, alg)
    sig = make(d, k, alg, h, sv, 0, b'data', pub)
    check(pub.verify(sig.object(d), b'data') is True, 'verify', 'not True')
    x = bytearray(sig.hash2)
    kid = bytearray(bytes.fromhex(pub.key_id))
    d.nontrivial()
    if d.bool():
        x[d.draw(2)] ^= d.int(1, 255)
        d.label('digest')
    else:
        kid[d.draw(8)] ^= d.int(1, 255)
        d.label('key ID')
    obj = sig.object(d)
    obj.hash2 = x
    if sv == 4:
        obj.issuer_key_ids = [bytes(kid).hex().upper()]
    else:
        obj._issuer_key_id = bytes(kid).hex().upper()
    d.note('digest, key ID', (bytes(x), bytes(kid)))
    check(not accepted(pub, obj, b'data'), 'accepted')


@suite.prop(quick=2500, thorough=40000)
def octets(d):
    """octets: any octet of a serialised signed message altered: when it
    still verifies, nothing covered has changed"""
    b, s = content(d)
    b = b[:200]
    if s is not None:
        s = s[:100]
        b = s.encode('utf8')
    k, alg, h, sv = signer(d)
    sigtype = d.choice([0, 1])
    key = objects.secret(k, alg)
    pub = objects.public(k, alg)
    m = message_of(b, s).sign(key, sv, sigtype, h, d.bool())
    orig = fields(m.signatures[0])
    data = bytearray(b''.join(map(bytes, m.to_packets())))
    for _ in range(d.weighted([(5, 1), (1, 2)])):
        i = d.draw(len(data))
        how = d.draw(4)
        if how == 0:
            del data[i]
        elif how == 1:
            data.insert(i, d.draw(256))
        else:
            data[i] ^= 1 << d.draw(8)
    d.note('octets', bytes(data))
    try:
        again = shortcuts.read_message(bytes(data))
        sigs, inner = again.signatures, again.get_message()
        now = inner.data
        # (whether text is UTF-8 or Latin-1 is not signed)
        now = bytes(now) if not isinstance(now, str) else now.encode(
            'latin-1' if inner.data_format == b't' else 'utf8')
    except Exception:
        d.label('not read')
        return
    for sig in sigs:
        for item in (inner, sig.parent):
            if not accepted(pub, sig, item):
                d.label('refused')
                continue
            d.label('accepted')
            t = sig.signature_type
            eq(fields(sig), orig, 'covered fields of an accepted signature')
            eq(canonical(now) if t == 1 else now,
               canonical(b) if t == 1 else b,
               'content under an accepted signature')


@suite.prop(quick=300, thorough=4000)
def others(d):
    """others: no other key of the pool verifies it, whatever issuer the
    signature names"""
    k, alg, h, sv = signer(d)
    b, s = content(d)
    sig = objects.secret(k, alg).sign(b, sv, 0, h)
    pub = objects.public(k, alg)
    for x in SIGNERS:
        for a in objects.SIGNING_ALGS[x.kind]:
            other = objects.public(x, a)
            ok = x is k and a == alg
            eq(accepted(other, sig, b), ok, 'accepted by %r' % x)
            if not ok:
                obj = sig.copy(sig)
                if sv == 4:
                    obj.issuer_key_ids = [other.key_id]
                else:
                    obj._issuer_key_id = other.key_id
                check(not accepted(other, obj, b),
                      'accepted by another key whose ID it names', x)
    check(pub.verify(sig, b) is True, 'verify', 'not True')


@suite.prop(quick=800, thorough=10000)
def altered_keys(d):
    """altered keys: one number of the public key changed"""
    k, alg, h, sv = signer(d)
    b, _ = content(d)
    b = b[:100]
    other = copy.copy(k)
    name = d.choice({'rsa': ['n', 'e'], 'dsa': ['p', 'q', 'g', 'y'],
                     'elg': ['p', 'g', 'y']}[k.kind])
    v = getattr(k, name)
    how = d.draw(4)
    if how == 0:
        v ^= 1 << d.draw(v.bit_length())
    elif how == 1:
        v += d.choice([1, 2, -1, -2])
    elif how == 2:
        v = d.choice([0, 1, 2, v >> 8])
    else:
        v = d.choice([k.n if k.kind == 'rsa' else k.p, v * 2, v * v])
    if v < 0 or v == getattr(k, name):
        d.reject()
    setattr(other, name, v)
    d.note('changed', (name, v))
    d.label('%s %s' % (k.kind, name))
    d.nontrivial()
    try:
        pub = objects.load_public(ref.new_packet(6, other.public_body(
            objects.CT, alg)))
    except Exception:
        d.label('key not read')
        return
    sig = make(d, k, alg, h, sv, 0, b, pub)
    try:
        ok = keys.verify_sig(other, sig.body(), b)
    except (ValueError, ZeroDivisionError):
        ok = False
    if ok:
        d.label('still a signature of the altered key')
        d.reject()
    check(not accepted(pub, sig.object(d), b),
          'accepted by a key with another ' + name)
