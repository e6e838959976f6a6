"""C33 Keys answer from their present contents and change only when told to"""
import bz2
import copy
import datetime
import re
import warnings
import zlib

from vlib.engine import Suite, check, eq, short
from vlib import keys, objects, ref, tkeys
from checks import c20

from pgp import message, signature as S, transferrable_keys as T
from pgp.packets import packets as P
from pgp.packets import parsers, signature_subpackets

warnings.simplefilter('ignore')

suite = Suite('C33', 'Histories of edits (user IDs, attributes, subkeys and '
              'signatures added, replaced, reordered and removed, names and '
              'times set, properties set, images replaced), of reads and of '
              'operations on transferable keys, their public copies and keys '
              'made of the same packets. Oracle: the octets the history says '
              'each key consists of, and what a key freshly read from them '
              'answers. Non-trivial: at least one edit and one read before '
              'it.')

CLASS = {'public': T.TransferablePublicKey, 'secret': T.TransferableSecretKey}
KEYS = keys.SMALL
PASSPHRASE = 'pw'
SIGNER = objects.secret([k for k in keys.RSA if k.bits <= 1100][0])
CERTS = (0x10, 0x11, 0x12, 0x13, 0x30)
OBJECTS = (T.BasePublicKey, T.UserID, T.UserAttribute, S.BaseSignature)


# --- what an object answers ---------------------------------------------------
def plain(v):
    if isinstance(v, datetime.datetime):
        return v.timestamp()
    if isinstance(v, S.BaseSignature):
        return bytes(v.to_packet())
    if isinstance(v, (T.UserID, T.UserAttribute)):
        return bytes(v.to_packet())
    if isinstance(v, T.BasePublicKey):
        return bytes(v._to_public_packet())
    if isinstance(v, (S.Notation, S.RevocationKeyInfo)):
        return bytes(v.to_subpacket())
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, type(re.compile('a'))):
        return v.pattern
    if v is None or isinstance(v, (bool, int, str)):
        return v
    raise AssertionError('unexpected answer %r' % (v,))


def names_of(o):
    """every public attribute of the object that is computed"""
    cls = type(o)
    if cls not in names_of.known:
        names_of.known[cls] = sorted(
            n for n in dir(cls) if not n.startswith('_') and
            isinstance(getattr(cls, n), property))
    return names_of.known[cls]


names_of.known = {}
STORED = {T.BasePublicKey: ['version', 'public_key_algorithm', 'creation_time',
                            'modulus_n', 'exponent_e', 'group_order_q',
                            'group_generator_g', 'key_value_y'],
          T.UserID: ['user_id'], T.UserAttribute: [],
          S.BaseSignature: ['version', 'signature_type', 'hash_algorithm',
                            'public_key_algorithm', 'hash2',
                            'signature_values']}


def answers(o):
    out = {}
    names = list(names_of(o))
    for cls, more in STORED.items():
        if isinstance(o, cls):
            names += more
    for n in names:
        try:
            out[n] = plain(getattr(o, n))
        except Exception as e:
            if isinstance(e, AssertionError):
                raise
            out[n] = 'raises ' + type(e).__name__
    if isinstance(o, T.UserAttribute):
        out['items'] = [(i.mime_type, bytes(i.data)) for i in o.content_items]
    if isinstance(o, S.BaseSignature):
        out['own'] = o.is_self_signature()
        out['hash'] = hash(o)
    else:
        for r in (False, True):
            s = o.get_most_recent_selfsig(r)
            out['newest', r] = plain(s)
        for t, v in ((0x10, 4), (0x10, 3)):
            out['signed', v] = bytes(o.to_signable_data(t, v))
    return out


def parts(key):
    """every object of the key, each with a name"""
    out = [('key', key)]
    for n, l in (('user ID', key.user_ids), ('attribute', key.user_attributes),
                 ('subkey', key.subkeys)):
        out += [('%s %d' % (n, i), o) for i, o in enumerate(l)]
    for n, o in list(out):
        out += [('%s, signature %d' % (n, i), s)
                for i, s in enumerate(o.signatures)]
    return out


def compare(key, fresh, what):
    a, b = parts(key), parts(fresh)
    eq([n for n, _ in a], [n for n, _ in b], what + ': parts')
    for (n, x), (_, y) in zip(a, b):
        x, y = answers(x), answers(y)
        for name in x:
            if x[name] != y[name]:
                check(False, '%s: %s of the %s is %s; a key read from the '
                      'same packets has %s' % (what, name, n, short(
                          repr(x[name]), 150), short(repr(y[name]), 150)))


# --- the octets a key consists of ----------------------------------------------
class Part(object):
    def __init__(self, raw, sigs=()):
        self.raw, self.sigs = raw, list(sigs)

    def all(self):
        return [self.raw] + self.sigs


class Model(object):
    def __init__(self, kind, els=()):
        self.kind = kind
        self.parts = {'key': [], 'uid': [], 'attr': [], 'subkey': []}
        self.order = []     # of the user IDs and attributes, while known
        self.ks = {}
        for e in els:
            r = e.raw()
            p = Part(r[0], r[1:])
            p.pub = e.public_raw()[0]
            self.parts[e.kind].append(p)
            if e.kind in ('uid', 'attr'):
                self.order.append(e.kind)

    def public(self):
        m = Model('public')
        for k, l in self.parts.items():
            for p in l:
                q = Part(p.raw if k in ("uid", "attr") else p.pub, p.sigs)
                q.pub = q.raw
                m.parts[k].append(q)
        m.order = self.order and list(self.order)
        return m

    def sequence(self, kind):
        return [r for p in self.parts[kind] for r in p.all()]

    def whole(self):
        """the packets, or None when the order of user IDs among attributes
        is not given"""
        out = self.sequence('key')
        if self.order is None:
            if self.parts['uid'] and self.parts['attr']:
                return None
            out += self.sequence('uid') + self.sequence('attr')
        else:
            left = {k: list(self.parts[k]) for k in ('uid', 'attr')}
            for k in self.order:
                out += left[k].pop(0).all()
        return out + self.sequence('subkey')


TAGS = {5: 'key', 6: 'key', 13: 'uid', 17: 'attr', 7: 'subkey', 14: 'subkey'}


def written(key, header_format=None):
    return [bytes(p) for p in key.to_packets(header_format)]


def tag_of(raw):
    return raw[0] & 0x3f if raw[0] & 0x40 else raw[0] >> 2 & 15


def sort(raws):
    out = {k: [] for k in TAGS.values()}
    cur = None
    for r in raws:
        cur = TAGS.get(tag_of(r), cur)
        out[cur].append(r)
    return out


def expect(key, model, what):
    raws = written(key)
    whole = model.whole()
    if whole is not None:
        if raws != whole:
            differ(raws, whole, what)
        return raws
    for kind, got in sort(raws).items():
        want = model.sequence(kind)
        if got != want:
            differ(got, want, what + ' (%s)' % kind)
    return raws


def differ(got, want, what):
    eq([tag_of(r) for r in got], [tag_of(r) for r in want],
       what + ': packet types')
    for i, (g, w) in enumerate(zip(got, want)):
        check(g == w, '%s: packet %d (type %d) is %s instead of %s' % (
            what, i, tag_of(g), short(g.hex(), 200), short(w.hex(), 200)))


def read(kind, raws):
    return CLASS[kind].from_packets(parsers.parse_binary_packet_data(
        bytearray(b''.join(raws))))


# --- keys -----------------------------------------------------------------------
def make(d, kind):
    ks = []
    prot = keys.protections(d, 4)
    used = set()
    own = []
    other = d.bytes(8)

    def new_key(d):
        k = KEYS[d.draw(len(KEYS))]
        body = k.public_body(d.int(1300000000, 1390000000))
        own.append(keys.key_id_of(body))
        return k, body

    def packet(d):
        if not ks:
            k, body = new_key(d)
            # the subkeys it may ever have: they sign as well
            d.subs = [new_key(d) for _ in range(3)]
        else:
            k, body = d.choice(d.subs)
        ks.append(k)
        return 4, body

    def tail(d):
        return prot.header() + prot.protect(
            ks[-1].secret_numbers(), PASSPHRASE.encode(), 4)

    def sig(d, sigtype):
        by = d.choice(own) if d.bool(0.4) else own[0]
        return c20.signature(d, sigtype, by, used, other).body
    d.sig = sig
    d.key_packet, d.tail = packet, tail
    els = tkeys.key(d, kind, packet, sig, secret_tail=tail, sizes=(3, 3, 2, 2))
    d.label(kind)
    return els, ks


def sig_packet(d, sigtype):
    return tkeys.header(d.choice(['new', 'old']), 2, d.sig(d, sigtype))


def packet_of(raw):
    return P.packet_from_packet_data(raw)[1]


class Holder(object):
    """a key with the model of its contents"""

    def __init__(self, name, key, model):
        self.name, self.key, self.model = name, key, model
        self.edited = self.asked = False

    def lists(self):
        return {'key': [self.key], 'uid': self.key.user_ids,
                'attr': self.key.user_attributes, 'subkey': self.key.subkeys}

    def pick(self, d, kinds=('key', 'uid', 'attr', 'subkey')):
        """-> kind, index, or None"""
        where = [(k, i) for k in kinds for i in range(len(self.lists()[k]))]
        return d.choice(where) if where else None

    def pick_sig(self, d):
        where = [(k, i, j) for k, l in self.lists().items()
                 for i, o in enumerate(l) for j in range(len(o.signatures))]
        return d.choice(where) if where else None


def sig_types(kind):
    return {'key': (0x1f, 0x20), 'uid': CERTS, 'attr': CERTS,
            'subkey': (0x18, 0x28)}[kind]


def bound(raws):
    """may these signatures follow a subkey?"""
    types = [packet_of(r).signature_type for r in raws]
    return types[:1] == [0x18] and types == sorted(types)


# each edit: changes the key and the model, or returns None when it cannot be
def add_signature(d, h):
    kind, i = h.pick(d)
    raw = sig_packet(d, d.choice(sig_types(kind)))
    part = h.model.parts[kind][i]
    at = d.draw(len(part.sigs) + 1)
    sigs = part.sigs[:at] + [raw] + part.sigs[at:]
    if kind == 'subkey' and not bound(sigs):
        return None
    o = h.lists()[kind][i]
    o.signatures.insert(at, T.KeySignature.from_packet(packet_of(raw), o))
    part.sigs = sigs
    return 'signature added to the ' + kind


def remove_signature(d, h):
    at = h.pick_sig(d)
    if at is None:
        return None
    kind, i, j = at
    part = h.model.parts[kind][i]
    sigs = part.sigs[:j] + part.sigs[j + 1:]
    if kind == 'subkey' and not bound(sigs):
        return None
    del h.lists()[kind][i].signatures[j]
    part.sigs = sigs
    return 'signature removed from the ' + kind


def reorder_signatures(d, h):
    kind, i = h.pick(d, ('key', 'uid', 'attr')) or ('key', 0)
    part = h.model.parts[kind][i]
    if len(part.sigs) < 2:
        return None
    order = d.shuffle(list(range(len(part.sigs))))
    part.sigs = [part.sigs[j] for j in order]
    o = h.lists()[kind][i]
    o.signatures = [o.signatures[j] for j in order]
    return 'signatures of the %s reordered' % kind


def add_identity(d, h):
    kind = d.choice(['uid', 'attr'])
    body = d.text(0, 30, mean=9).encode('utf8', 'surrogatepass') \
        if kind == 'uid' else tkeys.attr_body(d)
    raw = tkeys.header(d.choice(['new', 'old']) if kind == 'uid' else 'new',
                       {'uid': 13, 'attr': 17}[kind], body)
    cls = {'uid': T.UserID, 'attr': T.UserAttribute}[kind]
    o = cls.from_packet(h.key, packet_of(raw))
    part = Part(raw)
    for _ in range(d.size(0, 3, 1)):
        r = sig_packet(d, d.choice(CERTS))
        part.sigs.append(r)
        o.signatures.append(T.KeySignature.from_packet(packet_of(r), o))
    l = h.lists()[kind]
    at = d.draw(len(l) + 1)
    l.insert(at, o)
    h.model.parts[kind].insert(at, part)
    h.model.order = None
    return kind + ' added'


def remove_identity(d, h):
    at = h.pick(d, ('uid', 'attr'))
    if at is None:
        return None
    kind, i = at
    del h.lists()[kind][i]
    del h.model.parts[kind][i]
    h.model.order = None
    return kind + ' removed'


def reorder_identities(d, h):
    kind = d.choice(['uid', 'attr', 'subkey'])
    name = {'uid': 'user_ids', 'attr': 'user_attributes',
            'subkey': 'subkeys'}[kind]
    l = h.lists()[kind]
    if len(l) < 2:
        return None
    order = d.shuffle(list(range(len(l))))
    setattr(h.key, name, [l[i] for i in order])
    h.model.parts[kind] = [h.model.parts[kind][i] for i in order]
    return kind + 's reordered'


def add_subkey(d, h):
    _, pub = d.key_packet(d)
    body = pub + d.tail(d) if h.model.kind == 'secret' else pub
    fmt = d.choice(['new', 'old'])
    raw = tkeys.header(fmt, 7 if h.model.kind == 'secret' else 14, body)
    o = type(h.key)._SubkeyClass.from_packet(h.key, packet_of(raw))
    part = Part(raw)
    part.pub = tkeys.header(fmt, 14, pub)
    r = sig_packet(d, 0x18)
    part.sigs.append(r)
    o.signatures.append(T.KeySignature.from_packet(packet_of(r), o))
    at = d.draw(len(h.key.subkeys) + 1)
    h.key.subkeys.insert(at, o)
    h.model.parts['subkey'].insert(at, part)
    return 'subkey added'


def remove_subkey(d, h):
    if not h.key.subkeys:
        return None
    i = d.draw(len(h.key.subkeys))
    del h.key.subkeys[i]
    del h.model.parts['subkey'][i]
    return 'subkey removed'


def name_user(d, h):
    at = h.pick(d, ('uid',))
    if at is None:
        return None
    i = at[1]
    o = h.key.user_ids[i]
    text = d.text(0, 30, mean=9)
    o.user_id = text
    part = h.model.parts['uid'][i]
    fmt = 'new' if part.raw[0] & 0x40 else 'old'
    part.raw = tkeys.header(fmt, 13, text.encode('utf8', 'surrogateescape'))
    return 'user ID set'


def set_user_part(d, h):
    at = h.pick(d, ('uid',))
    if at is None:
        return None
    o = h.key.user_ids[at[1]]
    part = h.model.parts['uid'][at[1]]
    name, value = d.choice([('user_name', 'Ann ' + d.text(0, 5, 'abc.')),
                            ('user_email', d.text(1, 5, 'abc') + '@a.org'),
                            ('user_comment', d.text(1, 5, 'abc'))])
    try:
        setattr(o, name, value)
    except ValueError:
        # (of C23)
        return None
    eq(getattr(o, name), value, name + ' after it was set')
    fmt = 'new' if part.raw[0] & 0x40 else 'old'
    part.raw = tkeys.header(fmt, 13, o.user_id.encode(
        'utf8', 'surrogateescape'))
    return name + ' set'


def set_creation_time(d, h):
    kind, i = h.pick(d, ('key', 'subkey'))
    t = d.int(1300000000, 1390000000)
    h.lists()[kind][i].creation_time = datetime.datetime.fromtimestamp(t)
    part = h.model.parts[kind][i]
    for name, tag in (('raw', tag_of(part.raw)),
                      ('pub', {'key': 6, 'subkey': 14}[kind])):
        raw = getattr(part, name)
        body = body_of(raw)
        body = body[:1] + t.to_bytes(4, 'big') + body[5:]
        setattr(part, name, tkeys.header(
            'new' if raw[0] & 0x40 else 'old', tag, body))
    return 'creation time of the %s set' % kind


def body_of(raw):
    return bytes(packet_of(raw).content)


def set_property(d, h):
    """through the element or on one of its signatures"""
    at = h.pick_sig(d)
    if at is None:
        return None
    kind, i, j = at
    o = h.lists()[kind][i]
    name, value = d.choice([
        ('preferred_hash_algorithms', [d.draw(256)
                                       for _ in range(d.int(1, 3))]),
        ('preferred_symmetric_algorithms', [d.draw(256)]),
        ('may_sign_data', d.bool()), ('may_certify_others', d.bool()),
        ('primary_user_id', d.bool()),
        ('key_server_should_not_modify', d.bool()),
        ('policy_uri', 'http://' + d.text(0, 5, 'abc')),
        ('preferred_key_server', 'http://' + d.text(0, 5, 'abc'))])
    if d.bool():
        s = o.get_most_recent_selfsig()
        if s is None or s.version < 4:
            # (an old signature cannot say it)
            return None
        setattr(o, name, value)
        eq(plain(getattr(o, name)), value, name + ' after it was set')
        j = [k for k, x in enumerate(o.signatures) if x is s]
        j = j[0] if j else check(False, 'the newest self-signature of the %s '
                                 'is none of its signatures' % kind)
    else:
        s = o.signatures[j]
        if s.version < 4:
            return None
        if d.bool(0.3):
            name = 'creation_time'
            if s.signature_expiration_time is not None:
                return None
            value = datetime.datetime.fromtimestamp(
                d.int(1350000000, 1350000020))
        elif d.draw(4) == 0:
            name = 'issuer_key_ids'
            value = [d.choice([h.key.key_id, d.bytes(8).hex().upper()])]
        setattr(s, name, value)
        eq(getattr(s, name), value, name + ' after it was set')
    # what the signature is now (C17); no other packet may have changed
    h.model.parts[kind][i].sigs[j] = bytes(s.to_packet())
    return '%s set' % name


def set_image(d, h):
    at = h.pick(d, ('attr',))
    if at is None:
        return None
    o = h.key.user_attributes[at[1]]
    part = h.model.parts['attr'][at[1]]
    k = d.draw(5)
    item = T.UserAttributeContentItem('image/jpeg', bytearray(d.bytes(
        d.size(0, 40, 9))))
    subs = subpackets_of(body_of(part.raw))
    new = ref.subpacket(1, b'\x10\0\1\1' + b'\0' * 12 + bytes(item.data))
    if k == 0 or not subs:
        i = d.draw(len(subs) + 1)
        o.content_items.insert(i, item)
        subs.insert(i, new)
    elif k == 1:
        i = d.draw(len(subs))
        del o.content_items[i], subs[i]
    elif k == 2:
        i = d.draw(len(subs))
        o.content_items[i] = item
        subs[i] = new
    elif k == 3:
        i = d.draw(len(subs))
        old = o.content_items[i]
        if old.mime_type != 'image/jpeg' or \
                not isinstance(old.data, bytearray):
            return None
        # in place
        old.data.extend(b'x')
        subs[i] = ref.subpacket(1, b'\x10\0\1\1' + b'\0' * 12 +
                                bytes(old.data))
    else:
        i = d.draw(len(subs))
        old = o.content_items[i]
        if old.mime_type != 'image/jpeg' or subs[i] == new:
            return None
        if bytes(old.data) == bytes(item.data):
            return None
        old.data = item.data
        subs[i] = new
    part.raw = tkeys.header('new', 17, b''.join(subs))
    return 'content of the attribute changed'


def subpackets_of(body):
    """the subpackets with their lengths"""
    out = []
    while body:
        n = body[0]
        if n < 192:
            k, n = 1, n
        elif n < 255:
            k, n = 2, (n - 192 << 8) + body[1] + 192
        else:
            k, n = 5, int.from_bytes(body[1:5], 'big')
        out.append(body[:k + n])
        body = body[k + n:]
    return out


EDITS = [add_signature, remove_signature, reorder_signatures, add_identity,
         remove_identity, reorder_identities, add_subkey, remove_subkey,
         name_user, set_user_part, set_creation_time, set_property,
         set_property, set_image]


# --- operations that change nothing ---------------------------------------------
def ask(d, h):
    for n, o in parts(h.key):
        answers(o)
    h.asked = True
    return 'asked everything'


def ask_some(d, h):
    n, o = d.choice(parts(h.key))
    name = d.choice(names_of(o))
    try:
        getattr(o, name)
    except Exception:
        pass
    h.asked = True
    return 'asked %s of the %s' % (name, n)


def represent(d, h):
    for n, o in parts(h.key):
        try:
            repr(o), str(o), hash(o)
        except Exception:
            pass
    h.asked = True
    return 'repr'


def write(d, h):
    fmt = d.choice([1, 2, None])
    raws = written(h.key, fmt)
    for r in raws:
        if fmt and tag_of(r) < 16:
            eq(bool(r[0] & 0x40), fmt == 1, 'header format')
    return 'written'


def verify_all(d, h):
    by = d.choice([h.key] + list(h.key.subkeys))
    for n, o in parts(h.key):
        if isinstance(o, S.BaseSignature):
            try:
                by.verify(o, o.parent)
            except Exception:
                # (C10, C11 and C32 judge the verdicts)
                pass
    return 'verified'


def sign_something(d, h):
    if h.model.kind != 'secret':
        return None
    key = h.key
    if key.public_key_algorithm not in (1, 17) or key.is_locked():
        return None
    hash_alg = 2 if key.public_key_algorithm == 17 or key.bit_length < 600 \
        else 8
    kind, i = h.pick(d)
    o = h.lists()[kind][i]
    given = [] if d.bool() else [
        signature_subpackets.PrimaryUserIDSubpacket(False, True)]
    before = list(given)
    s = key.sign(o, 4, {'key': 0x1f, 'subkey': 0x18}.get(kind, 0x13),
                 hash_alg, given)
    check(given == before, 'signing changed the list it was given')
    key.verify(s, o)
    return 'signed the ' + kind


def encrypt_to(d, h):
    key = d.choice([h.key] + list(h.key.subkeys))
    if key.public_key_algorithm not in (1, 16) or key.bit_length < 400:
        return None
    m = message.PublicKeySessionKey(3, key, 9, b'k' * 32) \
        if key.bit_length > 500 else message.PublicKeySessionKey(
            3, key, 7, b'k' * 16)
    m.to_packet()
    return 'session key'


def unlock(d, h):
    if h.model.kind != 'secret':
        return None
    if h.key.is_locked():
        h.key.unlock(PASSPHRASE)
        return 'unlocked'
    h.key.lock()
    return 'locked'


def copy_signatures(d, h):
    for n, o in parts(h.key):
        if isinstance(o, S.BaseSignature):
            c = o.copy(o.parent)
            eq(bytes(c.to_packet()), bytes(o.to_packet()), 'copy')
            if c.version >= 4:
                c.policy_uri = 'http://changed'
                c.issuer_key_ids = ['0' * 16]
                c.exportable = False
                c.signature_type = 0
    return 'signatures copied and the copies changed'


def publish(d, h, pool):
    if h.model.kind != 'secret' or len(pool) > 3:
        return None
    c = Holder('copy %d' % len(pool), h.key.to_public_key(), h.model.public())
    pool.append(c)
    return 'public copy made'


def publish_subkey(d, h):
    if h.model.kind != 'secret' or not h.key.subkeys:
        return None
    i = d.draw(len(h.key.subkeys))
    sub = h.key.subkeys[i].to_public_key()
    part = h.model.parts['subkey'][i]
    eq(bytes(sub.to_packet()), part.pub, 'public packet of a subkey')
    eq([bytes(s.to_packet()) for s in sub.signatures], part.sigs,
       'signatures of the public form of a subkey')
    for s in sub.signatures:
        if s.version >= 4:
            s.policy_uri = 'http://changed'
    sub.creation_time = datetime.datetime.fromtimestamp(5)
    del sub.signatures[:]
    return 'public form of a subkey made and changed'


def packets_kept(d, h, pool):
    """a key from the packets of this one"""
    if len(pool) > 3:
        return None
    c = Holder('second %d' % len(pool), CLASS[h.model.kind].from_packets(
        h.key.to_packets()), copy.deepcopy(h.model))
    pool.append(c)
    return 'a key made of the packets of another'


QUIET = [ask, ask, ask_some, represent, write, verify_all, sign_something,
         encrypt_to, unlock, copy_signatures, publish_subkey]


def run(d, kind, steps, share):
    els, ks = make(d, kind)
    packets = list(parsers.parse_binary_packet_data(
        bytearray(b''.join(tkeys.raw(els)))))
    before = [bytes(p) for p in packets]
    pool = [Holder('the key', CLASS[kind].from_packets(packets),
                   Model(kind, els))]
    if share:
        pool.append(Holder('a key of the same packets',
                           CLASS[kind].from_packets(packets),
                           Model(kind, els)))
    done = []
    try:
        history(d, pool, done, steps, share)
    finally:
        d.note('history', done)
    eq([bytes(p) for p in packets], before,
       'the packets the key was read from')


def history(d, pool, done, steps, share):
    kept = []
    nontrivial = False
    for step in range(steps):
        h = d.choice(pool)
        k = d.draw(10)
        if k < 5:
            what = d.choice(EDITS)(d, h)
            if what:
                nontrivial |= h.asked
                h.edited = True
        elif k == 5:
            what = publish(d, h, pool)
        elif k == 6 and share:
            what = packets_kept(d, h, pool)
        else:
            what = d.choice(QUIET)(d, h)
        if not what:
            continue
        done.append((h.name, what))
        d.label(re.sub(r' \d+', '', what)[:40] if 'asked' not in what
                else 'asked')
        for o in pool:
            raws = expect(o.key, o.model, '%s after %s on %s' % (
                o.name, what, h.name))
            if share and d.draw(6) == 0:
                kept.append((o.key.to_packets(), raws))
            if o is h or d.draw(4) == 0:
                compare(o.key, read(o.model.kind, raws),
                        '%s after %s on %s' % (o.name, what, h.name))
                o.asked = True
        for p, raws in kept:
            check([bytes(x) for x in p] == raws,
                  'packets taken from a key changed with it, after ' + what)
    d.nontrivial(nontrivial)


@suite.prop(quick=700, thorough=12000)
def public_keys(d):
    """public keys: edits and reads"""
    run(d, 'public', d.size(2, 14, 7), False)


@suite.prop(quick=700, thorough=12000)
def secret_keys(d):
    """secret keys: edits, reads, operations, and public copies"""
    run(d, 'secret', d.size(2, 14, 8), False)


@suite.prop(quick=500, thorough=10000)
def shared_packets(d):
    """keys made of the same packets are independent"""
    run(d, d.choice(['public', 'secret']), d.size(2, 10, 5), True)


@suite.prop(quick=400, thorough=6000)
def given_answers(d):
    """answers: a caller that changes the list or octets it was given does
    not change what another key says"""
    els, ks = make(d, 'public')
    key = read('public', tkeys.raw(els))
    els2, ks2 = make(d, 'public')
    other = read('public', tkeys.raw(els2))
    before = [(n, answers(o)) for n, o in parts(other)]
    d.nontrivial(len(before) > 1)
    for n, o in parts(key):
        for name in names_of(o):
            try:
                v = getattr(o, name)
            except Exception:
                continue
            if isinstance(v, list) and not v:
                v.append(7)
            elif isinstance(v, bytearray):
                v.extend(b'x')
    after = [(n, answers(o)) for n, o in parts(other)]
    for (n, a), (_, b) in zip(before, after):
        for name in a:
            check(a[name] == b[name], '%s of the %s was %r and is %r after '
                  'lists of another key were changed' % (
                      name, n, a[name], b[name]))
    fresh = read('public', tkeys.raw(els2))
    compare(other, fresh, 'another key')


# --- messages -------------------------------------------------------------------
def literal_raw(lit):
    kind, name, t, data = lit
    return ref.new_packet(11, kind.encode() + bytes([len(name)]) + name +
                          t.to_bytes(4, 'big') + data)


def one_pass(raw, last):
    body = body_of(raw)
    s = keys.parse_sig_v4(body)
    own = s['hashed'][-8:]
    return tkeys.header('new' if raw[0] & 0x40 else 'old', 4, bytes(
        [3, s['sigtype'], s['hash_alg'], s['pkalg']]) + own + bytes([last]))


class Layer(object):
    def __init__(self, kind, inner=None, **values):
        self.kind, self.inner = kind, inner
        self.__dict__.update(values)

    def raws(self):
        if self.kind == 'literal':
            return [literal_raw(self.lit)]
        inner = self.inner.raws()
        if self.kind == 'compressed':
            return [('compressed', self.alg, inner)]
        if not self.one_pass:
            return self.sigs + inner
        ops = [one_pass(r, int(i == len(self.sigs) - 1))
               for i, r in enumerate(self.sigs)]
        return ops + inner + self.sigs[::-1]

    def packets(self):
        """octets, compressed by an independent library"""
        out = []
        for r in self.raws():
            out.append(r if isinstance(r, bytes) else pack(r))
        return out


def pack(r):
    inner = b''.join(x if isinstance(x, bytes) else pack(x) for x in r[2])
    if r[1] == 3:
        z = bz2.compress(inner)
    elif r[1] == 0:
        z = inner
    else:
        o = zlib.compressobj(6, zlib.DEFLATED, -15 if r[1] == 1 else 15)
        z = o.compress(inner) + o.flush()
    return ref.new_packet(8, bytes([r[1]]) + z)


def unpack(raw):
    tag, body = tag_of(raw), body_of(raw)
    if tag != 8:
        return raw
    z = body[1:]
    inner = {0: lambda: z, 1: lambda: zlib.decompress(z, -15),
             2: lambda: zlib.decompress(z),
             3: lambda: bz2.decompress(z)}[body[0]]()
    return ('compressed', body[0], [unpack(bytes(p)) for p in
                                    parsers.parse_binary_packet_data(
                                        bytearray(inner))])


def literal(d):
    kind = d.choice('bu')
    data = d.text(0, 20, mean=6).encode('utf8', 'replace') if kind == 'u' \
        else d.bytes(d.size(0, 20, 6))
    return (kind, d.choice([b'', b'a.txt', b'_CONSOLE']),
            d.int(0, 2 ** 31 - 1), data)


def message_sig(d):
    return tkeys.header(d.choice(['new', 'old']), 2, ref.sig_v4(
        d.draw(2), 1, d.choice([2, 8]), keys.created(d.int(1, 2 ** 31)) +
        keys.issuer(d.bytes(8)), ref.subpacket(26, b'http://a'), d.bytes(2),
        [d.int(1, 2 ** 60)]))


def message_tree(d):
    out = Layer('literal', lit=literal(d))
    for _ in range(d.size(0, 3, 1)):
        if d.bool(0.6):
            out = Layer('signed', out, one_pass=d.bool(), sigs=[
                message_sig(d) for _ in range(d.int(1, 3))])
            if not out.one_pass and out.inner.kind == 'signed' and \
                    not out.inner.one_pass:
                # (they would be the signatures of one wrapper)
                out.inner.sigs, out = out.sigs + out.inner.sigs, out.inner
        else:
            out = Layer('compressed', out, alg=d.draw(4))
    return out


def opened(raws):
    return message.open_pgp_message_from_packets(
        list(parsers.parse_binary_packet_data(bytearray(b''.join(raws)))))


def edit_message(d, m, layer):
    """changes a message object and its model -> what was done"""
    if layer.kind == 'signed' and (d.bool() or layer.inner.kind != 'literal'):
        k = d.draw(4)
        i = d.draw(len(layer.sigs))
        if k == 0:
            raw = message_sig(d)
            m.signatures.insert(i, message.MessageSignature.from_packet(
                packet_of(raw), m.message))
            layer.sigs.insert(i, raw)
            return 'signature added'
        if k == 1 and len(layer.sigs) > 1:
            del m.signatures[i], layer.sigs[i]
            return 'signature removed'
        if k == 2:
            m.signatures[i].policy_uri = 'http://bcd'
            old = layer.sigs[i]
            body = body_of(old)
            s = keys.parse_sig_v4(body)
            layer.sigs[i] = tkeys.header(
                'new' if old[0] & 0x40 else 'old', 2, ref.sig_v4(
                    s['sigtype'], s['pkalg'], s['hash_alg'], s['hashed'],
                    ref.subpacket(26, b'http://bcd'), s['hash2'],
                    s['values']))
            return 'signature changed'
        what = edit_message(d, m.message, layer.inner)
        return what and 'inside signatures: ' + what
    if layer.kind == 'signed':
        what = edit_message(d, m.message, layer.inner)
        return what and 'inside signatures: ' + what
    if layer.kind == 'compressed':
        inner = m.get_message()
        model = copy.deepcopy(layer.inner)
        what = edit_message(d, inner, model)
        if not what:
            return None
        # (not part of the message yet)
        got = [unpack(bytes(p)) for p in m.to_packets()]
        eq(got, layer.raws(), 'a compressed message whose content was opened '
           'and changed')
        eq([unpack(bytes(p)) for p in m.get_message().to_packets()],
           layer.inner.raws(), 'what a compressed message gives after its '
           'content was opened and changed')
        m.set_message(inner if d.bool() else opened(model.packets()))
        layer.inner = model
        return 'inside compression: ' + what
    kind, name, t, data = layer.lit
    new = literal(d)
    k = d.draw(3)
    if k == 0:
        name = new[1]
        m.filename = name.decode()
    elif k == 1:
        t = new[2]
        m.timestamp = datetime.datetime.fromtimestamp(t)
    elif new[0] == kind:
        data = new[3]
        m.data = data.decode('utf8') if kind == 'u' else data
    layer.lit = (kind, name, t, data)
    return 'literal changed'


def look(d, m):
    """operations that leave a message as it is"""
    repr(m)
    m.to_packets(d.choice([1, 2, None]))
    if not isinstance(m, message.EncryptedMessageWrapper):
        m.to_signable_data(d.draw(2), d.choice([3, 4]))
    if isinstance(m, (message.CompressedMessageWrapper,
                      message.SignedMessageWrapper)):
        look(d, m.get_message())
    if isinstance(m, message.SignedMessageWrapper):
        for s in m.signatures:
            answers_of_signature(s)


def said(m):
    """what a message answers, at every level"""
    out = [type(m).__name__]
    for t in (0, 1):
        for v in (3, 4):
            out.append(bytes(m.to_signable_data(t, v)))
    if isinstance(m, message.SignedMessageWrapper):
        for s in m.signatures:
            a = []
            for n in names_of(s):
                try:
                    a.append((n, plain(getattr(s, n)) if n not in (
                        'parent', 'target') else None))
                except Exception as e:
                    a.append((n, type(e).__name__))
            out.append((a, s.hash2, s.signature_values, hash(s)))
        out.append(m.one_pass)
    if isinstance(m, message.LiteralMessage):
        out += [plain(m.data), m.filename, m.timestamp]
    else:
        out.append(said(m.get_message()))
    return out


def answers_of_signature(s):
    for n in names_of(s):
        try:
            getattr(s, n)
        except Exception:
            pass


@suite.prop(quick=2000, thorough=40000)
def messages(d):
    """messages: edits at any depth, reads, and messages made of the same
    packets"""
    layer = message_tree(d)
    raws = layer.packets()
    packets = list(parsers.parse_binary_packet_data(
        bytearray(b''.join(raws))))
    pool = [(message.open_pgp_message_from_packets(packets), layer),
            (message.open_pgp_message_from_packets(packets),
             copy.deepcopy(layer))]
    done = []
    n = 0
    try:
        for _ in range(d.size(1, 8, 4)):
            m, l = d.choice(pool)
            k = d.draw(4)
            if k < 2:
                what = edit_message(d, m, l)
                if not what:
                    continue
                n += 1
            elif k == 2:
                look(d, m)
                what = 'looked at'
            else:
                what = d.choice(['compress', 'encrypt', 'sign'])
                if what == 'compress':
                    m.compress(d.int(1, 3), 6)
                elif what == 'encrypt':
                    m.symmetric_encrypt(9, 'pw', integrity_protect=d.bool(),
                                        s2k_count=1024)
                else:
                    m.sign(SIGNER, hash_algorithm=2)
            done.append((pool[0][0] is m, what))
            d.label(what)
            for o, model in pool:
                got = [unpack(bytes(p)) for p in o.to_packets()]
                eq(got, model.raws(), 'packets of a message after ' + what)
                again = opened([bytes(p) for p in o.to_packets()])
                eq(said(o), said(again), 'answers of a message after ' + what)
    finally:
        d.note('message', repr(layer.kind))
        d.note('history', done)
    eq([bytes(p) for p in packets], raws, 'the packets that were opened')
    d.nontrivial(n > 0)
