"""C17 Signature attributes"""
import datetime
import re
import struct
import warnings

from vlib.engine import Suite, check, eq
from vlib import keys, ref
from vlib.clock import ZONES, Zone, timestamp

from pgp import signature as S
from pgp import transferrable_keys as T
from pgp.packets import packets as P

warnings.simplefilter('ignore')

suite = Suite('C17', 'Version 4 signatures on keys, user IDs and subkeys, '
              'built or parsed with a random set of subpackets in both areas '
              'and 1..14 attribute changes, in several time zones. The model '
              'is a plain dictionary; the octets are decoded by our own '
              'reader. Non-trivial: at least three changes.')

MAX32 = 2 ** 32 - 1


def dt(ts):
    return datetime.datetime.fromtimestamp(ts)


def text(d, lo=0):
    if d.draw(8) == 0:
        return d.text(lo, 400, mean=150)
    return d.text(lo, 30, alphabet=d.choice([
        None, 'ab @.<(:/\u00e9\u20ac\U0001f600']))


def fpr(d):
    return d.bytes(20).hex().upper()


def mk_regex(d):
    return ''.join(d.choice(['a', 'b', '.', '[a-z]', '[^x]', '\\.', 'c*', 'd+',
                             'e?', '(f|g)', ' ']) for _ in range(d.int(1, 6)))


def distinct(d, fn, hi=3):
    out = []
    for _ in range(d.int(0, hi)):
        v = fn(d)
        if v not in out:
            out.append(v)
    return out


def mk_notation(d):
    readable = d.bool()
    name = d.text(1, 12, alphabet='abz-. \n\0\u00e9')
    ns = d.choice([None, 'example.com', 'x', 'a@b', '\u00e9.org'])
    value = text(d) if readable else d.blob(0, 400, 10)
    return (ns, name, value, readable)


def mk_revkey(d):
    return (d.edge_int(0, 255, (1, 3, 17)), fpr(d), d.bool())


def embedded(d):
    """some, often alike but for the last octets"""
    out = distinct(d, mk_embedded, 2)
    if out and d.draw(3) == 0 and \
            keys.parse_sig_v4(out[0])['values'][-1] > 255:
        out.append(out[0][:-1] + bytes([out[0][-1] ^ d.int(1, 3)]))
    return out


def mk_embedded(d):
    return ref.sig_v4(d.choice([0x19, 0x18, 0]), d.choice([1, 17]), 8,
                      keys.created(d.int(0, MAX32)),
                      keys.issuer(d.bytes(8)), d.bytes(2),
                      [d.bigint(d.choice([8, 160])) or 1])


def algs(d):
    return [d.int(0, 255) for _ in range(d.int(0, 6))]


FLAGS = [('may_certify_others', 1), ('may_sign_data', 2),
         ('may_encrypt_comms', 4), ('may_encrypt_storage', 8),
         ('may_have_been_split', 16), ('may_be_used_for_auth', 32),
         ('may_have_multiple_owners', 128)]

# attributes kept in one subpacket
GROUPS = {5: ['trust_depth', 'trust_amount'],
          27: [n for n, b in FLAGS],
          29: ['revocation_code', 'revocation_reason']}
GROUP_OF = {a: g for g in GROUPS.values() for a in g}

LISTS = ['issuer_key_ids', 'regular_expressions', 'notations',
         'revocation_keys', 'embedded_signatures']
SCALARS = ['creation_time', 'signature_expiration_time', 'exportable',
           'trust_depth', 'trust_amount', 'revocable', 'issuer_user_id',
           'revocation_reason', 'revocation_code', 'key_expiration_time',
           'preferred_compression_algorithms', 'preferred_hash_algorithms',
           'preferred_symmetric_algorithms', 'key_server_should_not_modify',
           'preferred_key_server', 'primary_user_id', 'policy_uri',
           'supports_modification_detection'] + [n for n, b in FLAGS]
ATTRS = LISTS + SCALARS


class Case(object):

    def __init__(self, d):
        self.d = d
        self.key_time = timestamp(d)
        k = d.choice(keys.SMALL)
        body = k.public_body(self.key_time)
        self.key = T.TransferablePublicKey.from_packet(
            P.packet_from_packet_data(ref.new_packet(6, body))[1])
        self.kind = d.choice(['key', 'user ID', 'user attribute', 'subkey'])
        if self.kind == 'key':
            self.target = self.key
        elif self.kind == 'user ID':
            self.target = T.UserID(self.key, 'x')
        elif self.kind == 'user attribute':
            self.target = T.UserAttribute(self.key, [])
        else:
            # Key expiry is relative to the subkey's own creation
            self.key_time = timestamp(d)
            body = d.choice(keys.SMALL).public_body(self.key_time)
            self.target = T.PublicSubkey.from_packet(
                self.key,
                P.packet_from_packet_data(ref.new_packet(14, body))[1])
        d.label('signature on ' + self.kind)
        self.type = {'key': 0x1f, 'user ID': 0x13, 'user attribute': 0x10,
                     'subkey': 0x18}[self.kind]

    # values: our own plain form of an attribute's value
    def value(self, name, model):
        d = self.d
        if name == 'issuer_key_ids':
            return distinct(d, lambda d: d.bytes(8).hex().upper())
        if name == 'regular_expressions':
            return distinct(d, mk_regex)
        if name == 'notations':
            return distinct(d, mk_notation)
        if name == 'revocation_keys':
            return distinct(d, mk_revkey)
        if name == 'embedded_signatures':
            return embedded(d)
        if name == 'creation_time':
            exp = model.get('signature_expiration_time')
            if exp is None:
                return timestamp(d)
            return d.int(max(0, exp - MAX32), min(exp - 1, MAX32))
        if name == 'signature_expiration_time':
            if d.bool(0.15):
                return None
            return model['creation_time'] + d.edge_int(
                1, MAX32, (3600, 86400, 15552000))
        if name == 'key_expiration_time':
            if d.bool(0.15):
                return None
            return self.key_time + d.edge_int(1, MAX32,
                                              (3600, 86400, 15552000))
        if name in ('trust_depth', 'trust_amount', 'revocation_code'):
            return d.edge_int(0, 255)
        if name.startswith('preferred_') and name.endswith('algorithms'):
            return algs(d)
        if name in ('preferred_key_server', 'policy_uri'):
            return text(d, 1)
        if name in ('issuer_user_id', 'revocation_reason'):
            return text(d)
        return d.bool()

    # our value -> what is assigned
    def api(self, name, v):
        if v is None:
            return None
        if name.endswith('_time'):
            return dt(v)
        if name == 'regular_expressions':
            return [re.compile(x) for x in v]
        if name == 'notations':
            return [S.Notation(*x) for x in v]
        if name == 'revocation_keys':
            return [S.RevocationKeyInfo(*x) for x in v]
        if name == 'embedded_signatures':
            return [S.BaseSignature.from_packet(
                P.packet_from_packet_data(ref.new_packet(2, x))[1],
                self.target) for x in v]
        if isinstance(v, list):
            return list(v)
        return v

    # what is read -> our value
    def plain(self, name, v):
        if v is None:
            return None
        if name.endswith('_time'):
            return int(v.timestamp())
        if name == 'regular_expressions':
            return [x.pattern for x in v]
        if name == 'notations':
            return [(x.namespace, x.name,
                     x.value if x.human_readable else bytes(x.value),
                     x.human_readable) for x in v]
        if name == 'revocation_keys':
            return [(x.public_key_algorithm, x.fingerprint, x.sensitive)
                    for x in v]
        if name == 'embedded_signatures':
            return [bytes(x.to_packet().content) for x in v]
        if isinstance(v, (list, tuple)):
            return list(v)
        if name == 'supports_modification_detection':
            return bool(v)
        return v


def same(name, a, b):
    if name in LISTS:
        return sorted(map(repr, a)) == sorted(map(repr, b))
    return a == b and (a is None) == (b is None)


def encode(case, name, v):
    """-> (type, body) of a subpacket of one item or value, by RFC 4880"""
    u4 = struct.Struct('>I').pack
    if name == 'issuer_key_ids':
        return 16, bytes.fromhex(v)
    if name == 'regular_expressions':
        return 6, v.encode() + b'\0'
    if name == 'notations':
        ns, n, val, readable = v
        n = (n if ns is None else n + '@' + ns).encode('utf8')
        val = val.encode('utf8') if readable else val
        return 20, (bytes([128 if readable else 0, 0, 0, 0]) +
                    struct.pack('>HH', len(n), len(val)) + n + val)
    if name == 'revocation_keys':
        return 12, bytes([0x80 | (0x40 if v[2] else 0), v[0]]) + \
            bytes.fromhex(v[1])
    if name == 'embedded_signatures':
        return 32, v
    if name == 'creation_time':
        return 2, u4(v)
    if name == 'exportable':
        return 4, bytes([v])
    if name == 'revocable':
        return 7, bytes([v])
    if name == 'issuer_user_id':
        return 28, v.encode('utf8')
    if name == 'preferred_symmetric_algorithms':
        return 11, bytes(v)
    if name == 'preferred_hash_algorithms':
        return 21, bytes(v)
    if name == 'preferred_compression_algorithms':
        return 22, bytes(v)
    if name == 'key_server_should_not_modify':
        return 23, bytes([0x80 if v else 0])
    if name == 'preferred_key_server':
        return 24, v.encode('utf8')
    if name == 'primary_user_id':
        return 25, bytes([v])
    if name == 'policy_uri':
        return 26, v.encode('utf8')
    if name == 'supports_modification_detection':
        return 30, bytes([v])
    raise AssertionError(name)


def wire(case, model):
    """-> the (type, body) pairs the signature must consist of"""
    out = []
    for name, v in model.items():
        if name in GROUP_OF or v is None:
            continue
        if name in LISTS:
            out += [encode(case, name, x) for x in v]
        elif name == 'signature_expiration_time':
            out.append((3, struct.pack('>I', v - model['creation_time'])))
        elif name == 'key_expiration_time':
            out.append((9, struct.pack('>I', v - case.key_time)))
        else:
            out.append(encode(case, name, v))
    if model['trust_depth'] is not None:
        out.append((5, bytes([model['trust_depth'], model['trust_amount']])))
    if model['revocation_code'] is not None:
        out.append((29, bytes([model['revocation_code']]) +
                    model['revocation_reason'].encode('utf8')))
    if model['may_sign_data'] is not None:
        out.append((27, bytes([sum(b for n, b in FLAGS if model[n])])))
    return out


def start(d, case):
    """-> signature, model, other subpackets"""
    model = dict.fromkeys(SCALARS)
    model.update((n, []) for n in LISTS)
    model['creation_time'] = timestamp(d)
    others = []
    if d.bool(0.3):
        d.label('built')
        sig = S.BaseSignature(case.target, 4, case.type, 1, 8, b'\1\2', [5],
                              creation_time=dt(model['creation_time']),
                              issuer_key_id='0123456789ABCDEF'
                              if d.bool() else None)
        if sig.issuer_key_ids:
            model['issuer_key_ids'] = ['0123456789ABCDEF']
        return sig, model, others
    d.label('parsed')
    for name in ATTRS:
        if name == 'creation_time' or d.bool(0.6):
            continue
        v = case.value(name, model)
        group = GROUP_OF.get(name)
        model[name] = v
        if group:
            for g in group:
                if model[g] is None:
                    model[g] = case.value(g, model)
    areas = [[], []]
    for t, body in wire(case, model):
        areas[0 if t == 2 else d.draw(2)].append(
            ref.subpacket(t, body, critical=t != 20 and d.bool(0.2),
                          lenform=d.choice([None, None, None, 5])))
    for _ in range(d.int(0, 2)):
        o = (d.choice([100, 101, 110, 13, 33]), d.blob(0, 20))
        others.append(o)
        areas[d.draw(2)].append(ref.subpacket(*o))
    hashed, unhashed = [b''.join(d.shuffle(a)) for a in areas]
    raw = ref.sig_v4(case.type, 1, 8, hashed, unhashed, b'\1\2', [5])
    pkt = P.packet_from_packet_data(ref.new_packet(2, raw))[1]
    return T.KeySignature.from_packet(pkt, case.target), model, others


def check_all(case, sig, model, others, when):
    for name in ATTRS:
        got = case.plain(name, getattr(sig, name))
        check(same(name, got, model[name]), '%s %s' % (name, when), got,
              model[name])
    _, _, body, _ = ref.read_packet(bytes(sig.to_packet()))
    p = keys.parse_sig_v4(body)
    found = [(t, b) for t, c, b in
             ref.read_subpackets(p['hashed']) +
             ref.read_subpackets(p['unhashed'])]
    # An expiry of zero seconds is none
    found = [(t, b) for t, b in found
             if not (t in (3, 9) and b == b'\0\0\0\0')]
    eq(sorted(found), sorted(wire(case, model) + others),
       'subpackets ' + when)


@suite.prop(quick=2500, thorough=60000)
def history(d):
    with Zone(d.choice(ZONES)):
        run(d)


def run(d):
    case = Case(d)
    sig, model, others = start(d, case)
    check_all(case, sig, model, others, 'at the start')
    n = d.int(1, 14)
    d.nontrivial(n >= 3)
    done = []
    for i in range(n):
        name = d.choice(ATTRS)
        if d.bool(0.1) and model['creation_time'] > 0:
            # refused: an expiry that is not after the creation
            name, begin = d.choice([
                ('signature_expiration_time', model['creation_time']),
                ('key_expiration_time', case.key_time)])
            bad = begin - d.edge_int(0, min(begin, 10 ** 8), (0, 1))
            if model['signature_expiration_time'] is not None and d.bool():
                name = 'creation_time'
                bad = model['signature_expiration_time']
                bad += d.edge_int(0, 10 ** 6, (0, 1))
            done.append((name, bad, 'refused'))
            d.note('history', done)
            try:
                setattr(sig, name, dt(bad))
            except ValueError:
                pass
            else:
                check(False, 'expiry before creation accepted', done)
        elif d.bool(0.1):
            done.append('parsed again')
            d.note('history', done)
            pkt = P.packet_from_packet_data(bytes(sig.to_packet()))[1]
            sig = T.KeySignature.from_packet(pkt, case.target)
        else:
            v = case.value(name, model)
            if name in LISTS and model[name] and d.bool(0.6):
                # keep some of the present items
                v = [x for x in model[name] if d.bool()] + \
                    [x for x in v if x not in model[name]][:d.int(0, 3)]
                v = d.shuffle(v)
            done.append((name, v))
            d.note('history', done)
            fresh = model.get(name) is None
            setattr(sig, name, case.api(name, v))
            model[name] = v
            if fresh and name in GROUP_OF:
                # The others now have a value too, which says nothing
                for g in GROUP_OF[name]:
                    if g != name:
                        got = getattr(sig, g)
                        check(not got and got is not None,
                              '%s after setting only %s' % (g, name), got)
                        model[g] = got
        check_all(case, sig, model, others, 'after %r' % (done[-1],))


@suite.prop(quick=800, thorough=15000)
def targets(d):
    """A target subpacket finds the signature it names."""
    case = Case(d)
    sigs = []
    for i in range(d.int(1, 4)):
        h = d.choice(sorted(ref.HASH))
        hashed = keys.created(d.int(0, MAX32)) + keys.issuer(d.bytes(8))
        sigs.append((h, hashed))
    parent = case.target
    parent.signatures = [
        T.KeySignature.from_packet(P.packet_from_packet_data(ref.new_packet(
            2, ref.sig_v4(case.type, 1, h, hashed, b'', b'\1\2', [5])))[1],
            parent) for h, hashed in sigs]
    i = d.draw(len(sigs))
    h, hashed = sigs[i]
    hash_ = ref.new_hash(h)
    pk = keys.key_data(bytes(case.key.to_packet().content))
    if case.kind == 'user ID':
        pk += keys.uid_data(b'x')
    elif case.kind == 'user attribute':
        pk += keys.attr_data(b'')
    elif case.kind == 'subkey':
        pk += keys.key_data(bytes(parent.to_packet().content))
    hash_.update(pk + keys.trailer_v4(case.type, 1, h, hashed))
    digest = hash_.digest()
    match = d.bool(0.8)
    if not match:
        k = d.draw(len(digest))
        digest = digest[:k] + bytes([digest[k] ^ (1 << d.draw(8))]) + \
            digest[k + 1:]
    d.nontrivial(len(sigs) > 1)
    rtype = {'key': 0x20, 'subkey': 0x28}.get(case.kind, 0x30)
    raw = ref.sig_v4(rtype, 1, 8, keys.created(5) + keys.issuer(d.bytes(8)) +
                     ref.subpacket(31, bytes([1, h]) + digest), b'', b'\1\2',
                     [5])
    rev = T.KeySignature.from_packet(
        P.packet_from_packet_data(ref.new_packet(2, raw))[1], parent)
    parent.signatures = d.shuffle(parent.signatures + [rev])
    want = hashed if match else None
    got = rev.target
    eq(None if got is None else b''.join(map(bytes, got.hashed_subpackets)),
       want, 'target of the signature')


@suite.prop(quick=1500, thorough=30000)
def repeated(d):
    """repeated: signatures with several subpackets of one kind, in both
    areas"""
    case = Case(d)
    name = d.choice([n for n in ATTRS if n not in GROUP_OF])
    model = dict.fromkeys(SCALARS)
    model['creation_time'] = case.key_time
    vals = [case.value(name, model) for _ in range(2)]
    if name in LISTS:
        items = [x for v in vals for x in v]
        if not items:
            d.reject()
        items = [d.choice(items) for _ in range(d.int(2, 5))]
        subs = [encode(case, name, x) for x in items]
        hashed = [d.bool() for _ in subs]
    else:
        if None in vals:
            d.reject()
        vals = vals[:1] + [d.choice(vals) for _ in range(d.int(1, 3))]
        subs = [expiring(case, name, v, model) for v in vals]
        # (which one of several in one area counts is not laid down)
        hashed = [True] + [False] * (len(vals) - 1)
    d.note('attribute', name)
    d.note('subpackets', list(zip(subs, hashed)))
    d.nontrivial()
    areas = [[], []]
    if name != 'creation_time':
        areas[0].append(keys.created(case.key_time))
    for (t, b), h in zip(subs, hashed):
        areas[0 if h else 1].append(ref.subpacket(t, b))
    raw = ref.sig_v4(case.type, 1, 8, b''.join(d.shuffle(areas[0])),
                     b''.join(areas[1]), b'\1\2', [5])
    sig = T.KeySignature.from_packet(
        P.packet_from_packet_data(ref.new_packet(2, raw))[1], case.target)
    got = case.plain(name, getattr(sig, name))
    if name in LISTS:
        check(set(map(repr, got)) == set(map(repr, items)),
              name + ' at the start', got, items)
    else:
        # what is not signed does not replace what is
        check(got == vals[0], name + ' at the start', got, vals[0])
    for i in range(d.int(1, 3)):
        v = case.value(name, model)
        if name in LISTS and d.bool(0.7):
            v = []
            for x in items:
                if d.bool() and x not in v:
                    v.append(x)
        d.note('set %d' % i, v)
        setattr(sig, name, case.api(name, v))
        if d.bool():
            sig = T.KeySignature.from_packet(P.packet_from_packet_data(
                bytes(sig.to_packet()))[1], case.target)
        got = case.plain(name, getattr(sig, name))
        check(same(name, got, v), name + ' after setting', got, v)
        if name == 'creation_time':
            break


def expiring(case, name, v, model):
    if name == 'signature_expiration_time':
        return 3, struct.pack('>I', v - model['creation_time'])
    if name == 'key_expiration_time':
        return 9, struct.pack('>I', v - case.key_time)
    return encode(case, name, v)


@suite.prop(quick=600, thorough=10000)
def version_3(d):
    """version 3: the attributes these signatures have"""
    case = Case(d)
    t = timestamp(d)
    issuer = d.bytes(8)
    if d.bool(0.3):
        issuer = b'\0' * d.int(1, 8) + issuer
        issuer = issuer[:8]
    raw = ref.sig_v3(case.type, t, issuer, 1, 2, b'\1\2', [5])
    fmt = d.choice(['old', 'new'])
    sig = T.KeySignature.from_packet(
        P.packet_from_packet_data(ref.packet(fmt, 2, raw))[1], case.target)
    done = []
    d.nontrivial()
    with Zone(d.choice(ZONES)):
        for i in range(d.int(1, 5)):
            d.note('history', done)
            eq(int(sig.creation_time.timestamp()), t, 'creation time')
            eq(sig.issuer_key_ids, [issuer.hex().upper()], 'issuer')
            for name in ATTRS:
                if name in ('creation_time', 'issuer_key_ids'):
                    continue
                eq(getattr(sig, name) or None, None, name)
            eq(bytes(sig.to_packet()), ref.packet(fmt, 2, ref.sig_v3(
                case.type, t, issuer, 1, 2, b'\1\2', [5])), 'packet')
            op = d.draw(4)
            if op == 0:
                t = timestamp(d)
                done.append(('creation_time', t))
                sig.creation_time = dt(t)
            elif op == 1:
                issuer = d.choice([d.bytes(8), b'\0' * 7 + d.bytes(1)])
                done.append(('issuer', issuer))
                sig.issuer_key_ids = [issuer.hex().upper()]
            elif op == 2:
                bad = [d.bytes(8).hex().upper()
                       for _ in range(d.choice([0, 2, 3]))]
                done.append(('issuers', bad))
                try:
                    sig.issuer_key_ids = bad
                except ValueError:
                    pass
                else:
                    check(False, 'accepted %d issuers' % len(bad))
            else:
                done.append('parsed again')
                sig = T.KeySignature.from_packet(P.packet_from_packet_data(
                    bytes(sig.to_packet()))[1], case.target)


@suite.prop(quick=300, thorough=5000)
def issuer_user(d):
    """issuer user: the parts of the issuer's user ID"""
    case = Case(d)
    parts = [d.text(1, 8, 'abc'), d.text(1, 8, 'abc') + '@' +
             d.text(1, 8, 'abc'), d.text(1, 8, 'xyz')]
    have = [True, d.bool(), d.bool()]
    s = parts[0] + (' (%s)' % parts[2] if have[2] else '') + (
        ' <%s>' % parts[1] if have[1] else '')
    sig = S.BaseSignature(case.target, 4, case.type, 1, 8, b'\1\2', [5],
                          creation_time=dt(5))
    for n in ('name', 'email', 'comment'):
        eq(getattr(sig, 'issuer_user_' + n), None, 'no user ID: ' + n)
    sig.issuer_user_id = s
    d.note('user ID', s)
    d.nontrivial()
    for n, p, h in zip(('name', 'email', 'comment'), parts, have):
        eq(getattr(sig, 'issuer_user_' + n) or '', p if h else '', n)


@suite.prop(quick=800, thorough=12000)
def values(d):
    """values: equal ones are found in sets, others are not, and a notation
    that must be understood is not passed over"""
    case = Case(d)
    name = d.choice(['notations', 'revocation_keys', 'embedded_signatures'])
    make = {'notations': mk_notation, 'revocation_keys': mk_revkey,
            'embedded_signatures': mk_embedded}[name]
    d.label(name)
    v = make(d)
    w = make(d)
    k = d.draw(3)
    if k == 0:
        w = v
    elif k == 1 and name != 'embedded_signatures':
        # all but one part the same
        i = d.draw(len(v))
        if not (name == 'notations' and i >= 2):
            w = v[:i] + (w[i],) + v[i + 1:]
    elif k == 1:
        w = v[:-1] + bytes([v[-1] ^ 1])
    a, = case.api(name, [v])
    b, = case.api(name, [w])
    same_ = v == w
    d.note('values', (v, w))
    d.nontrivial(k < 2)
    t1, t2 = encode(case, name, v), encode(case, name, w)
    if same_ != (t1 == t2):
        d.reject()
    eq(a == b, same_, 'equal')
    eq(a != b, not same_, 'unequal')
    if same_:
        eq(hash(a), hash(b), 'hash')
    eq(b in {a}, same_, 'found in a set')
    eq({a: 1}.get(b), 1 if same_ else None, 'found in a dictionary')
    if name == 'notations':
        eq(bool(a.is_human_readable()), v[3], 'readable')
        subs = [ref.subpacket(*encode(case, name, x), critical=c)
                for x, c in d.shuffle([(v, True), (w, False)][:d.int(1, 2)])]
        raw = ref.sig_v4(case.type, 1, 8, keys.created(5) + b''.join(subs),
                         b'', b'\1\2', [5])
        sig = T.KeySignature.from_packet(P.packet_from_packet_data(
            ref.new_packet(2, raw))[1], case.target)
        try:
            got = sig.notations
        except Exception as e:
            check('ritical' in type(e).__name__, 'another error', repr(e))
        else:
            check(False, 'a critical notation was passed over', got)
        eq(bytes(sig.to_packet().content), raw, 'the signature')
