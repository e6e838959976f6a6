"""C19 Grammar of transferable keys"""
from vlib.engine import Suite, check, eq, Violation
from vlib import keys, ref, tkeys

from pgp import shortcuts, transferrable_keys as T
from pgp.packets import parsers

suite = Suite('C19', 'Sequences over every kind of packet a key may hold (own '
              'and other key and subkey kinds, user IDs, attributes, each '
              'signature type) and foreign ones: all short sequences drawn at '
              'random, valid ones, and valid ones with one to three packets '
              'inserted, removed, repeated, moved or replaced. Oracle: a '
              'recogniser of the RFC 4880 section 11.1 grammar. Non-trivial: '
              'three packets or more.')

CLASS = {'public': T.TransferablePublicKey, 'secret': T.TransferableSecretKey}
CERT = (0x10, 0x11, 0x12, 0x13, 0x30)
KEY = (0x1f, 0x20)
OTHER_SIGS = (0x00, 0x01, 0x02, 0x19, 0x40, 0x50)
# own / other kind of key and subkey packet, user ID, attribute, foreign
SYMBOLS = ['K', 'k', 'S', 's', 'U', 'A', 'X'] + \
    list(CERT + KEY + OTHER_SIGS + (0x18, 0x28))
COMMON = ['S', 'U', 'A', 'U', 'S', 0x10, 0x13, 0x30, 0x18, 0x18, 0x28, 0x1f,
          0x20]


def derivable(seq, version):
    """is the sequence in the grammar?"""
    # trust packets are ignored
    seq = seq[:1] + [s for s in seq[1:] if s != 'T']
    if not seq or seq[0] != 'K':
        return False
    i = 1

    def many(types):
        nonlocal i
        n = i
        while i < len(seq) and seq[i] in types:
            i += 1
        return i - n
    many(KEY)
    while i < len(seq) and seq[i] in ('U', 'A'):
        i += 1
        many(CERT)
    while version >= 4 and i < len(seq) and seq[i] == 'S':
        i += 1
        if not many((0x18,)):
            return False
        many((0x28,))
    return i == len(seq)


def valid(d, version, hi=3):
    out = ['K'] + d.list(0, 3, lambda d: d.choice(KEY), 1)
    for _ in range(d.size(0, hi, 2)):
        out.append(d.choice('UUA' if version >= 4 else 'U'))
        out += d.list(0, 3, lambda d: d.choice(CERT), 1)
    if version >= 4:
        for _ in range(d.size(0, 2, 1)):
            out.append('S')
            out += [0x18] * d.weighted([(4, 1), (1, 2)])
            out += [0x28] * d.weighted([(3, 0), (2, 1), (1, 2)])
    return out


def symbol(d):
    return d.choice(COMMON if d.draw(3) else SYMBOLS)


def sequence(d, version):
    k = d.draw(6)
    if k == 0:
        d.label('valid')
        return valid(d, version)
    if k == 1:
        d.label('arbitrary')
        out = [] if d.draw(6) == 0 else ['K']
        return out + d.list(0, 8, lambda d: symbol(d), 4)
    d.label('changed')
    # (a subkey is valid for other versions)
    out = valid(d, d.choice([4, version]))
    for _ in range(d.weighted([(6, 1), (3, 2), (1, 3)])):
        i = d.draw(len(out) + 1)
        op = d.draw(5)
        if op == 0:
            out.insert(i, symbol(d))
        elif i < len(out) and op == 1:
            del out[i]
        elif i < len(out) and op == 2:
            out.insert(d.draw(len(out) + 1), out[i])
        elif i < len(out) and op == 3:
            out.insert(d.draw(len(out)), out.pop(i))
        elif i < len(out):
            out[i] = symbol(d)
    return out


def with_trust(d, seq):
    if d.draw(4):
        return seq
    d.label('trust packets')
    out = []
    for s in seq:
        out.append(s)
        while d.bool(0.4):
            out.append('T')
    if d.draw(8) == 0:
        out.insert(0, 'T')
    return out


K1 = keys.SMALL[0]
UNPROTECTED = b'\0' + keys.Protection().protect(K1.secret_numbers(), b'')
FOREIGN = [(11, b'b\0\0\0\0\0data'), (61, b'comment'),
           (16, b'comment'), (60, b'private'), (19, b'\0' * 20),
           (4, b'\3\0\1\1' + b'\0' * 8 + b'\1'), (8, b'\0data'), (9, b'data'),
           (18, b'\1data'), (1, b'\3' + b'\0' * 8 + b'\1\0\x08\xff'),
           (3, b'\4\x09\0\2')]


def packet(d, kind, s, version):
    other = 'secret' if kind == 'public' else 'public'
    fmt = d.choice(['new', 'old'])
    if s in ('K', 'k', 'S', 's'):
        k = kind if s in 'KS' else other
        tag = (tkeys.PRIMARY if s in 'Kk' else tkeys.SUBKEY)[k]
        body = K1.public_body(d.int(0, 2 ** 31), version=version
                              if s in 'Kk' else 4)
        if k == 'secret':
            body += UNPROTECTED
    elif s == 'U':
        tag, body = 13, tkeys.uid_body(d)
    elif s == 'A':
        tag, body = 17, tkeys.attr_body(d)
    elif s == 'T':
        tag, body = 12, d.bytes(d.choice([1, 2, 6]))
    elif s == 'X':
        tag, body = d.choice(FOREIGN)
    else:
        tag, body = 2, tkeys.simple_sig(d, s)
    return tkeys.header(fmt, tag, body)


def read(d, kind, data, first='K'):
    # (read_key also reads the other kind)
    if first == 'K' and d.draw(4) == 0:
        d.label('read_key')
        return shortcuts.read_key(data)
    return CLASS[kind].from_packets(
        parsers.parse_binary_packet_data(bytearray(data)))


def show(seq):
    return ' '.join(s if isinstance(s, str) else '%02x' % s for s in seq)


@suite.prop(quick=6000, thorough=200000)
def grammar(d):
    """grammar: accepted exactly when derivable"""
    kind = d.choice(['public', 'secret'])
    version = d.weighted([(5, 4), (1, 3), (1, 2)])
    seq = with_trust(d, sequence(d, version))
    if version < 4 and 'A' in seq:
        # not defined for these versions
        d.reject()
    d.note('key', '%s, version %d: %s' % (kind, version, show(seq)))
    d.nontrivial(len(seq) > 2)
    packets = [packet(d, kind, s, version) for s in seq]
    expected = derivable(seq, version)
    d.label('derivable' if expected else 'not derivable')
    try:
        key = read(d, kind, b''.join(packets), (seq or ['X'])[0])
    except Exception as e:
        if expected:
            raise Violation('a key of the standard was refused: %s: %r' % (
                show(seq), e))
        return
    check(expected, 'accepted as a key: ' + show(seq))
    check(type(key) is CLASS[kind], 'class', type(key))
    packets = [p for p, s in zip(packets, seq) if s != 'T']
    eq([bytes(p) for p in key.to_packets()], packets, 'packets of the key')
    eq((len(key.user_ids), len(key.user_attributes), len(key.subkeys)),
       tuple(seq.count(x) for x in 'UAS'), 'numbers of elements')


@suite.prop(quick=1500, thorough=20000)
def foreign(d):
    """foreign: any packet that is not part of a key is refused wherever it
    is"""
    kind = d.choice(['public', 'secret'])
    seq = valid(d, 4)
    packets = [packet(d, kind, s, 4) for s in seq]
    tag, body = d.choice(FOREIGN + [
        (d.int(20, 59), d.bytes(d.int(1, 9))), (62, b'x'),
        (tkeys.PRIMARY['public'], K1.public_body()),
        (tkeys.PRIMARY['secret'], K1.public_body() + UNPROTECTED),
        (2, tkeys.simple_sig(d, d.choice(OTHER_SIGS + (0x60, 0xff))))])
    i = d.draw(len(packets) + 1)
    if i == 0 and (tag == 2 or tag == tkeys.PRIMARY[kind]):
        i = 1
    d.note('key', show(seq))
    d.note('foreign', (tag, i))
    d.label('tag %d' % tag)
    d.nontrivial(len(seq) > 1)
    packets.insert(i, tkeys.header('new', tag, body))
    data = b''.join(packets)
    try:
        read(d, kind, data)
    except Exception:
        return
    raise Violation('a key with packet %d at %d was accepted' % (tag, i))
