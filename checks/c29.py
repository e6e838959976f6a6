"""C29 Grammar of messages"""
import bz2
import hashlib
import warnings
import zlib

from vlib.engine import Suite, Violation, check, eq
from vlib import enc, keys, objects, ref, tkeys

from pgp import message, shortcuts
from pgp.packets import parsers

warnings.simplefilter('ignore')

suite = Suite('C29', 'Trees of packet sequences: literal data, compressed and '
              'encrypted packets holding sequences, session keys, signatures, '
              'one-pass signatures, markers and foreign packets; valid '
              'messages, and valid ones with one to three packets inserted, '
              'removed, repeated, moved or replaced at any level. Oracle: a '
              'recogniser of the RFC 4880 section 11.3 grammar. Non-trivial: '
              'three packets or more.')

OWN = [k for k in keys.RSA if k.bits == 1024][0]
OWN_ID = keys.key_id_of(OWN.public_body(objects.CT, 1))
OTHER = [k for k in keys.RSA if k.bits <= 1100 and k is not OWN][0]
PHRASE = 'pass'
# L literal; C compressed, E encrypted with and D without integrity
# protection: (symbol, sequence inside); p and q: session key for the own and
# another public key, k for a passphrase; S signature, O one-pass signature,
# M marker, X foreign
LEAVES = ['L', 'p', 'q', 'k', 'S', 'O', 'M', 'X']
K1 = keys.SMALL[0]
FOREIGN = [(13, b'user <id@example>'), (12, b'\1'), (19, b'\0' * 20),
           (6, K1.public_body()), (14, K1.public_body()),
           (17, b'\4\x64abc'), (61, b'comment')]


def name(s):
    return s if isinstance(s, str) else s[0]


def parse(seq):
    """-> signatures and session keys in front, core; or None"""
    seq = [(i, s) for i, s in enumerate(seq) if name(s) != 'M']
    sigs = []
    while seq:
        n = name(seq[0][1])
        if n == 'S':
            sigs.append(('S', seq[0][0], None))
            seq = seq[1:]
        elif n == 'O':
            if len(seq) < 3 or name(seq[-1][1]) != 'S':
                return None
            sigs.append(('O', seq[-1][0], seq[0][0]))
            seq = seq[1:-1]
        else:
            break
    esks = []
    while seq and name(seq[0][1]) in 'pqk':
        esks.append(seq[0])
        seq = seq[1:]
    if len(seq) != 1 or name(seq[0][1]) not in ('ED' if esks else 'LCED'):
        return None
    return sigs, esks, seq[0]


def valid(d, depth):
    """a sequence in the grammar"""
    core = d.choice('LLCED' if depth else 'L')
    seq = [core]
    if core != 'L':
        seq = [(core, valid(d, depth - 1))]
        if core in 'ED':
            n = d.int(4, 90) if d.draw(60) == 0 else d.size(0, 3, 1)
            seq = [d.choice('ppkkq') for _ in range(n)] + seq
    for _ in range(d.int(5, 40) if d.draw(60) == 0 else d.size(0, 4, 1)):
        seq = ['S'] + seq if d.bool() else ['O'] + seq + ['S']
    for _ in range(d.weighted([(6, 0), (1, 1), (1, 2)])):
        seq.insert(d.draw(len(seq) + 1), 'M')
    return seq


def symbol(d):
    s = d.choice(LEAVES + ['C', 'E', 'D'])
    return s if s in LEAVES else (s, valid(d, d.draw(2)))


def levels(seq):
    out = [seq]
    for s in seq:
        if not isinstance(s, str):
            out += levels(s[1])
    return out


def change(d, seq):
    out = d.choice(levels(seq))
    i = d.draw(len(out) + 1)
    op = d.draw(6)
    if op == 0:
        out.insert(i, symbol(d))
    elif i < len(out) and op == 1:
        del out[i]
    elif i < len(out) and op == 2:
        # (a tree of its own)
        out.insert(d.draw(len(out) + 1), copy(out[i]))
    elif i < len(out) and op == 3:
        out.insert(d.draw(len(out)), out.pop(i))
    elif i < len(out) and op == 4:
        out[i] = symbol(d)
    elif i < len(out) and not isinstance(out[i], str):
        if d.bool():
            # what is inside in place of the packet
            out[i:i + 1] = out[i][1]
        else:
            del out[i][1][:]


def copy(s):
    return s if isinstance(s, str) else (s[0], [copy(x) for x in s[1]])


def deflate(d, alg, data):
    if alg == 3:
        return bz2.compress(data)
    if alg == 0:
        return data
    o = zlib.compressobj(6, zlib.DEFLATED, -15 if alg == 1 else 15)
    return o.compress(data) + o.flush()


class Case(object):

    def __init__(self, d):
        self.d = d
        self.literals = {}
        # octets of the packets of each level
        self.kept = {}
        self.count = 0

    def build(self, seq):
        """-> octets of each packet of the sequence"""
        d = self.d
        bodies = [None] * len(seq)
        sym = d.choice(enc.SYMS)
        key = d.bytes(ref.KEY_LEN[sym])
        if enc.weak(sym, key):
            d.reject()
        esk = any(name(s) in 'pqk' for s in seq)
        if not esk:
            sym = 1
            key = hashlib.md5(PHRASE.encode()).digest()
        sigs = [i for i, s in enumerate(seq) if name(s) == 'S']
        for i in sigs:
            self.count += 1
            bodies[i] = tkeys.simple_sig(d, d.choice([0, 0, 1]),
                                         ctime=1400000000 + self.count)
        # one-pass signatures say what their signatures say
        parsed = parse(seq)
        pairs = {o: s for kind, s, o in parsed[0] if kind == 'O'} \
            if parsed else {}
        for i, s in enumerate(seq):
            n = name(s)
            if n == 'O':
                b = bodies[pairs[i]] if i in pairs else None
                if b is None:
                    head = bytes([0, 8, 1]) + d.bytes(8)
                elif b[0] == 4:
                    # (the only unhashed subpacket names the issuer)
                    issuer = [v for t, c, v in sub_of(b) if t == 16][0]
                    head = bytes([b[1], b[3], b[2]]) + issuer
                else:
                    head = bytes([b[2], b[16], b[15]]) + b[7:15]
                nested = d.bool() if i + 1 < len(seq) and \
                    name(seq[i + 1]) == 'O' else True
                if nested and d.draw(8) == 0:
                    # "A zero value indicates that the next packet is another
                    #  One-Pass Signature packet"
                    nested = d.int(1, 255)
                tag, body = 4, b'\3' + head + bytes([nested])
            elif n == 'S':
                tag, body = 2, bodies[i]
            elif n == 'L':
                self.count += 1
                raw = b'%d ' % self.count + d.blob(0, 300, 8)
                tag, body = 11, b'b\1x\0\0\0\0' + raw
                self.literals[id(seq), i] = raw
            elif n == 'M':
                tag, body = 10, b'PGP'
            elif n == 'X':
                tag, body = d.choice(FOREIGN)
            elif n == 'C':
                alg = d.draw(4)
                tag, body = 8, bytes([alg]) + deflate(
                    d, alg, b''.join(self.build(s[1])))
            elif n in 'pq':
                k = OWN if n == 'p' else OTHER
                tag, body = 1, enc.pkesk_body(
                    k, OWN_ID if n == 'p' else keys.key_id_of(
                        k.public_body(objects.CT, 1)), sym, key, enc.rnd(d),
                    1)
            elif n == 'k':
                s2k = d.choice([0, 1, 3]), 2, d.bytes(8), 5
                tag, body = 3, enc.skesk_body(9, s2k, enc.skesk_esk(
                    9, enc.s2k_key(9, s2k, PHRASE.encode()), sym, key))
            else:
                prefix = d.bytes(ref.BLOCK_LEN[sym])
                tag = 18 if n == 'E' else 9
                body = (enc.seipd_body if n == 'E' else enc.sed_body)(
                    sym, key, b''.join(self.build(s[1])), prefix)
            bodies[i] = ref.packet('old' if tag < 16 and d.bool() else 'new',
                                   tag, body)
        self.kept[id(seq)] = bodies
        return bodies

    def read(self, seq, way):
        """the message, or None if it was refused"""
        try:
            return way()
        except Exception as e:
            if parse(seq) is not None:
                raise Violation('a message of the standard was refused: '
                                '%s: %r' % (show(seq), e))
            return None

    def judge(self, seq, bodies, m):
        """compare what was read with the sequence"""
        d = self.d
        parsed = parse(seq)
        check(parsed is not None, 'accepted as a message: ' + show(seq))
        sigs, esks, (i, core) = parsed
        wanted = ref.read_packets(b''.join(
            b for s, b in zip(seq, bodies) if name(s) != 'M'))
        again = ref.read_packets(b''.join(map(bytes, m.to_packets())))
        eq([(t, b[:-1] if t == 4 else b) for _, t, b in again],
           [(t, b[:-1] if t == 4 else b) for _, t, b in wanted],
           'the packets, written again')
        got = []
        while isinstance(m, message.SignedMessageWrapper):
            got += [('O' if m.one_pass else 'S',
                     bytes(s.to_packet().content)) for s in m.signatures]
            m = m.get_message()
        eq(got, [(k, ref.read_packets(bodies[j])[0][2])
                 for k, j, _ in sigs], 'signatures from the outermost in')
        n = name(core)
        check(type(m) is {'L': message.BinaryMessage,
                          'C': message.CompressedMessageWrapper}.get(
            n, message.EncryptedMessageWrapper), 'kind of the message',
            (m, show(seq)))
        if n == 'L':
            eq(bytes(m.data), self.literals[id(seq), i], 'content')
            return
        if n == 'C':
            way = m.get_message
        else:
            eq(len(m.session_keys), len(esks) or 1, 'session keys')
            eq(m.message_data_obj.integrity_protected, n == 'E',
               'integrity protection')
            kinds = [name(s) for _, s in esks]
            with_key = 'p' in kinds and ('k' not in kinds or d.bool())
            if kinds and not with_key and 'k' not in kinds:
                # for somebody else
                try:
                    got = m.get_message(objects.secret(OWN, 1))
                except Exception:
                    d.label('not for us')
                    return
                raise Violation('opened without a session key', show(seq))
            by = objects.secret(OWN, 1) if with_key else PHRASE

            def way():
                return m.get_message(by)
        inner = core[1]
        got = self.read(inner, way)
        if got is None:
            d.label('refused inside')
            return
        check(parse(inner) is not None, 'accepted inside %s: %s' % (
            n, show(inner)))
        self.judge(inner, self.kept[id(inner)], got)


def sub_of(body):
    """subpackets of a version 4 signature"""
    o, out = 4, []
    for _ in range(2):
        n = int.from_bytes(body[o:o + 2], 'big')
        out += [(t, c, v) for t, c, v in subpackets(body[o + 2:o + 2 + n])]
        o += 2 + n
    return out


def subpackets(b):
    # (all are short here)
    while b:
        n = b[0]
        yield b[1] & 127, b[1] >> 7, b[2:1 + n]
        b = b[1 + n:]


def show(seq):
    return ' '.join(s if isinstance(s, str) else '%s(%s)' % (s[0], show(s[1]))
                    for s in seq)


def sequence(d):
    k = d.draw(6)
    if k == 0:
        d.label('valid')
        return valid(d, 2)
    if k == 1:
        d.label('arbitrary')
        return d.list(0, 6, symbol, 3)
    d.label('changed')
    seq = valid(d, 2)
    for _ in range(d.weighted([(6, 1), (3, 2), (1, 3)])):
        change(d, seq)
    return seq


@suite.prop(quick=3000, thorough=100000)
def grammar(d):
    """grammar: accepted exactly when derivable, at every level"""
    seq = sequence(d)
    d.note('message', show(seq))
    d.nontrivial(sum(map(len, levels(seq))) > 2)
    c = Case(d)
    bodies = c.build(seq)
    data = b''.join(bodies)
    expected = all(parse(s) is not None for s in levels(seq))
    d.label('derivable' if expected else 'not derivable')
    d.label('%d levels' % len(levels(seq)))

    def way():
        if d.bool():
            return shortcuts.read_message(data)
        return message.open_pgp_message_from_packets(
            parsers.parse_binary_packet_data(bytearray(data)))
    m = c.read(seq, way)
    if m is not None:
        c.judge(seq, bodies, m)


@suite.prop(quick=1500, thorough=30000)
def foreign(d):
    """foreign: any packet that is not part of a message is refused wherever
    it is"""
    seq = valid(d, 1)
    c = Case(d)
    bodies = c.build(seq)
    tag, body = d.choice(FOREIGN + [
        (d.int(20, 60), d.bytes(d.int(1, 9))), (62, b'x'), (63, b'xy'),
        (5, K1.public_body() + b'\0' + keys.Protection().protect(
            K1.secret_numbers(), b'')),
        (7, K1.public_body() + b'\0' + keys.Protection().protect(
            K1.secret_numbers(), b''))])
    i = d.draw(len(bodies) + 1)
    d.note('message', show(seq))
    d.note('foreign', (tag, i))
    d.label('tag %d' % tag)
    d.nontrivial(len(seq) > 1)
    bodies.insert(i, ref.packet('new', tag, body))
    data = b''.join(bodies)
    if d.bool():
        # inside a compressed packet
        data = ref.packet('new', 8, bytes([1]) + deflate(d, 1, data))
    try:
        m = shortcuts.read_message(data)
        while isinstance(m, message.CompressedMessageWrapper):
            m = m.get_message()
    except Exception:
        return
    if isinstance(m, message.LiteralMessage) or True:
        raise Violation('a message with packet %d at %d was accepted' % (
            tag, i))
