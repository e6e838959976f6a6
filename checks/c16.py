"""C16 Canonical text"""
import datetime

from vlib.engine import Suite, check, eq, Violation
from vlib import keys, ref

from pgp import message, exceptions, signature as sigmod
from pgp.packets import packets, parsers
from pgp import transferrable_keys

suite = Suite('C16', 'Texts made of short runs of words, CR, LF, CRLF, '
              'white space and non-ASCII characters in every mixture, also at '
              'both ends. Non-trivial: the text contains a line ending.')

T = datetime.datetime(2014, 5, 1)


def text(d, lo=0, hi=30):
    out = []
    for _ in range(d.size(lo, hi, 8)):
        k = d.draw(8)
        if k == 0:
            out.append('\n')
        elif k == 1:
            out.append('\r\n')
        elif k == 2:
            out.append('\r')
        elif k == 3:
            out.append(d.choice([' ', '\t', '  ', '- ', '-----', 'From ']))
        elif k == 4:
            out.append(d.char())
        elif k == 5:
            out.append(d.choice('é日\u2028\x85\x0b\x0c\x1c\x1d\x1e\u2029𝄞\0'))
        else:
            out.append(d.text(1, 4, 'abc.'))
    return ''.join(out)


def canonical(b):
    """octet by octet"""
    out = bytearray()
    prev = None
    for c in b:
        if c == 10:
            if prev != 13:
                out += b'\r\n'
        elif c == 13:
            out += b'\r\n'
        else:
            out.append(c)
        prev = c
    return bytes(out)


def restyle(d, s):
    """the same text with other line endings"""
    lines = s.replace('\r\n', '\n').replace('\r', '\n').split('\n')
    out = lines[0]
    for ln in lines[1:]:
        e = d.choice(['\r\n', '\n', '\r'])
        if e == '\n' and out.endswith('\r'):
            e = '\r\n'
        out += e + ln
    # "\r" followed by an empty line written as "\n" would be one ending
    if canonical(out.encode('utf8')) != canonical(s.encode('utf8')):
        return '\r\n'.join(lines)
    return out


def msg(s):
    return message.TextMessage(s, 'f', T)


@suite.prop(quick=8000, thorough=200000)
def signable(d):
    """The signed data of a text, for both kinds of document signature."""
    s = text(d)
    d.note('text', s)
    d.nontrivial('\n' in s or '\r' in s)
    raw = s.encode('utf8')
    m = msg(s)
    v = d.choice([3, 4])
    eq(bytes(m.to_signable_data(1, v)), canonical(raw), 'canonical text')
    eq(bytes(m.to_signable_data(0, v)), raw, 'data of a binary signature')
    eq(m.data, s, 'the message itself')
    r = restyle(d, s)
    eq(bytes(msg(r).to_signable_data(1, v)), canonical(raw),
       'canonical text with other line endings')
    b = message.BinaryMessage(raw, 'f', T)
    eq(bytes(b.to_signable_data(0, v)), raw, 'data of a binary message')


@suite.prop(quick=4000, thorough=100000)
def injective(d):
    """Different texts (up to line endings) have different signed data."""
    s = text(d)
    i = d.draw(len(s) + 1)
    k = d.draw(4)
    if k == 0:
        t = s[:i] + d.choice(['\n', ' ', '\r', 'a', '\t']) + s[i:]
    elif k == 1:
        t = s[:i] + s[i + 1:]
    elif k == 2:
        t = s[:i] + d.choice(['\n', ' ', '\r', 'a']) + s[i + 1:]
    else:
        t = s[:i] + s[i:][::-1]
    d.note('texts', (s, t))
    d.nontrivial('\n' in s or '\r' in s)
    norm = [x.replace('\r\n', '\n').replace('\r', '\n') for x in (s, t)]
    a, b = [bytes(msg(x).to_signable_data(1, 4)) for x in (s, t)]
    eq(a == b, norm[0] == norm[1], 'whether two texts have equal signed data')


_SECRET = {}


def secret(k):
    if k.index not in _SECRET:
        body = k.public_body() + b'\0' + keys.Protection().protect(
            k.secret_numbers(), b'')
        key = transferrable_keys.TransferableSecretKey.from_packets(
            parsers.parse_binary_packet_data(
                bytearray(ref.new_packet(5, body))))
        key.unlock('')
        _SECRET[k.index] = key
    return _SECRET[k.index]


@suite.prop(quick=500, thorough=8000)
def verification(d):
    """A text signature survives other line endings and nothing else."""
    k = d.choice([x for x in keys.SMALL if x.kind == 'rsa'])
    key = secret(k)
    pub = key.to_public_key()
    s = text(d, 1)
    d.note('text', s)
    d.nontrivial('\n' in s or '\r' in s)
    h = d.choice([2, 8, 10])
    kind = d.choice(['message', 'str', 'bytes'])
    d.label('signed as ' + kind)

    def item(x):
        return msg(x) if kind == 'message' else x if kind == 'str' else \
            x.encode('utf8')
    it = item(s)
    sig = key.sign(it, 4, 1, h)
    body = bytes(sig.to_packet().content)
    check(keys.verify_sig(k, body, canonical(s.encode('utf8'))),
          'the signature is not over the canonical text')
    r = item(restyle(d, s))
    check(pub.verify(sig, r), 'not verified with other line endings')
    i = d.draw(len(s) + 1)
    t = s[:i] + d.choice(['', 'a', ' ', '\n', '\r']) + s[i + d.draw(2):]
    same = canonical(s.encode('utf8')) == canonical(t.encode('utf8'))
    d.note('other', t)
    try:
        ok = pub.verify(sig, item(t))
    except exceptions.SignatureVerificationFailed:
        ok = False
    eq(bool(ok), same, 'whether the signature verifies for another text')
