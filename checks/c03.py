"""C03 ASCII armor"""
import base64
import re

from vlib.engine import Suite, check, eq
from vlib import ref

from pgp import armor
from pgp.packets import constants as C
from pgp.packets import packets
from pgp.packets import parsers

suite = Suite('C03', 'Random binary data of 0..2000 octets, every data type, '
              'part numbers, header values (printable single-line text, '
              'non-ASCII included) and layouts; mutations of the body, '
              'checksum, head and tail lines. Non-trivial: data is non-empty '
              'or a header is present. Oracle: an armor reader/writer with a '
              'bitwise CRC-24 written from RFC 4880 section 6.')

TYPES = {armor.PGP_MESSAGE: 'PGP MESSAGE',
         armor.PGP_PUBLIC_KEY_BLOCK: 'PGP PUBLIC KEY BLOCK',
         armor.PGP_PRIVATE_KEY_BLOCK: 'PGP PRIVATE KEY BLOCK',
         armor.PGP_SIGNATURE: 'PGP SIGNATURE'}
HEADERS = [('version', 'Version'), ('comment', 'Comment'),
           ('message_id', 'MessageID'), ('hash_algorithms', 'Hash'),
           ('charset', 'Charset')]
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def value(d):
    n = d.size(0, 30, 8)
    out = []
    for _ in range(n):
        k = d.draw(8)
        if k < 5:
            out.append(chr(d.int(0x21, 0x7e)))
        elif k == 5:
            out.append(d.choice(': -='))
        elif k == 6:
            out.append(d.choice(u'\xe9\xfc\u4e2d\U0001f600'))
        else:
            # no line end in the sense of the standard
            out.append(d.choice(u'\t\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'
                                u'\xa0'))
    return ''.join(out)


def extra_key(d):
    if d.draw(6) == 0:
        # header keys are case-sensitive
        return d.choice(['version', 'COMMENT', 'comment', 'Messageid',
                         'hash', 'CharSet', 'Version2', 'Comment-2'])
    return 'X-' + d.text(1, 8, 'abcdefXYZ-0123')


def gen(d):
    kw = {}
    t = d.choice(sorted(TYPES))
    data = d.blob(0, 2000, mean=120, edges=[0, 1, 2, 3, 48, 54, 57, 108])
    if t == armor.PGP_MESSAGE and d.bool(0.4):
        kw['part'] = d.edge_int(1, 1000)
        if d.bool():
            kw['total_parts'] = d.edge_int(1, 1000)
    for k, _ in HEADERS:
        if d.bool(0.25):
            kw[k] = value(d)
    extra = {}
    for _ in range(d.size(0, 3, 1) if d.bool(0.4) else 0):
        extra[extra_key(d)] = value(d)
    if extra:
        kw['extra_headers'] = extra
    d.note('type', t)
    d.note('data', data)
    d.note('kw', kw)
    d.nontrivial(bool(data) or bool(kw))
    if kw:
        d.label('with headers or part')
    if extra:
        d.label('with unknown headers')
    return t, data, kw


def head(t, kw):
    s = TYPES[t]
    if kw.get('part') is not None:
        s += ', PART %d' % kw['part']
        if kw.get('total_parts') is not None:
            s += '/%d' % kw['total_parts']
    return s


def ref_armor(t, data, kw, width=72, nl='\n', lead=0, order=None,
              blank=''):
    lines = [''] * lead
    h = head(t, kw)
    lines.append('-----BEGIN %s-----' % h)
    hs = [(n, kw[k]) for k, n in HEADERS if kw.get(k) is not None]
    hs += list((kw.get('extra_headers') or {}).items())
    if order:
        hs = order(hs)
    for n, v in hs:
        lines.append('%s: %s' % (n, v))
    lines.append(blank)
    e = base64.b64encode(data).decode()
    lines += [e[i:i + width] for i in range(0, len(e), width)]
    lines.append('=' + base64.b64encode(
        ref.crc24(data).to_bytes(3, 'big')).decode())
    lines.append('-----END %s-----' % h)
    return nl.join(lines) + nl


def same(a, t, data, kw, what):
    eq(a.data_type, t, what + ': data type')
    eq(a.data, data, what + ': data')
    eq(bytes(a), data, what + ': bytes()')
    eq(a.part, kw.get('part'), what + ': part')
    eq(a.total_parts, kw.get('total_parts'), what + ': total parts')
    for k, n in HEADERS:
        eq(getattr(a, k), kw.get(k), what + ': ' + n)
    eq(dict(a.extra_headers or {}), kw.get('extra_headers') or {},
       what + ': unknown headers')


@suite.prop(quick=2000)
def round_trip(d):
    t, data, kw = gen(d)
    a = armor.ASCIIArmor(t, data, **kw)
    text = str(a)
    same(armor.ASCIIArmor.from_ascii(text), t, data, kw, 'read back')
    eq(str(armor.ASCIIArmor.from_ascii(text)), text, 'armored twice')
    check(armor.is_armor(text), 'armor not recognised')
    check(armor.is_armor(text.encode('utf8')), 'armor bytes not recognised')


@suite.prop(quick=1500)
def written_form(d):
    t, data, kw = gen(d)
    text = str(armor.ASCIIArmor(t, data, **kw))
    lines = text.split('\n')
    eq(lines[-1], '', 'text after last line end')
    lines.pop()
    eq(lines[0], '-----BEGIN %s-----' % head(t, kw), 'head line')
    eq(lines[-1], '-----END %s-----' % head(t, kw), 'tail line')
    i = lines.index('')
    want = ['%s: %s' % (n, kw[k]) for k, n in HEADERS
            if kw.get(k) is not None]
    want += ['%s: %s' % x for x in (kw.get('extra_headers') or {}).items()]
    eq(sorted(lines[1:i]), sorted(want), 'header lines')
    body = lines[i + 1:-2]
    for l in body:
        check(0 < len(l) <= 76, 'data line length', len(l))
        check(all(c in B64 + '=' for c in l), 'character in data line', l)
    for l in body[:-1]:
        eq(len(l), len(body[0]), 'width of data line')
    eq(base64.b64decode(''.join(body)), data, 'data lines decode')
    eq(lines[-2], '=' + base64.b64encode(
        ref.crc24(data).to_bytes(3, 'big')).decode(), 'checksum line')


@suite.prop(quick=1500)
def other_layouts(d):
    """Armor laid out by another writer."""
    t, data, kw = gen(d)
    width = d.choice([4 * d.int(1, 19), d.int(1, 76)])
    nl = d.choice(['\n', '\r\n'])
    lead = d.size(0, 3, 1)
    # "a blank (zero-length, or containing only whitespace) line"
    blank = d.choice(['', '', ' ', '\t', '   '])
    if blank:
        d.label('blank line of white space')
    text = ref_armor(t, data, kw, width, nl, lead, d.shuffle, blank)
    if d.bool(0.3):
        text += d.choice(['', nl, nl + 'trailing text' + nl])
    d.note('layout', (width, nl, lead))
    d.label('CRLF' if nl != '\n' else 'LF')
    same(armor.ASCIIArmor.from_ascii(text), t, data, kw, 'other layout')


@suite.prop(quick=3000)
def corruption(d):
    """Change, drop, insert or swap characters in the data and checksum
    lines: either refused or data and checksum really agree."""
    t, data, kw = gen(d)
    if not data:
        data = b'\x01'
    text = ref_armor(t, data, kw)
    start = text.index('\n\n') + 2
    end = text.rindex('-----END')
    body = list(text[start:end])
    kind = d.choice(['subst', 'subst', 'subst', 'drop', 'insert', 'swap',
                     'checksum'])
    chars = [i for i, c in enumerate(body) if c not in '\n=']
    if kind == 'checksum':
        chars = chars[-4:]
        kind = 'subst'
    i = chars[d.draw(len(chars))]
    if kind == 'subst':
        body[i] = B64[(B64.index(body[i]) + d.int(1, 63)) % 64]
    elif kind == 'drop':
        del body[i]
    elif kind == 'insert':
        body.insert(i, d.choice(B64))
    else:
        j = chars[d.draw(len(chars))]
        body[i], body[j] = body[j], body[i]
    new = text[:start] + ''.join(body) + text[end:]
    d.note('kind', kind)
    d.note('position', i)
    d.label(kind)
    lines = ''.join(body).split('\n')
    d.nontrivial(new != text)
    try:
        raw = base64.b64decode(''.join(lines[:-2]), validate=True)
        ck = base64.b64decode(lines[-2][1:], validate=True)
        valid = len(ck) == 3 and \
            ref.crc24(raw) == int.from_bytes(ck, 'big')
    except ValueError:
        valid = False
        raw = None
    try:
        a = armor.ASCIIArmor.from_ascii(new)
    except Exception:
        check(not valid, 'valid armor refused', new)
        return
    check(raw is None or valid, 'corrupted armor accepted', new)
    if valid:
        eq(a.data, raw, 'data')
    else:
        # not decodable strictly; whatever was returned must match
        ck = base64.b64decode(lines[-2][1:])
        eq(ref.crc24(a.data), int.from_bytes(ck[:3], 'big'),
           'checksum of accepted data')


@suite.prop(quick=1200)
def bit_flips(d):
    """Flip 1..3 bits of the data or of the checksum before encoding."""
    t, data, kw = gen(d)
    if not data:
        data = b'\x00\x01'
    crc = ref.crc24(data)
    blob = bytearray(data + crc.to_bytes(3, 'big'))
    for _ in range(d.int(1, 3)):
        i = d.draw(len(blob) * 8)
        blob[i // 8] ^= 1 << (i % 8)
    new, ncrc = bytes(blob[:-3]), int.from_bytes(blob[-3:], 'big')
    good = base64.b64encode(data).decode()
    text = '-----BEGIN %s-----\n\n%s\n=%s\n-----END %s-----\n' % (
        head(t, {}), base64.b64encode(new).decode(),
        base64.b64encode(bytes(blob[-3:])).decode(), head(t, {}))
    agree = ref.crc24(new) == ncrc
    d.nontrivial(not agree)
    try:
        a = armor.ASCIIArmor.from_ascii(text)
    except Exception:
        check(not agree, 'matching checksum refused', text)
        return
    check(agree, 'mismatched checksum accepted', text)
    eq(a.data, new, 'data')


@suite.prop(quick=1200)
def head_tail(d):
    """Head and tail must be well-formed and agree."""
    t, data, kw = gen(d)
    text = ref_armor(t, data, kw)
    lines = text.split('\n')[:-1]
    kind = d.choice(['type', 'part', 'dash', 'drop', 'word', 'head', 'case'])
    tail = lines[-1]
    if kind == 'type':
        other = d.choice([x for x in TYPES if x != t])
        lines[-1] = '-----END %s-----' % TYPES[other]
    elif kind == 'part':
        k2 = dict(kw)
        k2['part'] = (kw.get('part') or 0) + 1
        lines[-1] = '-----END %s-----' % head(armor.PGP_MESSAGE, k2)
    elif kind == 'dash':
        lines[-1] = d.choice([tail[1:], tail[:-1], '-' + tail[:-1] + 'x'])
    elif kind == 'drop':
        lines.pop()
    elif kind == 'word':
        lines[-1] = tail.replace('END', 'BEGIN')
    elif kind == 'case':
        lines[-1] = tail.lower()
    else:
        lines[0] = d.choice([
            lines[0].replace('PGP', 'XYZ'), lines[0][1:], lines[0][:-1],
            lines[0].replace('BEGIN ', 'BEGIN'), 'hello'])
    d.note('kind', kind)
    d.label(kind)
    d.nontrivial()
    new = '\n'.join(lines) + '\n'
    try:
        a = armor.ASCIIArmor.from_ascii(new)
    except Exception:
        return
    check(False, 'armor with wrong head or tail accepted', new)


@suite.prop(quick=500)
def packets_through_armor(d):
    items = d.list(1, 4, lambda d: (d.int(20, 59), d.blob(0, 300, mean=40)),
                   mean=2)
    d.note('items', items)
    d.nontrivial()
    raw = b''.join(bytes(packets.Packet(C.NEW_PACKET_HEADER_TYPE, t, b))
                   for t, b in items)
    got = [(p.type, bytes(p.content)) for p in parsers.parse_ascii_packet_data(
        str(armor.ASCIIArmor(armor.PGP_MESSAGE, raw)))]
    eq(got, items, 'packets read from armor')


@suite.prop(quick=800)
def recognition(d):
    """Binary packet data is never mistaken for armor."""
    b = bytes([d.int(0x80, 0xff)]) + d.blob(0, 40, mean=8)
    d.note('b', b)
    d.nontrivial()
    eq(bool(armor.is_armor(b)), False, 'is_armor of binary data')
    s = d.text(0, 12)
    eq(bool(armor.is_armor(s)), s.startswith('-----'), 'is_armor of %r' % s)
