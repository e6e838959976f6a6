"""C26 Messages keep their content through every nesting and serialisation"""
import bz2
import datetime
import os
import re
import warnings
import zlib

from vlib.engine import Suite, Violation, check, eq
from vlib import clock, enc, gpg, keys, objects, ref
from checks import c12

from pgp import armor, message, shortcuts
from pgp.packets import constants as C
from pgp.packets import packets as P
from pgp.packets import parsers

warnings.simplefilter('ignore')

suite = Suite('C26', 'Text and binary messages of any content, file name and '
              'date in up to five layers of compression (every algorithm and '
              'level), signatures (one to seven, one-pass or not, versions 3 '
              'and 4) and encryption (for keys and passphrases, with and '
              'without integrity protection); written with either header '
              'format, armored, in files; the same from an independent '
              'writer with every framing, and from gpg. Oracles: an '
              'independent reader and writer (packet framing, zlib and bz2 '
              'called directly, libgcrypt), gpg. Non-trivial: one layer or '
              'more.')

NEW, OLD = C.NEW_PACKET_HEADER_TYPE, C.OLD_PACKET_HEADER_TYPE
SIGNERS = [k for k in keys.POOL if k.bits <= 1100 and k.kind != 'elg']
ALPHABET = ['a', 'Z', ' ', '\n', '\r\n', '\r', '\t', '\u00e9', '\u20ac',
            '\U0001f600', '\0', '\ufeff', '\u2028', '\x1a', '-----BEGIN', '.']
ZONES = ['UTC0', 'CET-1CEST', 'EST5EDT', 'XXX-12:45', 'YYY9:30']


def name_of(d):
    s = d.text(0, 40, 'abc. /\\\u00e9\u20ac', mean=5) if d.draw(10) else \
        d.choice(['_CONSOLE', 'x' * 255, '\u00e9' * 127, '\0'])
    return s


def a_literal(d):
    """-> message object, (kind, content, file name, time)"""
    t = d.edge_int(0, 2 ** 32 - 1, (0, 1, 1400000000, 2 ** 31 - 1, 2 ** 31))
    when = datetime.datetime.fromtimestamp(t)
    name = name_of(d)
    if d.bool():
        s = ''.join(d.choice(ALPHABET) for _ in range(d.size(0, 80, 12)))
        if d.draw(8) == 0:
            s = 'a' * d.edge_int(180, 9000, (185, 186, 8377, 8378))
        m, what = message.TextMessage(s, name, when), ('text', s, name, t)
    else:
        b = d.blob(0, 70000, 60, edges=[0, 184, 185, 186, 512, 8376, 8377,
                                        8378, 65535, 65536])
        m = message.BinaryMessage(bytearray(b) if d.bool() else b, name, when)
        what = ('binary', b, name, t)
    d.note('literal', what)
    d.label(what[0])
    return m, what


def body_of(what):
    """the literal data packet as it should be"""
    kind, data, name, t = what
    name = name.encode('utf8')
    return (b'u' if kind == 'text' else b'b') + bytes([len(name)]) + name + \
        t.to_bytes(4, 'big') + (data.encode('utf8') if kind == 'text'
                                else data)


class Layer(object):
    """what one layer is made of"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s %r' % (self.kind, {k: v for k, v in sorted(
            self.__dict__.items()) if k != 'kind'})


def wrap(d, m, layers, lo=0):
    """one more layer around the message"""
    kinds = ['compressed', 'compressed', 'encrypted', 'passphrase']
    if not any(l.kind in ('encrypted', 'passphrase') for l in layers):
        kinds += ['signed', 'signed', 'signed']
    kind = d.choice(kinds)
    if kind == 'compressed':
        layer = Layer(kind, alg=d.draw(4), level=d.int(1, 9))
        return m.compress(layer.alg, layer.level), layer
    if kind == 'signed':
        n = d.weighted([(8, 1), (2, 2), (2, 3), (1, d.int(4, 7))])
        one_pass = d.bool(0.6)
        sigs, made = [], []
        for _ in range(n):
            k = d.choice(SIGNERS)
            alg = d.choice(objects.SIGNING_ALGS[k.kind])
            sv, t = d.choice([3, 4, 4]), d.choice([0, 1])
            h = d.choice(objects.hashes(k))
            made.append((k, alg, sv, t, h))
            key = objects.secret(k, alg)
            if n == 1 and d.bool():
                layer = Layer(kind, one_pass=one_pass, made=made)
                return m.sign(key, sv, t, h, one_pass), layer
            sigs.append(key.sign(m, sv, t, h))
        return message.SignedMessageWrapper(sigs, m, one_pass), \
            Layer(kind, one_pass=one_pass, made=made)
    sym, integrity = d.choice(enc.SYMS), d.draw(4) > 0
    if kind == 'encrypted':
        ks = [d.choice(c12.CRYPT) for _ in range(d.int(1, 2))]
        layer = Layer(kind, sym=sym, integrity=integrity, ks=ks)
        algs = [1 if k.kind == 'rsa' else 16 for k in ks]
        return m.public_key_encrypt(
            sym, public_keys=[objects.public(k, a)
                              for k, a in zip(ks, algs)],
            integrity_protect=integrity), layer
    layer = Layer(kind, sym=sym, integrity=integrity,
                  phrase=d.text(lo, 8, 'ab \u00e9'))
    return m.symmetric_encrypt(sym, layer.phrase, integrity_protect=integrity,
                               s2k_type=d.choice([0, 1, 3]),
                               s2k_hash_algorithm=d.choice([1, 2, 8, 10]),
                               s2k_count=1024), layer


def opener(layer):
    if layer.kind == 'passphrase':
        return layer.phrase
    if layer.kind == 'encrypted':
        k = layer.ks[-1]
        return objects.secret(k, 1 if k.kind == 'rsa' else 16)
    return None


def merged(layers):
    """signatures without one-pass packets next to signatures can not be told
    apart"""
    out = []
    for l in layers:
        if (
                out and l.kind == out[-1].kind == 'signed'
                and not l.one_pass and not out[-1].one_pass
                ):
            out[-1] = Layer('signed', one_pass=False,
                            made=l.made + out[-1].made)
        else:
            out.append(l)
    return out


def inflate(alg, data):
    if alg == 0:
        return data
    if alg == 3:
        o = bz2.BZ2Decompressor()
        out = o.decompress(data)
    else:
        o = zlib.decompressobj(-15 if alg == 1 else 15)
        out = o.decompress(data) + o.flush()
    check(o.eof and not o.unused_data, 'compressed data end early or go on')
    return out


def deflate(d, alg, data):
    if alg == 0:
        return data
    if alg == 3:
        return bz2.compress(data, d.int(1, 9))
    o = zlib.compressobj(d.int(0, 9), zlib.DEFLATED, -d.int(9, 15)
                         if alg == 1 else d.int(9, 15))
    cut = d.draw(len(data) + 1)
    return o.compress(data[:cut]) + (o.flush(zlib.Z_SYNC_FLUSH)
                                     if d.bool() else b'') + \
        o.compress(data[cut:]) + o.flush()


def peel(data, layers, what, fmt=None):
    """the independent reader: the octets have these layers (the outermost
    last) and the content; fmt: expected header format of the outer packets"""
    for i, layer in enumerate(reversed(layers)):
        pkts = ref.read_packets(data)
        tags = [t for _, t, _ in pkts]
        if fmt is not None and i == 0:
            for f, t, _ in pkts:
                if layer.kind != 'signed' or t in (2, 4):
                    eq(f, fmt if t < 16 else 'new', 'header format')
        if layer.kind == 'compressed':
            eq(tags, [8], 'packets of a compressed message')
            eq(pkts[0][2][0], layer.alg, 'compression algorithm')
            data = inflate(layer.alg, pkts[0][2][1:])
        elif layer.kind == 'signed':
            n = len(layer.made)
            if layer.one_pass:
                eq(tags[:n] + tags[-n:], [4] * n + [2] * n,
                   'packets of a signed message')
                ops = [b for _, _, b in pkts[:n]]
                sigs = [b for _, _, b in pkts[:-n - 1:-1]]
                for op, s, (k, alg, sv, t, h) in zip(ops, sigs, layer.made):
                    kid = keys.key_id_of(k.public_body(objects.CT, alg))
                    eq(op[:-1], bytes([3, t, h, alg]) + kid,
                       'one-pass signature packet')
                    eq(s[0], sv, 'signature version')
                eq([b[-1] for b in ops], [0] * (n - 1) + [1],
                   'nesting flags of the one-pass signature packets')
                inside = pkts[n:-n]
            else:
                eq(tags[:n], [2] * n, 'packets of a signed message')
                inside = pkts[n:]
                sigs = [b for _, _, b in pkts[:n]]
            for s, (k, alg, sv, t, h) in zip(sigs, layer.made):
                if sv == 4:
                    eq(tuple(s[:4]), (4, t, alg, h), 'signature')
                else:
                    eq((s[0], s[2], s[15], s[16]), (3, t, alg, h),
                       'signature')
            data = b''.join(ref.packet(f, t, b) for f, t, b in inside)
        else:
            if layer.kind == 'encrypted':
                eq(tags, [1] * len(layer.ks) + [18 if layer.integrity else 9],
                   'packets of an encrypted message')
                sym, key = enc.pkesk_open(layer.ks[-1], pkts[-2][2])[2:]
            else:
                eq(tags, [3, 18 if layer.integrity else 9],
                   'packets of an encrypted message')
                sym, key = enc.skesk_open(pkts[0][2],
                                          layer.phrase.encode('utf8'))
            eq(sym, layer.sym, 'cipher')
            data = (enc.seipd_open if layer.integrity else enc.sed_open)(
                sym, key, pkts[-1][2])
    (f, t, body), = ref.read_packets(data)
    eq(t, 11, 'packet in the innermost layer')
    if fmt is not None and not layers:
        eq(f, fmt, 'header format')
    eq(body, body_of(what), 'literal data packet')


CLASSES = {'compressed': message.CompressedMessageWrapper,
           'signed': message.SignedMessageWrapper,
           'encrypted': message.EncryptedMessageWrapper,
           'passphrase': message.EncryptedMessageWrapper}


def is_literal(m, what):
    kind, data, name, t = what
    check(type(m) is {'text': message.TextMessage,
                      'binary': message.BinaryMessage}[kind],
          'kind of the message', m)
    eq(m.data if kind == 'text' else bytes(m.data), data, 'content')
    eq(m.filename, name, 'file name')
    eq(int(m.timestamp.timestamp()), t, 'date')


def unwrap(m, layers, what):
    """the reader under test"""
    for layer in reversed(layers):
        check(type(m) is CLASSES[layer.kind], 'layer', m)
        if layer.kind == 'signed':
            eq(len(m.signatures), len(layer.made), 'number of signatures')
            eq(m.one_pass, layer.one_pass, 'one_pass')
            for s, (k, alg, sv, t, h) in zip(m.signatures, layer.made):
                eq((s.version, s.signature_type, s.hash_algorithm,
                    s.public_key_algorithm), (sv, t, h, alg), 'signature')
            m = m.get_message()
        elif layer.kind == 'compressed':
            eq(m.compression_algorithm, layer.alg, 'compression algorithm')
            m = m.get_message()
        else:
            m = m.get_message(opener(layer))
    is_literal(m, what)


def nested(d, hi=5):
    m, what = a_literal(d)
    layers = []
    for _ in range(d.size(0, hi, 2)):
        m, layer = wrap(d, m, layers)
        layers.append(layer)
    d.note('layers', layers)
    d.label('%d layers' % len(layers))
    for l in layers:
        d.label(l.kind)
    d.nontrivial(layers)
    return m, what, layers


def through(d, data, scratch=None):
    """read the octets in one of the ways"""
    way = d.draw(7)
    if way == 0:
        return shortcuts.read_message(data)
    if way == 1:
        return shortcuts.read_message(bytearray(data))
    if way == 2:
        return message.open_pgp_message_from_packets(
            parsers.parse_binary_packet_data(data))
    text = str(armor.ASCIIArmor(
        armor.PGP_MESSAGE, data, version=d.choice([None, 'x y']),
        comment=d.choice([None, 'a: b'])))
    if way == 3:
        return shortcuts.read_message(text)
    if way == 4:
        return shortcuts.read_message(text.encode('ascii'))
    if way == 5:
        return shortcuts.read_message(text, armored=True)
    with gpg.Scratch() as s:
        if d.bool():
            return shortcuts.read_message_file(s.write('m', data))
        return shortcuts.read_message_file(
            s.write('m', text.encode('ascii')), armored=d.bool())


@suite.prop(quick=2500, thorough=50000)
def made_here(d):
    """made here: written and read again by both readers"""
    with clock.Zone(d.choice(ZONES)):
        m, what, layers = nested(d)
        fmt = d.choice([None, NEW, OLD])
        d.note('header format', fmt)
        pkts = m.to_packets(fmt) if fmt is not None or d.bool() else \
            m.to_packets()
        data = b''.join(map(bytes, pkts))
        layers = merged(layers)
        peel(data, layers, what, {NEW: 'new', OLD: 'old'}.get(fmt))
        eq(b''.join(map(bytes, m.to_packets(fmt))), data,
           'the message written twice')
        again = through(d, data)
        unwrap(again, layers, what)
        # what has been read is written as it was
        eq([p[1:] for p in ref.read_packets(c12.octets(again))],
           [p[1:] for p in ref.read_packets(data)],
           'the message read, written again')


def outside(d, layers=3):
    """the independent writer -> octets, layers, what"""
    fmt = d.choice([b'b', b'u', b't', b'l', b'1'])
    name = name_of(d)
    t = d.edge_int(0, 2 ** 32 - 1, (0, 1400000000, 2 ** 31))
    if fmt == b'u':
        s = ''.join(d.choice(ALPHABET) for _ in range(d.size(0, 60, 12)))
        raw = s.encode('utf8')
    else:
        raw = d.blob(0, 20000, 60, edges=[0, 512, 1024])
        s = raw.decode('latin-1') if fmt == b't' else raw
    what = ('text' if fmt in b'ut' else 'binary', s, name, t)
    d.label('format ' + fmt.decode())
    d.note('literal', (fmt, s, name, t))
    body = fmt + bytes([len(name.encode('utf8'))]) + name.encode('utf8') + \
        t.to_bytes(4, 'big') + raw
    pkts = [framing(d, 11, body)]
    made = []
    for _ in range(d.size(0, layers, 1)):
        kind = d.choice(['compressed', 'compressed', 'signed', 'encrypted',
                         'passphrase'])
        inner = b''.join(pkts)
        if kind == 'compressed':
            layer = Layer(kind, alg=d.draw(4))
            pkts = [framing(d, 8, bytes([layer.alg]) +
                            deflate(d, layer.alg, inner))]
        elif kind == 'signed':
            n = d.int(1, 3) if d.draw(6) else d.int(4, 7)
            layer = Layer(kind, one_pass=d.bool(), made=[])
            sigs, ops = [], []
            for i in range(n):
                k = d.choice(SIGNERS)
                alg = objects.SIGNING_ALGS[k.kind][0]
                kid = keys.key_id_of(k.public_body(objects.CT, alg))
                h = d.choice(objects.hashes(k))
                sigs.append(framing(d, 2, keys.signature_v4(
                    k, 0, raw, h, keys.created(1), keys.issuer(kid), alg)))
                ops.append(framing(d, 4, bytes([3, 0, h, alg]) + kid +
                                   bytes([i == n - 1])))
                layer.made.append((k, alg, 4, 0, h))
            # (an indeterminate length must be the last)
            if layer.one_pass and not endless(inner):
                pkts = ops + [inner] + sigs[::-1]
            else:
                layer.one_pass = False
                pkts = sigs + [inner]
        else:
            sym, integrity = d.choice(enc.SYMS), d.bool()
            key = d.bytes(ref.KEY_LEN[sym])
            if kind == 'encrypted':
                k = d.choice(c12.CRYPT)
                alg = 1 if k.kind == 'rsa' else 16
                layer = Layer(kind, ks=[k])
                esk = framing(d, 1, enc.pkesk_body(
                    k, keys.key_id_of(k.public_body(objects.CT, alg)), sym,
                    key, enc.rnd(d), alg))
            else:
                layer = Layer(kind, phrase='p\u00e9')
                s2k = d.choice([0, 1, 3]), 2, d.bytes(8), 5
                kek = enc.s2k_key(9, s2k, 'p\u00e9'.encode('utf8'))
                esk = framing(d, 3, enc.skesk_body(
                    9, s2k, enc.skesk_esk(9, kek, sym, key)))
            pkts = [esk, enc.data_packet(d, sym, key, inner, integrity)]
        if d.draw(6) == 0:
            # "The body of this packet consists of: P, G, P"
            pkts.insert(d.draw(len(pkts)), ref.packet(
                d.choice(['new', 'old']), 10, b'PGP'))
            d.label('marker')
        made.append(layer)
    return b''.join(pkts), made, what, body


def endless(data):
    """whether it ends with a packet of indeterminate length"""
    o = 0
    while o < len(data):
        last = data[o]
        _, _, _, o = ref.read_packet(data, o)
    return last & 0xc3 == 0x83


def framing(d, tag, body):
    """any framing that is allowed for the packet"""
    how = d.weighted([(3, 'new'), (3, 'old'), (1, 'long'), (1, 'long old')] +
                     ([(2, 'partial'), (1, 'endless')]
                      if tag in (8, 11) else []))
    d.label('framing: ' + how)
    if how == 'new':
        return ref.new_packet(tag, body)
    if how == 'old':
        return ref.old_packet(tag, body)
    if how == 'long':
        return ref.new_packet(tag, body, 5)
    if how == 'long old':
        return ref.old_packet(tag, body, 2)
    if how == 'endless':
        return ref.old_packet(tag, body, 3)
    exps, n, e = [], len(body), 9
    while n >= 1 << e and d.draw(5):
        exps.append(e)
        n -= 1 << e
        e = d.int(0, max(0, min(14, n.bit_length() - 1)))
    return ref.partial_packet(tag, body, exps)


@suite.prop(quick=3000, thorough=60000)
def made_elsewhere(d):
    """made elsewhere: the independent writer with every framing"""
    with clock.Zone(d.choice(ZONES)):
        data, layers, what, body = outside(d)
        d.note('layers', layers)
        d.note('octets', data)
        d.nontrivial(layers)
        d.label('%d layers' % len(layers))
        layers = merged(layers)
        m = through(d, data)
        unwrap(m, layers, what)
        # what it was read as is what is written
        while not isinstance(m, message.LiteralMessage):
            m = m.get_message(*(
                [opener(layers[-1])]
                if isinstance(m, message.EncryptedMessageWrapper) else []))
            layers.pop()
        (_, t, out), = ref.read_packets(c12.octets(m))
        if body[:1] in (b'l', b'1'):
            # (local: written as binary)
            eq(out, b'b' + body[1:], 'literal data packet, written again')
        else:
            eq(out, body, 'literal data packet, written again')


@suite.prop(quick=600, thorough=12000)
def forwarded(d):
    """forwarded: what has been read is wrapped again, opened and changed"""
    data, inner, what, body = outside(d, 2)
    d.note('inner', inner)
    m = shortcuts.read_message(data)
    was = c12.octets(m)
    layers = []
    for _ in range(d.int(1, 3)):
        m, layer = wrap(d, m, inner + layers)
        layers.append(layer)
    d.note('layers', layers)
    d.nontrivial()
    whole = merged(inner + layers)
    m = through(d, c12.octets(m))
    unwrap(m, whole, what)
    # to the innermost message, which is given other content
    for l in reversed(whole):
        m = m.get_message(*([opener(l)] if l.kind in (
            'encrypted', 'passphrase') else []))
    if what[0] == 'text':
        new = d.text(0, 30, 'ab \r\n\u00e9\u00ff')
        m.data = new
    else:
        new = d.blob(0, 600, 30)
        m.data = bytearray(new)
    m.filename = name = name_of(d)
    t = d.int(0, 2 ** 32 - 1)
    m.timestamp = datetime.datetime.fromtimestamp(t)
    changed = (what[0], new, name, t)
    c = m.compress(d.draw(4), d.int(1, 9))
    is_literal(shortcuts.read_message(c12.octets(m)), changed)
    is_literal(shortcuts.read_message(c12.octets(c)).get_message(), changed)


@suite.prop(quick=1500, thorough=30000)
def broken_off(d):
    """broken off: incomplete messages give no shorter content"""
    m, what, layers = nested(d, 2)
    d.nontrivial()
    data = c12.octets(m)
    pkts = ref.read_packets(data)
    how = d.draw(3)
    if how == 0 or pkts[0][1] != 8:
        cut = data[:d.draw(len(data))]
        d.label('octets missing')
    else:
        f, t, b = pkts[0]
        cut = ref.packet(f, t, b[:d.draw(len(b))])
        d.label('compressed data cut')
    d.note('octets', cut)
    try:
        got = shortcuts.read_message(cut)
        while not isinstance(got, message.LiteralMessage):
            for l in layers:
                if l.kind in ('encrypted', 'passphrase'):
                    o = opener(l)
            got = got.get_message(*([o] if isinstance(
                got, message.EncryptedMessageWrapper) else []))
    except Exception:
        d.label('refused')
        return
    is_literal(got, what)


def layers_kind(layers):
    return 'signed' if any(l.kind == 'signed' for l in layers) else None


def parse_list(out):
    """gpg --list-packets -> packet names, (mode, created, name, octets)"""
    names = re.findall(r'^:([^:]+):', out, re.M)
    lit = re.search(r'mode (.) \(\w+\), created (\d+), name="(.*)",\s+'
                    r'raw data: (\d+) bytes', out)
    return names, lit


@suite.prop(quick=40, thorough=600, timeout=200)
def gpg_reads(d):
    """gpg reads: structure, content, date and file name"""
    d.nontrivial()
    with gpg.Home() as home:
        for _ in range(6):
            t = d.edge_int(1, 2 ** 32 - 1, (1400000000, 2 ** 31))
            when = datetime.datetime.fromtimestamp(t)
            name = d.text(0, 20, 'abc.- xyz')
            if d.bool():
                s = ''.join(d.choice(['a', 'b ', 'c\n', '\u00e9', '\u20ac.\n'])
                            for _ in range(d.size(0, 60, 12)))
                raw = s.encode('utf8')
                m, mode = message.TextMessage(s, name, when), 'u'
            else:
                raw = d.blob(0, 40000, 100, edges=[191, 192, 8383, 8384])
                m, mode = message.BinaryMessage(bytearray(raw), name, when), \
                    'b'
            layers = []
            for _ in range(d.size(0, 4, 2)):
                m2, layer = wrap(d, m, layers, 1)
                if layer.kind == 'encrypted' or layer.kind == 'passphrase' \
                        and any(l.kind == 'passphrase' for l in layers):
                    # (gpg has none of the keys, and one passphrase)
                    continue
                if layer.kind == 'compressed' and layer.alg == 0 or \
                        layer.kind == layers_kind(layers) == 'signed':
                    # (gpg reads uncompressed data to the end of the file,
                    # and does not take signed signed messages)
                    continue
                m = m2
                layers.append(layer)
            d.note('layers', layers)
            fmt = d.choice([None, NEW, OLD])
            data = b''.join(map(bytes, m.to_packets(fmt)))
            if d.bool():
                data = str(armor.ASCIIArmor(armor.PGP_MESSAGE,
                                            data)).encode()
            phrase = ''.join(l.phrase for l in layers
                             if l.kind == 'passphrase')
            args = ['--ignore-mdc-error', '--allow-old-cipher-algos',
                    '--passphrase-file', home.write('p', phrase.encode())]
            if not any(l.kind == 'passphrase' and not l.integrity
                       for l in layers):
                r = home.gpg(*(args + ['--list-packets']), data=data)
                names, lit = parse_list(r.stdout.decode('utf8', 'replace'))
                check(lit, 'gpg finds no literal data packet', r)
                eq(lit.groups(), (mode, str(t), name, str(len(raw))),
                   'literal data packet in the eyes of gpg')
            r = home.gpg(*(args + ['--decrypt']), data=data)
            check(r.returncode == 0 or b"Can't check signature" in r.stderr,
                  'gpg does not read the message',
                  r.stderr.decode(errors='replace'))
            eq(r.stdout, raw, 'content in the eyes of gpg')


@suite.prop(quick=40, thorough=600, timeout=200)
def gpg_made(d):
    """gpg made: messages of GnuPG in every form"""
    d.nontrivial()
    with gpg.Home() as home:
        own = [k for k in keys.RSA if k.bits == 1024][0]
        data, kid, _ = gpg.certificate(own, secret=True, flags=15)
        home.import_key(data)
        for _ in range(5):
            raw = d.blob(0, 30000, 200, edges=[0, 8192, 8193])
            name = d.text(1, 20, 'abc.xyz')
            text = d.bool(0.3)
            if text:
                raw = ''.join(d.choice(['a', 'b ', 'c\n', '\u00e9.\n']) for
                              _ in range(d.size(0, 60, 12))).encode('utf8')
            args = ['--set-filename', name, '-o', '-'] + \
                (['--textmode'] if text else [])
            args += ['-z', str(d.draw(10))] if d.bool() else \
                ['--compress-algo', d.choice(['zip', 'zlib', 'bzip2',
                                              'none'])]
            if d.bool(0.3):
                args.append('--armor')
            kinds = d.choice([['--store'], ['--sign'], ['--encrypt'],
                              ['--sign', '--encrypt'],
                              ['--symmetric', '--passphrase', 'pw']])
            if '--encrypt' in kinds:
                args += ['--recipient', kid.hex()]
            rfc = d.bool()
            if d.bool():
                r = home.gpg(*(args + kinds), data=raw, rfc4880=rfc)
            else:
                # from a file, whose length is known
                r = home.gpg(*(args + kinds + [home.write('in', raw)]),
                             rfc4880=rfc)
            d.note('arguments', args + kinds)
            d.note('content', raw)
            if r.returncode:
                raise Violation('harness: gpg failed', (args, kinds,
                                                        r.stderr))
            m = shortcuts.read_message(r.stdout)
            while not isinstance(m, message.LiteralMessage):
                if isinstance(m, message.EncryptedMessageWrapper):
                    m = m.get_message('pw' if '--symmetric' in kinds else
                                      objects.secret(own, 1))
                else:
                    if isinstance(m, message.SignedMessageWrapper):
                        check(objects.public(own, 1).verify(
                            m.signatures[0], m.get_message()) is True,
                            'verify', 'not True')
                    m = m.get_message()
            eq(m.filename, name, 'file name')
            want = raw
            got = m.data
            if text:
                # GnuPG writes network line ends
                if not want.endswith(b'\n') and want:
                    want += b'\n' if got[-1:] in ('\n', b'\n') else b''
                want = b'\r\n'.join(want.split(b'\n'))
                enc_ = 'utf8' if m.to_packet().data_format == b'u' else \
                    'latin-1'
                got = got.encode(enc_) if isinstance(got, str) else bytes(got)
                want = [l.rstrip(b' ') for l in want.split(b'\r\n')]
                got = [l.rstrip(b' ') for l in got.split(b'\r\n')]
                eq(got, want, 'lines')
            else:
                eq(bytes(got), want, 'content')
            now = datetime.datetime.now().timestamp()
            check(abs(m.timestamp.timestamp() - now) < 1000, 'date',
                  m.timestamp)
