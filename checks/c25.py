"""C25 Readers survive hostile input: they answer or raise, and terminate"""
import datetime
import io
import os
import random
import resource
import sys
import warnings

from vlib.engine import Suite, Violation, check, eq
from vlib import gpg, keys, objects, ref, tkeys
from checks import c02, c04, c05, c12

from pgp import armor, message, shortcuts
from pgp import regex as R
from pgp.keyserver import get_keyserver
from pgp.packets import packets as P
from pgp.packets import parsers
from pgp.signature import BaseSignature
from pgp.user_id import parse_user_id

warnings.simplefilter('ignore')

suite = Suite('C25', 'Packets of every type, transferable keys, messages '
              '(signed, compressed, encrypted) and armor from the generators '
              'of the other checks, damaged: bits, octets, truncation, '
              'insertion, deletion, repetition, splices of two, lengths '
              'replaced by extreme values, within the bodies and in the '
              'framing; strings made of repeated special characters; a '
              'coverage-guided search. Everything a result offers is asked '
              'for. Bounds: 3 GB of address space, 20 s. Oracle: an '
              'independent reader of the framing, agreement of the two '
              'packet readers, bodies reproduced. Non-trivial: the input is '
              'damaged and longer than ten octets.',
              crash_is_violation=True, memory=3 << 30)

PASSPHRASE = 'open sesame'
EXTREME = [0, 1, 2, 0x7f, 0x80, 0xbf, 0xc0, 0xdf, 0xe0, 0xfe, 0xff]
WORDS = [b'\xff' * 2, b'\0' * 2, b'\xff' * 4, b'\0' * 4, b'\xff' * 5,
         b'\xff\x7f\xff\xff\xff', b'\x80\0', b'\xff\0\0\0\0', b'\xff\0\0\0\1',
         b'\xfe\xff', b'\xe0\0', b'\x7f\xff\xff\xff', b'\x80\0\0\0']


def ask(obj, depth=0, seen=None):
    """everything an object offers without arguments"""
    seen = set() if seen is None else seen
    if id(obj) in seen or depth > 4:
        return
    seen.add(id(obj))
    repr(obj)
    for name in sorted(dir(type(obj)) + list(getattr(obj, '__dict__', ()))):
        if name.startswith('_'):
            continue
        try:
            v = getattr(obj, name)
        except Exception:
            continue
        if isinstance(v, (list, tuple)):
            vs = list(v)[:50]
        else:
            vs = [v]
        for x in vs:
            if type(x).__module__.startswith('pgp'):
                ask(x, depth + 1, seen)
    for fn in (bytes,):
        try:
            if hasattr(obj, 'to_packets'):
                for p in obj.to_packets():
                    bytes(p)
            elif hasattr(obj, '__bytes__'):
                bytes(obj)
        except Exception:
            pass


def attempt(fn, *a):
    """-> ('ok', result) or ('raised', exception); anything that is not an
    ordinary exception is a violation"""
    try:
        return 'ok', fn(*a)
    except (MemoryError, SystemError) as e:
        raise Violation('reading ran out of bounds: %r' % (e,))
    except (SystemExit, GeneratorExit) as e:
        raise Violation('reading ended the program: %r' % (e,))
    except Violation:
        raise
    except Exception as e:
        return 'raised', e


def drain(it):
    """-> what an iterator gives, the exception that ends it"""
    out = []

    def run():
        for x in it:
            out.append(x)
    how, e = attempt(run)
    return out, e if how == 'raised' else None


def mutate(r, b, others=None):
    """damage octets: r is a function n -> 0..n-1"""
    b = bytearray(b)

    def pos():
        # the interesting part is often the beginning
        n = len(b) + 1
        return min(r(n), r(n)) if r(2) else r(min(n, 40))
    for _ in range(1 + (r(4) if r(2) else 0)):
        k = r(11)
        p = pos()
        if k == 0:
            del b[p:]
        elif k == 1 and p < len(b):
            b[p] ^= 1 << r(8)
        elif k == 2 and p < len(b):
            b[p] = EXTREME[r(len(EXTREME))]
        elif k == 3 and p < len(b):
            b[p] = (b[p] + (1, 255, 2, 254)[r(4)]) & 255
        elif k == 4:
            w = WORDS[r(len(WORDS))]
            b[p:p + len(w)] = w
        elif k == 5:
            b[p:p] = WORDS[r(len(WORDS))]
        elif k == 6:
            b[p:p] = bytes([r(256)]) * (1 + r(8))
        elif k == 7:
            del b[p:p + 1 + r(4)]
        elif k == 8:
            q = pos()
            b[p:p] = b[q:q + r(64)]
        elif k == 9 and others:
            q = r(len(others) + 1)
            b[p:] = others[q:q + 4000]
        else:
            b += bytes(r(256) for _ in range(1 + r(5)))
    return bytes(b)


def quietly(d, fn, *a):
    """without the labels and notes of other generators"""
    d.label = d.note = lambda *a: None
    d.nontrivial = lambda *a: None
    try:
        return fn(*a)
    finally:
        del d.label, d.note, d.nontrivial


def a_packet(d):
    """-> tag, body"""
    return quietly(d, _a_packet, d)


def _a_packet(d):
    k = d.draw(6)
    if k == 0:
        return 2, c04.signature(d, 0)[0]
    if k == 1:
        return d.choice([6, 14]), c05.public(d)[0]
    if k == 2:
        return d.choice([5, 7]), c05.public(d)[0] + c05.secret(d)[0]
    return c02.gen(d)[:2]


def framed(d, tag, body):
    if tag > 15 or d.bool():
        if tag in (8, 9, 11, 18) and len(body) > 600 and d.bool():
            return ref.partial_packet(tag, body, [9])
        return ref.new_packet(tag, body)
    return ref.old_packet(tag, body)


def canonical(tag, body):
    """the body with the lengths of its numbers as they should be, for these
    are not kept; None if it can not be read"""
    b = bytes(body)

    def numbers(o, n=None):
        out = b''
        while (o < len(b)) if n is None else n:
            v, o = ref.read_mpi(b, o)
            out += ref.mpi(v)
            n = None if n is None else n - 1
        return out, o
    try:
        if tag in (5, 6, 7, 14):
            o = 8 if b[0] in (2, 3) else 6
            if b[0] < 2:
                return None
            n = {1: 2, 2: 2, 3: 2, 16: 3, 20: 3, 17: 4}[b[o - 1]]
            head = b[:o]
            pub, o = numbers(o, n)
            return head + pub + b[o:]
        if tag == 2:
            if b[0] in (2, 3):
                o = 19
            else:
                o = 6 + int.from_bytes(b[4:6], 'big')
                o += 2 + int.from_bytes(b[o:o + 2], 'big') + 2
            return b[:o] + numbers(o)[0]
    except (IndexError, KeyError, ValueError):
        return None
    return b


def reference(data):
    """-> packets up to the damage, whether there is damage"""
    o, out = 0, []
    while o < len(data):
        try:
            f, t, b, o = ref.read_packet(data, o)
        except (ValueError, IndexError):
            return out, True
        out.append((f, t, b))
    return out, False


def judge_packets(data, touch=True):
    got, e = drain(parsers.parse_binary_packet_data(bytearray(data)))
    got2, e2 = drain(parsers.parse_binary_packet_stream(io.BytesIO(data)))
    eq(e2 is None, e is None, 'whether the stream reader refuses the packets '
       '(%r) as the data reader does (%r)' % (e2, e))
    eq(len(got2), len(got), 'number of packets the stream reader finds '
       'before it refuses, compared with the data reader')
    want, damaged = reference(data)
    if damaged:
        check(e is not None, 'accepted although the framing is damaged:',
              got)
    elif e is None:
        eq(len(got), len(want), 'number of packets')
    check(len(got) <= len(want), 'more packets than there are')
    for p, q, (_, tag, body) in zip(got, got2, want):
        eq(p.type, tag, 'packet type')
        eq(q.type, tag, 'packet type (stream)')
        how, c = attempt(lambda: bytes(p.content))
        how2, c2 = attempt(lambda: bytes(q.content))
        if how == 'ok' and how2 == 'ok':
            eq(c2, c, 'content (stream compared with data)')
        if type(p) is P.Packet:
            eq(how, 'ok', 'reading the content')
            eq(c, body, 'body')
        elif how == 'ok' and c != body:
            eq(c, canonical(tag, body), 'body of a packet of type %d' % tag)
        elif how != 'ok' and not (tag == 11 and body[:1] not in
                                  (b'b', b't', b'u', b'l', b'1')):
            raise Violation('a packet of type %d was accepted but can not be '
                            'written: %r' % (tag, c), body)
        if touch:
            attempt(ask, p)
    return e


@suite.prop(quick=4000, thorough=90000, timeout=20)
def packets(d):
    """damaged packets: both readers agree with the independent reader"""
    pkts = d.list(1, 3, a_packet, mean=1)
    where = d.draw(3)
    out = b''
    for tag, body in pkts:
        if where:
            body = mutate(d.draw, body, pkts[0][1])
        out += framed(d, tag, body)
    if where != 1:
        out = mutate(d.draw, out, out)
    d.note('octets', out)
    d.nontrivial(len(out) > 10)
    e = judge_packets(out)
    d.label('refused' if e else 'accepted')


@suite.prop(quick=3000, thorough=60000, timeout=20)
def noise(d):
    """arbitrary octets that begin like packets"""
    out = b''
    for _ in range(d.int(1, 3)):
        tag = d.draw(64)
        body = d.bytes(d.size(0, 60, 12))
        k = d.draw(4)
        if k == 0:
            out += bytes([0x80 | d.draw(128)]) + body
        elif k == 1:
            # versions and algorithms that are known, then anything
            out += framed(d, d.choice([1, 2, 3, 4, 5, 6, 7, 14, 17]),
                          bytes([d.int(2, 4), d.draw(33)]) + body)
        elif k == 2:
            out += framed(d, tag, body)
        else:
            out += bytes([0xc0 | tag, d.choice([255, 254, 224, 223])]) + body
    d.note('octets', out)
    d.nontrivial(len(out) > 10)
    e = judge_packets(out)
    d.label('refused' if e else 'accepted')


def a_key(d):
    """octets of a transferable key, and its passphrase"""
    return quietly(d, _a_key, d)


def _a_key(d):
    if d.draw(3) == 0:
        own = d.choice([k for k in c12.OTHERS if k.kind != 'elg'])
        full = objects.FullKey(own, d.choice(c12.OTHERS),
                               objects.SIGNING_ALGS[own.kind][0])
        key = full.obj
        for el in [key.user_ids[0], key.user_attributes[0], key]:
            h = 8 if own.bits > 1000 else 2
            t = {True: 0x13, False: 0x1f}[el is not key]
            key.sign(el, 4, t, h)
        data = b''.join(map(bytes, (key if d.bool() else key.to_public_key())
                            .to_packets()))
        return data, ''
    prot = keys.protections(d)

    def packet(d):
        k = d.choice(c12.OTHERS)
        d.ks.append(k)
        return 4, k.public_body(objects.CT + d.draw(1000))

    def tail(d):
        return prot.header() + prot.protect(d.ks[-1].secret_numbers(), b'pw')
    d.ks = []
    els = tkeys.key(d, d.choice(['public', 'secret']), packet,
                    lambda d, t: tkeys.with_type(c04.signature(d, 1)[0], t)
                    if d.bool() else tkeys.simple_sig(d, t), secret_tail=tail)
    return b''.join(tkeys.raw(els)), 'pw'


def parts_of(key):
    return [key] + list(key.user_ids) + list(key.user_attributes) + \
        list(key.subkeys)


def use_key(key, phrase):
    attempt(ask, key)
    for part in parts_of(key):
        for s in list(getattr(part, 'signatures', ()))[:6]:
            attempt(key.verify, s, part)
    for part in [key] + list(key.subkeys):
        if hasattr(part, 'unlock'):
            attempt(part.unlock, phrase)
            attempt(lambda: part.is_locked)
            attempt(part.lock)


def into_bodies(d, data):
    """damage within the bodies of the packets"""
    out = b''
    pkts = ref.read_packets(data)
    hit = d.draw(len(pkts))
    for i, (f, t, b) in enumerate(pkts):
        if i == hit or d.draw(8) == 0:
            b = mutate(d.draw, b, pkts[d.draw(len(pkts))][2])
        out += framed(d, t, b)
    return out


def shuffled(d, data):
    """whole packets in disorder"""
    out = []
    pkts = [framed(d, t, b) for _, t, b in ref.read_packets(data)]
    for p in pkts:
        k = d.draw(8)
        if k == 0:
            continue
        out.append(p)
        if k == 1:
            out.append(p)
        elif k == 2:
            out.append(framed(d, *a_packet(d)))
        elif k == 3:
            out.insert(d.draw(len(out)), out.pop())
    return b''.join(out)


def damage(d, data):
    how = d.choice(['octets', 'bodies', 'order', 'bodies'])
    d.label('damage: ' + how)
    if how == 'octets':
        return mutate(d.draw, data, data)
    if how == 'bodies':
        return into_bodies(d, data)
    return shuffled(d, data)


def text_of(d, kind, data):
    """armor, possibly damaged as text"""
    a = str(armor.ASCIIArmor(kind, data, version=d.choice([None, 'x']),
                             comment=d.choice([None, 'c: d'])))
    if d.bool(0.6):
        a = mutate(d.draw, a.encode('ascii'), a.encode('ascii')).decode(
            d.choice(['latin-1', 'latin-1', 'utf8']), 'replace')
    return a


def read(d, fn, kind, data):
    """through one of the ways in"""
    way = d.draw(4)
    if way < 2:
        d.note('octets', data)
        return attempt(fn, data if way else bytearray(data))
    text = text_of(d, kind, data)
    d.note('text', text)
    if way == 2:
        return attempt(fn, text, d.bool())
    return attempt(fn, text.encode('utf8', 'surrogateescape'), d.bool())


@suite.prop(quick=900, thorough=20000, timeout=20)
def transferable_keys(d):
    """damaged keys"""
    data, phrase = a_key(d)
    data = damage(d, data)
    d.nontrivial(len(data) > 10)
    how, key = read(d, shortcuts.read_key, armor.PGP_PUBLIC_KEY_BLOCK, data)
    d.label('key ' + how)
    if how == 'ok':
        use_key(key, phrase)


def use_message(m, opener, depth=0):
    while depth < 30:
        attempt(ask, m)
        if isinstance(m, message.LiteralMessage):
            return True
        how, m = attempt(m.get_message, *(
            [opener] if isinstance(m, message.EncryptedMessageWrapper)
            else []))
        if how != 'ok':
            return False
        depth += 1
    return False


RSA = [k for k in keys.RSA if k.bits <= 1100][0]


@suite.prop(quick=1200, thorough=25000, timeout=20)
def messages(d):
    """damaged messages, also opened with the right key or passphrase"""
    m, content = quietly(d, c12.a_message, d)
    opener = None
    k = d.draw(4)
    if k == 0:
        opener = PASSPHRASE
        m = m.symmetric_encrypt(d.choice([2, 7, 9, 10]), PASSPHRASE,
                                s2k_type=d.choice([0, 1, 3]), s2k_count=1024)
    elif k == 1:
        opener = objects.secret(RSA, 1)
        m = m.public_key_encrypt(d.choice([2, 7, 9]),
                                 public_key=objects.public(RSA, 1),
                                 integrity_protect=d.bool())
    d.label(('passphrase', 'public key', 'none', 'none')[k])
    data = damage(d, c12.octets(m))
    d.nontrivial(len(data) > 10)
    how, got = read(d, shortcuts.read_message, armor.PGP_MESSAGE, data)
    d.label('message ' + how)
    if how == 'ok':
        if use_message(got, opener):
            d.label('opened')


@suite.prop(quick=300, thorough=6000, timeout=20)
def deep(d):
    """layers upon layers"""
    n = d.edge_int(1, 400, (100, 400))
    kind = d.choice(['compressed', 'one-pass', 'signed', 'embedded',
                     'markers', 'users', 'comments', 'groups'])
    d.label(kind)
    d.nontrivial(n > 3)
    if kind in ('comments', 'groups'):
        unit = {'comments': '(', 'groups': 'a:'}[kind]
        s = unit * n * 10 + d.choice(['', ')' * n, 'a@b'])
        attempt(parse_user_id, s)
        return
    literal = ref.new_packet(11, b'b\0\0\0\0\0' + b'x' * 10)
    if kind == 'compressed':
        m = message.BinaryMessage(bytearray(b'x'), '',
                                  datetime.datetime(2014, 1, 1))
        alg = d.draw(4)
        for _ in range(min(n, 60 if alg == 3 else 200)):
            m = m.compress(alg, 1)
        data = c12.octets(m)
    elif kind in ('one-pass', 'signed'):
        sig = ref.new_packet(2, ref.sig_v4(0, 1, 2, keys.created(1), b'',
                                           b'\0\0', [1]))
        op = ref.new_packet(4, b'\3\0\2\1' + b'K' * 8 + b'\1')
        if kind == 'signed':
            data = sig * n + literal
        else:
            data = op * n + literal + sig * n
    elif kind == 'markers':
        data = ref.new_packet(10, b'PGP') * n * 10 + literal
    elif kind == 'embedded':
        inner = b''
        for _ in range(n):
            inner = ref.sig_v4(0x19, 1, 2, b'', ref.subpacket(32, inner)
                               if inner else b'', b'\0\0', [1])
            if len(inner) > 60000:
                break
        data = ref.new_packet(2, inner) + literal
    else:
        data = ref.new_packet(6, RSA.public_body(1, 1)) + \
            ref.new_packet(13, b'a') * n * 10
        how, key = attempt(shortcuts.read_key, data)
        if how == 'ok':
            eq(len(key.user_ids), n * 10, 'user IDs')
        return
    how, m = attempt(shortcuts.read_message, data)
    d.label('message ' + how)
    if how == 'ok':
        for _ in range(1000):
            if isinstance(m, message.LiteralMessage):
                break
            how, m = attempt(m.get_message)
            if how != 'ok':
                break
        else:
            raise Violation('no end of the layers')


UNITS = ['(', ')', '<', '>', '@', '.', ',', ':', ';', '\\', '"', '[', ']',
         ' ', '\t', '\r', '\n', 'a', 'a.', 'a ', '((', '()', '<>', '@a',
         'a@', '"a', '\\"', 'é', '\0', '%', '%4', '0', '|', '*', '+', '?',
         '^', '$', '-', 'a-', '[]', '[^', '(a|', 'a*', '\ud800', '🔑',
         'pub:', 'uid:', '\npub:', '\nuid:', ': ', '=', '-----', '==', '\n\n',
         '/', '1']


def pumped(d):
    parts = []
    for _ in range(d.int(1, 4)):
        unit = d.choice(UNITS)
        if d.bool(0.3):
            unit += d.choice(UNITS)
        parts.append(unit * d.edge_int(1, 3000, (1, 2, 30, 1000, 3000)))
    return ''.join(parts)


@suite.prop(quick=900, thorough=20000, timeout=20)
def texts(d):
    """texts made of repeated special characters"""
    s = pumped(d)
    d.note('text', s)
    d.nontrivial(len(s) > 10)
    kind = d.draw(6)
    d.label(('user ID', 'pattern', 'index', 'armor', 'user ID packet',
             'armor header')[kind])
    if kind == 0:
        attempt(parse_user_id, s)
    elif kind == 1:
        attempt(R.validate_subpacket_regex, s)
    elif kind == 2:
        client = get_keyserver('http://127.0.0.1/')
        how, out = attempt(client._read_mr, d.choice(
            ['pub:', 'pub:A:1:1024:1::\nuid:', 'info:1:1\n', '']) + s) \
            if hasattr(client, '_read_mr') else ('ok', [])
    elif kind == 3:
        attempt(armor.ASCIIArmor.from_ascii, s)
    elif kind == 4:
        body = s.encode('utf8', 'surrogatepass')
        judge_packets(ref.new_packet(13, body))
        how, key = attempt(shortcuts.read_key, ref.new_packet(
            6, RSA.public_body(1, 1)) + ref.new_packet(13, body))
        if how == 'ok':
            attempt(ask, key)
    else:
        a = str(armor.ASCIIArmor(armor.PGP_MESSAGE, b'abc'))
        lines = a.split('\n')
        lines.insert(d.draw(len(lines) + 1), s)
        attempt(armor.ASCIIArmor.from_ascii, '\n'.join(lines))
        attempt(shortcuts.read_message, '\n'.join(lines), True)


@suite.prop(quick=300, thorough=3000, timeout=20)
def claims(d):
    """lengths that claim more than there is take neither time nor memory"""
    n = d.choice([0xffffffff, 0x7fffffff, 0x80000000, 0x10000000,
                  0x40000000]) - d.draw(3)
    tag = d.draw(64)
    body = d.bytes(d.size(0, 40, 10))
    kind = d.choice(['length', 'old length', 'chunk', 'later chunk',
                     'subpacket', 'attribute', 'number'])
    d.label(kind)
    big = n.to_bytes(4, 'big')
    if kind == 'length':
        data = bytes([0xc0 | tag, 255]) + big + body
    elif kind == 'old length':
        data = bytes([0x82 | (tag & 15) << 2]) + big + body
    elif kind == 'chunk':
        data = bytes([0xc0 | tag, d.choice([0xfe, d.int(0xf8, 0xfe)])])
        if d.bool():
            # what would do as another form of length
            size = d.int(1, 4)
            body = d.bytes(d.draw(10))
            data += len(body).to_bytes(size, 'big')
        data += body
    elif kind == 'later chunk':
        data = bytes([0xc0 | tag, 0xe1]) + b'ab' + \
            bytes([d.int(0xf8, 0xfe)]) + body
    elif kind == 'subpacket':
        area = b'\xff' + big + body
        sig = b'\x04\x00\x01\x02' + len(area).to_bytes(2, 'big') + area
        data = ref.new_packet(2, sig + b'\0\0ab\0\1\1')
    elif kind == 'attribute':
        data = ref.new_packet(17, b'\xff' + big + b'\1' + body)
    else:
        data = ref.new_packet(6, b'\4' + big + b'\1\xff\xff' + body)
    d.note('octets', data)
    d.nontrivial(len(data) > 10)
    before = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    with gpg.Scratch() as s:
        path = s.path('x')
        with open(path, 'wb') as f:
            f.write(data)
        for mode in (-1, 0):
            with open(path, 'rb', mode) as f:
                out, e = drain(parsers.parse_binary_packet_stream(f))
            check(e is not None, 'accepted from a file:', out)
        for fn in (shortcuts.read_message_file, shortcuts.read_key_file):
            eq(attempt(fn, path)[0], 'raised', 'reading the file')
    e = judge_packets(data)
    check(e is not None, 'accepted')
    grown = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - before
    check(grown < 400 * 1024, 'reading %d octets took %d kB of memory' % (
        len(data), grown))


def covered(fn, root):
    """-> the lines of the code under test that fn() passes, in pairs"""
    seen = set()

    def local(frame, event, arg):
        seen.add((frame.f_code.co_filename, frame.f_lineno))
        return local

    def trace(frame, event, arg):
        if frame.f_code.co_filename.startswith(root):
            seen.add((frame.f_code.co_filename, frame.f_lineno))
            return local
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        fn()
    finally:
        sys.settrace(old)
    return seen


def target_packets(data):
    judge_packets(data, touch=False)


def target_key(data):
    how, key = attempt(shortcuts.read_key, data)
    if how == 'ok':
        use_key(key, 'pw')


def target_message(data):
    how, m = attempt(shortcuts.read_message, data)
    if how == 'ok':
        use_message(m, PASSPHRASE)


def smaller(fn, data):
    """a part of the failing input that fails as well"""
    def fails(x):
        try:
            fn(x)
        except Violation as e:
            return str(e)
        return None
    size = max(1, len(data) // 2)
    tries = 0
    while size and tries < 400:
        i = 0
        while i < len(data) and tries < 400:
            cand = data[:i] + data[i + size:]
            tries += 1
            if fails(cand):
                data = cand
            else:
                i += size
        size //= 2
    return data, fails(data)


@suite.prop(quick=24, thorough=400, timeout=120)
def guided(d):
    """inputs that reach new lines are kept and damaged further"""
    root = os.path.dirname(os.path.abspath(parsers.__file__))
    root = os.path.dirname(root) + os.sep
    kind = d.draw(3)
    fn = (target_packets, target_key, target_message)[kind]
    d.label(fn.__name__)
    if kind == 0:
        pool = [framed(d, *a_packet(d)) for _ in range(6)]
    elif kind == 1:
        pool = [a_key(d)[0] for _ in range(2)]
    else:
        m, _ = quietly(d, c12.a_message, d)
        pool = [c12.octets(m), c12.octets(m.symmetric_encrypt(
            9, PASSPHRASE, s2k_type=1))]
    r = random.Random(d.draw(1 << 60))
    d.nontrivial()
    seen = set()
    for p in pool:
        seen |= covered(lambda: fn(p), root)
    start = len(seen)
    for _ in range(250 if kind else 500):
        p = pool[r.randrange(len(pool))]
        x = mutate(r.randrange, p, pool[r.randrange(len(pool))])
        try:
            new = covered(lambda: fn(x), root) - seen
        except Violation:
            small, why = smaller(fn, x)
            d.note('octets', small)
            raise Violation(why or 'failed once', small)
        if new:
            seen |= new
            if len(x) < 20000:
                pool.append(x)
    d.label('new lines: %s' % ('0' if len(seen) == start else
                               '1+' if len(seen) < start + 20 else '20+'))
