"""C14 Integrity-protected data that was modified is never released"""
import hashlib
import warnings

from vlib.engine import Suite, check, eq, Violation
from vlib import enc, gcrypt, keys, objects, ref
from checks.c12 import CRYPT, a_message, octets

from pgp import message, shortcuts
from pgp.packets import packets as P

warnings.simplefilter('ignore')

suite = Suite('C14', 'Integrity-protected messages of random content and '
              'length under every cipher, for a secret key or a passphrase, '
              'made here or by an independent implementation, whose body is '
              'altered in every way (bits, octets, blocks, truncation, '
              'extension, splicing of two messages) or whose plaintext is '
              'made with the session key but lacks a correct modification '
              'detection code. Oracle: an independent implementation decides '
              'whether the code is right. Non-trivial: it is not.')


def the_key(d):
    """-> session key packet for (sym, key), what opens it"""
    sym = d.choice(enc.SYMS)
    key = d.bytes(ref.KEY_LEN[sym])
    if d.draw(4) == 0:
        k = d.choice(CRYPT)
        kid = keys.key_id_of(k.public_body(objects.CT))
        esk = ref.new_packet(1, enc.pkesk_body(k, kid, sym, key, enc.rnd(d)))
        return sym, key, esk, objects.secret(k)
    s2k = (3, 2, b'saltsalt', 0)
    kek = enc.s2k_key(7, s2k, b'pw')
    esk = ref.new_packet(3, enc.skesk_body(7, s2k, enc.skesk_esk(
        7, kek, sym, key)))
    return sym, key, esk, 'pw'


def literal(content):
    return ref.new_packet(11, b'b\1f' + b'\0\0\0\1' + content)


def inner(d):
    """packets of a message"""
    content = d.blob(0, 3000, 40, edges=[16, 192, 512])
    plain = literal(content)
    k = d.draw(6)
    if k == 0:
        return ref.old_packet(8, b'\0' + plain, 3), content
    if k == 1:
        import zlib
        return ref.new_packet(8, b'\2' + zlib.compress(plain)), content
    if k == 2:
        # a literal packet of indeterminate length, as old programs wrote
        return ref.old_packet(11, b'b\1f' + b'\0\0\0\1' + content, 3), content
    return plain, content


def alter(d, body, bs, other):
    """-> name, altered body (the version octet is the first)"""
    b = bytearray(body)
    n = len(b)
    how = d.draw(13)
    if how == 12:
        b[0] = d.choice([0, 2, 3, 4, 128, 129, 255])
        return 'version', bytes(b)
    if how == 0:
        i = d.draw(n)
        b[i] ^= 1 << d.draw(8)
        return 'bit', bytes(b)
    if how == 1:
        i = 1 + d.draw(n - 1)
        b[i] = d.draw(256)
        return 'octet', bytes(b)
    if how == 2:
        # the end: the code itself
        i = n - 1 - d.draw(min(22, n - 1))
        b[i] ^= d.int(1, 255)
        return 'code', bytes(b)
    if how == 3:
        return 'truncated', bytes(b[:d.draw(n)])
    if how == 4:
        return 'truncated by blocks', bytes(b[:max(1, n - bs * d.int(1, 3))])
    if how == 5:
        return 'extended', bytes(b) + d.bytes(d.choice([1, 2, bs, 22, 20]))
    if how == 6:
        i = 1 + d.draw(n - 1)
        del b[i:i + d.choice([1, bs, 22])]
        return 'octets removed', bytes(b)
    if how == 7:
        i = 1 + d.draw(n - 1)
        b[i:i] = d.bytes(d.choice([1, bs]))
        return 'octets inserted', bytes(b)
    if how == 8 and n > 2 * bs + 1:
        m = (n - 1) // bs
        i, j = d.draw(m), d.draw(m)
        x = [b[1 + q * bs:1 + (q + 1) * bs] for q in range(m)]
        x[i], x[j] = x[j], x[i]
        return 'blocks swapped', b'\1' + bytes(b''.join(x)) + \
            bytes(b[1 + m * bs:])
    if how == 9:
        i = d.draw(n)
        return 'spliced', bytes(b[:i]) + other[i:]
    if how == 10 and n > bs + 25:
        # flip the octets of the header of the packet inside
        i = 1 + bs + 2 + d.draw(3)
        b[i] ^= d.int(1, 255)
        return 'packet header', bytes(b)
    i = 1 + d.draw(bs + 2)
    b[i] ^= d.int(1, 255)
    return 'prefix', bytes(b)


def right(sym, key, body):
    try:
        enc.seipd_open(sym, key, body)
        return True
    except ValueError:
        return False


def released(m, opener):
    """did a message come out?"""
    try:
        return True, m.get_message(opener)
    except Exception:
        return False, None


def verdict(d, data, opener, sym, key, body, name):
    d.note('change', name)
    d.note('body', body)
    if right(sym, key, body):
        d.label('unchanged')
        return
    d.nontrivial()
    d.label(name)
    try:
        m = shortcuts.read_message(data)
    except Exception:
        return
    out, msg = released(m, opener)
    check(not out, 'modified data released (%s)' % name, msg)


def framed(d, body):
    how = d.draw(3)
    if how:
        return ref.new_packet(18, body)
    exps, n = [], len(body)
    while n >= 512 and d.draw(3):
        exps.append(9)
        n -= 512
    return ref.partial_packet(18, body, exps)


@suite.prop(quick=6000, thorough=120000)
def altered(d):
    """altered: bodies made elsewhere"""
    sym, key, esk, opener = the_key(d)
    bs = ref.BLOCK_LEN[sym]
    plain, content = inner(d)
    body = enc.seipd_body(sym, key, plain, d.bytes(bs))
    d.note('cipher', sym)
    d.note('plain', plain)
    if d.draw(20) == 0:
        m = shortcuts.read_message(esk + framed(d, body))
        out = m.get_message(opener)
        while not isinstance(out, message.LiteralMessage):
            out = out.get_message()
        eq(bytes(out.data), content, 'content')
        return
    other = enc.seipd_body(sym, key, literal(d.blob(0, 3000, 40)),
                           d.bytes(bs))
    name, bad = alter(d, body, bs, other)
    if d.draw(4) == 0 and len(bad) > bs + 4:
        name2, bad = alter(d, bad or b'\1', bs, other)
    verdict(d, esk + framed(d, bad), opener, sym, key, bad, name)


@suite.prop(quick=1500, thorough=25000)
def altered_here(d):
    """altered here: messages made here, and a good one still opens after a
    bad one"""
    m, content = a_message(d)
    sym = d.choice(enc.SYMS)
    key = d.bytes(ref.KEY_LEN[sym])
    if d.draw(4) == 0:
        k = d.choice(CRYPT)
        e = m.public_key_encrypt(sym, objects.public(k), session_key=key)
        opener = objects.secret(k)
    else:
        e = m.symmetric_encrypt(sym, 'pw', session_key=key, s2k_count=1024)
        opener = 'pw'
    data = octets(e)
    (_, t, esk), (_, _, body) = ref.read_packets(data)
    eq(octets(e.get_message(opener), 1), octets(m, 1), "the message")
    other = m.symmetric_encrypt(sym, 'x', session_key=key, s2k_count=1024)
    name, bad = alter(d, body, ref.BLOCK_LEN[sym], ref.read_packets(
        octets(other))[1][2])
    d.note('cipher', sym)
    verdict(d, ref.new_packet(t, esk) + ref.new_packet(18, bad), opener, sym,
            key, bad, name)
    # in place
    if not right(sym, key, bad) and bad[:1] == b'\1':
        keep = e.message_data_obj.data
        e.message_data_obj.data = bytearray(bad[1:])
        out, msg = released(e, opener)
        check(not out, 'modified data released (%s)' % name, msg)
        e.message_data_obj.data = keep
        eq(octets(e.get_message(opener), 1), octets(m, 1), "the message")


@suite.prop(quick=3000, thorough=60000)
def codes(d):
    """codes: plaintext made with the session key whose modification detection
    code is missing or wrong"""
    sym, key, esk, opener = the_key(d)
    bs = ref.BLOCK_LEN[sym]
    plain, content = inner(d)
    prefix = d.bytes(bs)
    head = prefix + prefix[-2:]

    def sha(x):
        return hashlib.sha1(x).digest()
    good = sha(head + plain + b'\xd3\x14')
    how = d.draw(14)
    name, mdc = [
        ('missing', b''),
        ('of zeros', b'\xd3\x14' + b'\0' * 20),
        ('without the prefix', b'\xd3\x14' + sha(plain + b'\xd3\x14')),
        ('without the repeated octets',
         b'\xd3\x14' + sha(prefix + plain + b'\xd3\x14')),
        ('without its header', b'\xd3\x14' + sha(head + plain)),
        ('other header', b'\xd2\x14' + sha(head + plain + b'\xd2\x14')),
        ('old header', b'\xd3\xff\0\0\0\x14' + sha(
            head + plain + b'\xd3\xff\0\0\0\x14')),
        ('short', b'\xd3\x13' + sha(head + plain + b'\xd3\x13')[:19]),
        ('cut', b'\xd3\x14' + good[:d.draw(20)]),
        ('data behind', b'\xd3\x14' + good + literal(b'more')),
        ('twice', b'\xd3\x14' + good + b'\xd3\x14' + good),
        ('of another message', b'\xd3\x14' + sha(
            head + plain + b'x' + b'\xd3\x14')),
        ('one bit', b'\xd3\x14' + bytes([good[0] ^ (1 << d.draw(8))]) +
         good[1:]),
        ('SHA-256', b'\xd3\x20' + hashlib.sha256(
            head + plain + b'\xd3\x20').digest()),
    ][how]
    if d.draw(8) == 0:
        # a right code in front of the packets
        mdc, plain = b'', b'\xd3\x14' + sha(head + b'\xd3\x14') + plain
        name = 'in front'
    body = enc.seipd_body(sym, key, plain, prefix, mdc)
    d.note('cipher', sym)
    d.note('plain', plain)
    verdict(d, esk + framed(d, body), opener, sym, key, body, name)


@suite.prop(quick=800, thorough=10000)
def session_keys(d):
    """session keys: an altered session key packet releases nothing else"""
    sym, key, esk, opener = the_key(d)
    plain, content = inner(d)
    body = enc.seipd_body(sym, key, plain, d.bytes(ref.BLOCK_LEN[sym]))
    _, t, b = ref.read_packets(esk)[0]
    b = bytearray(b)
    i = d.draw(len(b))
    b[i] ^= 1 << d.draw(8)
    d.note('octet', i)
    d.nontrivial()
    try:
        m = shortcuts.read_message(ref.new_packet(t, bytes(b)) +
                                   ref.new_packet(18, body))
    except Exception:
        return
    ok, out = released(m, opener)
    if ok:
        # (the key ID and the like are not secret)
        d.label('opened all the same')
        eq(octets(out), octets(shortcuts.read_message(plain)), 'the message')
