"""C27 Files and armored texts are read and written whole"""
import os

from vlib.engine import Suite, check, eq
from vlib import gpg, ref, tkeys
from checks import c03, c18, c26

from pgp import shortcuts, transferrable_keys as T
from pgp.packets import parsers

suite = Suite('C27', 'Keys as in C18 and messages of literal data in layers '
              'as in C26, in memory and in files, binary and armored with '
              'any header texts (not only ASCII), said to be armored or '
              'not; writing over files that exist; things of the wrong '
              'kind. Non-trivial: a file was written or the armor has '
              'headers. Oracle: our own packets and armor.')


def armored(d, what, data):
    """our own armor about the data"""
    headers = ''
    for name in d.shuffle(['Version', 'Comment', 'X-Other'])[:d.draw(3)]:
        headers += '%s: %s\n' % (name, c03.value(d) or 'x')
        d.nontrivial()
    text = c03.ref_armor(
        {'key': 2, 'secret': 3, 'message': 1}[what], data, {},
        4 * d.int(5, 19))
    first, rest = text.split('\n', 1)
    text = first + '\n' + headers + rest
    if not text.isascii():
        d.label('armor is not ASCII')
    return text


def from_somewhere(d, s, what, data, name):
    """the object the high-level functions read"""
    in_memory = {'key': shortcuts.read_key, 'secret': shortcuts.read_key,
                 'message': shortcuts.read_message}[what]
    from_file = {'key': shortcuts.read_key_file,
                 'secret': shortcuts.read_key_file,
                 'message': shortcuts.read_message_file}[what]
    arm = d.bool()
    text = armored(d, what, data) if arm else None
    if d.bool():
        d.label('in memory')
        if not arm:
            return in_memory(bytearray(data) if d.bool(0.2) else data)
        k = d.draw(3)
        d.label(['text', 'text said to be armored', 'octets'][k])
        if k == 2:
            return in_memory(text.encode('utf8'), d.bool())
        return in_memory(text, k == 1)
    path = s.path(name)
    with open(path, 'wb') as fh:
        fh.write(text.encode('utf8') if arm else data)
    d.nontrivial()
    if not arm:
        d.label('binary file')
        return from_file(path)
    said = d.bool()
    d.label('armored file' + (', said to be' if said else ''))
    return from_file(path, said) if said or d.bool() else from_file(path)


def a_key(d):
    """-> kind, elements"""
    kind, els = c18.make(d)
    if d.draw(25) == 0:
        # with a picture
        n = d.int(60000, 140000)
        seed = d.bytes(7)
        els.insert(1, tkeys.Element('attr', tkeys.ATTR, ref.subpacket(
            1, b'\x10\0\1\1' + b'\0' * 12 + (seed * (n // 7 + 1))[:n]),
            'new'))
        d.label('large key')
    return kind, els


@suite.prop(quick=1200, thorough=20000, timeout=60)
def keys_read(d):
    """keys read: the same key from everywhere"""
    kind, els = a_key(d)
    data = b''.join(tkeys.raw(els))
    with gpg.Scratch() as s:
        key = from_somewhere(d, s, 'secret' if kind == 'secret' else 'key',
                             data, 'the key.gpg')
    check(type(key) is c18.CLASS[kind], 'class of the key', type(key))
    eq([bytes(p) for p in key.to_packets()], tkeys.raw(els), 'packets')


@suite.prop(quick=1200, thorough=20000, timeout=60)
def keys_written(d):
    """keys written: the file holds the key and nothing else"""
    kind, els = a_key(d)
    key = c18.CLASS[kind].from_packets(
        parsers.parse_binary_packet_data(bytearray(b''.join(tkeys.raw(els)))))
    want = b''.join(tkeys.raw(els, 'old'))
    with gpg.Scratch() as s:
        path = s.path('out')
        if d.bool(0.6):
            d.label('over an existing file')
            with open(path, 'wb') as fh:
                fh.write(d.bytes(d.size(0, 4000, 300)) +
                         b'-' * d.size(0, 9000, 500))
        arm = d.bool()
        d.label('armored' if arm else 'binary')
        if arm or d.bool():
            shortcuts.write_key_file(key, path, arm)
        else:
            shortcuts.write_key_file(key, path)
        with open(path, 'rb') as fh:
            got = fh.read()
        if arm:
            text = got.decode('ascii')
            lines = text.splitlines()
            what = {'public': 'PUBLIC', 'secret': 'PRIVATE'}[kind]
            eq(lines[0], '-----BEGIN PGP %s KEY BLOCK-----' % what, 'head')
            eq(lines[-1], '-----END PGP %s KEY BLOCK-----' % what, 'tail')
            i = lines.index('')
            raw = c03.base64.b64decode(''.join(lines[i + 1:-2]),
                                       validate=True)
            eq(lines[-2], '=' + c03.base64.b64encode(
                ref.crc24(raw).to_bytes(3, 'big')).decode(), 'checksum')
            got = raw
        eq(got, want, 'what is in the file')
        d.nontrivial()
        again = shortcuts.read_key_file(path, arm and d.bool())
        eq([bytes(p) for p in again.to_packets()], tkeys.raw(els, 'old'),
           'packets read back')
        # a second writing of the same key gives the same file
        shortcuts.write_key_file(again, path, False)
        with open(path, 'rb') as fh:
            eq(fh.read(), want, 'file written again')


@suite.prop(quick=800, thorough=12000, timeout=60)
def messages_read(d):
    """messages read: the same message from everywhere"""
    if d.draw(25) == 0:
        n = d.int(60000, 140000)
        body = (d.bytes(7) * (n // 7 + 1))[:n]
        d.label('large message')
        data = ref.packet(d.choice(['new', 'old']), 11, b'b\0\0\0\0\1' + body)
        with gpg.Scratch() as s:
            got = from_somewhere(d, s, 'message', data, 'a message.pgp')
        check(bytes(got.data) == body, 'content of the large message')
        return
    m, what, layers = c26.nested(d)
    data = b''.join(map(bytes, m.to_packets()))
    with gpg.Scratch() as s:
        got = from_somewhere(d, s, 'message', data, 'a message.pgp')
    eq([bytes(p) for p in got.to_packets()],
       [bytes(p) for p in shortcuts.read_message(data).to_packets()],
       'packets')
    c26.unwrap(got, c26.merged(layers), what)


@suite.prop(quick=600, thorough=8000, timeout=60)
def wrong_kind(d):
    """wrong kind: no key out of a message and no message out of a key"""
    with gpg.Scratch() as s:
        if d.bool():
            d.label('a message read as a key')
            m = c26.nested(d)[0]
            data = b''.join(map(bytes, m.to_packets()))
            shown, call = 'message', 'key'
        else:
            d.label('a key read as a message')
            kind, els = c18.make(d)
            data = b''.join(tkeys.raw(els))
            shown, call = 'key', 'message'
        arm = d.bool()
        if arm:
            octets = armored(d, shown, data).encode('utf8')
        else:
            octets = data
        path = s.path('x')
        with open(path, 'wb') as fh:
            fh.write(octets)
        d.nontrivial()
        for fn, arg in [(getattr(shortcuts, 'read_' + call), octets),
                        (getattr(shortcuts, 'read_%s_file' % call), path)]:
            try:
                got = fn(arg)
            except Exception:
                continue
            check(False, '%s gives %r for a %s' % (fn.__name__, got, shown))


@suite.prop(quick=300, thorough=4000, timeout=60)
def failed_writing(d):
    """failed writing: a key that cannot be written leaves the file alone"""
    kind, els = c18.make(d)
    key = c18.CLASS[kind].from_packets(
        parsers.parse_binary_packet_data(bytearray(b''.join(tkeys.raw(els)))))
    old = d.bytes(d.int(1, 400))

    class Broken(object):
        user_id = 'broken'
        signatures = []

        def to_packet(self, header_format=None):
            raise ValueError('this cannot be written')
    key.user_ids.append(Broken())
    with gpg.Scratch() as s:
        path = s.path('out')
        with open(path, 'wb') as fh:
            fh.write(old)
        d.nontrivial()
        try:
            shortcuts.write_key_file(key, path, d.bool())
        except Exception:
            pass
        else:
            check(False, 'no error')
        with open(path, 'rb') as fh:
            eq(fh.read(), old, 'the file after the failure')
