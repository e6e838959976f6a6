"""C23 User IDs split into name, comment and address and recompose"""
from vlib.engine import Suite, check, eq
from vlib import gpg, keys, ref

from pgp import shortcuts
from pgp.packets import parsers
from pgp.transferrable_keys import KeySignature
from pgp.transferrable_keys import UserID
from pgp.user_id import parse_user_id

suite = Suite('C23', 'User IDs composed by our own writer from a name (atoms, '
              'quoted words, all printable and non-ASCII characters), a '
              'comment (nested parentheses, escapes) and an address (atoms, '
              'quoted local parts, domain literals, no domain), any of them '
              'absent, the comment before or behind the address; the same '
              'without quotes as GnuPG writes them; histories of part '
              'replacements; arbitrary strings. Non-trivial: two parts or '
              'more, or special characters. Oracle: the parts written.')

ATOM = "abcxyzABCXYZ0189!#$%&'*+-/=?^_`{|}~"
WIDE = 'éüßñøŁж漢字🔑‚’'
SPECIAL = '()<>@,:;\\".[]'


def word(d, alphabet=ATOM, lo=1):
    return d.text(lo, 12, alphabet=alphabet + (WIDE if d.bool(0.3) else ''),
                  mean=4)


def email(d):
    k = d.draw(8)
    if k == 0:
        local = '"' + d.text(1, 10, alphabet='ab c.,:;<>()@[]') + '"'
        d.label('address: quoted local part')
    elif k == 1:
        local = '"a\\"' + word(d) + '\\\\"'
        d.label('address: escapes')
    else:
        local = '.'.join(d.list(1, 3, word, mean=1))
    k = d.draw(8)
    if k == 0:
        d.label('address: domain literal')
        return local + '@[127.0.0.%d]' % d.draw(256)
    if k == 1:
        d.label('address: no domain')
        return word(d) + '.' + word(d) if d.bool() else word(d)
    return local + '@' + '.'.join(d.list(1, 3, word, mean=1))


def escape(s, chars):
    return ''.join('\\' + c if c in chars else c for c in s)


def printable(d):
    """any text that is not made of blanks only at random"""
    out = []
    for _ in range(d.size(1, 30, 8)):
        k = d.draw(5)
        if k == 0:
            out.append(d.choice(SPECIAL))
        elif k == 1:
            out.append(d.choice(' .' + WIDE))
        elif k == 2:
            out.append(chr(d.int(0x20, 0x7e)))
        else:
            out.append(d.choice(ATOM))
    return ''.join(out)


def name_written(d):
    """-> (name, how it is written)"""
    k = d.draw(5)
    if k == 0:
        s = printable(d)
        d.label('name: quoted')
        return s, '"' + escape(s, '"\\') + '"'
    words = []
    written = []
    dotted = ATOM + ('.' if d.bool(0.3) else '')
    for _ in range(d.size(1, 5, 2)):
        if k == 1 and d.bool(0.4):
            s = printable(d)
            words.append(s)
            written.append('"' + escape(s, '"\\') + '"')
        else:
            s = word(d, dotted)
            words.append(s)
            written.append(s)
    d.label('name: mixed words' if k == 1 else 'name: atoms')
    return ' '.join(words), ' '.join(written)


def comment_written(d):
    k = d.draw(4)
    if k == 0:
        s = printable(d)
        d.label('comment: escaped')
        return s, '(' + escape(s, '()\\') + ')'
    if k == 1:
        a, b = word(d), word(d)
        s = '%s (%s (%s)) %s' % (a, b, word(d), a)
        d.label('comment: nested')
        return s, '(' + s + ')'
    s = d.text(1, 20, alphabet=ATOM + WIDE + '  <>@,:;."[]', mean=7)
    return s, '(' + s + ')'


def triple(d):
    """-> (name, email, comment), None where absent, and the text"""
    n = nw = c = cw = e = None
    which = d.draw(8)
    if which & 1 == 0:
        n, nw = name_written(d)
    if which & 2 == 0:
        e = email(d)
    if which & 4 == 0:
        c, cw = comment_written(d)
        if n and d.bool(0.1):
            # the comment repeats a part of the name
            c = word(d)
            cw = '(' + c + ')'
            n = nw = c + ' ' + c
            d.label('comment repeats the name')
    d.label('parts: ' + (' '.join(x for x, y in (
        ('name', n), ('comment', c), ('email', e)) if y) or 'none'))
    parts = [nw, cw]
    if e is not None:
        bare = n is None and c is None and '@' in e and d.bool(0.6)
        ew = e if bare else '<' + e + '>'
        if c is not None and d.bool(0.25):
            d.label('comment behind the address')
            parts = [nw, ew, cw]
            if n is None and '@' in e and d.bool():
                parts[1] = e
        else:
            parts.append(ew)
    sep = ' '
    if d.bool(0.1):
        sep = '  '
    text = sep.join(p for p in parts if p is not None)
    return (n, e, c), text


def check_parts(got, want, what):
    check(isinstance(got, tuple) and len(got) == 3, what + ': no triple', got)
    for g, w, part in zip(got, want, ('name', 'address', 'comment')):
        if w:
            eq(g, w, '%s: %s' % (what, part))
        else:
            check(not g, '%s: %s reported although absent' % (what, part), g)


KEY = None


def key():
    global KEY
    if KEY is None:
        KEY = shortcuts.read_key(gpg.certificate(keys.SMALL[0])[0])
    return KEY


def user_id(text):
    """a user ID read from a packet"""
    p, = parsers.parse_binary_packet_data(
        ref.new_packet(13, text.encode('utf8')))
    return UserID.from_packet(key(), p)


def parts_of(u):
    return u.user_name, u.user_email, u.user_comment


@suite.prop(quick=12000)
def split(d):
    want, text = triple(d)
    d.note('user ID', text)
    d.note('parts', want)
    d.key = text
    d.nontrivial(sum(1 for x in want if x) > 1 or
                 any(c in text for c in SPECIAL))
    check_parts(parse_user_id(text), want, 'parse_user_id')
    u = user_id(text)
    check_parts(parts_of(u), want, 'UserID')
    eq(u.user_id, text, 'the text itself')


@suite.prop(quick=4000)
def unquoted(d):
    """Names as GnuPG writes them, with special characters unquoted."""
    n = ' '.join(d.list(1, 4, lambda d: word(d, ATOM + ',:;@.', 1).lstrip('@.') or 'a', mean=2))
    c = d.text(1, 12, alphabet=ATOM + '  ,:;@.', mean=5) \
        if d.bool() else None
    e = None
    if d.bool(0.8):
        e = word(d) + '@' + word(d) + '.' + word(d)
    if e is None and c is None:
        # a name alone that looks like an address is one
        n = n.replace('@', ',')
    text = n + (' (%s)' % c if c else '') + (' <%s>' % e if e else '')
    if not e and '@' in n:
        d.reject()
    d.note('user ID', text)
    d.key = text
    d.nontrivial(any(x in n for x in ',:;@[]'))
    check_parts(parse_user_id(text), (n, e, c), 'parse_user_id')


def new_part(d, i):
    k = d.draw(8)
    if k == 0:
        return None
    if k == 1:
        return ''
    if i == 1:
        return email(d)
    if k == 2:
        return d.text(1, 10, mean=4)
    if k == 3:
        return printable(d)
    return (name_written if i == 0 else comment_written)(d)[0]


@suite.prop(quick=5000)
def replace(d):
    """Histories of setting parts."""
    want, text = triple(d)
    want = list(want)
    d.note('user ID', text)
    u = user_id(text)
    for _ in range(d.int(1, 5)):
        i = d.draw(3)
        v = new_part(d, i)
        attr = ('user_name', 'user_email', 'user_comment')[i]
        d.note(attr, v)
        d.label('remove' if not v else 'set ' + attr)
        setattr(u, attr, v)
        want[i] = v
        d.nontrivial(sum(1 for x in want if x) > 1)
        check_parts(parts_of(u), want, 'after setting ' + attr)
        # what is written and read again, too
        try:
            raw = bytes(u.to_packet())
        except UnicodeEncodeError:
            d.reject()
        p, = parsers.parse_binary_packet_data(raw)
        again = UserID.from_packet(key(), p)
        check_parts(parts_of(again), want, 'packet after setting ' + attr)
    d.key = (text, tuple(want))


@suite.prop(quick=3000)
def composed_is_readable(d):
    """Plain parts are composed the usual way: name (comment) <address>, so
    that other programs find them."""
    n = ' '.join(d.list(1, 3, word, mean=2)) if d.bool(0.8) else None
    c = ' '.join(d.list(1, 3, word, mean=2)) if d.bool(0.6) else None
    e = word(d) + '@' + word(d) + '.' + word(d) if d.bool(0.8) else None
    u = user_id('x')
    for attr, v in d.shuffle([('user_name', n), ('user_comment', c),
                              ('user_email', e)]):
        setattr(u, attr, v)
    want = [x for x in (n, c and '(%s)' % c, e and '<%s>' % e) if x]
    d.key = (n, c, e)
    d.nontrivial(len(want) > 1)
    forms = [' '.join(want)]
    if e and len(want) == 1:
        forms.append(e)
    check(u.user_id in forms, 'composed otherwise', u.user_id, forms)


@suite.prop(quick=2000)
def signers(d):
    """The signer's user ID of a signature is split the same way."""
    want, text = triple(d)
    d.note('user ID', text)
    d.key = text
    d.nontrivial(sum(1 for x in want if x) > 1)
    data = text.encode('utf8')
    if len(data) > 180:
        d.reject()
    k = keys.SMALL[0]
    body = ref.sig_v4(0x13, 1, 8, keys.created(1400000000) +
                      ref.subpacket(28, data), keys.issuer(b'\1' * 8),
                      b'ab', [5])
    p, = parsers.parse_binary_packet_data(ref.new_packet(2, body))
    s = KeySignature.from_packet(p, key())
    eq(s.issuer_user_id, text, "signer's user ID")
    check_parts((s.issuer_user_name, s.issuer_user_email,
                 s.issuer_user_comment), want, "signer's user ID")


@suite.prop(quick=12000, timeout=20)
def any_string(d):
    """No string makes the splitter fail."""
    k = d.draw(5)
    if k == 0:
        s = d.text(0, 60, mean=10)
    elif k == 1:
        s = d.text(0, 30, alphabet=SPECIAL + 'a \r\n\t', mean=8)
    elif k == 2:
        _, s = triple(d)
        for _ in range(d.int(1, 4)):
            p = d.draw(len(s) + 1)
            s = s[:p] + d.choice(SPECIAL + ' \r') + s[p + d.draw(2):]
    elif k == 3:
        s = d.bytes(d.size(0, 60, 10)).decode('utf8', 'surrogateescape')
    else:
        s = d.text(0, 6, alphabet=SPECIAL + 'a ', mean=3) * d.int(1, 4000)
        d.label('long')
    d.note('string', s)
    d.key = s
    d.nontrivial(any(c in s for c in SPECIAL))
    got = parse_user_id(s)
    check(isinstance(got, tuple) and len(got) == 3 and
          all(x is None or isinstance(x, str) for x in got),
          'no triple of texts', got)
    u = UserID(key(), s)
    eq(parts_of(u), got, 'parts of the user ID object')
    if not s.strip(' \t\r\n'):
        check(not any(got), 'parts of an empty user ID', got)
