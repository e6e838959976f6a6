"""C24 Key server index answers are read completely and exactly"""
import http.server
import os
import threading
import urllib.parse

from vlib.engine import Suite, Violation, check, eq, HarnessError
from vlib import clock, gpg, keys, ref, tkeys
from checks import c05

from pgp import shortcuts
from pgp.keyserver import get_keyserver
from pgp.transferrable_keys import TransferableSecretKey

suite = Suite('C24', 'Machine-readable index documents from our own writer '
              '(0 to 12 keys, 0 to 5 user IDs each, any field empty, trailing '
              'colons left off, flags in any order, escapes in either case, '
              'with and without info line, unknown lines, either line end) '
              'served by an HTTP server on the loopback network; searches for '
              'any text, downloads and uploads of generated keys. '
              'Non-trivial: two keys or user IDs, or a request with other '
              'than plain characters. Oracle: the values written, and the '
              'request that arrived.')

os.environ['NO_PROXY'] = os.environ['no_proxy'] = '*'


class Server(object):
    """a key server that records what it is asked"""

    def __init__(self):
        self.requests = []
        self.answer = (200, {}, b'')
        outer = self

        class Handler(http.server.BaseHTTPRequestHandler):

            def do_GET(self, body=b''):
                outer.requests.append((self.command, self.path,
                                       dict(self.headers), body))
                code, headers, data = outer.answer
                self.send_response(code)
                for k, v in headers.items():
                    self.send_header(k, v)
                self.send_header('Content-Length', str(len(data)))
                self.end_headers()
                self.wfile.write(data)

            def do_POST(self):
                n = int(self.headers.get('Content-Length', 0))
                self.do_GET(self.rfile.read(n))

            def log_message(self, *a):
                pass
        # an address of our own, so that the well-known ports are free
        self.host = '127.%d.%d.%d' % (1 + os.getpid() // 65536 % 250,
                                      os.getpid() // 256 % 256,
                                      os.getpid() % 256 or 1)
        self.ports = []
        for port in (0, 11371, 80):
            try:
                s = http.server.HTTPServer((self.host, port), Handler)
            except OSError as e:
                if port == 0:
                    raise HarnessError('no loopback network: %s' % e)
                self.ports.append(None)
                continue
            self.ports.append(s.server_address[1])
            t = threading.Thread(target=s.serve_forever, daemon=True)
            t.start()

    def last(self):
        eq(len(self.requests), 1, 'number of requests')
        return self.requests.pop()


SERVER = None


def server():
    global SERVER
    if SERVER is None or SERVER[0] != os.getpid():
        SERVER = os.getpid(), Server()
    SERVER[1].requests[:] = []
    return SERVER[1]


def client(d, s):
    k = d.draw(4)
    if k == 1 and s.ports[1]:
        d.label('hkp: with its own port')
        url = d.choice(['hkp://%s', 'hkp://%s/', 'HKP://%s']) % s.host
    elif k == 2 and s.ports[2]:
        d.label('http: without port')
        url = d.choice(['http://%s', 'http://%s/']) % s.host
    else:
        url = d.choice(['hkp://%s:%d', 'http://%s:%d/', 'hkp://%s:%d/']) % (
            s.host, s.ports[0])
    return get_keyserver(url)


def escaped(d, text):
    """percent escapes where they are needed and at random elsewhere"""
    out = []
    raw = d.bool(0.15)
    for b in text.encode('utf8'):
        c = chr(b)
        if b < 0x21 or b > 0x7e or c in '%:' or (not raw and c not in (
                'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
                '0123456789 .-_@<>()+&=')):
            out.append(('%%%02x' if d.bool(0.3) else '%%%02X') % b)
        else:
            out.append(c)
    s = ''.join(out)
    if d.bool(0.3):
        s = s.replace('%20', ' ')
    return s


def number(d, lo, hi, edges=()):
    """a number or nothing"""
    if d.bool(0.2):
        return None
    return d.edge_int(lo, hi, edges)


def when(d):
    return None if d.bool(0.2) else clock.timestamp(d)


def flags(d):
    f = [x for x in 'rde' if d.bool(0.3)]
    return set(f), ''.join(d.shuffle(f))


def line(d, *fields):
    s = ':'.join('' if f is None else str(f) for f in fields)
    if d.bool(0.5):
        s = s.rstrip(':')
    return s


def entry(d):
    n = d.choice([8, 16, 40, 32])
    k = {'key_id': d.bytes(n // 2).hex().upper()[:n],
         'algorithm': number(d, 0, 255, (1, 17)),
         'size': number(d, 0, 16384, (1024, 2048)),
         'created': when(d), 'expires': when(d), 'uids': []}
    k['flags'], f = flags(d)
    lines = [line(d, 'pub', k['key_id'], k['algorithm'], k['size'],
                  k['created'], k['expires'], f)]
    for _ in range(d.size(0, 5, 1)):
        if k['uids'] and d.draw(8) == 1:
            # once more
            i = d.draw(len(k['uids']))
            k['uids'].append(k['uids'][i])
            lines.append([l for l in lines if l.startswith('uid')][i])
            d.label('repeated user ID line')
            continue
        u = {'text': d.text(0, 40, mean=10), 'created': when(d),
             'expires': when(d)}
        u['flags'], f = flags(d)
        lines.append(line(d, 'uid', escaped(d, u['text']), u['created'],
                          u['expires'], f))
        k['uids'].append(u)
        if d.bool(0.1):
            lines.append(d.choice(['', 'uat::1300000000::', 'sig:x:y',
                                   '# note', 'xyz']))
            d.label('unknown line')
    return k, lines


def document(d):
    ks, lines = [], []
    for k, l in d.list(0, 12, entry, mean=3):
        ks.append(k)
        lines += l
        if d.draw(10) == 1:
            # the same key once more, from another source
            k, l = (k, l) if d.bool() else (dict(k, uids=[]), l[:1])
            ks.append(k)
            lines += l
            d.label('repeated key line')
    k = d.draw(5)
    if k < 3:
        lines.insert(0, 'info:1:%d' % len(ks))
    elif k == 3:
        lines.insert(0, d.choice(['info:1:', 'info:1']))
        d.label('info line without number')
    else:
        d.label('no info line')
    nl = d.choice(['\n', '\r\n'])
    text = nl.join(lines)
    if d.bool(0.8):
        text += nl
    return ks, text


def stamp(t):
    return None if t is None else int(t.timestamp())


def compare(got, ks):
    eq([r.key_id for r in got], [k['key_id'] for k in ks], 'keys listed')
    for r, k in zip(got, ks):
        w = 'key %s: ' % k['key_id']
        eq(r.public_key_algorithm, k['algorithm'], w + 'algorithm')
        eq(r.bit_length, k['size'], w + 'size')
        eq(stamp(r.created), k['created'], w + 'creation time')
        eq(stamp(r.expires), k['expires'], w + 'expiry time')
        eq((r.revoked, r.disabled, r.expired),
           tuple(x in k['flags'] for x in 'rde'), w + 'flags')
        eq([u.user_id for u in r.user_ids], [u['text'] for u in k['uids']],
           w + 'user IDs')
        for u, m in zip(r.user_ids, k['uids']):
            eq(stamp(u.created), m['created'], w + 'user ID creation time')
            eq(stamp(u.expires), m['expires'], w + 'user ID expiry time')
            eq((u.revoked, u.disabled, u.expired),
               tuple(x in m['flags'] for x in 'rde'), w + 'user ID flags')
            check(u.result is r, w + 'user ID of another result')
        str(r), [str(u) for u in r.user_ids]


def terms(d):
    k = d.draw(5)
    if k == 0:
        return '0x' + d.bytes(d.choice([4, 8, 20])).hex()
    if k == 1:
        return d.text(1, 10, alphabet='&=+%#?/;: "\'<>@')
    return d.text(1, 30, mean=8)


def query(path):
    p = urllib.parse.urlsplit(path)
    q = urllib.parse.parse_qs(p.query, keep_blank_values=True,
                              strict_parsing=True)
    return p.path, q


def arrived(q, name, want, what):
    eq(q.get(name), [want], what)


def truth(q, name, want):
    v = q.get(name, ['no'])
    check(len(v) == 1 and v[0] in ('yes', 'no', 'on', 'off'),
          'option %s is odd' % name, v)
    eq(v[0] in ('yes', 'on'), want, 'option ' + name)


@suite.prop(quick=2400, thorough=50000, timeout=60)
def search(d):
    s = server()
    ks, text = document(d)
    d.note('document', text)
    d.label('%s keys' % (len(ks) if len(ks) < 4 else 'more'))
    want = terms(d)
    d.note('search text', want)
    d.key = (text, want)
    d.nontrivial(len(ks) > 1 or any(len(k['uids']) > 1 for k in ks))
    exact = d.choice([None, False, True])
    s.answer = 200, {'Content-Type': d.choice(
        ['text/plain', 'text/plain; charset=utf-8', 'text/plain'])}, \
        text.encode('ascii')
    c = client(d, s)
    with clock.Zone(d.choice(clock.ZONES)):
        found(d, s, c, want, exact, ks)


def found(d, s, c, want, exact, ks):
    got = c.search(want) if exact is None else c.search(want, exact)
    method, path, _, _ = s.last()
    eq(method, 'GET', 'method')
    where, q = query(path)
    eq(where, '/pks/lookup', 'path')
    arrived(q, 'op', 'index', 'operation')
    arrived(q, 'search', want, 'search text')
    check('mr' in q.get('options', [''])[0].split(','),
          'no machine-readable answer was asked for', q)
    truth(q, 'exact', bool(exact))
    compare(got, ks)
    if got:
        # a result downloads the key it stands for
        i = d.draw(len(got))
        els = some_key(d, 'public')
        s.answer = 200, {}, armored(d, els)
        k = got[i].get()
        _, q = query(s.last()[1])
        arrived(q, 'op', 'get', 'operation')
        arrived(q, 'search', '0x' + ks[i]['key_id'], 'key asked for')
        same_key(k, els)


def some_key(d, kind):
    def key_packet(d):
        body, f = c05.public(d)
        return f['version'], body
    return tkeys.key(d, kind, key_packet, sizes=(2, 2, 1, 2),
                     secret_tail=lambda d: c05.secret(d)[0])


def armored(d, els, kind='PUBLIC'):
    import base64
    raw = b''.join(tkeys.raw(els))
    b = base64.b64encode(raw).decode()
    out = ['-----BEGIN PGP %s KEY BLOCK-----' % kind]
    if d.bool(0.5):
        out.append('Version: ' + d.choice(['SKS 1.1.5', 'x', '2.4']))
    if d.bool(0.3):
        d.label('non-ASCII armor comment')
        out.append('Comment: Schlüssel ключ')
    out += [''] + [b[i:i + 64] for i in range(0, len(b), 64)]
    c = ref.crc24(raw)
    c = c if isinstance(c, bytes) else int(c).to_bytes(3, 'big')
    out.append('=' + base64.b64encode(c).decode())
    out += ['-----END PGP %s KEY BLOCK-----' % kind, '']
    return d.choice(['\n', '\r\n']).join(out).encode('utf8')


def same_key(k, els, fmt=True):
    got = [ref.read_packet(bytes(p))[1:3] for p in k.to_packets()]
    eq(got, [ref.read_packet(p)[1:3] for p in tkeys.raw(els)],
       'packets of the key')


@suite.prop(quick=1200, thorough=25000, timeout=60)
def download(d):
    s = server()
    els = some_key(d, 'public')
    kid = d.bytes(d.choice([4, 8, 16, 20])).hex().upper()
    s.answer = 200, {'Content-Type': d.choice(
        ['application/pgp-keys', 'text/plain', 'application/pgp-keys; '
         'charset=UTF-8'])}, armored(d, els)
    d.note('answer', s.answer[2])
    d.nontrivial(len(els) > 2)
    exact = d.bool()
    k = client(d, s).get(kid, exact)
    method, path, _, _ = s.last()
    eq(method, 'GET', 'method')
    where, q = query(path)
    eq(where, '/pks/lookup', 'path')
    arrived(q, 'op', 'get', 'operation')
    arrived(q, 'search', '0x' + kid, 'key asked for')
    truth(q, 'exact', exact)
    same_key(k, els)


@suite.prop(quick=1200, thorough=25000, timeout=60)
def upload(d):
    s = server()
    kind = d.choice(['public', 'public', 'secret'])
    els = some_key(d, kind)
    key = shortcuts.read_key(bytearray(b''.join(tkeys.raw(els))))
    d.label('upload of a %s key' % kind)
    d.nontrivial(len(els) > 2)
    no_modify = d.choice([None, False, True])
    s.answer = 200, {}, b'ok'
    c = client(d, s)
    if no_modify is None:
        c.submit(key)
    else:
        c.submit(key, no_modify)
    method, path, headers, body = s.last()
    eq(method, 'POST', 'method')
    eq(path, '/pks/add', 'path')
    q = urllib.parse.parse_qs(body.decode('ascii'), keep_blank_values=True,
                              strict_parsing=True)
    eq('nm' in q.get('options', [''])[0].split(','), bool(no_modify),
       'option nm')
    text = q.get('keytext', [''])
    eq(len(text), 1, 'number of keys sent')
    got = dearmor(text[0])
    eq([p[1:3] for p in ref.read_packets(got)],
       [ref.read_packet(p)[1:3] for p in tkeys.public_raw(els)],
       'packets sent')
    eq(isinstance(key, TransferableSecretKey), kind == 'secret',
       'the key itself afterwards')


def dearmor(text):
    import base64
    lines = text.replace('\r\n', '\n').split('\n')
    check(lines[0] == '-----BEGIN PGP PUBLIC KEY BLOCK-----',
          'first line of the armor', lines[0])
    i = lines.index('')
    j = lines.index('-----END PGP PUBLIC KEY BLOCK-----')
    body = lines[i + 1:j]
    if body and body[-1].startswith('=') and len(body[-1]) == 5:
        body.pop()
    return base64.b64decode(''.join(body), validate=True)


@suite.prop(quick=400, timeout=60)
def errors(d):
    """What the server refuses is not taken for an answer."""
    s = server()
    code = d.choice([400, 403, 404, 410, 500, 501, 503])
    ks, text = document(d)
    els = some_key(d, 'public')
    op = d.choice(['search', 'get', 'submit'])
    d.label('%s answered with %d' % (op, code))
    d.key = (op, code, len(ks))
    d.nontrivial()
    s.answer = code, {}, text.encode() if op == 'search' else \
        armored(d, els)
    c = client(d, s)
    try:
        if op == 'search':
            got = c.search('x')
            check(not got and code == 404, 'an error page was read', code)
        elif op == 'get':
            c.get('00')
            raise Violation('a key was read from an error page')
        else:
            c.submit(shortcuts.read_key(bytearray(b''.join(
                tkeys.raw(els)))))
            raise Violation('a refused key was not reported')
    except Violation:
        raise
    except Exception:
        pass


@suite.prop(quick=600)
def addresses(d):
    """Which server and transport an address names."""
    scheme = d.choice(['hkp', 'hkps', 'http', 'https'])
    host = d.choice(['keys.example.org', 'a', '127.0.0.1', '[::1]'])
    port = d.choice(['', '', ':%d' % d.int(1, 65535)])
    under = d.choice(['', '/', '/', '/sks/', '/a/b/'])
    url = d.choice([scheme, scheme.upper()]) + '://' + host + port + under
    if len(under) > 1:
        d.label('below a directory')
    d.note('address', url)
    d.key = url
    d.nontrivial()
    c = get_keyserver(url)
    want = host + (port or (':11371' if scheme == 'hkp' else ''))
    for got, path in ((c.get_url, '/pks/lookup'), (c.submit_url, '/pks/add')):
        p = urllib.parse.urlsplit(got)
        eq(p.scheme, 'https' if scheme in ('hkps', 'https') else 'http',
           'transport of ' + got)
        default = ':443' if p.scheme == 'https' else ':80'
        check(p.netloc == want or (not port and p.netloc == want + default),
              'server of ' + got, want)
        eq(p.path, under.rstrip('/') + path, 'path of ' + got)
