"""C30 Passphrases from the agent and the terminal"""
import getpass as real_getpass
import io
import os
import select
import socket
import threading
import urllib.parse

from vlib.engine import HarnessError, Suite, Violation, check, eq
from vlib import gpg

from pgp.pinentry import getpass as G
from pgp.pinentry.gpg_agent import GPGAgentPinentry

suite = Suite('C30', 'Dialogues with an agent of our own on a Unix socket '
              '(greetings, comment and status lines, passphrases of any text '
              'in one or several data lines, escaped as agents do or more, '
              'cut into pieces of any size, errors, broken connections), '
              'histories of caching and clearing with a real gpg-agent, and '
              'of a user at a terminal who mistypes confirmations. '
              'Non-trivial: the passphrase needs escapes or several lines, '
              'or a request other than the first of a history.')

CHARS = 'aZ09 %+\r\n\t#&/\\\x00\x7f\u00e9\u20ac\U0001f511D'


def text(d, hi=30, plain=False):
    if d.draw(5) == 0:
        return ''
    return d.text(1, hi, alphabet='abcXYZ -' if plain or d.draw(3) == 0
                  else CHARS, mean=8)


class Agent(object):
    """answers the connections of one case"""

    def __init__(self, path):
        self.path = path
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock.bind(path)
        self.sock.listen(5)
        self.stop_r, self.stop_w = os.pipe()
        self.script = []      # one (greeting, answer, cuts) per connection
        self.asked = []
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def wait(self, s):
        r, _, _ = select.select([s, self.stop_r], [], [], 30)
        if s not in r:
            raise EOFError()

    def run(self):
        try:
            while 1:
                self.wait(self.sock)
                c, _ = self.sock.accept()
                try:
                    self.serve(c)
                except OSError:
                    pass
                finally:
                    c.close()
        except EOFError:
            pass

    def send(self, c, data, cuts):
        o = 0
        for n in cuts:
            if o >= len(data):
                break
            c.sendall(data[o:o + n])
            o += n
        c.sendall(data[o:])

    def serve(self, c):
        greeting, answer, cuts = self.script[len(self.asked)]
        self.asked.append(None)
        self.send(c, greeting, cuts)
        if not greeting:
            return
        line = b''
        while not line.endswith(b'\n'):
            self.wait(c)
            x = c.recv(4096)
            if not x:
                return
            line += x
        self.asked[-1] = line
        self.send(c, answer, cuts)

    def close(self):
        os.close(self.stop_w)
        self.thread.join(30)
        self.sock.close()
        os.close(self.stop_r)


def others(d):
    out = b''
    while d.draw(4) == 0:
        out += d.choice([b'# comment\n', b'#\n', b'S PROGRESS x y 1 2\n',
                         b'S DATA D oops\n', b'# OK\n'])
    return out


def escape(d, data):
    much = d.draw(3) == 0
    out = b''
    for i in range(len(data)):
        c = data[i:i + 1]
        if c in b'%\r\n' or much and d.bool(0.3):
            x = '%%%02X' % c[0]
            out += (x.lower() if d.draw(4) == 0 else x).encode()
        else:
            out += c
    return out


def data_lines(d, data, n):
    """-> octets; never inside an escape"""
    out, cur = b'', []
    parts = sorted(d.draw(len(data) + 1) for _ in range(n - 1))
    last = 0
    for p in parts + [len(data)]:
        out += b'D ' + escape(d, data[last:p]) + b'\n' + others(d)
        last = p
    return out


def greeting(d):
    return others(d) + d.choice([b'OK Pleased to meet you, process 123\n',
                                 b'OK\n', b'OK GNU Privacy Guard\n'])


def broken(d):
    """-> greeting, answer, what"""
    k = d.draw(6)
    good = b'D secret\n'
    if k == 0:
        return b'', b'', 'closed at once'
    if k == 1:
        return b'ERR 67108903 go away\n', b'', 'refused at once'
    if k == 2:
        return greeting(d), others(d) + d.choice([b'', good]) + \
            b'ERR ' + d.choice([b'67108922 No data <GPG Agent>',
                                b'83886179 Operation cancelled <Pinentry>',
                                b'1', b'67109139 OK']) + b'\n', 'error'
    if k == 3:
        return greeting(d), b'', 'closed without an answer'
    if k == 4:
        return greeting(d), others(d) + good, 'closed in the answer'
    return greeting(d), good + b'O', 'closed in the last line'


def parse(line):
    """the command that the agent got -> (options, texts)"""
    check(line.endswith(b'\n') and line.count(b'\n') == 1,
          'not one line', line)
    words = line[:-1].decode('ascii').split(' ')
    eq(words.pop(0), 'GET_PASSPHRASE', 'command')
    options = set()
    while words and words[0].startswith('--'):
        options.add(words.pop(0))
    eq(len(words), 4, 'number of arguments')
    return options, [None if w == 'X' else urllib.parse.unquote_plus(w)
                     for w in words]


@suite.prop(quick=1500, thorough=25000, timeout=30)
def agent(d):
    """agent: the passphrase that the agent gives, exactly, or an error"""
    with gpg.Scratch() as tmp:
        a = Agent(tmp.path('S'))
        try:
            dialogue(d, a)
        finally:
            a.close()


def dialogue(d, a):
    p = GPGAgentPinentry(socket_path=a.path)
    for i in range(d.weighted([(5, 1), (2, 2), (1, 3)])):
        cuts = d.choice([[], [1] * 400, [d.int(1, 9) for _ in range(20)]])
        if d.draw(5) == 0:
            d.label('cleared')
            cid = text(d, plain=True).strip('X-') or 'id'
            bad = d.draw(3) == 0
            g, r, what = broken(d) if bad else (
                greeting(d), others(d) + b'OK\n', 'good')
            a.script.append((g, r, cuts))
            d.note('clear', (cid, g + r))
            try:
                res = p.clear_passphrase(cid)
            except Exception as e:
                check(bad, 'clearing failed: %r' % (e,))
            else:
                check(not bad, 'clearing reported no error: ' + what)
                eq(a.asked[-1], b'CLEAR_PASSPHRASE %s\n' %
                   urllib.parse.quote(cid).encode(), 'command')
            continue
        secret = text(d, d.choice([30, 30, 700]))
        raw = secret.encode('utf8')
        texts = {n: text(d, 25) for n in ('cache_id', 'error_message',
                                          'prompt', 'description')
                 if d.bool(0.6)}
        for n in list(texts):
            # (an X alone means nothing)
            if texts[n] == 'X' or texts[n].startswith('--'):
                del texts[n]
        args = dict(texts)
        flags = {}
        for n in ('no_ask', 'qualitybar'):
            if d.bool(0.3):
                flags[n] = d.bool()
        if d.bool(0.3):
            flags['repeat'] = d.choice([0, 1, 2, 3, d.int(0, 200)])
        args.update(flags)
        if d.draw(5) == 0:
            args['use_cache'] = d.bool()
        bad = d.draw(4) == 0
        if bad:
            g, r, what = broken(d)
            d.label(what)
        else:
            n = d.weighted([(4, 1), (1, 2), (1, 4)]) if raw else \
                d.draw(2)
            g = greeting(d)
            r = others(d) + (data_lines(d, raw, n) if n else b'') + \
                d.choice([b'OK\n', b'OK done\n'])
            d.label('%d data lines' % n)
            d.nontrivial(n > 1 or any(c in secret for c in '%\r\n') or
                         secret != secret.encode('ascii', 'replace')
                         .decode())
        d.note('asked', args)
        d.note('answer', g + r)
        a.script.append((g, r, cuts))
        # by name or in the order of the interface
        try:
            got = p.get_passphrase(**args)
        except Exception as e:
            check(bad, 'an answer of the agent was refused: %r' % (e,))
            continue
        check(not bad, 'a passphrase came out of a failed dialogue (%s)' %
              (bad and what), got)
        eq(got, secret, 'passphrase')
        options, asked = parse(a.asked[-1])
        names = ['cache_id', 'error_message', 'prompt', 'description']
        want = [args.get(n) or None for n in names]
        if not args.get('use_cache', True):
            want[0] = None
        eq(asked, want, 'texts of the request')
        check('--data' in options, 'the passphrase is wanted as data')
        options.discard('--data')
        eq('--no-ask' in options, bool(flags.get('no_ask')), 'no_ask')
        options.discard('--no-ask')
        eq('--qualitybar' in options, bool(flags.get('qualitybar')),
           'qualitybar')
        options.discard('--qualitybar')
        n = flags.get('repeat', 0)
        check(options in ([{'--repeat=%d' % n}, {'--repeat'}] if n == 1 else
                          [{'--repeat=%d' % n}] if n else
                          [set(), {'--repeat=0'}]), 'repeat', options)


def assuan(path, *commands):
    """-> lines of the last answer"""
    with socket.socket(socket.AF_UNIX, socket.SOCK_STREAM) as s:
        s.settimeout(30)
        s.connect(path)
        f = s.makefile('rwb')
        f.readline()
        for c in commands:
            f.write(c + b'\n')
            f.flush()
            lines = []
            while not lines or lines[-1].split(b' ')[0] not in (
                    b'OK\n', b'OK', b'ERR'):
                l = f.readline()
                if not l:
                    raise HarnessError('the agent is gone')
                lines.append(l)
        return lines


@suite.prop(quick=8, thorough=120, timeout=90)
def gpg_agent(d):
    """gpg-agent: what a real agent remembers, until it is cleared"""
    with gpg.Home() as home:
        home.write('gpg-agent.conf', b'allow-preset-passphrase\n'
                   b'disable-scdaemon\n')
        r = gpg.run(['gpg-connect-agent', '--homedir', home.dir, '/bye'])
        path = home.path('S.gpg-agent')
        if not os.path.exists(path):
            r = gpg.run(['gpgconf', '--homedir', home.dir, '--list-dirs',
                         'agent-socket'])
            path = r.stdout.decode().strip()
        if not os.path.exists(path):
            raise HarnessError('no agent')
        os.environ['GPG_AGENT_INFO'] = path + ':1:1'
        p = GPGAgentPinentry() if d.bool() else GPGAgentPinentry(
            socket_path=path)
        known = {}
        ids = ['a', 'b c', 'pgp:\u00e9', 'X%', 'user@example.org', 'A']
        for i in range(d.int(3, 25)):
            cid = d.choice(ids)
            k = d.draw(5)
            if k < 2:
                # (C strings; an empty one is no entry)
                secret = text(d, 60).replace('\0', '') or 'x'
                d.note('preset', (cid, secret))
                l = assuan(path, b'PRESET_PASSPHRASE %s -1 %s' % (
                    urllib.parse.quote(cid).encode(),
                    secret.encode('utf8').hex().upper().encode()))
                if l[-1][:2] != b'OK':
                    raise HarnessError('not preset: %r' % l)
                known[cid] = secret
            elif k == 2:
                d.note('clear', cid)
                p.clear_passphrase(cid)
                known.pop(cid, None)
            d.nontrivial(i > 0 and known)
            for cid in ids if k == 3 else [cid]:
                try:
                    got = p.get_passphrase(cache_id=cid, no_ask=True)
                except Exception as e:
                    check(cid not in known, 'no passphrase: %r' % (e,))
                else:
                    check(cid in known, 'a passphrase that nobody gave', got)
                    eq(got, known[cid], 'passphrase')


class User(object):
    """types passphrases at a terminal"""

    def __init__(self, d):
        self.d = d
        self.rounds = []     # passphrase and confirmations of each round
        self.first = None

    def __call__(self, prompt='Password: ', stream=None):
        if self.first is None:
            self.first = prompt
        if not self.rounds or prompt == self.first:
            if len(self.rounds) > 12:
                raise Violation('asked again and again')
            self.secret = text(self.d)
            self.errs = len(self.rounds) < 6 and self.d.draw(3) == 0
            self.rounds.append([self.secret])
            return self.secret
        answer = self.secret
        if self.errs and self.d.bool(0.6):
            answer = self.d.choice([
                self.secret + ' ', self.secret[:-1], self.secret.swapcase(),
                text(self.d)])
        self.rounds[-1].append(answer)
        return answer


@suite.prop(quick=1500, thorough=25000, timeout=30)
def terminal(d):
    """terminal: what was typed and confirmed, remembered until cleared"""
    user = User(d)
    saved = getattr(G, 'getpass', None), real_getpass.getpass
    if callable(saved[0]):
        G.getpass = user
    real_getpass.getpass = user
    try:
        history(d, user)
    finally:
        if callable(saved[0]):
            G.getpass = saved[0]
        real_getpass.getpass = saved[1]


def history(d, user):
    p = G.GetPassPinentry()
    other = G.GetPassPinentry()
    cache = {}
    ids = ['a', 'b', 'A', 'a ']
    for i in range(d.int(1, 9)):
        cid = d.choice(ids + [None, 'X', ''])
        if d.draw(4) == 0:
            d.note('clear', cid)
            p.clear_passphrase(cid)
            cache.pop(cid, None)
            continue
        repeat = d.choice([0, 0, 1, 2, 3, d.int(1, 12)])
        args = {'repeat': repeat} if repeat else {}
        if cid is not None:
            args['cache_id'] = cid
        use = no_ask = None
        if d.draw(4) == 0:
            use = args['use_cache'] = d.bool()
        if d.draw(4) == 0:
            no_ask = args['no_ask'] = d.bool()
        for n in ('prompt', 'description', 'error_message'):
            if d.draw(3) == 0:
                args[n] = text(d, 12, True)
        d.note('get', args)
        d.nontrivial(i > 0)
        out = io.StringIO()
        user.rounds, user.first = [], None
        known = cid in cache and use is not False
        try:
            got = p.get_passphrase(stream=out, **args)
        except Exception as e:
            check(no_ask and not known, 'no passphrase: %r' % (e,))
            check(not user.rounds, 'asked in spite of no_ask')
            continue
        if known:
            eq(got, cache[cid], 'remembered passphrase')
            check(not user.rounds, 'asked for a passphrase that is known')
            d.label('remembered')
            continue
        check(not no_ask, 'a passphrase that nobody gave', got)
        d.label('%d rounds' % len(user.rounds))
        for n, r in enumerate(user.rounds):
            good = len(r) == repeat + 1 and len(set(r)) == 1
            last = n == len(user.rounds) - 1
            check(good == last, 'round %d of %d was %s' % (
                n + 1, len(user.rounds), 'right' if good else 'wrong'),
                user.rounds)
        eq(got, user.rounds[-1][0], 'passphrase')
        for n in ('prompt', 'description'):
            if args.get(n, 'X') not in ('X', ''):
                check(args[n] in out.getvalue(), 'the user sees no ' + n,
                      out.getvalue())
        if cid not in (None, 'X', '') and use is not False:
            cache[cid] = got
