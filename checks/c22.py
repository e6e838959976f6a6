"""C22 The key database behaves as a durable map of keys"""
import os
import platform
import select
import shutil
import signal
import struct
import tempfile
import time

from vlib.engine import HarnessError, Suite, Violation, check, eq
from vlib import gpg, keys, ref, tkeys
from checks import c05

from dbm import gnu as gdbm
from pgp import shortcuts
from pgp.db import gpg as DB
from pgp.transferrable_keys import TransferableSecretKey

suite = Suite('C22', 'Histories of up to 25 operations (add, update, delete, '
              'each also where it must fail, searches, listing, reopening, '
              'read-only opening) on one to four key files (keyrings and GDBM '
              'files, public and secret, new, empty or written beforehand '
              'by our own writer with trust packets) and a pool of two to '
              'seven keys with colliding short and long key IDs; histories of '
              'two to four processes or threads at once, with pauses at '
              'their file operations and calls, with or without a stale '
              'lock; locks held by live and dead processes. After every operation the files are read with our '
              'own reader. Oracle: a dictionary per file. Non-trivial: a '
              'key was changed or removed while the file held another one.')

# (key of the pool, creation time) with equal short key IDs
COLLISIONS = [((3, 1300001968), (9, 1300003570)),
              ((5, 1300003881), (8, 1300005169)),
              ((12, 1300003750), (12, 1300012325)),
              ((14, 1300006869), (13, 1300007995)),
              ((0, 1300014816), (0, 1300021311))]


class Variant(object):
    """one state of one key"""

    def __init__(self, d, kind, version, body, sizes=(2, 3, 1, 2)):
        first = [(version, body)]

        def key_packet(d):
            if first:
                return first.pop()
            return 4, keys.SMALL[d.draw(len(keys.SMALL))].public_body(
                d.int(0, 2 ** 31))
        if sizes[3] and d.draw(15) == 14:
            sizes = (90, 1, 60, 1)
            d.label('key of many packets')
        self.els = tkeys.key(d, kind, key_packet, sizes=sizes,
                             secret_tail=lambda d: c05.secret(d)[0])
        self.kind = kind
        self.raw = tkeys.raw(self.els)
        self.packets = [ref.read_packet(p)[1:3] for p in self.raw]
        self.uids = [e.body for e in self.els if e.kind == 'uid']

    def key(self):
        return shortcuts.read_key(b''.join(self.raw))

    def with_trust(self, d):
        """as older keyrings hold it"""
        out = []
        every = d.bool(0.4)
        for p, (t, _) in zip(self.raw, self.packets):
            out.append(p)
            if every or t == 2 and d.bool(0.3):
                out.append(ref.packet('old', 12, d.bytes(d.int(1, 3))))
            if d.draw(20) == 0:
                # (to be skipped)
                out.append(ref.packet('old', 8, b'\0' + d.bytes(3)))
        return out


class Identity(object):

    def __init__(self, version, body):
        self.version, self.body = version, body
        if version < 4:
            n, i = ref.read_mpi(body, 8)
            e, _ = ref.read_mpi(body, i)
            self.fp = ref.fingerprint_v3(n, e)
            self.kid = ('%016X' % n)[-16:]
        else:
            self.fp = ref.fingerprint_v4(body)
            self.kid = self.fp[-16:]


def v3_body(n, e=17, t=1000000000):
    return b'\x03' + struct.pack('>IHB', t, 0, 1) + ref.mpi(n) + ref.mpi(e)


def pool(d, hi=7):
    out = []
    n = d.int(2, hi)
    while len(out) < n:
        k = d.draw(8)
        if k < 4:
            new = [(4, keys.SMALL[d.draw(len(keys.SMALL))].public_body(
                1300000000 + d.draw(1000)))]
        elif k == 4:
            a, b = d.choice(COLLISIONS)
            new = [(4, keys.SMALL[i].public_body(t)) for i, t in (a, b)]
            d.label('short key ID collision')
        elif k == 5:
            m = (1 << 700) + d.draw(1 << 64) * 2 + 1
            other = m + (d.int(1, 1 << 30) << d.choice([32, 64]))
            new = [(3, v3_body(m)), (3, v3_body(other))]
            d.label('version 3 key ID collision')
        elif k == 6:
            body, f = c05.public(d)
            new = [(f['version'], body)]
        else:
            new = [(3, v3_body((1 << 600) + d.draw(1 << 64)))]
        for v, b in new:
            i = Identity(v, b)
            if all(i.fp != o.fp for o in out):
                out.append(i)
        if d.prefix is not None and len(d.choices) > 4000:
            d.reject()
    return out


def split_keys(data):
    """keyring octets -> list of lists of (tag, body, raw)"""
    out = []
    o = 0
    while o < len(data):
        _, tag, body, end = ref.read_packet(data, o)
        if tag in (5, 6):
            out.append([])
        check(out, 'the file begins with a packet that is no key')
        out[-1].append((tag, bytes(body), bytes(data[o:end])))
        o = end
    return out


class File(object):
    """a key file and what it should hold"""

    def __init__(self, path, kind, store):
        self.path, self.kind, self.store = path, kind, store
        self.model = {}            # fingerprint -> Variant
        self.pristine = {}         # fingerprint -> octets in the file
        self.missing = True

    def octets(self):
        with open(self.path, 'rb') as f:
            return f.read()

    def content(self):
        """fingerprint -> (packets without trust and compressed ones, octets)"""
        out = {}
        if self.store == 'gdbm':
            db = gdbm.open(self.path, 'r')
            entries = []
            k = db.firstkey()
            while k is not None:
                got = split_keys(db[k])
                eq(len(got), 1, 'keys in one GDBM entry')
                entries.append((k.decode(), got[0]))
                k = db.nextkey(k)
            db.close()
        else:
            entries = [(None, e) for e in split_keys(self.octets())]
        for name, e in entries:
            body = e[0][1]
            if e[0][0] == 5:
                body = public_part(body)
            i = Identity(body[0], body)
            if name is not None:
                eq(name, i.fp, 'name of a GDBM entry')
            check(i.fp not in out, 'a key is stored twice', i.fp)
            out[i.fp] = ([(t, b) for t, b, _ in e if t not in (8, 12)],
                         b''.join(r for _, _, r in e))
        return out

    def verify(self, what):
        got = self.content()
        eq(sorted(got), sorted(self.model), 'keys in the file after ' + what)
        for fp in got:
            eq(got[fp][0], self.model[fp].packets,
               'packets of key %s after %s' % (fp, what))
            if fp in self.pristine:
                eq(got[fp][1], self.pristine[fp],
                   'octets of another key after ' + what)
            self.pristine[fp] = got[fp][1]


def public_part(body):
    """the public part of a secret key packet's body"""
    v = body[0]
    o = 8 if v < 4 else 6
    alg = body[o - 1]
    for _ in range({1: 2, 2: 2, 3: 2, 16: 3, 20: 3, 17: 4}[alg]):
        _, o = ref.read_mpi(body, o)
    return body[:o]


def ident(k):
    return ('secret' if isinstance(k, TransferableSecretKey) else 'public',
            [ref.read_packet(bytes(p))[1:3] for p in k.to_packets()])


def freeze(x):
    return (x[0], tuple(x[1]))


class World(object):

    def __init__(self, d, scratch, ids):
        self.d, self.scratch, self.ids = d, scratch, ids
        self.files = []
        self.variants = {}
        n = d.weighted([(2, 1), (5, 2), (2, 3), (1, 4)])
        for i in range(n):
            kind = ['public', 'secret'][i] if n == 2 else d.choice(
                ['public', 'secret'])
            f = File(scratch.path('ring%d' % i), kind, d.weighted(
                [(4, 'keyring'), (1, 'gdbm')]))
            how = d.draw(3)
            d.label(f.store + ' ' + ['new', 'empty', 'prepared'][how])
            if f.store == 'gdbm' and how == 0:
                # made by the class for such files
                self.fails(lambda: DB.GDBM(f.path, False, kind == 'secret',
                                           False, False),
                           'opening a missing GDBM file')
                check(not os.path.exists(f.path), 'the missing file exists')
                DB.GDBM(f.path, True, kind == 'secret', False, False)
                eq(os.stat(f.path).st_mode & 0o77, 0, 'rights of others')
                f.missing = False
            elif f.store == 'gdbm':
                db = gdbm.open(f.path, 'n')
                f.missing = False
                if how == 2:
                    for idn in self.some():
                        v = self.variant(idn, kind)
                        db[idn.fp] = b''.join(v.raw)
                        f.model[idn.fp] = v
                db.close()
            elif how:
                data = b''
                if how == 2:
                    for idn in self.some():
                        v = self.variant(idn, kind)
                        data += b''.join(v.with_trust(d))
                        f.model[idn.fp] = v
                scratch.write('ring%d' % i, data)
                f.missing = False
            self.files.append(f)
        self.order = list(self.files)
        self.open()
        for f in self.files:
            f.verify('opening')

    def some(self):
        return [i for i in self.ids if self.d.bool(0.6)]

    def variant(self, idn, kind):
        d = self.d
        old = self.variants.setdefault((idn.fp, kind), [])
        if old and d.bool(0.3):
            return d.choice(old)
        v = Variant(d, kind, idn.version, idn.body)
        old.append(v)
        return v

    def open(self, read_only=False):
        d = self.d
        self.read_only = read_only
        self.db = DB.GPGDatabase()
        self.order = []
        self.resources = {}
        for f in self.files:
            name = f.path
            k = d.draw(4)
            if k == 1 and f.store == 'keyring':
                name = 'gnupg-keyring:' + f.path
                d.label('named with gnupg-keyring:')
            elif k == 2:
                name = os.path.relpath(f.path)
            primary = d.bool(0.3)
            if f.missing and d.bool(0.5):
                # without force a missing file is refused
                self.fails(lambda: self.db.add_resource(name), 'opening a '
                           'missing file')
                check(not os.path.exists(f.path), 'the missing file exists')
            res = self.db.add_resource(
                name, force=f.missing or d.bool(0.2), primary=primary,
                read_only=read_only, secret=f.kind == 'secret')
            f.missing = False
            check(os.path.exists(f.path), 'no file at the named place', name)
            eq(os.path.abspath(res.filename), f.path, 'file of the resource')
            self.resources[f.path] = res
            if primary:
                self.order.insert(0, f)
            else:
                self.order.append(f)
            if d.bool(0.1):
                again = self.db.add_resource(
                    f.path, read_only=read_only, secret=f.kind == 'secret')
                check(again is res, 'the same file was registered twice')

    def fails(self, fn, what):
        try:
            fn()
        except Exception as e:
            check(not isinstance(e, (AttributeError, NameError,
                                     UnboundLocalError)),
                  '%s failed by accident' % what, e)
        else:
            raise Violation('%s raised no error' % what)

    def target(self, kind):
        for f in self.order:
            if f.kind == kind:
                return f
        return None

    def change(self):
        d = self.d
        op = d.choice(['add', 'add', 'update', 'delete'])
        kind = d.choice(['public', 'secret'])
        idn = d.choice(self.ids)
        f = self.target(kind)
        v = self.variant(idn, kind)
        what = '%s %s %s' % (op, kind, idn.fp[-8:])
        if f is not None:
            known = idn.fp in f.model
            if known == (op == 'add') and d.bool(0.6):
                # rather one that can work
                op = d.choice(['update', 'delete']) if known else 'add'
                what = '%s %s %s' % (op, kind, idn.fp[-8:])
        key = v.key()
        before = [x.octets() for x in self.files]
        call = getattr(self.db, op + '_key')
        if d.draw(12) == 0:
            # what is no key cannot be stored
            other = d.choice([None, b''.join(v.raw), v.raw,
                              (key.user_ids + key.user_attributes +
                               key.subkeys + key.signatures + [v])[0]])
            d.label('no key')
            d.note('operation', (op, 'no key'))
            self.fails(lambda: call(other), op + ' of what is no key')
            for x, b in zip(self.files, before):
                eq(x.octets(), b, 'file after a failed ' + op)
                x.verify('failed ' + op)
        works = f is not None and not self.read_only and \
            (idn.fp in f.model) == (op != 'add')
        d.note('operation', what + ('' if works else ' (must fail)'))
        if works:
            d.label(op)
            if op != 'add' and len(f.model) > 1:
                d.nontrivial()
            call(key)
            f.pristine.pop(idn.fp, None)
            if op == 'delete':
                del f.model[idn.fp]
            else:
                f.model[idn.fp] = v
        else:
            d.label('failing ' + op)
            elsewhere = [x for x in self.files
                         if x is not f and x.kind == kind
                         and idn.fp in x.model]
            if op != 'add' and elsewhere and not self.read_only:
                # it may look in the other files as well: not specified
                return
            self.fails(lambda: call(key), what)
            for x, b in zip(self.files, before):
                eq(x.octets(), b, 'file after a failed ' + what)
        # the key object itself is left alone
        eq(ident(key)[1], v.packets, 'the key object after ' + what)
        for x in self.files:
            x.verify(what)
        locks = [n for n in os.listdir(self.scratch.dir)
                 if n.endswith('.lock')]
        eq(locks, [], 'locks left behind by ' + what)

    def search(self):
        d = self.d
        idn = d.choice(self.ids)
        if d.draw(20) == 0:
            eq(list(self.db.search()), [], 'search for nothing')
        k = d.draw(6)
        args = {}
        pred = []
        if k == 0:
            args['fingerprint'] = idn.fp
            pred.append(lambda i, v: i.fp == idn.fp)
            if d.bool(0.3):
                args['key_id'] = idn.kid[-d.choice([8, 16]):]
        elif k == 1:
            args['key_id'] = idn.kid
            pred.append(lambda i, v: i.kid == idn.kid)
        elif k == 2:
            args['key_id'] = idn.kid[-8:]
            pred.append(lambda i, v: i.kid[-8:] == idn.kid[-8:])
        elif k == 3:
            # nothing like it
            if d.bool():
                args['fingerprint'] = x = d.bytes(16).hex().upper() + \
                    idn.fp[-8:]
                x = args['fingerprint'] = args['fingerprint'].rjust(40, '0')
                pred.append(lambda i, v: i.fp == x)
            else:
                args['key_id'] = x = d.bytes(4).hex().upper() + idn.kid[-8:]
                pred.append(lambda i, v: i.kid == x)
        if k >= 4 or d.bool(0.3):
            text = self.some_text()
            args['user_id'] = text
            pred.append(lambda i, v: any(
                text.lower() in u.decode('utf8', 'replace').lower()
                for u in v.uids))
        d.note('search', args)
        d.label('search by ' + ' and '.join(sorted(args)))
        want = []
        for f in self.files:
            for i in self.ids:
                v = f.model.get(i.fp)
                if v is not None and all(p(i, v) for p in pred):
                    want.append((f.kind, tuple(v.packets)))
        got = [freeze(ident(x)) for x in self.db.search(**args)]
        d.label('%s found' % (len(want) if len(want) < 3 else 'several'))
        eq(sorted(set(got)), sorted(set(want)), 'search result')
        check(len(got) <= len(want), 'a key was found more than once')

    def some_text(self):
        d = self.d
        texts = []
        for f in self.files:
            for v in f.model.values():
                for u in v.uids:
                    try:
                        t = u.decode('ascii')
                    except UnicodeDecodeError:
                        continue
                    if t:
                        texts.append(t)
        if not texts or d.bool(0.15):
            return d.choice(['nobody', 'e', 'A', '<', 'a b'])
        t = d.choice(texts)
        i = d.draw(len(t))
        t = t[i:i + d.int(1, 12)]
        return d.choice([t, t, t.upper(), t.lower(), t.swapcase()])

    def listing(self):
        d = self.d
        d.label('listing')
        eq(sorted(self.db.keys()),
           sorted(fp for f in self.files for fp in f.model),
           'keys of the database')
        for f in self.files:
            r = self.resources[f.path]
            eq(sorted(iter(r)), sorted(f.model), 'keys of the file')
            for fp, k in r.items():
                eq(ident(k), (f.kind, f.model[fp].packets), 'item ' + fp)
            eq(sorted(freeze(ident(k)) for k in r.values()),
               sorted((f.kind, tuple(v.packets)) for v in f.model.values()),
               'values of the file')
            for i in self.ids:
                eq(i.fp in r, i.fp in f.model, 'membership')

    def step(self):
        d = self.d
        k = d.draw(10)
        if k < 6:
            self.change()
        elif k < 8:
            self.search()
        elif k == 8:
            self.listing()
        else:
            d.label('reopened')
            self.open(read_only=d.bool(0.25))
            if self.read_only:
                d.label('reopened read-only')


@suite.prop(quick=700, thorough=12000, timeout=60)
def histories(d):
    # lock objects stay registered until the process ends
    getattr(DB, '_locks', []).clear()
    with gpg.Scratch() as s:
        ids = pool(d)
        w = World(d, s, ids)
        d.list(1, 25, lambda d: w.step(), mean=9)
        w.open()
        for f in w.files:
            f.verify('the end')
        w.listing()


@suite.prop(quick=120, thorough=2500, timeout=60)
def gnupg_reads_it(d):
    """An independent implementation sees the same keys in the file."""
    getattr(DB, '_locks', []).clear()
    with gpg.Scratch() as s:
        good = [keys.SMALL[i].public_body(1300000000 + i)
                for i in range(len(keys.SMALL))]
        ids = [Identity(4, good[i]) for i in
               d.shuffle(range(len(good)))[:d.int(2, 5)]]
        db = DB.GPGDatabase()
        path = s.path('ring')
        db.add_resource(path, force=True)
        model = {}
        for _ in range(d.int(2, 10)):
            i = d.choice(ids)
            v = Variant(d, 'public', i.version, i.body, sizes=(0, 2, 0, 0))
            k = v.key()
            if i.fp not in model:
                db.add_key(k)
                model[i.fp] = v
            elif d.bool(0.6):
                db.update_key(k)
                model[i.fp] = v
            else:
                db.delete_key(k)
                del model[i.fp]
        d.nontrivial(len(model) > 0)
        d.label('%d keys' % len(model))
        r = gpg.run(['gpg', '--homedir', s.dir, '--batch', '--list-packets',
                     path])
        got = r.stdout.decode('latin-1')
        seen = [l.split()[1] for l in got.splitlines()
                if l.startswith('\tkeyid: ')]
        eq(sorted(seen), sorted(Identity(4, model[f].els[0].body).kid
                                for f in model), 'keys GnuPG finds')
        eq(got.count(':user ID packet:'),
           sum(len(v.uids) for v in model.values()),
           'user IDs GnuPG finds')


@suite.prop(quick=40, thorough=600, timeout=90)
def made_by_gnupg(d):
    """A key ring that GnuPG keeps holds the keys that GnuPG exports."""
    getattr(DB, '_locks', []).clear()
    with gpg.Home() as s:
        # (otherwise GnuPG makes a key box)
        path = s.write('pubring.gpg', b'')
        n = d.int(1, 4)
        chosen = d.shuffle([k for k in keys.SMALL if k.kind != 'elg'])[:n]
        subs = [k for k in keys.RSA + keys.ELG if k.bits <= 2048]
        ids = []
        for i, k in enumerate(chosen):
            data, kid, _ = gpg.certificate(
                k, 1300000000 + d.draw(10 ** 6), b'user %d <u%d@x.org>' % (
                    i, i), d.choice([None, d.choice(subs)]))
            r = s.import_key(data, False)
            ids.append(kid.hex().upper())
        r = s.gpg('--no-autostart', '--check-sigs')
        if d.bool():
            r = s.gpg('--no-autostart', '--export-ownertrust')
        model = {}
        for kid in ids:
            r = s.gpg('--no-autostart', '--export', kid)
            if r.stdout:
                model[kid] = [p[1:] for p in ref.read_packets(r.stdout)]
        raw = ref.read_packets(s.read('pubring.gpg'))
        trust = sum(1 for _, t, _ in raw if t == 12)
        if not model:
            raise HarnessError('GnuPG imported nothing: %r' % r.stderr)
        d.nontrivial(trust and len(model) > 1)
        d.label('%d keys, %strust packets' % (len(model),
                                              '' if trust else 'no '))
        db = DB.GPGDatabase()
        res = db.add_resource(path, read_only=False)

        def verify():
            got = {}
            for k in res.values():
                got[k.key_id] = [p[1:] for p in ref.read_packets(b''.join(
                    bytes(p) for p in k.to_packets()))]
            eq(got, model, 'keys of the ring')
        verify()
        # and GnuPG goes on with what we write
        for kid in sorted(model):
            if d.bool(0.4):
                k, = db.search(key_id=kid)
                if d.bool():
                    d.label('removed')
                    db.delete_key(k)
                    del model[kid]
                else:
                    d.label('changed')
                    db.update_key(k)
                verify()
        r = s.gpg('--no-autostart', '--with-colons', '--list-keys')
        eq(sorted(l.split(':')[4] for l in r.stdout.decode().splitlines()
                  if l.startswith('pub:')), sorted(model),
           'keys that GnuPG lists')


@suite.prop(quick=80, thorough=1500, timeout=60)
def default_files(d):
    """The database of the user is that of GnuPG's directory."""
    getattr(DB, '_locks', []).clear()
    with gpg.Scratch() as s:
        os.mkdir(s.path('.gnupg'))
        ids = pool(d, 4)
        files = []
        absent = d.draw(4) == 0
        for name, kind in (('pubring', 'public'), ('secring', 'secret')):
            f = File(s.path('.gnupg/%s.gpg' % name), kind, 'keyring')
            data = b''
            for i in ids:
                if d.bool(0.6):
                    v = Variant(d, kind, i.version, i.body)
                    f.model[i.fp] = v
                    data += b''.join(v.with_trust(d))
            if not absent or kind == 'public':
                with open(f.path, 'wb') as fh:
                    fh.write(data)
            files.append(f)
        new = Identity(4, keys.SMALL[d.draw(len(keys.SMALL))].public_body(
            1300001500 + d.draw(10)))
        kind = d.draw(2)
        v = Variant(d, ['public', 'secret'][kind], 4, new.body)
        how = d.draw(3)
        d.note('case', ([sorted(f.model) for f in files], absent, kind, how))
        d.nontrivial()
        d.label('one file is missing' if absent else 'both files')

        def process():
            import sys
            # (the place of the files is found when the modules are loaded)
            os.environ['HOME'] = s.dir
            for name in list(sys.modules):
                if name.startswith('pgp'):
                    del sys.modules[name]
            from pgp import shortcuts as fresh
            try:
                db = fresh.get_gnupg_db()
            except Exception:
                check(absent, 'the database cannot be opened')
                return
            check(not absent, 'no error about the missing file')
            eq(sorted(db.keys()), sorted(list(files[0].model) +
                                         list(files[1].model)), 'keys')
            for f in files:
                for fp in f.model:
                    got = [[ref.read_packet(bytes(p))[1:3]
                            for p in k.to_packets()]
                           for k in db.search(fingerprint=fp)]
                    check(f.model[fp].packets in got, 'key not found', fp)
            key = fresh.read_key(b''.join(v.raw))
            if how:
                db.add_key(key)
            if how == 2:
                db.delete_key(key)
        eq(children([process]), ['ok'], 'user of the default files')
        if not absent:
            if how == 1:
                files[kind].model[new.fp] = v
            for f in files:
                f.verify('the work of the process')
        eq([n for n in os.listdir(s.path('.gnupg')) if n.endswith('.lock')],
           [], 'locks left behind')


@suite.prop(quick=80, thorough=1000, timeout=60)
def key_boxes(d):
    """A file of a kind that is not supported is refused and left alone."""
    getattr(DB, '_locks', []).clear()
    with gpg.Scratch() as s:
        head = struct.pack('>IBBH', 32, 1, 1, d.choice([0, 1, 2])) + \
            b'KBXf' + d.bytes(4) + struct.pack('>II', d.draw(2 ** 32), 0) + \
            d.bytes(8)
        data = head + d.bytes(d.size(0, 200, 40))
        path = s.write('box', data)
        name = d.choice(['', 'gnupg-kbx:']) + path
        d.note('name', name)
        d.nontrivial()
        args = dict(force=d.bool(), read_only=d.bool(), secret=d.bool(),
                    primary=d.bool())
        db = DB.GPGDatabase()
        try:
            db.add_resource(name, **args)
        except Exception:
            pass
        else:
            raise Violation('a key box was opened', args)
        eq(open(path, 'rb').read(), data, 'the key box')
        eq(sorted(db.keys()), [], 'keys')


def children(fns, seconds=30):
    """runs each function in a process of its own, all at once; -> what each
    of them had to complain about"""
    go_r, go_w = os.pipe()
    procs = []
    for fn in fns:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(seconds)
            msg = b''
            try:
                os.close(go_w)
                os.read(go_r, 1)      # end of file starts all of them
                fn()
            except BaseException as e:
                import traceback
                msg = ('%s: %s %s' % (type(e).__name__, e,
                       traceback.format_exc()[-500:])).encode()[:3000]
            try:
                os.write(w, msg or b'ok')
            finally:
                os._exit(0)
        os.close(w)
        procs.append((pid, r))
    os.close(go_r)
    os.close(go_w)
    out = []
    try:
        for pid, r in procs:
            with os.fdopen(r, 'rb') as f:
                out.append(f.read().decode('utf8', 'replace') or
                           'it did not finish')
    finally:
        for pid, r in procs:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
    return out


def dead_pid():
    pid = os.fork()
    if pid == 0:
        os._exit(0)
    os.waitpid(pid, 0)
    return pid


def hesitate(seed):
    """short pauses before and after the file operations of this process"""
    import random
    rng = random.Random(seed)

    def pause():
        if rng.random() < 0.4:
            time.sleep(rng.random() * 0.02)

    def slow(name):
        fn = getattr(os, name)

        def wrapped(*a, **kw):
            try:
                pause()
                return fn(*a, **kw)
            finally:
                pause()
        setattr(os, name, wrapped)
    for name in ('link', 'unlink', 'kill', 'rename', 'replace', 'open',
                 'stat'):
        slow(name)


def several_scripts(d, s, f, n):
    """n scripts, each on keys of its own; -> scripts, keys at the start"""
    ids = [Identity(4, keys.SMALL[d.draw(len(keys.SMALL))].public_body(
        1300000000 + j)) for j in range(3 * n)]
    scripts = []
    data = b''
    start = {}
    for p in range(n):
        own = ids[3 * p:3 * p + 3]
        model = {}
        for i in own:
            if d.bool(0.4):
                v = Variant(d, 'public', 4, i.body, sizes=(1, 2, 0, 1))
                model[i.fp] = start[i.fp] = v
                data += b''.join(v.raw)
        script = []
        for _ in range(d.int(1, 5)):
            i = d.choice(own)
            v = Variant(d, 'public', 4, i.body, sizes=(1, 2, 0, 1))
            if i.fp not in model:
                op = 'add_key'
            else:
                op = d.choice(['update_key', 'delete_key'])
            if op == 'delete_key':
                del model[i.fp]
            else:
                model[i.fp] = v
            script.append((op, v.key(), i.fp, v))
        d.note('worker %d' % p, [(x[0], x[2][-8:]) for x in script])
        f.model.update(model)
        scripts.append(script)
    d.nontrivial(sum(len(x) for x in scripts) > 2)
    if f.store == 'gdbm':
        db = gdbm.open(f.path, 'n')
        for fp in start:
            db[fp] = b''.join(start[fp].raw)
        db.close()
    else:
        s.write('ring', data)
    return scripts, start


def run_script(db, script):
    for op, key, fp, v in script:
        getattr(db, op)(key)
        got = [ident(k)[1] for k in db.search(fingerprint=fp)]
        eq(got, [] if op == 'delete_key' else [v.packets],
           'search after ' + op)


@suite.prop(quick=300, thorough=5000, timeout=80)
def several_processes(d):
    """Each process works on keys of its own in the one file."""
    getattr(DB, '_locks', []).clear()
    with gpg.Scratch() as s:
        f = File(s.path('ring'), 'public', d.weighted(
            [(4, 'keyring'), (1, 'gdbm')]))
        d.label(f.store)
        n = d.int(2, 4)
        stale = d.bool(0.5)
        pauses = d.bool(0.7)
        seeds = [d.draw(1 << 30) for _ in range(n)]
        scripts, _ = several_scripts(d, s, f, n)
        d.label('stale lock' if stale else 'no lock')
        if stale:
            # a process before them died while it held the lock
            s.write('ring.lock', b'%010d%s\n' % (
                dead_pid(), platform.node().encode()))

        def work(j):
            def fn():
                if pauses:
                    hesitate(seeds[j])
                db = DB.GPGDatabase()
                db.add_resource(f.path)
                run_script(db, scripts[j])
            return fn
        for j, msg in enumerate(children([work(j) for j in range(n)])):
            eq(msg, 'ok', 'process %d of %d' % (j, n))
        f.verify('all processes ended')


@suite.prop(quick=120, thorough=2500, timeout=80)
def several_threads(d):
    """Each thread works on keys of its own through the one database
    object."""
    getattr(DB, '_locks', []).clear()
    with gpg.Scratch() as s:
        f = File(s.path('ring'), 'public', d.weighted(
            [(4, 'keyring'), (1, 'gdbm')]))
        d.label(f.store)
        n = d.int(2, 3)
        seed = d.draw(1 << 30)
        scripts, start = several_scripts(d, s, f, n)
        untouched = sorted(set(start) - set(x[2] for y in scripts for x in y))

        def process():
            import random
            import sys
            import threading
            sys.setswitchinterval(1e-6)
            rng = random.Random(seed)
            db = DB.GPGDatabase()
            db.add_resource(f.path)
            errors = []

            def pausing(fn):
                def wrapped(*a, **kw):
                    try:
                        return fn(*a, **kw)
                    finally:
                        if rng.random() < 0.2:
                            time.sleep(rng.choice(
                                [0, 0.001, 0.003, 0.02, 0.08]))
                return wrapped
            # others come in between any two calls of its methods
            for cls in list(vars(DB).values()):
                if isinstance(cls, type) and cls.__module__ == DB.__name__:
                    for name, fn in list(vars(cls).items()):
                        if (callable(fn) and not isinstance(fn, type)
                                and not name.startswith('__')):
                            setattr(cls, name, pausing(fn))

            def thread(script):
                try:
                    if script is None:
                        for fp in untouched * 3:
                            got = [ident(k)[1]
                                   for k in db.search(fingerprint=fp)]
                            eq(got, [start[fp].packets], 'untouched key')
                    else:
                        run_script(db, script)
                except BaseException as e:
                    import traceback
                    errors.append(traceback.format_exc()[-1500:])
            threads = [threading.Thread(target=thread, args=(x,), daemon=True)
                       for x in scripts + [None]]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
            if errors:
                raise Violation(errors[0])
        eq(children([process]), ['ok'], 'threads')
        f.verify('all threads ended')


@suite.prop(quick=120, thorough=1500, timeout=60)
def locks(d):
    """A lock of a dead process is no obstacle, one of a living process is
    waited for."""
    getattr(DB, '_locks', []).clear()
    with gpg.Scratch() as s:
        f = File(s.path('ring'), 'public', 'keyring')
        a, b = [Identity(4, keys.SMALL[j].public_body(1300000000))
                for j in (0, 1)]
        va, vb = [Variant(d, 'public', 4, i.body, sizes=(0, 1, 0, 0))
                  for i in (a, b)]
        s.write('ring', b''.join(va.raw))
        f.model[a.fp] = va
        mode = d.draw(3)
        d.label(['killed while it held the lock', 'foreign stale lock',
                 'held by a living process'][mode])
        d.key = (mode, tuple(d.choices))
        d.nontrivial()
        done_r, done_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(20)
            try:
                if mode != 1:
                    res = DB.get_resource(f.path)
                    res.lock_db()
                os.write(done_w, b'x')
                if mode == 2:
                    time.sleep(0.15)
                    # the holder changes the file before it lets go
                    res.delete_transferrable_key(va.key())
                    res.unlock_db()
                elif mode == 0:
                    time.sleep(20)
            finally:
                os._exit(0)
        os.read(done_r, 1)
        os.close(done_r)
        os.close(done_w)
        if mode == 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        elif mode == 1:
            os.waitpid(pid, 0)
            s.write('ring.lock', b'%010d%s\n' % (
                pid, platform.node().encode()))
        try:
            db = DB.GPGDatabase()
            db.add_resource(f.path)
            db.add_key(vb.key())
            f.model[b.fp] = vb
            if mode == 2:
                del f.model[a.fp]
        finally:
            if mode == 2:
                os.waitpid(pid, 0)
        f.verify('adding')


@suite.prop(quick=150, thorough=2000, timeout=60)
def lock_objects(d):
    """Whoever waits for a lock of others waits as long as was said, and is
    no obstacle for others afterwards."""
    getattr(DB, '_locks', []).clear()
    with gpg.Scratch() as s:
        path = s.path('ring')
        node = platform.node()
        mode = d.choice(['free', 'living', 'other user', 'other node',
                         'directory gone'])
        timeout = d.choice([None, 0, 0, 0.03, 0.1])
        depth = d.int(1, 3)
        d.label(mode)
        d.note('case', (mode, timeout, depth))
        d.key = (mode, timeout, depth)
        d.nontrivial(mode != 'free')
        lock_pid = os.getpid()
        if mode == 'other node':
            lock_pid = dead_pid()
            node += '.elsewhere'
        if mode not in ('free', 'directory gone'):
            s.write('ring.lock', b'%010d%s\n' % (lock_pid, node.encode()))
        if mode != 'free' and timeout is None:
            timeout = 0.03

        def process():
            import threading
            if mode == 'other user':
                # processes of others cannot be signalled, but they live
                os.chmod(s.dir, 0o777)
                os.chmod(s.path('ring.lock'), 0o666)
                try:
                    os.setgroups([])
                    os.setgid(65534)
                    os.setuid(65534)
                except OSError:
                    return
            lock = DB.Lock(path)
            if mode == 'directory gone':
                name = lock.name
                lock.name = s.path('gone/ring.lock')
                for _ in range(2):
                    try:
                        lock.acquire(timeout)
                    except OSError:
                        pass
                    else:
                        raise Violation('a lock that cannot be made')
                lock.name = name
            elif mode != 'free':
                t = time.time()
                eq(lock.acquire(timeout), False, 'lock held by ' + mode)
                used = time.time() - t
                check(timeout - 0.005 <= used < timeout + 10,
                      'time waited', used, timeout)
                eq(bool(lock.locked), False, 'locked')
                check(os.path.exists(lock.name), "the other's lock is there")
                os.unlink(lock.name)
            log = []

            def worker():
                for _ in range(depth):
                    log.append(lock.acquire(5))
                for n in range(depth):
                    log.append(os.path.exists(lock.name))
                    lock.release()
                log.append(os.path.exists(lock.name))
            for _ in (0, 1):
                t = threading.Thread(target=worker, daemon=True)
                t.start()
                t.join(10)
                check(not t.is_alive(), 'a thread hangs')
                eq(log, [True] * 2 * depth + [False], 'lock in a thread')
                del log[:]
            worker()
            eq(log, [True] * 2 * depth + [False], 'lock')
        eq(children([process], 60), ['ok'], 'lock process')
