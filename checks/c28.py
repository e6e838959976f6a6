"""C28 A key database survives writers that die or fail part-way"""
import os
import resource
import signal
import sys

from vlib.engine import Suite, Violation, check, eq
from vlib import gpg, keys, tkeys
from checks import c22
from checks.c22 import File, Identity, Variant

from dbm import gnu as gdbm
from pgp.db import gpg as DB

suite = Suite('C28', 'Key files (keyrings of 0 to 5 keys, some of several '
              'hundred kilobytes; GDBM files) and one to three operations '
              '(add, update, delete) of a child process that is killed after '
              'a random number of executed lines of the database code, or '
              'whose file writes are cut off at a random size, by a signal '
              'or with an error. Afterwards the file is read with our own '
              'reader, and the next process must be able to work. Oracle: '
              'the states of the map before and after the operation that was '
              'interrupted. Non-trivial: the child died or failed in the '
              'middle while the file held a key.')


def big(d, v):
    """more than one buffer's worth of key"""
    if d.bool(0.3):
        n = d.int(1, 12)
        e = tkeys.Element('uid', 13, b'x' * (n * 9000), 'new')
        v.els[1:1] = [e]
        v.raw = tkeys.raw(v.els)
        v.packets = [c22.ref.read_packet(p)[1:3] for p in v.raw]
    return v


def work(f, script, before, after):
    """what the child does; it reports each operation it finished"""
    db = DB.GPGDatabase()
    db.add_resource(f.path)
    before()
    for op, key in script:
        try:
            getattr(db, op)(key)
        except OSError:
            after(b'E')
            return
        after(b'.')


def child(fn):
    """-> (exit status, what it reported)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(30)
            fn(lambda b: os.write(w, b))
            code = 0
        except BaseException as e:
            import traceback
            os.write(w, ('!%s: %s %s' % (
                type(e).__name__, e, traceback.format_exc()[-700:])).encode())
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        out = fh.read()
    status = os.waitpid(pid, 0)[1]
    return status, out.decode('utf8', 'replace')


class Lines(object):
    """ends the process after n lines of the database code; without n notes
    when the files changed"""

    def __init__(self, directory, n=None):
        self.n, self.count = n, 0
        self.directory, self.last, self.changes = directory, None, []

    def state(self):
        out = []
        for base, _, names in os.walk(self.directory):
            for x in sorted(names):
                st = os.lstat(os.path.join(base, x))
                out.append((x, st.st_size, st.st_ino, st.st_mtime_ns))
        return out

    def local(self, frame, event, arg):
        if event == 'line':
            self.count += 1
            if self.n is None:
                now = self.state()
                if now != self.last:
                    self.last = now
                    self.changes.append(self.count)
            if self.count == self.n:
                os.kill(os.getpid(), signal.SIGKILL)
        return self.local

    def __call__(self, frame, event, arg):
        name = frame.f_code.co_filename
        if os.sep + os.path.join('pgp', 'db') + os.sep in name:
            return self.local
        return None


def prepare(d, s, store):
    f = File(s.path('ring'), 'public', store)
    if store == 'keyring' and d.bool(0.2):
        d.label('behind a symbolic link')
        os.mkdir(s.path('elsewhere'))
        os.symlink(os.path.join('elsewhere', 'ring.gpg'), f.path)
    link = os.path.islink(f.path)
    ids = [Identity(4, keys.SMALL[j].public_body(1300000000 + j))
           for j in d.shuffle(range(len(keys.SMALL)))[:d.int(1, 6)]]
    for i in ids:
        if d.bool(0.7):
            f.model[i.fp] = big(d, Variant(d, 'public', 4, i.body,
                                           sizes=(1, 2, 0, 1)))
    if store == 'gdbm':
        db = gdbm.open(f.path, 'n')
        for fp in f.model:
            db[fp] = b''.join(f.model[fp].raw)
        db.close()
    else:
        with open(f.path, 'wb') as fh:
            for v in f.model.values():
                fh.write(b''.join(v.raw))
    eq(os.path.islink(f.path), link, 'symbolic link')
    f.link = link
    os.chmod(f.path, d.choice([0o600, 0o640, 0o644]))
    return f, ids


def operations(d, f, ids):
    """-> script, the states of the map after each of its operations"""
    states = [dict(f.model)]
    script = []
    for _ in range(d.int(1, 3)):
        i = d.choice(ids)
        now = dict(states[-1])
        v = big(d, Variant(d, 'public', 4, i.body, sizes=(1, 2, 0, 1)))
        if i.fp not in now:
            op = 'add_key'
        else:
            op = d.choice(['update_key', 'delete_key'])
        if op == 'delete_key':
            del now[i.fp]
        else:
            now[i.fp] = v
        script.append((op, v.key()))
        states.append(now)
        d.label(op)
    d.note('operations', [op for op, _ in script])
    return script, states


def same(content, state):
    return sorted(content) == sorted(state) and \
        all(content[fp][0] == state[fp].packets for fp in state)


def judge(d, s, f, ids, states, done, failed):
    """the file holds what it held before or after the operation that was
    interrupted; the next process can work"""
    try:
        content = f.content()
    except Exception as e:
        raise Violation('the key file cannot be read any more: %s: %s' % (
            type(e).__name__, e))
    allowed = [states[done]]
    if not failed and done + 1 < len(states):
        # died: it may have been just before reporting
        allowed.append(states[done + 1])
    for state in allowed:
        if same(content, state):
            break
    else:
        raise Violation(
            'after %d finished operations the file holds %s; before the '
            'interrupted operation it held %s' % (
                done, sorted(fp[-8:] for fp in content),
                sorted(fp[-8:] for fp in states[done])))
    f.model = dict(state)
    mode = os.stat(f.path).st_mode & 0o777
    eq(os.path.islink(f.path), f.link, 'the file is a symbolic link')
    # the next one
    i = d.choice(ids)
    v = Variant(d, 'public', 4, i.body, sizes=(1, 1, 0, 0))

    def after(report):
        db = DB.GPGDatabase()
        db.add_resource(f.path)
        if i.fp in f.model:
            db.update_key(v.key())
        else:
            db.add_key(v.key())
    status, out = child(after)
    check(status == 0, 'the next process cannot change the file', status, out)
    f.model[i.fp] = v
    f.pristine = {}
    f.verify('the operation of the next process')
    eq(os.stat(f.path).st_mode & 0o777, mode, 'access rights of the file')


@suite.prop(quick=250, thorough=6000, timeout=90)
def killed(d):
    """killed: the process is killed between two lines of the database code"""
    getattr(DB, '_locks', []).clear()
    with gpg.Scratch() as s:
        store = d.weighted([(4, 'keyring'), (1, 'gdbm')])
        d.label(store)
        f, ids = prepare(d, s, store)
        script, states = operations(d, f, ids)
        original = f.octets()
        mode = os.stat(f.path).st_mode & 0o777

        def run(n):
            lines = Lines(s.dir, n)

            def fn(report):
                work(f, script, lambda: sys.settrace(lines), report)
                sys.settrace(None)
                report(b' '.join(b'%d' % x for x in [lines.count] +
                                 lines.changes))
            return child(fn)
        status, out = run(None)
        check(status == 0, 'the operations fail', status, out)
        n = len(script)
        eq(out[:n], '.' * n, 'operations')
        counts = [int(x) for x in out[n:].split()]
        total = counts[0]
        f.model = states[-1]
        f.pristine = {}
        f.verify('the operations')
        eq(os.stat(f.path).st_mode & 0o777, mode, 'access rights')
        # again, from the start, and not to the end
        with open(f.path, 'wb') as fh:
            fh.write(original)
        if d.bool(0.3):
            k = d.int(1, total)
        else:
            # about where files changed
            k = max(1, d.choice(counts[1:]) + d.int(-3, 2))
        d.note('killed after line', '%d of %d' % (k, total))
        status, out = run(k)
        d.nontrivial(bool(states[0]))
        if status == 0:
            d.label('ended before')
            done = n
        else:
            check(os.WIFSIGNALED(status), 'the operations fail', out)
            done = out.count('.')
            d.label('killed in operation %d' % (done + 1))
        judge(d, s, f, ids, states, done, False)


@suite.prop(quick=250, thorough=6000, timeout=60)
def cut_off(d):
    """cut off: no file may grow beyond a random size"""
    getattr(DB, '_locks', []).clear()
    with gpg.Scratch() as s:
        f, ids = prepare(d, s, 'keyring')
        script, states = operations(d, f, ids)
        sizes = [sum(len(b''.join(v.raw)) for v in st.values())
                 for st in states]
        limit = d.draw(max(sizes) + 2)
        if d.bool(0.3):
            limit = max(0, d.choice(sizes) - d.int(0, 3))
        # the locks themselves must be writable
        limit = max(limit, 200)
        signalled = d.bool()
        d.note('limit', limit)
        d.note('sizes', sizes)
        d.label('ends with a signal' if signalled else 'ends with an error')

        def fn(report):
            def start():
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if signalled
                              else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            work(f, script, start, report)
        status, out = child(fn)
        done = out.count('.')
        failed = 'E' in out
        if os.WIFSIGNALED(status):
            eq(os.WTERMSIG(status), signal.SIGXFSZ, 'signal')
            d.label('died')
        else:
            check('!' not in out, 'unexpected failure', out)
            eq(status, 0, 'exit status')
            d.label('failed' if failed else 'all done')
        if not failed and status == 0:
            eq(done, len(script), 'operations without an error')
        d.nontrivial(bool(states[0]) and done < len(script))
        judge(d, s, f, ids, states, done, failed)
