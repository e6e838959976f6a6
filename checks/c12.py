"""C12 Public-key encryption round-trips for exactly the chosen recipients"""
import datetime
import warnings

from vlib.engine import Suite, check, eq, Violation
from vlib import enc, gpg, keys, objects, ref

from pgp import armor, message, shortcuts
from pgp.packets import packets as P

warnings.simplefilter('ignore')

suite = Suite('C12', 'Messages (text, octets, compressed, signed) of random '
              'content for random sets of named and hidden recipients (RSA '
              '768..2048 bits of versions 3 and 4, ElGamal, primary keys and '
              'subkeys), every cipher, given and random session keys, with '
              'and without integrity protection. Oracles: an independent '
              'implementation of both directions and gpg. Non-trivial: every '
              'case encrypts a message.')

CRYPT = [k for k in keys.RSA + keys.ELG if k.bits <= 1100]
OTHERS = [k for k in keys.POOL if k.bits <= 1100]


def octets(m, header_format=None):
    return b''.join(map(bytes, m.to_packets(header_format)))


def a_message(d, hi=3000, mean=60):
    """-> message object, content"""
    when = objects.dt(d.edge_int(0, 2 ** 32 - 1, (1400000000, 2 ** 31)))
    name = d.text(0, 12, 'abc. \u00e9')
    if d.bool():
        s = d.text(0, 200, mean=20)
        m, content = message.TextMessage(s, name, when), s
    else:
        content = d.blob(0, hi, mean, edges=[14, 192, 512, 1024])
        m = message.BinaryMessage(bytearray(content), name, when)
    d.note('content', content)
    how = d.weighted([(4, 'plain'), (2, 'compressed'), (2, 'signed')])
    m.packet_header_type = d.int(1, 2)
    if how == 'compressed':
        m = m.compress(d.draw(4), d.int(1, 9))
    elif how == 'signed':
        k = d.choice([x for x in OTHERS if x.kind != 'elg'])
        m = m.sign(objects.secret(k, objects.SIGNING_ALGS[k.kind][0]), 4, 0,
                   8 if k.bits > 1000 else 2, d.bool())
        if d.bool():
            m = m.compress(d.int(1, 3), 6)
    d.label(how)
    return m, content


def content_of(m):
    while not isinstance(m, message.LiteralMessage):
        m = m.get_message()
    return m.data if isinstance(m.data, str) else bytes(m.data)


def a_key(d, pool):
    """-> K, public object, secret object, key ID, algorithm"""
    k = d.choice(pool)
    if d.bool(0.2):
        # a subkey
        own = d.choice([x for x in OTHERS if x.kind != 'elg'])
        alg = 1 if k.kind == 'rsa' else 16
        f = objects.FullKey(own, k, objects.SIGNING_ALGS[own.kind][0],
                            sub_alg=alg)
        pub = f.obj.to_public_key()
        # (the whole keys must stay alive)
        return k, pub.subkeys[0], f.obj.subkeys[0], \
            keys.key_id_of(f.sub_pub), alg, (f, pub)
    alg = d.choice((1, 2)) if k.kind == 'rsa' else d.choice((16, 16, 20))
    version = 3 if k.kind == 'rsa' and d.draw(5) == 0 else 4
    kid = keys.key_id_of(k.public_body(objects.CT, alg)) if version > 3 \
        else keys.key_id_v3(k)
    return k, objects.public(k, alg, version), \
        objects.secret(k, alg, version), kid, alg, None


def must_not_open(m, key, what):
    try:
        got = m.get_message(key)
    except Exception:
        return
    raise Violation('a message was obtained with ' + what, repr(got))


def reread(d, m):
    data = octets(m)
    way = d.draw(4)
    if way == 0:
        return shortcuts.read_message(data), data
    if way == 1:
        return m, data
    text = str(armor.ASCIIArmor(armor.PGP_MESSAGE, data))
    if way == 2:
        return shortcuts.read_message(text.encode('ascii')), data
    return shortcuts.read_message(text, armored=True), data


@suite.prop(quick=1500, thorough=25000)
def made_here(d):
    """made here: decrypts for every recipient, also by the independent
    implementation, and for nobody else"""
    m, content = a_message(d)
    plain = octets(m)
    sym = d.choice(enc.SYMS)
    integrity = d.draw(3) > 0
    named = d.list(0, 3, lambda d: a_key(d, CRYPT), mean=1)
    hidden = d.list(0, 2, lambda d: a_key(d, CRYPT), mean=0.5)
    if not named and not hidden:
        named = [a_key(d, CRYPT)]
    key = None
    if d.bool():
        key = d.bytes(ref.KEY_LEN[sym])
    args = {}
    if len(named) == 1 and d.bool():
        args['public_key'] = named[0][1]
    elif named or d.bool():
        args['public_keys'] = [r[1] for r in named]
    if d.draw(20) == 0:
        # which of them would be left out?
        both = dict(args, public_key=a_key(d, CRYPT)[1])
        both.setdefault('public_keys', [a_key(d, CRYPT)[1]])
        try:
            m.public_key_encrypt(sym, **both)
        except TypeError:
            pass
        else:
            raise Violation('one key and a list of keys were accepted')
    if hidden or d.bool():
        args['hidden_public_keys'] = [r[1] for r in hidden]
    d.note('recipients', [(r[0], r[4]) for r in named])
    d.note('hidden', [(r[0], r[4]) for r in hidden])
    d.note('cipher', (sym, integrity, key))
    d.label('cipher %d' % sym)
    d.label('%d named, %d hidden' % (len(named), len(hidden)))
    d.nontrivial()
    e = m.public_key_encrypt(sym, session_key=key,
                             integrity_protect=integrity, **args)
    eq(octets(m), plain, 'the message itself')
    again, data = reread(d, e)
    pkts = ref.read_packets(data)
    eq([t for _, t, _ in pkts], [1] * (len(named) + len(hidden)) +
       [18 if integrity else 9], 'packets')
    session = set()
    for (_, _, body), r, name in zip(pkts, named + hidden,
                                     [1] * len(named) + [0] * len(hidden)):
        got = enc.pkesk_open(r[0], body)
        eq(got[:3], (r[3] if name else b'\0' * 8, r[4], sym),
           'session key packet')
        session.add(got[3])
    check(len(session) == 1, 'session keys differ', session)
    sk, = session
    if key is not None:
        eq(sk, key, 'session key')
    opened = (enc.seipd_open if integrity else enc.sed_open)(
        sym, sk, pkts[-1][2])
    eq(opened, plain, 'the message, decrypted independently')
    for r in named + hidden:
        out = again.get_message(r[2])
        eq(octets(out, 1), octets(m, 1), 'the message, decrypted')
        eq(content_of(out), content, 'content')
    ids = [id(r[0]) for r in named + hidden]
    for _ in range(2):
        k = d.choice(OTHERS)
        if id(k) in ids:
            continue
        alg = d.choice([1, 2, 3]) if k.kind == 'rsa' else k.alg
        must_not_open(again, objects.secret(k, alg),
                      'a key which is not a recipient')
    must_not_open(again, None, 'no key')
    must_not_open(again, d.choice(['', 'a', b'']), 'a passphrase')


@suite.prop(quick=300, thorough=4000)
def keys_of_their_own(d):
    """session keys: two encryptions share neither session key nor data"""
    m, content = a_message(d)
    sym = d.choice(enc.SYMS)
    r = a_key(d, CRYPT)
    seen = []
    d.nontrivial()
    for _ in range(3):
        e = m.public_key_encrypt(sym, r[1], integrity_protect=d.bool())
        pkts = ref.read_packets(octets(e))
        sk = enc.pkesk_open(r[0], pkts[0][2])[3]
        eq(len(sk), ref.KEY_LEN[sym], 'length of the session key')
        check(sk not in seen, 'the same session key twice')
        seen.append(sk)
        eq(octets(e.get_message(r[2]), 1), octets(m, 1), 'message')


def odd_pkesk(d, rnd):
    """a session key packet that is for nobody here"""
    how = d.draw(5)
    k = d.choice(CRYPT)
    payload = d.bytes(16)
    if how == 0:
        # a key that is not ours
        return enc.pkesk_body(k, d.bytes(8), 7, payload, rnd)
    if how == 1:
        # an unknown algorithm
        return b'\3' + d.bytes(8) + bytes([d.choice([18, 99, 100])]) + \
            ref.mpi(d.bigint(300)) + ref.mpi(d.bigint(300))
    if how == 2:
        # hidden
        return enc.pkesk_body(k, b'\0' * 8, 7, payload, rnd)
    if how == 3:
        # for ElGamal
        return b'\3' + d.bytes(8) + b'\x10' + ref.mpi(d.bigint(1000)) + \
            ref.mpi(d.bigint(1000))
    return b'\3' + d.bytes(8) + b'\1' + ref.mpi(d.bigint(1000))


@suite.prop(quick=1500, thorough=25000)
def made_elsewhere(d):
    """made elsewhere: messages of the independent implementation, among
    session keys for others"""
    content = d.blob(0, 3000, 60, edges=[192, 512, 1024])
    plain = ref.new_packet(11, b'b\1f' + b'\0\0\0\1' + content)
    if d.bool(0.3):
        plain = ref.partial_packet(11, b'b\1f' + b'\0\0\0\1' + content,
                                   [9] * (len(content) // 512 > 0))
    sym = d.choice(enc.SYMS)
    integrity = d.draw(3) > 0
    key = d.bytes(ref.KEY_LEN[sym])
    rnd = enc.rnd(d)
    mine = a_key(d, CRYPT)
    recipients = [mine]
    esk = []
    body = enc.pkesk_body(mine[0], d.choice([mine[3], b'\0' * 8]), sym, key,
                          rnd, mine[4])
    if mine[0].kind == 'rsa' and d.bool(0.2):
        # numbers with leading zeros
        for _ in range(600):
            if int.from_bytes(body[10:12], 'big') <= mine[0].bits - 8:
                d.label('short number')
                break
            body = enc.pkesk_body(mine[0], body[1:9], sym, key, rnd, mine[4])
    esk.append((1, body))
    if d.bool(0.3):
        second = a_key(d, CRYPT)
        recipients.append(second)
        esk.append((1, enc.pkesk_body(second[0], second[3], sym, key, rnd,
                                      second[4])))
    for _ in range(d.size(0, 3, 1)):
        # (a key that is ours may also be in the way)
        esk.insert(d.draw(len(esk) + 1), (1, odd_pkesk(d, rnd)))
    if d.bool(0.3):
        s2k = d.choice([0, 1, 3]), 2, d.bytes(8), d.draw(60)
        kek = enc.s2k_key(7, s2k, b'pass')
        esk.insert(d.draw(len(esk) + 1), (3, enc.skesk_body(
            7, s2k, enc.skesk_esk(7, kek, sym, key))))
        d.label('passphrase too')
    d.label('%d session keys' % len(esk))
    data = b''.join(ref.packet(d.choice(['new', 'old']), t, b)
                    for t, b in esk)
    if d.bool(0.1):
        data = ref.new_packet(10, b'PGP') + data
    data += enc.data_packet(d, sym, key, plain, integrity)
    d.note('cipher', (sym, integrity))
    d.note('recipient', (mine[0], mine[4]))
    d.note('content', content)
    d.nontrivial()
    if d.bool(0.2):
        data = str(armor.ASCIIArmor(armor.PGP_MESSAGE, data)).encode()
    m = shortcuts.read_message(data)
    for r in recipients:
        out = m.get_message(r[2])
        check(isinstance(out, message.BinaryMessage), 'kind', out)
        eq((bytes(out.data), out.filename), (content, 'f'), 'the message')
    k = d.choice(OTHERS)
    if all(k is not r[0] for r in recipients):
        must_not_open(m, objects.secret(k, k.alg),
                      'a key which is not a recipient')


@suite.prop(quick=400, thorough=6000)
def damaged_keys(d):
    """damaged session keys: padding, checksum, length or algorithm wrong"""
    k = d.choice(CRYPT)
    sym = d.choice(enc.SYMS)
    key = d.bytes(ref.KEY_LEN[sym])
    content = d.bytes(d.draw(40))
    plain = ref.new_packet(11, b'b\1f' + b'\0\0\0\1' + content)
    rnd = enc.rnd(d)
    how = d.draw(6)
    sums = enc.checksum(key)
    good = bytes([sym]) + key
    if how == 0:
        payload = good + bytes([sums[0] ^ (1 << d.draw(8)), sums[1]])
    elif how == 1:
        payload = good + bytes([sums[0], sums[1] ^ (1 << d.draw(8))])
    elif how == 2:
        i = d.draw(len(key))
        x = bytearray(key)
        x[i] ^= 1 << d.draw(8)
        payload = bytes([sym]) + bytes(x) + sums
    elif how == 3:
        other = d.choice([0, 5, 6, 14, 99, 255])
        payload = bytes([other]) + key + sums
    elif how == 4:
        n = d.int(0, len(key) - 1)
        payload = bytes([sym]) + key[:n] + enc.checksum(key[:n])
    else:
        x = key + d.bytes(d.int(1, 4))
        payload = bytes([sym]) + x + enc.checksum(x)
    d.label(['checksum', 'checksum', 'key', 'unknown cipher', 'short key',
             'long key'][how])
    kid = keys.key_id_of(k.public_body(objects.CT))
    data = ref.new_packet(1, enc.pkesk_body(k, kid, sym, key, rnd,
                                            payload=payload))
    data += enc.data_packet(d, sym, key, plain, True)
    d.note('cipher', sym)
    d.nontrivial()
    must_not_open(shortcuts.read_message(data), objects.secret(k),
                  'a damaged session key')


@suite.prop(quick=150, thorough=2000)
def locked_keys(d):
    """locked keys: decrypt only while unlocked"""
    k = d.choice(CRYPT)
    prot = keys.protections(d)
    if not prot.usage:
        d.reject()
    body = k.public_body(objects.CT)
    secret = objects.load_secret(ref.new_packet(5, body + prot.header() +
                                 prot.protect(k.secret_numbers(), b'pw')))
    m, content = a_message(d)
    e = m.public_key_encrypt(d.choice(enc.SYMS), objects.public(k))
    d.nontrivial()
    locked = True
    for _ in range(d.int(1, 6)):
        step = d.draw(4)
        if step == 0:
            try:
                secret.unlock('pw')
            except ValueError:
                check(not locked, 'unlock failed', prot)
            locked = False
        elif step == 1:
            secret.lock()
            locked = True
        elif step == 2:
            try:
                secret.unlock('wrong')
            except Exception:
                pass
        if locked:
            must_not_open(e, secret, 'a locked key')
        else:
            eq(octets(e.get_message(secret), 1), octets(m, 1), 'the message')


@suite.prop(quick=60, thorough=900)
def gpg_reads(d):
    """gpg reads: GnuPG decrypts messages made here"""
    k = d.choice([x for x in keys.RSA if x.bits >= 1024])
    sub = d.choice([x for x in keys.RSA + keys.ELG if x is not k])
    cert, kid, sid = gpg.certificate(k, sub=sub, secret=True, uid=b'owner')
    d.note('key', (k, sub))
    d.nontrivial()
    with gpg.Home() as home:
        r = home.import_key(cert)
        check(r.returncode == 0, 'harness: gpg import', r.stderr)
        pub = objects.load_public(gpg.certificate(k, sub=sub, uid=b'o')[0])
        for _ in range(6):
            m, content = a_message(d)
            sym = d.choice(enc.SYMS)
            if sym == 1 and d.bool():
                sym = 9
            args = {'public_keys': [], 'hidden_public_keys': []}
            args[d.choice(sorted(args))].append(pub.subkeys[0])
            if d.bool(0.3):
                o = a_key(d, CRYPT)
                args[d.choice(sorted(args))].append(o[1])
            integrity = d.draw(3) > 0
            e = m.public_key_encrypt(sym, integrity_protect=integrity, **args)
            data = octets(e)
            if d.bool():
                data = str(armor.ASCIIArmor(armor.PGP_MESSAGE,
                                            data)).encode()
            d.note('cipher', (sym, integrity))
            r = home.gpg('--ignore-mdc-error', '--decrypt', data=data)
            want = content.encode('utf8') if isinstance(content, str) \
                else content
            # a signature of an unknown key makes gpg fail in the end
            check(r.returncode == 0 or b"Can't check signature" in r.stderr,
                  'gpg does not decrypt', r.stderr.decode(errors='replace'))
            if isinstance(content, str):
                # GnuPG drops CRs of text
                want = want.replace(b'\r', b'')
            eq(r.stdout, want, 'what gpg decrypts')


@suite.prop(quick=40, thorough=600)
def gpg_made(d):
    """gpg made: messages encrypted by GnuPG are read"""
    k = d.choice([x for x in keys.RSA if x.bits >= 1024])
    subs = [d.choice([x for x in keys.RSA + keys.ELG if x is not k])
            for _ in range(2)]
    certs = [gpg.certificate(k, sub=s, uid=b'owner', ctime=1400000000 + i)
             for i, s in enumerate(subs)]
    d.note('keys', (k, subs))
    d.nontrivial()
    with gpg.Home() as home:
        for c in certs:
            r = home.import_key(c[0])
            check(r.returncode == 0, 'harness: gpg import', r.stderr)
        secrets = []
        for i, s in enumerate(subs):
            f = objects.load_secret(gpg.certificate(
                k, sub=s, uid=b'owner', secret=True,
                ctime=1400000000 + i)[0])
            f.unlock('')
            f.subkeys[0].unlock('')
            secrets.append(f)
        for _ in range(6):
            content = d.blob(0, 20000, 300)
            sym = d.choice(enc.SYMS)
            args = ['--allow-old-cipher-algos', '--cipher-algo',
                    gpg.CIPHER_NAMES[sym], '-o', '-',
                    '--encrypt']
            to = d.weighted([(3, [0]), (1, [1]), (2, [0, 1])])
            for i in to:
                args[:0] = [d.choice(['-r', '-R']), certs[i][2].hex() + '!']
            if d.bool(0.3):
                args.insert(0, '--throw-keyids')
            args[:0] = ['-z', '0'] if d.bool() else \
                ['--compress-algo', d.choice(['zip', 'zlib', 'bzip2'])]
            if d.bool(0.3):
                args.insert(0, '--armor')
            if d.bool(0.3):
                args[:0] = ['--set-filename', 'name']
            if d.bool(0.3):
                args[:0] = ['--textmode']
                content = content.replace(b'\r', b'').replace(b'\0', b'')
                content = content[:15000]
            if d.bool(0.3) and sym in (2, 3, 4):
                args[:0] = ['--disable-mdc']
            d.note('form', args)
            d.note('content', content)
            r = home.gpg(*args, data=content, rfc4880=d.bool())
            if r.returncode:
                raise Violation('harness: gpg --encrypt failed', (args,
                                                                  r.stderr))
            m = shortcuts.read_message(r.stdout)
            for i in to:
                out = content_of(m.get_message(secrets[i].subkeys[0]))
                if isinstance(out, str):
                    out = out.encode('utf8' if '--textmode' not in args
                                     else 'latin-1')
                if '--textmode' in args:
                    out = out.replace(b'\r\n', b'\n')
                eq(out, content, 'content')
