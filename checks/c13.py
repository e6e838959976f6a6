"""C13 Passphrase encryption round-trips for every parameter choice"""
import warnings

from vlib.engine import Suite, check, eq, Violation
from vlib import enc, gpg, keys, objects, ref
from checks.c12 import CRYPT, OTHERS, a_key, a_message, content_of, must_not_open, octets, \
    odd_pkesk, reread

from pgp import armor, message, s2k, shortcuts
from pgp.packets import packets as P

warnings.simplefilter('ignore')

suite = Suite('C13', 'Messages of random content under random passphrases '
              '(octets and text of any length), every cipher for the message '
              'and for the session key, every derivation method, hash, salt '
              'and count, given and random session keys, messages without '
              'encrypted session key or without any session key packet. '
              'Oracles: an independent implementation of both directions and '
              'gpg. Non-trivial: every case encrypts a message.')

HASHES = sorted(ref.HASH)


def passphrase(d):
    """-> what the caller passes, octets"""
    k = d.draw(6)
    if k == 0:
        s = d.text(0, 60, mean=8)
        return s, s.encode('utf8')
    if k == 1:
        b = d.blob(0, 300, 12, edges=[64, 128])
        return b, b
    if k == 2:
        s = d.choice(['', 'a', '\u00e9', '\u20ac\U0001f600', 'x' * 200, ' a ',
                      'a\n', '\0', 'a\0'])
        return s, s.encode('utf8')
    s = d.text(1, 12)
    return s, s.encode('utf8')


def other_passphrase(d, p):
    k = d.draw(6)
    if k == 0:
        q = p + d.choice([b'\0', b' ', b'x', b'\n'])
    elif k == 1:
        q = p[:-1]
    elif k == 2 and p:
        i = d.draw(len(p))
        q = p[:i] + bytes([p[i] ^ (1 << d.draw(8))]) + p[i + 1:]
    elif k == 3:
        q = p.swapcase()
    elif k == 4:
        q = b''
    else:
        q = passphrase(d)[1]
    # (repeated, it derives the same key)
    return q


def a_s2k(d):
    return d.choice([3, 1, 0]), d.choice(HASHES), d.bytes(8), \
        d.weighted([(6, 0), (2, 96), (1, 130)]) + d.draw(20)


def must_refuse(m, phrase, key_of, body, integrity, plain, what):
    """key_of: what the session key would be -> (cipher, key); body: of the
    data packet. Without integrity protection a wrong key is only recognised
    by two octets."""
    try:
        got = m.get_message(phrase)
    except Exception:
        return
    if not integrity:
        try:
            sym, key = key_of()
            if enc.sed_open(sym, key, body) != plain:
                # two octets happened to be the same
                return
        except Exception:
            pass
    raise Violation('a message was obtained with ' + what, repr(got))


@suite.prop(quick=1500, thorough=25000)
def made_here(d):
    """made here: decrypts with the passphrase, also by the independent
    implementation, and with no other"""
    m, content = a_message(d)
    plain = octets(m)
    sym = d.choice(enc.SYMS)
    integrity = d.draw(3) > 0
    phrase, p = passphrase(d)
    mode, h, salt, coded = a_s2k(d)
    args = {}
    want = dict(mode=3, hash=1, salt=None, coded=96, sym=sym)
    if d.bool(0.7):
        args['s2k_type'] = want['mode'] = mode
    if d.bool(0.8):
        args['s2k_hash_algorithm'] = want['hash'] = h
    if d.bool():
        args['s2k_salt'] = want['salt'] = salt
    if d.bool(0.8):
        args['s2k_count'] = ref.s2k_decode_count(coded)
        want['coded'] = coded
    if d.bool():
        args['s2k_symmetric_algorithm'] = want['sym'] = d.choice(enc.SYMS)
    key = None
    if d.bool():
        key = args['session_key'] = d.bytes(ref.KEY_LEN[sym])
    if not integrity or d.bool():
        args['integrity_protect'] = integrity
    d.note('passphrase', p)
    d.note('arguments', args)
    d.note('cipher', (sym, integrity))
    d.label('s2k %d' % want['mode'])
    d.label('hash %d' % want['hash'])
    d.label('cipher %d' % sym)
    d.nontrivial()
    e = m.symmetric_encrypt(sym, phrase, **args)
    eq(octets(m), plain, 'the message itself')
    again, data = reread(d, e)
    pkts = ref.read_packets(data)
    eq([t for _, t, _ in pkts], [3, 18 if integrity else 9], 'packets')
    body = pkts[0][2]
    eq((body[0], body[1], body[2], body[3]),
       (4, want['sym'], want['mode'], want['hash']), 'session key packet')
    if want['mode'] and want['salt'] is not None:
        eq(body[4:12], want['salt'], 'salt')
    if want['mode'] == 3:
        eq(body[12], want['coded'], 'count')
    got = enc.skesk_open(body, p)
    eq(got[0], sym, 'algorithm of the message')
    if key is not None:
        eq(got[1], key, 'session key')
    opened = (enc.seipd_open if integrity else enc.sed_open)(
        sym, got[1], pkts[1][2])
    eq(opened, plain, 'the message, decrypted independently')
    forms = [phrase, p]
    try:
        forms.append(p.decode('utf8'))
    except UnicodeError:
        pass
    out = again.get_message(d.choice(forms))
    eq(octets(out, 1), octets(m, 1), 'the message, decrypted')
    eq(content_of(out), content, 'content')
    q = other_passphrase(d, p)
    if enc.s2k_key(want['sym'], (want['mode'], want['hash'], body[4:12],
                                 want['coded']), q) != \
            enc.s2k_key(want['sym'], (want['mode'], want['hash'],
                                      body[4:12], want['coded']), p):
        must_refuse(again, q, lambda: enc.skesk_open(body, q), pkts[1][2],
                    integrity, plain, 'another passphrase: %r' % q)
    must_not_open(again, None, 'no passphrase')
    k = d.choice(OTHERS)
    if d.bool(0.1):
        must_not_open(again, objects.secret(k, k.alg), 'a secret key')


@suite.prop(quick=300, thorough=4000)
def fresh(d):
    """fresh salts and session keys: two encryptions share neither"""
    m, content = a_message(d)
    sym = d.choice(enc.SYMS)
    phrase, p = passphrase(d)
    mode = d.choice([3, 1])
    d.nontrivial()
    salts, sks = [], []
    for _ in range(3):
        e = m.symmetric_encrypt(sym, phrase, s2k_type=mode, s2k_count=1024)
        pkts = ref.read_packets(octets(e))
        salts.append(pkts[0][2][4:12])
        sks.append(enc.skesk_open(pkts[0][2], p))
    eq(len(set(salts)), 3, 'number of different salts')
    eq(len(set(sks)), 3, 'number of different session keys')
    check(all(len(x) == ref.KEY_LEN[sym] for _, x in sks), 'key length')


@suite.prop(quick=1500, thorough=25000)
def made_elsewhere(d):
    """made elsewhere: messages of the independent implementation, with or
    without encrypted session key, among session keys for others"""
    content = d.blob(0, 3000, 60, edges=[192, 512, 1024])
    plain = ref.new_packet(11, b'b\1f' + b'\0\0\0\1' + content)
    sym = d.choice(enc.SYMS)
    integrity = d.draw(3) > 0
    phrases = [passphrase(d)]
    shape = d.weighted([(3, 'session key'), (3, 'derived key'),
                        (2, 'several'), (1, 'nothing')])
    d.label(shape)
    esk = []
    key = d.bytes(ref.KEY_LEN[sym])
    if shape == 'nothing':
        # "If no packets of these types precede the encrypted data, the IDEA
        #  algorithm is used with the session key calculated as the MD5 hash
        #  of the passphrase"
        sym, key = 1, enc.s2k_key(1, (0, 1, b'', 0), phrases[0][1])
    elif shape == 'derived key':
        s = a_s2k(d)
        key = enc.s2k_key(sym, s, phrases[0][1])
        esk.append((3, enc.skesk_body(sym, s)))
        d.note('s2k', s)
    else:
        if shape == 'several':
            phrases += [passphrase(d) for _ in range(d.int(1, 2))]
        for _, p in phrases:
            s, kek_sym = a_s2k(d), d.choice(enc.SYMS)
            kek = enc.s2k_key(kek_sym, s, p)
            esk.append((3, enc.skesk_body(kek_sym, s, enc.skesk_esk(
                kek_sym, kek, sym, key))))
            d.note('s2k', (kek_sym, s))
    if shape != 'nothing' and d.bool(0.3):
        rnd = enc.rnd(d)
        for _ in range(d.int(1, 2)):
            esk.insert(d.draw(len(esk) + 1), (1, odd_pkesk(d, rnd)))
        d.label('public keys too')
    if shape != 'nothing' and d.bool(0.2):
        esk.insert(d.draw(len(esk) + 1), (3, d.choice([
            # unknown cipher, hash
            b'\4\x63\0\2', b'\4\7\0\x63',
            # for another passphrase
            enc.skesk_body(7, (0, 2, b'', 0), d.bytes(17))])))
        d.label('other passphrases too')
    data = b''.join(ref.packet(d.choice(['new', 'old']), t, b)
                    for t, b in esk)
    data += enc.data_packet(d, sym, key, plain, integrity)
    d.note('cipher', (sym, integrity))
    d.note('passphrases', [p for _, p in phrases])
    d.note('content', content)
    d.nontrivial()
    plain_data = data
    if d.bool(0.2):
        data = str(armor.ASCIIArmor(armor.PGP_MESSAGE, data)).encode()
    m = shortcuts.read_message(data)
    for phrase, p in phrases:
        out = m.get_message(phrase)
        check(isinstance(out, message.BinaryMessage), 'kind', out)
        eq((bytes(out.data), out.filename), (content, 'f'), 'the message')
    q = other_passphrase(d, phrases[0][1])
    body = ref.read_packets(bytes(plain_data))[-1][2]

    def opens(t, b):
        try:
            return enc.skesk_open(b, q) if t == 3 else None
        except Exception:
            return None
    found = [opens(t, b) for t, b in esk] if esk else \
        [(1, enc.s2k_key(1, (0, 1, b'', 0), q))]
    for x in found:
        try:
            if x and (enc.seipd_open if integrity else enc.sed_open)(
                    x[0], x[1], body) is not None:
                # the same key, or two octets of a wrong one
                d.label('other passphrase fits')
                return
        except Exception:
            pass
    must_not_open(m, q, 'another passphrase: %r' % q)


@suite.prop(quick=700, thorough=12000)
def assembled(d):
    """assembled: messages put together from session key objects, for several
    passphrases and keys at once; each of them opens, here and independently"""
    m, content = a_message(d)
    plain = octets(m)
    sym = d.choice(enc.SYMS)
    integrity = d.draw(3) > 0
    d.nontrivial()
    phrases = [passphrase(d) for _ in range(d.int(1, 3))]
    derived = d.bool(0.3)
    objs, expect = [], []
    key = d.bytes(ref.KEY_LEN[sym])
    for i, (phrase, p) in enumerate(phrases):
        mode, h, salt, coded = a_s2k(d)
        kek = sym if derived and not i else d.choice(enc.SYMS)
        spec = s2k.S2K_TYPES[mode](
            symmetric_algorithm=kek, hash_algorithm=h, salt=salt,
            count=ref.s2k_decode_count(coded))
        if derived and not i:
            key = enc.s2k_key(sym, (mode, h, salt, coded), p)
            o = message.SymmetricSessionKey(sym, spec, phrase)
            eq(o.get_algorithm_and_session_key(phrase), (sym, key),
               'derived session key')
        elif d.bool():
            o = message.SymmetricSessionKey(sym, spec, phrase, key)
        else:
            o = message.SymmetricSessionKey(sym, spec, passphrase=phrase,
                                            session_key=bytearray(key))
        objs.append(o)
        expect.append((3, b'\4' + bytes([kek, mode, h]) +
                       (salt if mode else b'') +
                       (bytes([coded]) if mode == 3 else b''), p))
    secrets = []
    for _ in range(d.int(0, 2)):
        k, pub, sec, kid, alg, alive = a_key(d, CRYPT)
        hide = d.bool(0.3)
        at = d.draw(len(objs) + 1)
        objs.insert(at, message.PublicKeySessionKey(
            3, public_key=pub, symmetric_algorithm=sym, session_key=key,
            hide_key_id=hide))
        expect.insert(at, (1, b'\3' + (b'\0' * 8 if hide else kid) +
                           bytes([alg]), k))
        secrets.append((sec, alive, pub))
    d.note('cipher', (sym, integrity, derived))
    d.note('passphrases', [p for _, p in phrases])
    d.label('%d passphrases, %d keys%s' % (
        len(phrases), len(secrets), ', derived' if derived else ''))
    e = message.EncryptedMessageWrapper(
        objs, message.SymmetricallyEncryptedMessageData(
            sym, key, plain, integrity_protected=integrity, version=1))
    again, data = reread(d, e)
    pkts = ref.read_packets(data)
    eq([t for _, t, _ in pkts],
       [t for t, _, _ in expect] + [18 if integrity else 9], 'packets')
    for (_, t, body), (_, head, who) in zip(pkts, expect):
        eq(body[:len(head)], head, 'session key packet')
        if t == 3:
            eq(enc.skesk_open(body, who), (sym, key), 'session key')
        else:
            eq(enc.pkesk_open(who, body)[2:], (sym, key), 'session key')
    eq((enc.seipd_open if integrity else enc.sed_open)(
        sym, key, pkts[-1][2]), plain, 'the message, decrypted independently')
    if not integrity and (derived or len(objs) > 1):
        # a session key for somebody else can fit by two octets
        def safe(t, body, secret):
            if t != 3:
                return True
            try:
                x = enc.skesk_open(body, secret)
                return x == (sym, key) or not fits(x, pkts[-1][2])
            except Exception:
                return True
    else:
        def safe(*a):
            return True
    for phrase, p in phrases:
        if not all(safe(t, b, p) for _, t, b in pkts[:-1]):
            d.label('two octets fit')
            continue
        out = again.get_message(phrase)
        eq(octets(out, 1), octets(m, 1), 'the message, decrypted with a passphrase')
        eq(content_of(out), content, 'content')
    for sec, _, _ in secrets:
        out = again.get_message(sec)
        eq(octets(out, 1), octets(m, 1), 'the message, decrypted with a key')
    q = other_passphrase(d, phrases[0][1])
    for _, t, b in pkts[:-1]:
        if t == 3:
            try:
                x = enc.skesk_open(b, q)
                if x == (sym, key) or not integrity and fits(
                        x, pkts[-1][2]):
                    return
            except Exception:
                pass
    must_not_open(again, q, 'another passphrase: %r' % q)
    must_not_open(again, None, 'nothing')


def fits(x, body):
    try:
        enc.sed_open(x[0], x[1], body)
    except Exception:
        return False
    return True


@suite.prop(quick=40, thorough=600)
def gpg_reads(d):
    """gpg reads: GnuPG decrypts messages made here"""
    d.nontrivial()
    with gpg.Home() as home:
        for _ in range(6):
            m, content = a_message(d)
            p = ''.join(d.choice('abc Z\u00e91-') for _ in range(
                d.int(1, 20)))
            sym = d.choice(enc.SYMS)
            args = dict(s2k_type=d.choice([0, 1, 3]),
                        s2k_hash_algorithm=d.choice(HASHES),
                        s2k_symmetric_algorithm=d.choice(enc.SYMS),
                        s2k_count=ref.s2k_decode_count(d.draw(120)),
                        integrity_protect=d.draw(3) > 0)
            d.note('passphrase', p)
            d.note('cipher', (sym, args))
            e = m.symmetric_encrypt(sym, p, **args)
            data = octets(e)
            if d.bool():
                data = str(armor.ASCIIArmor(armor.PGP_MESSAGE,
                                            data)).encode()
            r = home.gpg('--ignore-mdc-error', '--passphrase-file',
                         home.write('p', p.encode('utf8')), '--decrypt',
                         data=data)
            want = content.encode('utf8').replace(b'\r', b'') \
                if isinstance(content, str) else content
            check(r.returncode == 0 or b"Can't check signature" in r.stderr,
                  'gpg does not decrypt', r.stderr.decode(errors='replace'))
            eq(r.stdout, want, 'what gpg decrypts')


@suite.prop(quick=40, thorough=600)
def gpg_made(d):
    """gpg made: messages encrypted by GnuPG are read"""
    d.nontrivial()
    with gpg.Home() as home:
        for _ in range(6):
            content = d.blob(0, 20000, 300)
            sym, kek = d.choice(enc.SYMS), d.choice(enc.SYMS)
            p = ''.join(d.choice('abc Z\u00e91-') for _ in range(
                d.int(1, 20)))
            args = ['--allow-old-cipher-algos', '--cipher-algo',
                    gpg.CIPHER_NAMES[sym], '--s2k-cipher-algo',
                    gpg.CIPHER_NAMES[kek], '--s2k-digest-algo',
                    gpg.HASH_NAMES[d.choice(HASHES[1:])], '--s2k-mode',
                    str(d.choice([0, 1, 3])), '--s2k-count',
                    str(ref.s2k_decode_count(d.draw(120))),
                    '--passphrase-file', home.write('p', p.encode('utf8')),
                    '-o', '-', '--symmetric']
            args[:0] = ['-z', '0'] if d.bool() else \
                ['--compress-algo', d.choice(['zip', 'zlib', 'bzip2'])]
            if d.bool(0.3):
                args.insert(0, '--armor')
            if d.bool(0.3) and sym in (1, 2, 3, 4):
                args[:0] = ['--disable-mdc']
            d.note('form', args)
            d.note('content', content)
            r = home.gpg(*args, data=content, rfc4880=d.bool())
            if r.returncode:
                raise Violation('harness: gpg --symmetric failed', (
                    args, r.stderr))
            m = shortcuts.read_message(r.stdout)
            out = content_of(m.get_message(p))
            eq(bytes(out), content, 'content')
