"""C09 Protection, unlocking and locking of secret keys"""
from vlib.engine import Suite, check, eq, Violation
from vlib import keys, ref

from pgp import context_managers, exceptions, message, signature, \
    transferrable_keys
from pgp.packets import parsers, packets

suite = Suite('C09', 'Real RSA, DSA and ElGamal keys, versions 3 and 4, '
              'protected by an independent implementation (libgcrypt) with '
              'random ciphers, derivations and passphrases. Non-trivial: the '
              'key is protected, or the case damages it.')

CT = 1400000000


def passphrase(d):
    k = d.draw(4)
    if k == 0:
        return d.choice(['', 'a', 'walter2'])
    return d.text(0, 30, mean=8)


def near(d, pw):
    """a different passphrase, often a close one"""
    k = d.draw(6)
    if k == 0 and pw:
        i = d.draw(len(pw))
        return pw[:i] + chr((ord(pw[i]) ^ 1) or 2) + pw[i + 1:]
    if k == 1:
        return pw + d.choice([' ', '\0', '\n', 'x'])
    if k == 2 and pw:
        return pw[:-1]
    if k == 3:
        return pw.swapcase()
    if k == 4 and pw:
        return pw * 2
    return passphrase(d)


def make_key(d, version=None):
    """-> (K, version, alg, protection, passphrase)"""
    version = version or d.weighted([(3, 4), (1, 3)])
    k = d.choice(keys.RSA if version == 3 else keys.POOL)
    alg = d.choice([1, 2, 3]) if k.kind == 'rsa' else \
        d.choice([16, 20]) if k.kind == 'elg' else 17
    prot = keys.protections(d, version)
    pw = passphrase(d)
    d.label('%s v%d' % (k.kind, version))
    d.label('usage %s' % prot.usage)
    d.note('key', '%r v%d alg %d %r' % (k, version, alg, prot))
    d.note('passphrase', pw)
    return k, version, alg, prot, pw


def body_of(k, version, alg, prot, pw):
    return k.public_body(CT, alg, version) + prot.header() + \
        prot.protect(k.secret_numbers(), pw.encode('utf8'), version)


def load(data):
    return transferrable_keys.TransferableSecretKey.from_packets(
        parsers.parse_binary_packet_data(bytearray(data)))


def secrets(key):
    if key.public_key_algorithm in (1, 2, 3):
        return [key.exponent_d, key.prime_p, key.prime_q,
                key.multiplicative_inverse_u]
    return [key.exponent_x]


def raw(key):
    return b''.join(bytes(p) for p in key.to_packets())


def expect_locked(key, what):
    check(key.is_locked(), what + ': the key is not locked')
    check(not any(secrets(key)), what + ': a locked key shows secret numbers')
    try:
        key.sign(b'data', 4, 0, 8)
    except RuntimeError:
        pass
    else:
        raise Violation(what + ': a locked key signed')
    try:
        key.decrypt(b'')
    except RuntimeError:
        pass
    else:
        raise Violation(what + ': a locked key decrypted')
    sess = message.PublicKeySessionKey(
        3, public_key_algorithm=key.public_key_algorithm, key_id=key.key_id,
        encrypted_key=(2, 3))
    try:
        sess.get_algorithm_and_session_key(key)
    except RuntimeError:
        pass
    else:
        raise Violation(what + ': a locked key opened a session key')


def expect_unlocked(d, key, k, what):
    check(not key.is_locked(), what + ': the key is locked')
    eq(secrets(key), k.secret_numbers(), what + ': secret numbers')


def expect_verifies(d, key, k, alg, what):
    """a secret key, locked or not, verifies what it signed"""
    if alg not in (1, 3, 17):
        return
    data = d.bytes(d.draw(20))
    hash_alg = d.choice([2, 8])
    good = keys.signature_v4(
        k, 0, data, hash_alg, keys.created(CT + 5) +
        keys.issuer(bytes.fromhex(key.key_id)), alg=alg)
    for body, content in ((good, data), (good, data + b'!')):
        p, = parsers.parse_binary_packet_data(bytearray(ref.packet(
            'new', 2, body)))
        sig = signature.BaseSignature.from_packet(p, content)
        try:
            ok = key.verify(sig, content)
        except exceptions.SignatureVerificationFailed:
            ok = False
        eq(ok, content == data, what + ': signature verifies')


def give(d, pw):
    return pw if d.bool(0.6) else pw.encode('utf8')


@suite.prop(quick=2500, thorough=40000)
def unlock(d):
    """The right passphrase gives the original numbers."""
    k, version, alg, prot, pw = make_key(d)
    d.nontrivial(bool(prot.usage))
    body = body_of(k, version, alg, prot, pw)
    data = ref.packet(d.choice(['new', 'old']), 5, body)
    key = load(data)
    expect_locked(key, 'parsed key')
    verifies = d.draw(4) == 0
    if verifies:
        d.label('verifies')
        expect_verifies(d, key, k, alg, 'parsed key')
    key.unlock(give(d, pw))
    if verifies:
        expect_verifies(d, key, k, alg, 'unlocked key')
    expect_unlocked(d, key, k, 'unlocked key')
    eq(raw(key), data, 'octets of the unlocked key')
    key.lock()
    expect_locked(key, 'locked key')
    if verifies:
        expect_verifies(d, key, k, alg, 'locked key')
    eq(raw(key), data, 'octets of the locked key')
    # the packet's own method
    p = parsers.parse_binary_packet_data(bytearray(data))
    p = list(p)[0]
    p.decrypt(pw.encode('utf8'))
    eq([p.exponent_d, p.prime_p, p.prime_q, p.multiplicative_inverse_u]
       if k.kind == 'rsa' else [p.exponent_x], k.secret_numbers(),
       'numbers decrypted by the packet')


@suite.prop(quick=2500, thorough=40000)
def wrong(d):
    """A wrong passphrase or damage is an error and leaves the key locked."""
    k, version, alg, prot, pw = make_key(d)
    pub = k.public_body(CT, alg, version) + prot.header()
    portion = prot.protect(k.secret_numbers(), pw.encode('utf8'), version)
    bad = pw
    kind = d.choice(['passphrase', 'damage', 'truncate', 'extend',
                     'numbers'])
    if kind == 'numbers':
        # right in itself, but not the numbers of such a key
        numbers = k.secret_numbers()
        if len(numbers) > 1 and d.bool():
            del numbers[d.draw(len(numbers))]
        else:
            numbers.insert(d.draw(len(numbers) + 1), d.bigint(200))
        portion = prot.protect(numbers, pw.encode('utf8'), version)
    elif kind == 'passphrase':
        bad = near(d, pw)
    elif kind == 'damage':
        b = bytearray(portion)
        for _ in range(d.int(1, 3)):
            i = d.draw(len(b))
            if d.bool(0.3):
                i = len(b) - 1 - d.draw(min(len(b), 24))
            b[i] ^= 1 << d.draw(8)
        portion = bytes(b)
    elif kind == 'truncate':
        portion = portion[:len(portion) - 1 - d.size(0, len(portion) - 1, 8)]
    else:
        portion += d.blob(1, 24)
    d.label(kind)
    d.note('given', bad)
    want = prot.unprotect(portion, bad.encode('utf8'), version)
    if want is not None and len(want) == len(k.secret_numbers()):
        # the same key, or damage that the integrity check cannot notice
        d.label('integrity check cannot notice')
        d.reject()
    d.nontrivial()
    key = load(ref.new_packet(5, pub + portion))
    before = raw(key)
    try:
        key.unlock(give(d, bad))
    except Exception:
        pass
    else:
        raise Violation('unlocked with %s' % kind, secrets(key))
    expect_locked(key, 'after ' + kind)
    eq(raw(key), before, 'octets after ' + kind)


class Inside(Exception):
    pass


def whole_key(d):
    """primary key + user ID + bound subkeys; -> bytes, parts"""
    primary = d.choice([k for k in keys.SMALL if k.kind in ('rsa', 'dsa')])
    pw = passphrase(d)
    parts = []
    prot = keys.protections(d)
    pub = primary.public_body(CT)
    kid = keys.key_id_of(pub)
    out = ref.new_packet(5, pub + prot.header() + prot.protect(
        primary.secret_numbers(), pw.encode('utf8')))
    parts.append((primary, primary.alg, prot, pw))
    hashed = keys.created(CT) + keys.issuer(kid)
    uid = b'user <u@example.org>'
    out += ref.new_packet(13, uid) + ref.new_packet(2, keys.signature_v4(
        primary, 0x13, keys.key_data(pub) + keys.uid_data(uid), 8, hashed))
    for i in range(d.weighted([(4, 0), (4, 1), (4, 2), (1, 4), (1, 6)])):
        sub = d.choice(keys.SMALL)
        prot = keys.protections(d)
        # a subkey may have a passphrase of its own
        spw = pw if d.bool(0.75) else passphrase(d)
        spub = sub.public_body(CT + 1 + i)
        out += ref.new_packet(7, spub + prot.header() + prot.protect(
            sub.secret_numbers(), spw.encode('utf8')))
        out += ref.new_packet(2, keys.signature_v4(
            primary, 0x18, keys.key_data(pub) + keys.key_data(spub), 8,
            hashed))
        parts.append((sub, sub.alg, prot, spw))
    return out, parts


@suite.prop(quick=1500, thorough=25000, timeout=60)
def history(d):
    """Sequences of lock, unlock and failed unlock on a key with subkeys."""
    data, parts = whole_key(d)
    key = load(data)
    objs = [key] + list(key.subkeys)
    eq(len(objs), len(parts), 'number of keys')
    state = [False] * len(parts)
    pws = [p[3] for p in parts]
    d.note('parts', [(repr(p[0]), repr(p[2]), p[3]) for p in parts])
    steps = d.int(1, 7)
    fails = succ = 0
    for _ in range(steps):
        who = d.choice([None, None] + list(range(len(parts))))
        if who == 0:
            who = None     # the primary key object is the whole key
        idx = range(len(parts)) if who is None else [who]
        obj = key if who is None else objs[who]
        if d.bool(0.3):
            d.note('step', ('lock', who))
            obj.lock()
            for i in idx:
                state[i] = False
        else:
            pw = d.choice(pws) if d.bool(0.65) else near(d, pws[0])
            d.note('step', ('unlock', who, pw))
            ok = True
            for i in idx:
                k, alg, prot, spw = parts[i]
                if prot.usage and pw != spw:
                    if prot.unprotect(prot.protect(
                            k.secret_numbers(), spw.encode('utf8')),
                            pw.encode('utf8')) is not None:
                        d.reject()
                    ok = False
            scoped = d.bool(0.3)
            inside = scoped and d.choice([None, Inside(), KeyboardInterrupt(),
                                          'lock', GeneratorExit()])
            try:
                if scoped:
                    d.label('with unlocked')
                    d.note('inside', repr(inside))
                    with context_managers.unlocked(obj, give(d, pw)) as got:
                        check(got is obj, 'what the block is given')
                        for i in idx:
                            expect_unlocked(d, objs[i], parts[i][0],
                                            'key %d in the block' % i)
                        if inside == 'lock':
                            obj.lock()
                        elif inside is not None:
                            raise inside
                    check(inside in (None, 'lock'),
                          'the exception of the block is lost', inside)
                else:
                    obj.unlock(give(d, pw))
            except (Inside, KeyboardInterrupt, GeneratorExit) as e:
                check(e is inside, 'another exception', e)
                for i in idx:
                    state[i] = False
            except Violation:
                raise
            except Exception as e:
                if ok:
                    raise Violation('the right passphrase was refused: %r'
                                    % (e,))
                fails += 1
            else:
                check(ok, 'a wrong passphrase unlocked', pw)
                succ += 1
                for i in idx:
                    state[i] = not scoped
        for i, o in enumerate(objs):
            what = 'key %d' % i
            if state[i]:
                expect_unlocked(d, o, parts[i][0], what)
            else:
                expect_locked(o, what)
        eq(raw(key), data, 'octets of the key')
    d.nontrivial(fails + succ > 1)
    if fails and succ:
        d.label('successes and failures')
    if any(state):
        # what is unlocked really works
        for i, o in enumerate(objs):
            k = parts[i][0]
            if state[i] and k.kind in ('rsa', 'dsa'):
                sig = o.sign(b'some data', 4, 0, 2)
                body = bytes(sig.to_packet().content)
                check(keys.verify_sig(k, body, b'some data'),
                      'signature of the unlocked key does not verify', body)


@suite.prop(quick=2500, thorough=30000)
def protect(d):
    """What the packet encrypts, an independent implementation decrypts."""
    k, version, alg, prot, pw = make_key(d)
    if prot.usage == 'legacy':
        spec = None
    elif prot.usage:
        from pgp import s2k
        spec, _ = s2k.parse_s2k_bytes(prot.sym,
                                      bytearray(prot.specifier()), 0)
    else:
        spec = None
    d.nontrivial(bool(prot.usage))
    secret = k.secret_numbers()
    if d.draw(3) == 2:
        # numbers of any size, shorter than a block too
        secret = [d.bigint(d.choice([8, 60, 64, 128, 500])) for _ in secret]
        d.label('other numbers')
    d.note('secret', secret)
    attrs = ('exponent_d', 'prime_p', 'prime_q', 'multiplicative_inverse_u') \
        if k.kind == 'rsa' else ('exponent_x',)
    nums = dict(zip(attrs, secret))
    pn = k.public_numbers()
    names = {'rsa': ('modulus', 'exponent'),
             'dsa': ('prime', 'group_order', 'group_generator', 'key_value'),
             'elg': ('prime', 'group_generator', 'key_value')}[k.kind]
    nums.update(zip(names, pn))
    p = packets.SecretKeyPacket(
        1, version, CT, alg, 0 if version < 4 else None,
        s2k_specification=spec, symmetric_algorithm=prot.sym,
        iv=prot.iv and bytearray(prot.iv), checksum=prot.usage != 254,
        hash_=prot.usage == 254, passphrase=pw.encode('utf8'), **nums)
    body = bytes(p.content)
    head = k.public_body(CT, alg, version) + prot.header()
    eq(body[:len(head)], head, 'unencrypted part')
    eq(body[len(head):], prot.protect(secret, pw.encode('utf8'), version),
       'protected part')
    p, = parsers.parse_binary_packet_data(ref.packet(
        d.choice(['new', 'old']), d.choice([5, 7]), body))
    p.decrypt(pw.encode('utf8'))
    eq([getattr(p, x) for x in attrs], secret, 'secret numbers')
    eq(bytes(p.content), body, 'the packet after decryption')
