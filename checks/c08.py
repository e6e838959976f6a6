"""C08 Symmetric ciphers and modes"""
from vlib.engine import Suite, check, eq
from vlib import gcrypt, ref

from pgp import utils
from pgp.cipher import aidea, camellia, twofish, wrapper
from Crypto.Cipher import AES, Blowfish, CAST, DES3

suite = Suite('C08', 'Every algorithm with random and patterned keys (all '
              'zero, all ones, zero words), IVs and data of 0..20 blocks, '
              'split into random calls. Non-trivial: at least one whole block '
              'of data.')

ALGS = sorted(ref.KEY_LEN)
OWN = (1, 10, 11, 12, 13)
MODULES = {1: aidea, 2: DES3, 3: CAST, 4: Blowfish, 7: AES, 8: AES, 9: AES,
           10: twofish, 11: camellia, 12: camellia, 13: camellia}


def words(d, n):
    """octets with many zero, one and all-ones 16-bit words"""
    k = d.draw(6)
    if k < 3:
        return d.bytes(n)
    if k == 3:
        return d.choice([b'\0', b'\xff', b'\x80', b'\x01']) * n
    out = b''
    while len(out) < n:
        out += d.choice([b'\0\0', b'\xff\xff', b'\0\1', b'\x80\0', None]) or \
            d.bytes(2)
    return out[:n]


def setup(d, algs=ALGS):
    alg = d.choice(algs)
    bs = ref.BLOCK_LEN[alg]
    key = words(d, ref.KEY_LEN[alg])
    if alg == 2 and (key[:8] == key[8:16] or key[8:16] == key[16:]):
        key = d.bytes(24)
    try:
        ecb = gcrypt.ECB(alg, key)
    except gcrypt.WeakKey:
        d.reject()
    d.label('algorithm %d' % alg)
    return alg, bs, key, ecb


def pieces(d, n, unit):
    """random lengths, multiples of unit, that add up to n"""
    out = []
    while n:
        k = d.int(0, 3) * unit if d.bool(0.7) else n
        k = min(k, n)
        out.append(k)
        n -= k
        if len(out) > 40:
            out.append(n)
            break
    return out


def run(f, data, cuts):
    out, o = b'', 0
    for k in cuts:
        out += bytes(f(data[o:o + k]))
        o += k
    if not cuts:
        out = bytes(f(data))
    return out


@suite.prop(quick=2500, thorough=60000)
def blocks(d):
    """blocks: the bare block transformation, both ways."""
    alg, bs, key, ecb = setup(d)
    data = words(d, bs * d.int(1, 4))
    d.nontrivial()
    iv = d.choice([None, bytes(bs)])
    want = ecb.encrypt(data)
    for sync in (False, True):
        c = utils.get_symmetric_cipher(alg, key, utils.ECB, iv, syncable=sync)
        eq(bytes(c.encrypt(data)), want, 'encrypted (syncable=%s)' % sync)
        c = utils.get_symmetric_cipher(alg, key, utils.ECB, iv, syncable=sync)
        eq(bytes(c.decrypt(want)), data, 'decrypted (syncable=%s)' % sync)
    if alg == 1:
        i = aidea.AIDEA(key)
        eq(bytes(i.encrypt(data[:8])), want[:8], 'IDEA')
        eq(bytes(i.decrypt(want[:8])), data[:8], 'IDEA decrypted')


@suite.prop(quick=2500, thorough=60000)
def modes(d):
    """modes: CFB, CBC and OFB equal the textbook, in any split."""
    alg, bs, key, ecb = setup(d)
    mode = d.choice(['CFB', 'CFB', 'CFB', 'CBC', 'OFB'])
    iv = words(d, bs)
    sync = d.bool(0.4)
    d.label(mode + (' syncable' if sync else ''))
    seg = None
    unit = bs
    if mode == 'CFB':
        if d.bool(0.4):
            seg = d.int(1, bs)
            unit = seg
            d.label('segments of 1 block' if seg == bs else 'short segments')
    elif mode == 'OFB' and (alg in OWN or sync):
        unit = 1
    data = d.bytes(unit * d.int(0, 20)) if unit > 1 else d.bytes(d.int(0, 70))
    if len(data) >= bs:
        d.nontrivial()
    if mode == 'CFB':
        want = gcrypt.cfb_encrypt(ecb, iv, data, seg)
    elif mode == 'CBC':
        want = gcrypt.cbc_encrypt(ecb, iv, data)
    else:
        want = gcrypt.ofb(ecb, iv, data)

    def new():
        kw = {}
        if mode == 'CFB':
            kw = {} if seg is None else {'segment_size': seg * 8}
        else:
            kw = d.choice([{}, {'segment_size': 0}])
        return utils.get_symmetric_cipher(
            alg, d.choice([bytes, bytearray])(key), getattr(utils, mode),
            d.choice([bytes, bytearray])(iv), syncable=sync, **kw)
    eq(run(new().encrypt, data, pieces(d, len(data), unit)), want, 'encrypted')
    eq(run(new().decrypt, want, pieces(d, len(data), unit)), data, 'decrypted')


@suite.prop(quick=1500, thorough=40000)
def counter(d):
    """counter: CTR mode over any counter function, in any split."""
    alg, bs, key, ecb = setup(d)
    n = d.int(0, 90)
    data = d.bytes(n)
    if n >= bs:
        d.nontrivial()
    start = d.edge_int(0, 2 ** (8 * bs) - 200, (255, 65535))
    blocks_ = [(start + i).to_bytes(bs, 'big') for i in range(n // bs + 2)]
    want = gcrypt.ctr(ecb, blocks_, data)

    def new():
        it = iter(blocks_)
        f = lambda: next(it)
        if alg in OWN:
            return MODULES[alg].new(key, MODULES[alg].MODE_CTR, counter=f)
        return wrapper.new(MODULES[alg], key, wrapper.MODE_CTR, counter=f)
    eq(run(new().encrypt, data, pieces(d, n, 1)), want, 'encrypted')
    eq(run(new().decrypt, want, pieces(d, n, 1)), data, 'decrypted')


@suite.prop(quick=1500, thorough=40000)
def openpgp(d):
    """openpgp: the OpenPGP mode of RFC 4880 section 13.9."""
    alg, bs, key, ecb = setup(d)
    data = d.bytes(d.int(0, 90))
    if len(data) >= bs:
        d.nontrivial()
    prefix = d.bytes(bs)
    sync = d.bool(0.5)
    want = gcrypt.openpgp_encrypt(ecb, prefix, data)
    c = utils.get_symmetric_cipher(alg, key, utils.OPENPGP, prefix,
                                   syncable=sync)
    eq(bytes(c.encrypt(data)), want, 'encrypted')
    c = utils.get_symmetric_cipher(alg, key, utils.OPENPGP, want[:bs + 2],
                                   syncable=sync)
    eq(bytes(c.decrypt(want[bs + 2:])), data, 'decrypted')
    bad = bytearray(want[:bs + 2])
    bad[-1] ^= d.int(1, 255)
    try:
        utils.get_symmetric_cipher(alg, key, utils.OPENPGP, bytes(bad),
                                   syncable=sync)
    except ValueError:
        pass
    else:
        check(False, 'a prefix whose repetition is wrong was accepted')


@suite.prop(quick=300, thorough=5000)
def refuse(d):
    """refuse: wrong key, IV and data lengths are errors."""
    alg = d.choice(OWN)
    bs = ref.BLOCK_LEN[alg]
    key = d.bytes(ref.KEY_LEN[alg])
    iv = d.bytes(bs)
    d.nontrivial()
    k = d.choice(['key', 'iv', 'data'])
    data = d.bytes(bs)
    mode = utils.CFB
    if k == 'key':
        key = d.bytes(d.choice([0, 5, 15, 17, 23, 25, 31, 33]))
    elif k == 'iv':
        iv = d.bytes(d.choice([0, 1, bs - 1, bs + 1, bs * 2]))
        mode = d.choice([utils.CFB, utils.CBC, utils.OFB])
    else:
        mode = d.choice([utils.CFB, utils.CBC, utils.ECB])
        data = d.bytes(bs * d.int(0, 3) + d.int(1, bs - 1))
    kw = {} if mode == utils.CFB else {}
    try:
        c = utils.get_symmetric_cipher(alg, key, mode, iv, **kw)
        if d.bool():
            c.encrypt(data)
        else:
            c.decrypt(data)
    except ValueError:
        return
    check(False, 'wrong %s length accepted' % k)


@suite.prop(quick=600, thorough=10000)
def refuse_settings(d):
    """refuse_settings: settings that do not fit together are errors."""
    alg = d.choice(OWN)
    bs = ref.BLOCK_LEN[alg]
    key = d.bytes(ref.KEY_LEN[alg])
    iv = d.bytes(bs)
    mod = MODULES[alg]
    block = d.bytes(bs)
    d.nontrivial()

    def use(c, data):
        return (c.encrypt if d.bool() else c.decrypt)(data)
    k = d.draw(9)
    d.label('setting %d' % k)
    data = d.bytes(bs * d.int(1, 3))
    if k == 0:
        mode = d.choice([0, -1, 4, 8, 9, 12, 255])
        f = lambda: use(mod.new(key, mode, iv), data)
    elif k == 1:
        size = d.choice([-8, 1, 4, 7, 9, 12, 15, bs * 8 - 1, bs * 8 + 1,
                         bs * 8 + 8, bs * 16])
        f = lambda: use(mod.new(key, mod.MODE_CFB, iv, segment_size=size),
                        data)
    elif k == 2:
        seg = d.int(2, bs)
        data = d.bytes(seg * d.int(0, 4) + d.int(1, seg - 1))
        f = lambda: use(mod.new(key, mod.MODE_CFB, iv, segment_size=seg * 8),
                        data)
    elif k == 3:
        f = lambda: use(mod.new(key, mod.MODE_CTR), data)
    elif k == 4:
        f = lambda: use(mod.new(key, mod.MODE_CTR, iv,
                                counter=lambda: block), data)
    elif k == 5:
        c = d.choice([block, 7, iter([block])])
        f = lambda: use(mod.new(key, mod.MODE_CTR, counter=c), data)
    elif k == 6:
        c = d.choice([None, 7, [1] * bs, block[:-1], block + b'x', b''])
        f = lambda: use(mod.new(key, mod.MODE_CTR, counter=lambda: c), data)
    elif k == 7:
        mode = d.choice([mod.MODE_ECB, mod.MODE_CBC, mod.MODE_CFB,
                         mod.MODE_OFB])
        f = lambda: use(mod.new(key, mode, iv, counter=lambda: block), data)
    else:
        mode = d.choice([mod.MODE_CBC, mod.MODE_CFB, mod.MODE_OFB])
        f = lambda: use(mod.new(key, mode), data)
    try:
        out = f()
    except (ValueError, TypeError):
        return
    check(False, 'setting %d was accepted and gave %r' % (k, out))


@suite.prop(quick=200, thorough=3000)
def defaults(d):
    """defaults: the plain way of making a cipher is ECB; CFB is CFB-8."""
    alg = d.choice(OWN)
    bs = ref.BLOCK_LEN[alg]
    key = words(d, ref.KEY_LEN[alg])
    try:
        ecb = gcrypt.ECB(alg, key)
    except gcrypt.WeakKey:
        d.reject()
    mod = MODULES[alg]
    data = d.bytes(bs * d.int(1, 4))
    d.nontrivial()
    iv = d.bytes(bs)
    want = b''.join(ecb.encrypt(data[i:i + bs])
                    for i in range(0, len(data), bs))
    eq(mod.new(key).encrypt(data), want, 'no mode named')
    eq(mod.new(key, mod.MODE_ECB).decrypt(want), data, 'ECB')
    reg = bytearray(iv)
    out = bytearray()
    for b in data:
        o = b ^ ecb.encrypt(bytes(reg))[0]
        out.append(o)
        reg = reg[1:] + bytes([o])
    c = mod.new(key, mod.MODE_CFB, iv)
    eq(c.encrypt(data), bytes(out), 'CFB without a segment size')
    eq(mod.new(key, mod.MODE_CFB, iv).decrypt(bytes(out)), data, 'CFB')



@suite.prop(quick=20, thorough=20)
def tables(d):
    """tables: key and block lengths of every algorithm."""
    d.nontrivial()
    for a in ALGS:
        eq(utils.symmetric_cipher_key_lengths[a], ref.KEY_LEN[a], 'key %d' % a)
        eq(utils.symmetric_cipher_block_lengths[a], ref.BLOCK_LEN[a],
           'block %d' % a)
    for a in ref.HASH:
        eq(utils.hash_lengths[a], ref.HASH_LEN[a], 'hash %d' % a)
        m = d.bytes(d.int(0, 200))
        h = utils.get_hash_instance(a)
        h.update(m)
        w = ref.new_hash(a)
        w.update(m)
        eq(h.digest(), w.digest(), 'digest %d' % a)
