"""Objects of the code under test made from independent key material."""
import datetime
import os

from vlib import keys, ref, tkeys

from pgp import transferrable_keys as T
from pgp.packets import parsers

CT = 1400000000
SIGNING_ALGS = {'rsa': (1, 3), 'dsa': (17,), 'elg': (20,)}
_CACHE = {}


def packets_of(data):
    return list(parsers.parse_binary_packet_data(bytearray(data)))


def secret_body(k, alg=None, version=4, ctime=CT):
    return k.public_body(ctime, alg, version) + b'\0' + \
        keys.Protection().protect(k.secret_numbers(), b'')


def load_secret(data):
    return T.TransferableSecretKey.from_packets(packets_of(data))


def load_public(data):
    return T.TransferablePublicKey.from_packets(packets_of(data))


def secret(k, alg=None, version=4, ctime=CT):
    """an unlocked secret key object (shared: do not change it)"""
    i = (k.index, alg, version, ctime, os.environ.get('TZ'))
    if i not in _CACHE:
        key = load_secret(ref.new_packet(5, secret_body(*(
            (k,) + i[1:4]))))
        key.unlock('')
        _CACHE[i] = key
    return _CACHE[i]


def public(k, alg=None, version=4, ctime=CT):
    i = (k.index, alg, version, ctime, 'public', os.environ.get('TZ'))
    if i not in _CACHE:
        _CACHE[i] = load_public(ref.new_packet(6, k.public_body(
            ctime, alg, version)))
    return _CACHE[i]


def hashes(k):
    """hash algorithms whose signatures fit the key"""
    if k.kind == 'dsa':
        return sorted(ref.HASH)
    n = (k.bits + 7) // 8
    return [h for h in sorted(ref.HASH)
            if len(keys.DIGEST_INFO[h]) + ref.HASH_LEN[h] + 11 <= n]


class FullKey(object):
    """A transferable key all of whose parts are known: primary, user ID, user
    attribute and a subkey, unlocked."""

    def __init__(self, k, sub, alg=None, ctime=CT, uid=b'A <a@example.com>',
                 attr=None, version=4, sub_alg=None):
        self.k, self.sub = k, sub
        self.uid = uid
        self.attr = attr or ref.subpacket(
            1, b'\x10\0\1\1' + b'\0' * 12 + b'\xff\xd8\xff\xe0')
        self.pub = k.public_body(ctime, alg, version)
        self.sub_pub = sub.public_body(ctime + 1, sub_alg)
        tail = b'\0' + keys.Protection().protect(k.secret_numbers(), b'')
        sub_tail = b'\0' + keys.Protection().protect(sub.secret_numbers(),
                                                     b'')
        dummy = ref.sig_v4(0x18, 1, 2, b'', b'', b'\0\0', [1])
        self.secret_packets = [ref.new_packet(5, self.pub + tail),
                               ref.new_packet(13, self.uid),
                               ref.new_packet(17, self.attr)]
        if version >= 4:
            self.secret_packets += [
                ref.new_packet(7, self.sub_pub + sub_tail),
                ref.new_packet(2, dummy)]
        self.obj = load_secret(b''.join(self.secret_packets))
        self.obj.unlock('')

    def data(self, kind):
        """octets hashed for a version 4 signature on the element"""
        out = keys.key_data(self.pub)
        if kind == 'uid':
            out += keys.uid_data(self.uid)
        elif kind == 'attr':
            out += keys.attr_data(self.attr)
        elif kind == 'subkey':
            out += keys.key_data(self.sub_pub)
        return out

    def data_v3(self, kind):
        out = keys.key_data(self.pub)
        if kind == 'uid':
            out += self.uid
        elif kind == 'attr':
            out += self.attr
        elif kind == 'subkey':
            out += keys.key_data(self.sub_pub)
        return out

    def element(self, kind, obj=None):
        obj = obj or self.obj
        return {'key': [obj], 'uid': obj.user_ids,
                'attr': obj.user_attributes, 'subkey': obj.subkeys}[kind][0]


TYPES = {'key': (0x1f, 0x20), 'uid': (0x10, 0x11, 0x12, 0x13, 0x30),
         'attr': (0x10, 0x11, 0x12, 0x13, 0x30), 'subkey': (0x18, 0x19, 0x28)}


def dt(ts):
    return datetime.datetime.fromtimestamp(ts)
