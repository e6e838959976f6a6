"""Transferable keys from an independent writer: a model (which elements, with
which packets) and its packet sequence.  The signatures are well-formed packets
whose numbers are random unless made by vlib.keys."""
import struct

from vlib import keys, ref

UID, ATTR = 13, 17
PRIMARY = {'public': 6, 'secret': 5}
SUBKEY = {'public': 14, 'secret': 7}


class Element(object):
    """one packet of a key and the signature packets that follow it"""

    def __init__(self, kind, tag, body, fmt, public=None):
        self.kind, self.tag, self.body, self.fmt = kind, tag, body, fmt
        self.public = public      # body of the public form of a key packet
        self.sigs = []            # (fmt, body)

    def raw(self, fmt=None):
        out = [header(fmt or self.fmt, self.tag, self.body)]
        out += [header(fmt or f, 2, b) for f, b in self.sigs]
        return out

    def public_raw(self, fmt=None):
        out = self.raw(fmt)
        if self.public is not None:
            out[0] = header(fmt or self.fmt, {5: 6, 7: 14, 6: 6, 14: 14}[
                self.tag], self.public)
        return out


def header(fmt, tag, body):
    if tag > 15:
        fmt = 'new'
    return ref.packet(fmt, tag, body)


def with_type(body, sigtype):
    """the same signature packet body with another signature type"""
    i = 1 if body[0] >= 4 else 2
    return body[:i] + bytes([sigtype]) + body[i + 1:]


def simple_sig(d, sigtype, issuer=None, ctime=None, alg=1):
    """a short well-formed signature"""
    issuer = issuer or d.bytes(8)
    ctime = d.int(1300000000, 1500000000) if ctime is None else ctime
    vals = [d.bigint(200) or 1 for _ in range(2 if alg == 17 else 1)]
    if d.draw(6) == 0:
        return ref.sig_v3(sigtype, ctime, issuer, alg, d.choice([1, 2, 8]),
                          d.bytes(2), vals)
    return ref.sig_v4(sigtype, alg, d.choice([1, 2, 8, 10]),
                      keys.created(ctime), keys.issuer(issuer), d.bytes(2),
                      vals)


def uid_body(d):
    k = d.draw(6)
    if k == 0:
        return d.bytes(d.size(0, 60, 10))
    if k == 1:
        return b''
    return d.text(0, 60, mean=15).encode('utf8', 'surrogatepass')


def attr_body(d):
    out = b''
    for _ in range(d.size(0, 4, 1)):
        data = d.blob(0, 9000, mean=40, edges=[0, 174, 175, 8366, 8367])
        if d.bool(0.7):
            body = b'\x10\x00\x01' + bytes([d.choice([1, 1, 1, 0, 100, 101])
                                            ]) + b'\0' * 12 + data
            form = d.weighted([(6, None), (1, 5), (1, 2)])
            if form == 2 and not 192 <= len(body) + 1 < 16320:
                form = 5
            out += ref.subpacket(1, body, lenform=form)
        else:
            out += ref.new_length(len(data) + 1) + \
                bytes([d.int(2, 255)]) + data
    return out


def key(d, kind, key_packet, sig=simple_sig, trust=False, secret_tail=None,
        version=None, sizes=(3, 3, 2, 3), mix=True):
    """A well-formed transferable key -> list of Elements.

    key_packet(d) -> version, public body; secret_tail(d) -> octets after the
    public part."""
    def fmt():
        return d.choice(['new', 'old'])

    def key_element(tag):
        v, pub = key_packet(d)
        body = pub + secret_tail(d) if kind == 'secret' else pub
        e = Element('key', tag, body, fmt(), pub)
        e.version = v
        return e

    def some(e, types, hi=3, lo=0, mean=1):
        for _ in range(d.size(lo, hi, mean)):
            e.sigs.append((fmt(), sig(d, d.choice(types))))
        return e
    n_sig, n_uid, n_attr, n_sub = sizes
    primary = some(key_element(PRIMARY[kind]), [0x1f, 0x20], n_sig)
    out = [primary]
    idents = [Element('uid', UID, uid_body(d), fmt())
              for _ in range(d.size(0, n_uid, 2))]
    idents += [Element('attr', ATTR, attr_body(d), 'new')
               for _ in range(d.size(0, n_attr, 1))]
    if mix and d.bool(0.4):
        idents = d.shuffle(idents)
    for e in idents:
        out.append(some(e, [0x10, 0x11, 0x12, 0x13, 0x30], 5, mean=2))
    if primary.version >= 4:
        for _ in range(d.size(0, n_sub, 1)):
            e = key_element(SUBKEY[kind])
            while e.version < 4:
                e = key_element(SUBKEY[kind])
            e.kind = 'subkey'
            some(e, [0x18], 3, 1)
            some(e, [0x28], 2, 0)
            out.append(e)
    return out


def raw(elements, fmt=None):
    return [p for e in elements for p in e.raw(fmt)]


def public_raw(elements, fmt=None):
    return [p for e in elements for p in e.public_raw(fmt)]
