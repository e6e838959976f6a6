"""GnuPG as an independent implementation, in scratch directories."""
import os
import shutil
import subprocess
import tempfile

from vlib import keys, ref
from vlib.engine import HarnessError

HASH_NAMES = {1: 'MD5', 2: 'SHA1', 3: 'RIPEMD160', 8: 'SHA256', 9: 'SHA384',
              10: 'SHA512', 11: 'SHA224'}
CIPHER_NAMES = {1: 'IDEA', 2: '3DES', 3: 'CAST5', 4: 'BLOWFISH', 7: 'AES',
                8: 'AES192', 9: 'AES256', 10: 'TWOFISH', 11: 'CAMELLIA128',
                12: 'CAMELLIA192', 13: 'CAMELLIA256'}


class Scratch(object):
    """a directory that is removed at the end"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='vg', dir='/tmp')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        with open(self.path(name), 'wb') as f:
            f.write(data)
        return self.path(name)

    def read(self, name):
        with open(self.path(name), 'rb') as f:
            return f.read()

    def gpgv(self, keyring, *files):
        """-> (good, messages)"""
        r = run(['gpgv', '--homedir', self.dir, '--ignore-time-conflict',
                 '--keyring', keyring] + list(files))
        return r.returncode == 0, r.stderr


def run(args, data=None):
    env = dict(os.environ, LC_ALL='C', TZ='UTC0')
    try:
        return subprocess.run(args, input=data, env=env, timeout=90,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        raise HarnessError('%s did not finish' % args[0])


class Home(Scratch):
    """a GNUPGHOME; the agent is ended with it"""

    def __exit__(self, *a):
        run(['gpgconf', '--homedir', self.dir, '--kill', 'all'])
        Scratch.__exit__(self)

    def gpg(self, *args, **kw):
        """-> CompletedProcess (stdout and stderr are octets)"""
        return run(['gpg', '--homedir', self.dir, '--batch', '--yes',
                    '--no-tty', '--quiet', '--ignore-time-conflict',
                    '--trust-model', 'always', '--pinentry-mode',
                    'loopback', '--no-auto-check-trustdb',
                    '--rfc4880' if kw.get('rfc4880') else '--gnupg',
                    '--allow-weak-key-signatures'] + list(args),
                   kw.get('data'))

    def import_key(self, data, autostart=True):
        r = self.gpg(*([] if autostart else ['--no-autostart']) +
                     ['--import'], data=data)
        return r


def certificate(k, ctime=1400000000, uid=b'a', sub=None, secret=False,
                alg=None, flags=3, sub_flags=12, hash_alg=8):
    """A whole valid key, made independently -> (octets, key ID, subkey ID)"""
    tail = b'\0' + keys.Protection().protect(k.secret_numbers(), b'')
    body = k.public_body(ctime, alg)
    kid = keys.key_id_of(body)
    out = ref.new_packet(5, body + tail) if secret else ref.new_packet(6, body)
    out += ref.new_packet(13, uid)
    out += ref.new_packet(2, keys.signature_v4(
        k, 0x13, keys.key_data(body) + keys.uid_data(uid), hash_alg,
        keys.created(ctime + 1) + ref.subpacket(27, bytes([flags])),
        keys.issuer(kid), alg))
    sub_id = None
    if sub is not None:
        tail = b'\0' + keys.Protection().protect(sub.secret_numbers(), b'')
        sbody = sub.public_body(ctime)
        sub_id = keys.key_id_of(sbody)
        out += ref.new_packet(7, sbody + tail) if secret else \
            ref.new_packet(14, sbody)
        out += ref.new_packet(2, keys.signature_v4(
            k, 0x18, keys.key_data(body) + keys.key_data(sbody), hash_alg,
            keys.created(ctime + 1) + ref.subpacket(27, bytes([sub_flags])),
            keys.issuer(kid), alg))
    return out, kid, sub_id
