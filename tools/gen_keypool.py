#!/usr/bin/env python3
"""Generates vlib/keypool.json: real keys of all algorithms and odd sizes.
Run once; the result is committed."""
import json, random, subprocess, sys
rnd = random.Random(20240101)


def prime(bits, safe=False):
    a = ['openssl', 'prime', '-generate', '-bits', str(bits), '-hex']
    if safe:
        a.append('-safe')
    return int(subprocess.check_output(a, text=True).strip(), 16)


def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for _ in range(24):
        a = rnd.randrange(2, n - 1)
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def rand_prime(bits):
    while 1:
        n = rnd.getrandbits(bits) | 1 | (1 << (bits - 1))
        if is_prime(n):
            return n


def rsa(bits, e=65537):
    while 1:
        p, q = rand_prime((bits + 1) // 2), rand_prime(bits // 2)
        if p > q:
            p, q = q, p
        n = p * q
        if p == q or n.bit_length() != bits:
            continue
        phi = (p - 1) * (q - 1)
        try:
            d = pow(e, -1, phi)
        except ValueError:
            continue
        return dict(kind='rsa', n=n, e=e, d=d, p=p, q=q, u=pow(p, -1, q))


def dsa(L, N):
    q = rand_prime(N)
    while 1:
        p = rnd.getrandbits(L) | (1 << (L - 1))
        p -= p % (2 * q) - 1
        if p.bit_length() == L and is_prime(p):
            break
    g = 1
    while g == 1:
        g = pow(rnd.randrange(2, p - 1), (p - 1) // q, p)
    x = rnd.randrange(1, q)
    return dict(kind='dsa', p=p, q=q, g=g, y=pow(g, x, p), x=x)


def elg(bits):
    p = prime(bits, True)
    while 1:
        g = rnd.randrange(3, p - 1)
        if pow(g, 2, p) != 1 and pow(g, (p - 1) // 2, p) != 1:
            break
    x = rnd.randrange(2, p - 2)
    return dict(kind='elg', p=p, g=g, y=pow(g, x, p), x=x)


keys = []
for bits, e in [(1024, 65537)] * 3 + [(768, 65537), (1023, 257), (1025, 17),
                (1031, 65537), (896, 3), (2048, 65537), (2048, 41)]:
    keys.append(rsa(bits, e))
for L, N in [(1024, 160), (1024, 160), (768, 160), (2048, 224), (2048, 256)]:
    keys.append(dsa(L, N))
for bits in (512, 768, 1024, 1024, 519):
    keys.append(elg(bits))
json.dump([{k: v if k == 'kind' else '%x' % v for k, v in key.items()}
           for key in keys], open('/verif/vlib/keypool.json', 'w'), indent=1)
