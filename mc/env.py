"""Loads psrpcore from /repo's working tree and owns its nondeterminism."""
import os
import sys

_prepared = False


def prepare(repo: str) -> None:
    global _prepared
    if _prepared:
        return
    _prepared = True

    # RSA key generation is the only slow, random step of the library.  It is
    # replaced by a pool of keys generated once per run; every other primitive
    # (encryption, padding, decryption) is the real one.
    from cryptography.hazmat.primitives.asymmetric import rsa

    real = rsa.generate_private_key
    cache: dict = {}
    count = [0]

    def generate_private_key(public_exponent, key_size, backend=None):  # type: ignore
        n = count[0] % 2
        count[0] += 1
        k = (public_exponent, key_size, n)
        if k not in cache:
            cache[k] = real(public_exponent=public_exponent, key_size=key_size)
        return cache[k]

    rsa.generate_private_key = generate_private_key

    import logging

    logging.disable(logging.CRITICAL)

    import psrpcore

    src = os.path.realpath(os.path.join(repo, "src"))
    got = os.path.realpath(psrpcore.__file__)
    if not got.startswith(src + os.sep):
        raise RuntimeError("psrpcore was loaded from %s and not from %s" % (got, src))
