"""Chosen header hashes."""
import hashlib

# Histories with chosen hashes: the merkle root field of a header is its hash.  Both the coin (FieldCoin) and the hash
# function say so, whichever the library asks.  Replaced before anything else can take a copy.
_sha256 = hashlib.sha256
FIELD = {'on': False}


class Digest:
    def __init__(self, h, d):
        self._h, self._d = h, d

    def digest(self):
        return self._d

    def hexdigest(self):
        return self._d.hex()

    def __getattr__(self, name):
        return getattr(self._h, name)


def field_sha256(data=b'', **kw):
    h = _sha256(data, **kw)
    if FIELD['on']:
        if len(data) == 80:
            FIELD[h.digest()] = bytes(data[36:68])
        elif len(data) == 32 and bytes(data) in FIELD:
            return Digest(h, FIELD[bytes(data)])
    return h


hashlib.sha256 = field_sha256
