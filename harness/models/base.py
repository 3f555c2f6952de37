"""Reference models, written from the published algorithms and the documented
state layout.  A model is built either from a state dict in the library's format
or from seed words, and produces the documented output functions."""

import ctypes

M32 = (1 << 32) - 1
M64 = (1 << 64) - 1
M128 = (1 << 128) - 1


def rotl(x, k, w=64):
    k %= w
    return ((x << k) | (x >> (w - k))) & ((1 << w) - 1) if k else x


def rotr(x, k, w=64):
    return rotl(x, (w - k) % w, w)


def dbl64(u):
    return (u >> 11) * 2.0 ** -53


def dbl32(a, b):
    return ((a >> 5) * 67108864.0 + (b >> 6)) / 9007199254740992.0


class Model64:
    """64-bit native generator: a 32-bit request splits a 64-bit draw, low half
    first, the high half being kept for the next 32-bit request."""

    has = 0
    uint = 0

    def buf_from(self, d):
        self.has = int(d["has_uint32"])
        self.uint = int(d["uinteger"])

    def next(self):
        raise NotImplementedError

    def raw(self):
        return self.next()

    def u64(self):
        return self.next()

    def u32(self):
        if self.has:
            self.has = 0
            return self.uint
        v = self.next()
        self.has = 1
        self.uint = v >> 32
        return v & M32

    def dbl(self):
        return dbl64(self.next())


class Model64Plain(Model64):
    """64-bit generator whose 32-bit function truncates instead of buffering."""


class Model32:
    """32-bit native generator: 64-bit draws are first << 32 | second."""

    def next(self):
        raise NotImplementedError

    def raw(self):
        return self.next()

    def u32(self):
        return self.next()

    def u64(self):
        a = self.next()
        return a << 32 | self.next()

    def dbl(self):
        a = self.next()
        return dbl32(a, self.next())
