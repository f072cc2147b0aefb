"""Shared pieces of the harness generators."""
import sys
# check.py may run as __main__; use that module's Case
_m = sys.modules.get('__main__')
if _m is not None and hasattr(_m, 'Case'):
    Case = _m.Case
else:
    from check import Case


class T:
    """A library type: bit (2-state) or logic (4-state), range [msb:lsb], signedness."""
    def __init__(self, kind, msb, lsb=0, sg=False):
        self.kind, self.msb, self.lsb, self.sg = kind, msb, lsb, sg

    @property
    def four(self):
        return self.kind == 'logic'

    @property
    def n(self):
        return abs(self.msb - self.lsb) + 1

    @property
    def cpp(self):
        return 'L::%s<%d, %d, %s>' % (self.kind, self.msb, self.lsb, 'true' if self.sg else 'false')

    @property
    def nm(self):
        s = '%s%s%d' % ('l' if self.four else 'b', 's' if self.sg else 'u', self.n)
        if self.lsb or self.msb < self.lsb:
            s += 'r%d_%d' % (self.msb, self.lsb)
        return s.replace('-', 'm')

    def word(self):
        return (self.n + 63) // 64

    def get(self, v):
        """spec: declares the symbolic value v"""
        return 'auto %s = in.val<%d, %s>();' % (v, self.n, 'true' if self.four else 'false')

    def ld(self, v):
        return 'auto %s = ld<%s>(p);' % (v, self.cpp)

    def like(self, **k):
        d = dict(kind=self.kind, msb=self.msb, lsb=self.lsb, sg=self.sg)
        d.update(k)
        return T(**d)


def b(n, sg=False, lsb=0):
    return T('bit', lsb + n - 1, lsb, sg)


def l(n, sg=False, lsb=0):
    return T('logic', lsb + n - 1, lsb, sg)


def tb(x):
    return 'true' if x else 'false'


def four(*ts):
    return any(t.four for t in ts)


def bcase(name, A, B, expr, spec, **kw):
    """binary: expr over a, b; spec sees va, vb"""
    return Case(name, A.ld('a') + B.ld('b') + ' st(%s, o);' % expr,
                A.get('va') + B.get('vb') + ' RUN; ' + spec, **kw)


def ucase(name, A, expr, spec, **kw):
    return Case(name, A.ld('a') + ' st(%s, o);' % expr, A.get('va') + ' RUN; ' + spec, **kw)


def dedupe(cs):
    seen, out = set(), []
    for c in cs:
        if c.name not in seen:
            seen.add(c.name)
            out.append(c)
    return out


# sizes around every holder boundary
Q_SAME = [1, 5, 8, 13, 16, 32, 33, 64, 65, 80, 100, 128]
T_SAME = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 66, 96, 100, 127, 128, 129, 160, 191,
          192, 193, 200, 256, 300]
Q_MIX = [(1, 8), (8, 5), (13, 32), (33, 8), (64, 40), (64, 65), (65, 13), (100, 64), (100, 130), (1, 100), (130, 70), (65, 260)]
T_MIX = Q_MIX + [(1, 2), (2, 1), (8, 16), (16, 8), (31, 32), (32, 31), (32, 64), (64, 32), (63, 64), (64, 63), (65, 64), (64, 128),
                 (128, 64), (127, 128), (128, 127), (128, 129), (129, 128), (192, 65), (65, 192), (200, 13), (13, 200),
                 (256, 1), (5, 300), (300, 250)]
SG = [(False, False), (True, True), (True, False), (False, True)]


def same(tier):
    return Q_SAME if tier == 'quick' else T_SAME


def mix(tier):
    return Q_MIX if tier == 'quick' else T_MIX
