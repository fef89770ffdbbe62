"""Families of sets as unions of Venn regions.  With operands A, B, C ... a
region is the part of the sets that are in exactly some of the operands; every
family built from them with the Boolean operations is a union of regions, and a
question about it (empty, equal, included) depends only on which regions are
empty.  So an operation is compared with its specification for every pattern of
empty regions, which covers all operands."""


class Venn:
    def __init__(self, names, singles=()):
        self.names = list(names)
        n = len(self.names)
        self.full = (1 << (1 << n)) - 1
        self.base = {}
        for i, x in enumerate(self.names):
            self.base[x] = sum(1 << r for r in range(1 << n) if r >> i & 1)
        self.vals = []
        for v in range(1, self.full + 1):
            if all(bin(v & self.base[x]).count('1') == 1 for x in singles):
                self.vals.append(v)
            if len(self.vals) > 300:
                break
        if n > 3:
            # the patterns do not matter for set results; a few are kept for side conditions
            self.vals = self.vals[:64] + [self.full, self.full - 1]

    def show(self, m):
        if m is None:
            return '?'
        if m == 0:
            return '{}'
        for x in self.names:
            if m == self.base[x]:
                return x
        out = []
        for r in range(1 << len(self.names)):
            if m >> r & 1:
                out.append('&'.join(x if r >> i & 1 else '~' + x for i, x in enumerate(self.names)))
        return ' | '.join(out)


SETOPS = {'union': lambda V, a, b: a | b, 'intersection': lambda V, a, b: a & b, 'difference': lambda V, a, b: a & ~b,
          'symmetric_difference': lambda V, a, b: a ^ b}
REL = {'==': lambda v, a, b: not v & (a ^ b), '!=': lambda v, a, b: bool(v & (a ^ b)),
       '<=': lambda v, a, b: not v & a & ~b, '>=': lambda v, a, b: not v & b & ~a,
       '<': lambda v, a, b: not v & a & ~b and bool(v & (a ^ b)), '>': lambda v, a, b: not v & b & ~a and bool(v & (a ^ b)),
       'disjoint': lambda v, a, b: not v & a & b}
