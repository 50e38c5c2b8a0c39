"""Random values for the generators: shapes, fields, levels."""
import random
from vf import f32, NAN
INF = float("inf")

class R(random.Random):
    big = 0         # how many times larger than usual
    def larger(self, case, k, most=6):
        """k cases of larger sizes."""
        out = []
        for _ in range(k):
            self.big = self.randint(2, most)
            out.append(case(self))
        self.big = 0
        return out
    def count(self, n):
        return n * self.randint(1, self.big) + self.randint(0, 2) if self.big and n > 1 else n
    def f(self, lo, hi): return f32(self.uniform(lo, hi))
    def pick(self, *a): return self.choice(a)
    def chance(self, p): return self.random() < p
    def style(self):
        """A way of drawing values: ties, large offsets, small and large magnitudes."""
        k = self.choice(["int", "int", "unit", "wide", "offset", "dec", "sign", "mix"])
        if k == "int": m = self.choice([1, 3, 10]); return lambda: float(self.randint(-m, m))
        if k == "unit": return lambda: self.f(0, 1)
        if k == "wide": return lambda: f32(self.choice([-1, 1]) * 10 ** self.uniform(-4, 5))
        if k == "offset": b = self.choice([273.15, 101325.0, -1000.5, 1e5]); return lambda: f32(b + self.uniform(-2, 2))
        if k == "dec": return lambda: f32(self.randint(-30, 30) / 10)
        if k == "sign": return lambda: self.choice([-1.0, 0.0, 1.0, 0.0])
        return lambda: self.choice([float(self.randint(-5, 5)), self.f(-10, 10), f32(1e4 * self.random())])
    def miss(self):
        return self.choice([0, 0, 0.1, 0.3, 0.6, 0.95, 1]) if self.chance(0.8) else 1
    def vec(self, n, style=None, miss=None, inf=True):
        s = style or self.style(); m = self.miss() if miss is None else miss
        return [(self.choice([NAN, NAN, NAN, INF, -INF]) if inf else NAN) if self.chance(m) else s() for _ in range(n)]
    def vec2(self, ny, nx, style=None, miss=None, inf=True):
        s = style or self.style(); m = self.miss() if miss is None else miss
        return [self.vec(nx, s, m, inf) for _ in range(ny)]
    def vec3(self, ny, nx, ne, style=None, miss=None, inf=True):
        s = style or self.style(); m = self.miss() if miss is None else miss
        if self.chance(0.3):  # whole members or whole cells missing
            f = [[self.vec(ne, s, 0) for _ in range(nx)] for _ in range(ny)]
            for e in range(ne):
                if self.chance(m):
                    for r in f:
                        for c in r: c[e] = NAN
            for r in f:
                for c in r:
                    if self.chance(m / 2): c[:] = [NAN] * ne
            return f
        return [[self.vec(ne, s, m, inf) for _ in range(nx)] for _ in range(ny)]
    def shape(self, mx=7):
        if self.big: return self.randint(1, mx * self.big), self.randint(1, mx * self.big)
        if self.chance(0.15): return self.choice([(1, 1), (1, self.randint(1, mx)), (self.randint(1, mx), 1), (2, 2)])
        return self.randint(1, mx), self.randint(1, mx)
    def level(self):
        return self.choice([0.0, 1.0, 0.5, 0.25, f32(0.1), f32(0.9), f32(1 / 3), f32(self.random()), f32(self.random()), NAN])
