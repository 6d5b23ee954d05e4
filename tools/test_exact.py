"""Sanity test of dv.exact: the stated facts hold of the real operations on random integers."""
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from dv import core, exact

rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)


def num():
    k = rnd.randrange(4)
    v = rnd.randrange(6) if k == 0 else rnd.randrange(1 << rnd.randrange(1, 70)) if k < 3 else 1 << rnd.randrange(66)
    return -v if rnd.random() < .4 else v


def trunc(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def one(e):
    vals = [num() for _ in range(3)]
    if rnd.random() < .3:
        vals[1] = vals[0] + rnd.randrange(-1, 2)
    cnt = [rnd.randrange(70) for _ in range(2)]
    V = [z3.Int("v%d" % i) for i in range(3)]
    N = [z3.Int("n%d" % i) for i in range(2)]
    want = []
    for i in range(3):
        for n in range(2):
            want += [(exact.shl(V[i], N[n]), vals[i] << cnt[n]), (exact.shr(V[i], N[n]), vals[i] >> cnt[n])]
        if vals[i] >= 0:
            want.append((exact.bit_length(V[i]), vals[i].bit_length()))
        for j in range(3):
            want += [(exact.mul(V[i], V[j]), vals[i] * vals[j]), (exact.bit_and(V[i], V[j]), vals[i] & vals[j])]
            want += [((exact.ZI(V[i]) | V[j]).t, vals[i] | vals[j]), ((exact.ZI(V[i]) ^ V[j]).t, vals[i] ^ vals[j])]
            if vals[j]:
                q, r = exact.divmod_trunc(V[i], V[j])
                t = trunc(vals[i], vals[j])
                want += [(q, t), (r, vals[i] - t * vals[j])]
    for n in range(2):
        want.append((exact.pow2(N[n]), 1 << cnt[n]))
    s = z3.Solver()
    s.set("timeout", 20000)
    for x, v in list(zip(V, vals)) + list(zip(N, cnt)) + want:
        s.add(x == v)
    assert s.check() == z3.sat, (vals, cnt)
    s.add(*e.pc)
    r = s.check()
    if r != z3.sat:
        print("FALSE FACT for", vals, cnt, r)
        for c in e.pc:
            t = z3.Solver()
            for x, v in list(zip(V, vals)) + list(zip(N, cnt)) + want:
                t.add(x == v)
            t.add(c)
            if t.check() != z3.sat:
                print(c)
        sys.exit(1)


for k in range(150):
    e = core.Engine("t")
    e.explore(lambda: one(e))
    assert not e.stats.failed, e.stats.failed
print("ok")
