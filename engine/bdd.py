"""A small reduced ordered BDD package. Guards of the dataflow are values of this lattice."""

class BDD:
    def __init__(self):
        self.nodes = [(1 << 30, 0, 0), (1 << 30, 1, 1)]   # var, lo, hi
        self.uniq = {}
        self.itec = {}
        self.vars = []            # index -> key
        self.vid = {}             # key -> index

    F, T = 0, 1

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def var(self, key):
        i = self.vid.get(key)
        if i is None:
            i = len(self.vars)
            self.vars.append(key)
            self.vid[key] = i
        return self.mk(i, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.itec.get(k)
        if r is not None:
            return r
        nf, ng, nh = self.nodes[f], self.nodes[g], self.nodes[h]
        v = min(nf[0], ng[0], nh[0])
        def co(x, n):
            return (n[1], n[2]) if n[0] == v else (x, x)
        f0, f1 = co(f, nf)
        g0, g1 = co(g, ng)
        h0, h1 = co(h, nh)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.itec[k] = r
        return r

    def NOT(self, f):
        return self.ite(f, 0, 1)

    def AND(self, *fs):
        r = 1
        for f in fs:
            r = self.ite(r, f, 0)
        return r

    def OR(self, *fs):
        r = 0
        for f in fs:
            r = self.ite(r, 1, f)
        return r

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def implies(self, a, b):
        return self.ite(a, b, 1) == 1

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            v, lo, hi = self.nodes[n]
            out.add(v)
            st += [lo, hi]
        return out

    def compose(self, f, fn, memo=None):
        """replace every variable key k by the BDD fn(k)"""
        if memo is None:
            memo = {}
        if f < 2:
            return f
        if f in memo:
            return memo[f]
        v, lo, hi = self.nodes[f]
        r = self.ite(fn(self.vars[v]), self.compose(hi, fn, memo), self.compose(lo, fn, memo))
        memo[f] = r
        return r

    def exists(self, f, pred):
        """quantify out the variables whose key satisfies pred"""
        memo = {}
        def rec(n):
            if n < 2:
                return n
            if n in memo:
                return memo[n]
            v, lo, hi = self.nodes[n]
            l, h = rec(lo), rec(hi)
            if pred(self.vars[v]):
                r = self.OR(l, h)
            else:
                r = self.ite(self.mk(v, 0, 1), h, l)
            memo[n] = r
            return r
        return rec(f)

    def sat_one(self, f):
        if f == 0:
            return None
        out = {}
        while f > 1:
            v, lo, hi = self.nodes[f]
            if hi != 0:
                out[self.vars[v]] = True
                f = hi
            else:
                out[self.vars[v]] = False
                f = lo
        return out

    def cubes(self, f, limit=12):
        out = []
        def rec(n, acc):
            if len(out) >= limit or n == 0:
                return
            if n == 1:
                out.append(list(acc))
                return
            v, lo, hi = self.nodes[n]
            rec(hi, acc + [(self.vars[v], True)])
            rec(lo, acc + [(self.vars[v], False)])
        rec(f, [])
        return out
