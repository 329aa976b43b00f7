"""Numeric domain: affine forms over symbols, interval-list ranges per symbol, linear constraints."""
from math import gcd

INF = 1 << 220


# ---- interval lists ------------------------------------------------------------------------------
def iset(*pairs):
    out = []
    for lo, hi in sorted(pairs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1][1] = hi
        else:
            out.append([lo, hi])
    return tuple((a, b) for a, b in out)


def iinter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iunion(a, b):
    if a == b:
        return a
    return limit(iset(*a, *b))


def limit(s, n=48):
    """at most n intervals: merge the closest ones"""
    while len(s) > n:
        k = min(range(len(s) - 1), key=lambda i: s[i + 1][0] - s[i][1])
        s = s[:k] + ((s[k][0], s[k + 1][1]),) + s[k + 2:]
    return s


def isub(a, b):
    """a subset of b"""
    return iinter(a, b) == a


def iminus(a, b):
    out = []
    for lo, hi in a:
        cur = lo
        for l2, h2 in b:
            if h2 < cur or l2 > hi:
                continue
            if l2 > cur:
                out.append((cur, l2 - 1))
            cur = h2 + 1
            if cur > hi:
                break
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)


def icount(a):
    return sum(h - l + 1 for l, h in a)


def clampinf(x):
    return max(-INF, min(INF, x))


# ---- affine forms --------------------------------------------------------------------------------
class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c = c
        self.t = t              # sorted tuple of (symbol, coefficient != 0), never empty
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __repr__(self):
        return "(" + " + ".join(["%s*s%d" % (k, s) if k != 1 else "s%d" % s for s, k in self.t]
                                + ([str(self.c)] if self.c else [])) + ")"


def sym(s):
    return Lin(0, ((s, 1),))


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        return Lin(a + b.c, b.t) if a else b
    if isinstance(b, int):
        return Lin(a.c + b, a.t) if b else a
    return merge(a, b, 1)


def merge(a, b, m):
    """a + m*b"""
    c = a.c + m * b.c
    x, y = a.t, b.t
    i = j = 0
    nx, ny = len(x), len(y)
    out = []
    while i < nx and j < ny:
        p, q = x[i], y[j]
        if p[0] == q[0]:
            v = p[1] + m * q[1]
            if v:
                out.append((p[0], v))
            i += 1
            j += 1
        elif p[0] < q[0]:
            out.append(p)
            i += 1
        else:
            out.append(q if m == 1 else (q[0], m * q[1]))
            j += 1
    if i < nx:
        out.extend(x[i:])
    elif j < ny:
        out.extend(y[j:] if m == 1 else [(s, m * k) for s, k in y[j:]])
    if not out:
        return c
    return Lin(c, tuple(out))


def mul(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Lin(a.c * k, tuple((s, v * k) for s, v in a.t))


def sub(a, b):
    if isinstance(b, int):
        if isinstance(a, int):
            return a - b
        return Lin(a.c - b, a.t) if b else a
    if isinstance(a, int):
        return Lin(a - b.c, tuple([(s, -k) for s, k in b.t]))
    if a is b:
        return 0
    return merge(a, b, -1)


class Infeasible(Exception):
    pass


_next = [1]


def fresh_id():
    _next[0] += 1
    return _next[0]


class Store:
    __slots__ = ("rng", "subst", "cons", "memo", "depth")

    def __init__(self):
        self.rng = {}
        self.subst = {}
        self.cons = ()
        self.memo = {}
        self.depth = 0

    def copy(self):
        s = Store()
        s.rng = dict(self.rng)
        s.subst = dict(self.subst)
        s.cons = self.cons
        s.memo = dict(self.memo)
        return s

    def fresh(self, lo, hi):
        s = fresh_id()
        if lo == hi:
            return lo
        self.rng[s] = ((lo, hi),)
        return sym(s)

    def fresh_set(self, st):
        if len(st) == 1 and st[0][0] == st[0][1]:
            return st[0][0]
        s = fresh_id()
        self.rng[s] = st
        return sym(s)

    def norm(self, v):
        if isinstance(v, int):
            return v
        su = self.subst
        for s, k in v.t:
            if s in su:
                break
        else:
            return v
        out = v.c
        for s, k in v.t:
            if s in su:
                w = self.norm(su[s])
                if w is not su[s]:
                    su[s] = w
                out = add(out, mul(w, k))
            else:
                out = add(out, Lin(0, ((s, k),)))
        return out

    def _iv(self, v):
        if isinstance(v, int):
            return v, v
        lo = hi = v.c
        for s, k in v.t:
            r = self.rng[s]
            a, b = r[0][0], r[-1][1]
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return max(lo, -INF), min(hi, INF)

    def bounds(self, v):
        v = self.norm(v)
        if isinstance(v, int):
            return v, v
        rng = self.rng
        lo0 = hi0 = v.c
        dv = {}
        for s, k in v.t:
            dv[s] = k
            r = rng[s]
            if k > 0:
                lo0 += k * r[0][0]
                hi0 += k * r[-1][1]
            else:
                lo0 += k * r[-1][1]
                hi0 += k * r[0][0]
        lo, hi = lo0, hi0
        for c in self.cons:
            # c <= 0: v <= v - t*c for t >= 0, v >= v + t*c
            ct = c.t
            for s, kc in ct:
                kv = dv.get(s)
                if kv is None or kv % kc:
                    continue
                t = kv // kc
                # v - t*c loses the symbol s: an upper bound for t > 0, a lower one for t < 0
                if t > 0:
                    x = hi0 - t * c.c
                    for z, kz in ct:
                        r = rng[z]
                        k = dv.get(z, 0)
                        n = k - t * kz
                        if k:
                            x -= k * (r[-1][1] if k > 0 else r[0][0])
                        if n:
                            x += n * (r[-1][1] if n > 0 else r[0][0])
                    if x < hi:
                        hi = x
                else:
                    x = lo0 - t * c.c
                    for z, kz in ct:
                        r = rng[z]
                        k = dv.get(z, 0)
                        n = k - t * kz
                        if k:
                            x -= k * (r[0][0] if k > 0 else r[-1][1])
                        if n:
                            x += n * (r[0][0] if n > 0 else r[-1][1])
                    if x > lo:
                        lo = x
        return max(lo, -INF), min(hi, INF)

    def iset(self, v):
        v = self.norm(v)
        if isinstance(v, int):
            return ((v, v),)
        if len(v.t) == 1:
            s, k = v.t[0]
            if k == 1:
                return tuple((clampinf(a + v.c), clampinf(b + v.c)) for a, b in self.rng[s])
            if k == -1:
                return tuple((clampinf(v.c - b), clampinf(v.c - a)) for a, b in reversed(self.rng[s]))
            r = self.rng[s]
            if icount(r) <= 64:
                return iset(*[(k * x + v.c, k * x + v.c) for a, b in r for x in range(a, b + 1)])
        return (self.bounds(v),)

    # conditions: ('c', op, lin) with op in le0, eq0, ne0
    def evalc(self, c):
        if isinstance(c, bool):
            return c
        _, op, v = c
        v = self.norm(v)
        if isinstance(v, int):
            return v <= 0 if op == "le0" else (v == 0) if op == "eq0" else v != 0
        if op == "le0":
            lo, hi = self.bounds(v)
            if hi <= 0:
                return True
            if lo > 0:
                return False
            return None
        if len(v.t) == 1:
            s, k = v.t[0]
            if v.c % k:
                return op == "ne0"
            x = -v.c // k
            r = self.rng[s]
            if len(r) == 1 and r[0][0] == r[0][1]:
                return (r[0][0] == x) == (op == "eq0")
            if not any(a <= x <= b for a, b in r):
                return op == "ne0"
            lo, hi = self.bounds(v)
            if lo > 0 or hi < 0:
                return op == "ne0"
            return None
        lo, hi = self.bounds(v)
        if lo > 0 or hi < 0:
            return op == "ne0"
        if lo == hi == 0:
            return op == "eq0"
        g = 0
        for _, k in v.t:
            g = gcd(g, k)
        if v.c % g:
            return op == "ne0"
        return None

    def assume(self, c, want=True):
        if isinstance(c, bool):
            if c != want:
                raise Infeasible()
            return
        _, op, v = c
        if not want:
            if op == "le0":
                v, op = sub(1, v), "le0"
            else:
                op = "ne0" if op == "eq0" else "eq0"
        e = self.evalc(("c", op, v))
        if e is False:
            raise Infeasible()
        if e is True:
            return
        v = self.norm(v)
        if op == "le0":
            self._le0(v)
        elif op == "eq0":
            self._eq0(v)
        else:
            self._ne0(v)

    def _setr(self, s, r):
        if not r:
            raise Infeasible()
        old = self.rng[s]
        if old == r:
            return
        self.rng[s] = r
        if r[0][0] == r[-1][1]:
            self._bind(s, r[0][0])
        else:
            self._prop(s)

    def _prop(self, s):
        if not self.cons or self.depth > 12:
            return          # giving up early only loses precision
        self.depth += 1
        try:
            for c in self.cons:
                if any(z == s for z, _ in c.t):
                    self._tighten(c, skip=s)
                    if s in self.subst:
                        return
        finally:
            self.depth -= 1

    def _tighten(self, v, skip=None, depth=0):
        """v <= 0 over several symbols: bound each symbol"""
        lo, hi = self._iv(v)
        if lo > 0:
            raise Infeasible()
        for s, k in v.t:
            if s == skip or s in self.subst:
                continue
            r = self.rng[s]
            a, b = r[0][0], r[-1][1]
            own = k * a if k > 0 else k * b
            rest = lo - own          # lower bound of the others incl. constant
            if lo <= -INF:
                rest = self._iv(sub(v, Lin(0, ((s, k),))))[0]
                if rest <= -INF:
                    continue
            if k > 0:
                m = (-rest) // k
                if m < b:
                    self._setr(s, iinter(r, ((-INF, m),)))
            else:
                m = -((-rest) // (-k))  # s >= rest/(-k) ceil
                m = -(-rest // (-k)) if False else -((-rest) // (-k))
                if m > a:
                    self._setr(s, iinter(r, ((m, INF),)))

    def _le0(self, v):
        if isinstance(v, int):
            if v > 0:
                raise Infeasible()
            return
        if len(v.t) == 1:
            s, k = v.t[0]
            if k > 0:
                self._setr(s, iinter(self.rng[s], ((-INF, (-v.c) // k),)))
            else:
                self._setr(s, iinter(self.rng[s], ((-((-v.c) // (-k)), INF),)))
            return
        n = mul(v, -1)
        for c in self.cons:
            if c.t == n.t and c.c + v.c > 0:
                raise Infeasible()
        for c in self.cons:
            if c.t == n.t and c.c == n.c:
                self._eq0(v)
                return
        # keep the tightest of parallel constraints
        keep = []
        for c in self.cons:
            if c.t == v.t:
                if c.c >= v.c:
                    return
                continue
            keep.append(c)
        keep.append(v)
        self.cons = tuple(keep)
        self._tighten(v)

    def _eq0(self, v):
        if isinstance(v, int):
            if v:
                raise Infeasible()
            return
        if len(v.t) == 1:
            s, k = v.t[0]
            if v.c % k:
                raise Infeasible()
            x = -v.c // k
            r = iinter(self.rng[s], ((x, x),))
            if not r:
                raise Infeasible()
            self.rng[s] = r
            self._bind(s, x)
            return
        best = None
        for s, k in v.t:
            if k in (1, -1) and (best is None or s > best[0]):
                best = (s, k)
        if best is None:
            self._le0(v)
            w = self.norm(mul(v, -1))
            for c in self.cons:
                if not isinstance(w, int) and c == w:
                    return
            if not isinstance(w, int) and len(w.t) > 1:
                self.cons = self.cons + (w,)
                self._tighten(w)
            else:
                self._le0(w)
            return
        s, k = best
        rest = sub(v, Lin(0, ((s, k),)))
        self._bind(s, mul(rest, -k))

    def _bind(self, s, val):
        if s in self.subst:
            return
        r = self.rng[s]
        self.subst[s] = val
        if isinstance(val, int):
            if not iinter(r, ((val, val),)):
                raise Infeasible()
        elif len(val.t) == 1:
            z, k = val.t[0]
            if k in (1, -1):
                rr = tuple((a - val.c, b - val.c) for a, b in r) if k == 1 else \
                    tuple((val.c - b, val.c - a) for a, b in reversed(r))
                rr = tuple((clampinf(a), clampinf(b)) for a, b in rr)
                self._setr(z, iinter(self.rng[z], rr))
            else:
                self._le0(sub(val, r[-1][1])) if r[-1][1] < INF else None
                w = self.norm(sub(r[0][0], val))
                self._le0(w) if r[0][0] > -INF else None
        else:
            if r[-1][1] < INF and self.bounds(val)[1] > r[-1][1]:
                self._le0(self.norm(sub(val, r[-1][1])))
            val = self.norm(val)
            if r[0][0] > -INF and self.bounds(val)[0] < r[0][0]:
                self._le0(self.norm(sub(r[0][0], val)))
        # constraints that mention s
        if any(z == s for c in self.cons for z, _ in c.t):
            old = self.cons
            self.cons = tuple(c for c in old if not any(z == s for z, _ in c.t))
            for c in old:
                if any(z == s for z, _ in c.t):
                    w = self.norm(c)
                    if isinstance(w, int):
                        if w > 0:
                            raise Infeasible()
                    elif self.evalc(("c", "le0", w)) is not True:
                        self._le0(w)

    def _ne0(self, v):
        if isinstance(v, int):
            if v == 0:
                raise Infeasible()
            return
        if len(v.t) == 1:
            s, k = v.t[0]
            if v.c % k:
                return
            x = -v.c // k
            self._setr(s, iminus(self.rng[s], ((x, x),)))
            return
        lo, hi = self.bounds(v)
        if lo == 0:
            self._le0(sub(1, v))
        elif hi == 0:
            self._le0(add(v, 1))

    # nonlinear: quotient/remainder by a positive constant (floor for nonnegative values)
    def divmod_(self, v, k):
        v = self.norm(v)
        if isinstance(v, int):
            return v // k, v % k
        key = ("div", v, k)
        if key in self.memo:
            q = self.norm(self.memo[key])
            return q, self.norm(sub(v, mul(q, k)))
        if all(c % k == 0 for _, c in v.t):
            c0 = v.c // k
            q = Lin(c0, tuple((s, c // k) for s, c in v.t))
            return q, v.c % k
        lo, hi = self.bounds(v)
        if lo // k == hi // k:
            return lo // k, sub(v, (lo // k) * k)
        q = self.fresh(lo // k, hi // k)
        self.memo[key] = q
        r = sub(v, mul(q, k))
        self.assume(("c", "le0", mul(r, -1)))
        self.assume(("c", "le0", sub(r, k - 1)))
        return self.norm(q), self.norm(r)


def neg(c):
    if isinstance(c, bool):
        return not c
    _, op, v = c
    if op == "le0":
        return ("c", "le0", sub(1, v))
    return ("c", "ne0" if op == "eq0" else "eq0", v)


def le(a, b):
    return ("c", "le0", sub(a, b))


def lt(a, b):
    return ("c", "le0", add(sub(a, b), 1))


def eq(a, b):
    return ("c", "eq0", sub(a, b))
