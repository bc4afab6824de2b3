"""Small programs; the interpreter's merged result must equal CPython's for
every assignment of the inputs (a,b,c booleans/bits; i,j in 0..3)."""


def p_break(a, b, c, i, j):
    out = []
    for k in range(4):
        if k == i:
            break
        if b and k == 1:
            continue
        out.append(k)
    else:
        out.append("end")
    return out


def p_remove(a, b, c, i, j):
    l = [0, 1, 2, 3]
    if a:
        l.remove(i)
    if b and j in l:
        l.remove(j)
    return l, len(l)


def p_live(a, b, c, i, j):
    l = [0, 1, 2, 3, 1]
    seen = []
    for x in l:
        seen.append(x)
        if x == i or (a and x == 1):
            l.remove(x)
    return l, seen


def p_live2(a, b, c, i, j):
    l = [0]
    n = 0
    for x in l:
        n += x
        if len(l) < 4 and (a or x < i):
            l.append(x + 1)
    return l, n


def p_dict(a, b, c, i, j):
    d = {}
    for k, f in enumerate((a, b, c)):
        if f:
            d[k] = k + i
    if i in d:
        d[i] += 10
    else:
        d[i] = -1
    t = 0
    for k in d:
        t += d[k]
    return d, t, len(d), d.get(j, 99), sum(d.values())


def p_set(a, b, c, i, j):
    s = set()
    if a:
        s.add(1)
    if b:
        s.add(2)
    s.add(i)
    t = {1, 3}
    if c:
        t.add(2)
    u = s & t
    v = s - t
    w = s | t
    return sorted(u), sorted(v), len(w), j in s, s <= w, u == {1}, s.isdisjoint(t)


def p_ret(a, b, c, i, j):
    for k in range(3):
        if a and k == i:
            return k
        for m in range(3):
            if b and m == j:
                return (k, m)
            if c and m == 1:
                break
    return None


def p_while(a, b, c, i, j):
    n = i + j
    k = 0
    while n > 0:
        n -= 2 if a else 1
        k += 1
        if k == 3 and b:
            break
    else:
        k += 100
    return n, k


class Obj:
    def __init__(self, v):
        self.v = v
        self.l = []


def p_obj(a, b, c, i, j):
    os = [Obj(0), Obj(1), Obj(2)]
    for o in os:
        if o.v == i:
            o.v += 5
            o.l.append(j)
    best = None
    for o in os:
        if best is None or o.v > best.v:
            best = o
    best.l.append("best")
    if a:
        x = os[0]
    else:
        x = os[1]
    x.v = 77
    return [(o.v, list(o.l)) for o in os], best.v


def p_try(a, b, c, i, j):
    r = []
    try:
        d = {0: 1, 1: 2}
        r.append(d[i])
        if a:
            raise ValueError("x")
        r.append("ok")
    except KeyError:
        r.append("key")
    except ValueError:
        r.append("val")
    finally:
        r.append("fin")
    return r


def p_comp(a, b, c, i, j):
    l = [k * k for k in range(4) if k != i and (a or k > 1)]
    m = {k: [x for x in range(k)] for k in range(3) if b or k == j}
    n = {x % 3 for x in l}
    return l, m, sorted(n), sum(l), any(x == 4 for x in l), all(x > 0 for x in l)


def p_sort(a, b, c, i, j):
    l = [(i, 0), (j, 1), (2, 2)]
    if a:
        l.append((1, 3))
    s = sorted(l, key=lambda t: t[0])
    r = sorted(l, key=lambda t: t[0], reverse=True)
    return s[0][0], s[-1][0], [t[0] for t in s], [t[1] for t in s], [t[1] for t in r], min(i, j, 2), max([i, j])


def p_closure(a, b, c, i, j):
    cnt = [0]

    def inc(k=1):
        cnt[0] += k
        return cnt[0]
    if a:
        inc()
    if b:
        inc(i)
    f = (lambda x: x + j) if c else (lambda x: x - j)
    return cnt, f(10)


def p_index(a, b, c, i, j):
    l = [10, 20, 30, 40]
    l[i] = 5
    m = [[0] * 3 for _ in range(4)]
    m[i][0] = 1
    m[j][1 if a else 2] += 2
    x = l[j]
    return l, m, x, l.index(5), l[-1], l[1:3]


def p_none(a, b, c, i, j):
    x = None
    if a:
        x = i
    y = None if b else j
    r = 0
    if x is not None and y is not None:
        r = x + y
    elif x is None:
        r = -1
    return x, y, r, x is None, x == y


def p_arith(a, b, c, i, j):
    x = (i * 3 - j) // 2
    y = (i * 3 - j) % 2
    z = i / 4 + 0.5 * j
    w = 1 if a else 0.5
    return x, y, z, round(z), int(z), abs(i - j), i ** 2, w * j, -i, not a, a and b, b or i, i if c else j


def p_str(a, b, c, i, j):
    s = "n_" + str(3)
    if a:
        s += "x"
    return s == "n_3x", s


def p_enum(a, b, c, i, j):
    l = [x for x in (5, 6, 7) if a or x != 6]
    out = []
    for k, x in enumerate(l):
        out.append((k, x))
    z = list(zip(l, [1, 2, 3]))
    return out, z, len(l), l[0], l[len(l) - 1], [l[k] for k in range(len(l))]


def p_pop(a, b, c, i, j):
    l = [1, 2, 3]
    if a:
        l.pop()
    if b:
        l.pop(0)
    l.insert(0, i)
    if c:
        l.reverse()
    return l, l.count(i), 3 in l


def p_nested(a, b, c, i, j):
    tot = {}
    for x in range(3):
        if x == i:
            continue
        for y in range(3):
            if y == j:
                break
            if a and x == y:
                continue
            tot[x] = tot.get(x, 0) + y + 1
    return tot


def p_unbound(a, b, c, i, j):
    if a:
        q = i
    try:
        return q
    except UnboundLocalError:
        return "unbound"


def p_assertion(a, b, c, i, j):
    if a:
        assert i < 2, "big"
    return i


def p_tuple(a, b, c, i, j):
    p, q = (i, j) if a else (j, i)
    (x, y), z = (p, q), p + q
    t = (p, q)
    return t == (1, 2), t < (1, 2), x, y, z, t[0], t


def p_alias(a, b, c, i, j):
    l = []
    m = l if a else [9]
    m.append(i)
    n = list(m)
    if b:
        n.append(j)
    return l, m, n


def p_setmut(a, b, c, i, j):
    s = {0, 1, 2}
    t = s
    if a:
        s = s.intersection({0, i})
    else:
        s.discard(j)
    s.add(7)
    return sorted(s), sorted(t)


def p_chain(a, b, c, i, j):
    return (0 < i < 3, i in (1, 2), not (a and b) or c, (i == j) == a, 0 <= i <= j <= 3, i != j)


def p_default(a, b, c, i, j):
    d = {}
    for k in (i, j, 1):
        d.setdefault(k, []).append(k)
    return {k: d[k] for k in sorted(d)}, sorted(d.items())


def p_del(a, b, c, i, j):
    d = {0: "a", 1: "b", 2: "c"}
    if a and i in d:
        del d[i]
    x = d.pop(j, None)
    return d, x, 1 in d


def p_loopvar(a, b, c, i, j):
    last = -1
    for x in range(4):
        last = x
        if x >= i and a:
            break
    return last, x


def p_iternext(a, b, c, i, j):
    it = iter([10, i, 30, j])
    out = [-next(it) if t else 1 for t in (a, True, b)]
    rest = list(it)
    return out, rest


def p_iternext2(a, b, c, i, j):
    it = iter([10, i])
    first = next(it)
    second = next(it, None)
    third = next(it, "end")
    return first, second, third


def p_nextgen(a, b, c, i, j):
    xs = [i, j, 2]
    k = next((n for n, x in enumerate(xs) if x == 2), -1)
    m = next((x for x in xs if x > i and a), None)
    return k, m


def p_concat(a, b, c, i, j):
    flags = (a, b, c)
    missing = [k for k in range(3) if not flags[k]]
    out = []
    for v in [9] + missing:
        out.append(v)
    for v in missing + [8]:
        out.append(v)
    out += missing
    out.extend(x for x in missing if x != i)
    return out


def p_star(a, b, c, i, j):
    xs = [x for x in (i, j, 5) if x != 1] + [7]
    *head, tail = xs
    first, *_ = xs
    return head, tail, first, [*head, *xs]


def p_funalias(a, b, c, i, j):
    f = max if a else min
    g = (lambda x: x + 1) if b else (lambda x: x * 2)
    return f(i, j), g(i)


def p_ziplist(a, b, c, i, j):
    xs = [k for k in (0, 1, 2) if k != i]
    ys = [k for k in (0, 1, 2) if k != j]
    out = [(x, y) for x, y in zip(xs, ys)]
    return out, (1, 2) in zip(xs, ys), [(n, x) for n, x in enumerate(xs, 3)], list(zip(xs, "abc"))


def p_setops(a, b, c, i, j):
    s = {k for k in (0, 1, 2) if k != i}
    t = {k for k in (0, 1, 2) if k != j}
    u = set.intersection(*[s, t, {0, 2, i}])
    return sorted(s & t), sorted(s | t), sorted(s - t), s == t, s <= t, sorted(u), s & t == s & {0, 1, 2}, sorted(s ^ t), s.isdisjoint(t), len(u)


def p_bits(a, b, c, i, j):
    n = i + 3
    side = []
    while n:
        side.append("r" if n & 1 else "l")
        n = (n - 1) >> 1
    return side, (1 << i) - 1, i & j, i | 4, i ^ j, i // 2, i % 2, divmod(j, 2)


def p_agg(a, b, c, i, j):
    xs = [k for k in (3, i, j) if k]
    return (sum(xs), sum(1 for x in xs if x > 1), any(x == 2 for x in xs), all(x > 1 for x in xs), max(xs), min(xs),
            xs.index(3), xs.count(2), len(xs), max(xs, key=lambda x: -x), sorted(xs, reverse=True), min([], default=i))


def p_tuplekey(a, b, c, i, j):
    d = {}
    for k in ((i, 0), (j, 0), (0, 0)):
        d[k] = d.get(k, 0) + 1
    v = d.get((1, 0))
    if v is None:
        v = -1
    return v, {k: n for k, n in d.items() if n > 1}, sorted(d), (2, 0) in d


def p_walrus(a, b, c, i, j):
    out = []
    if (k := i + j) > 3:
        out.append(k)
    while (k := k - 1) > 2:
        out.append(k)
    return out, k


def p_forelse(a, b, c, i, j):
    for x in (0, 1, 2):
        if x == i:
            r = "found"
            break
    else:
        r = "none"
    return r, f"{3}_{'x'}", "%d-%d" % (1, 2), "{}:{}".format(1, 2), "x" + f"{1.5:.2f}" + "-".join(["a", "b"])


def p_swap(a, b, c, i, j):
    if i > j:
        i, j = j, i
    x, y = (i, j) if a else (j, i)
    return i, j, x, y


def p_gen(a, b, c, i, j):
    def g(n):
        for k in range(4):
            if k == n:
                continue
            yield k
            if k > j:
                return
    return list(g(i)), sum(g(j))


def p_tryret(a, b, c, i, j):
    d = {0: [1], 2: [3]}
    try:
        x = d[i]
    except KeyError:
        x = []
    else:
        x = x + [4]
    finally:
        y = 1
    return x, y


def p_lookup(a, b, c, i, j):
    rows = [[0, 1, 2, 3], [4, 5, 6, 7]]
    r = rows[a]
    r[i] = 9
    return rows, [row[j] for row in rows], rows[1 if b else 0][j]


def p_mapfilter(a, b, c, i, j):
    xs = list(map(lambda x: x + i, (0, 1, 2)))
    ys = list(filter(lambda x: x > j, xs))
    return xs, ys, len(list(filter(None, (a, b, c)))), [x for x in reversed(ys)], ys[::-1], ys[1:], ys[:1], ys[-1:]


def p_iterlazy(a, b, c, i, j):
    m = map(lambda x: x + i, (0, 1, 2))
    first = list(m)
    again = list(m)
    z = zip((1, 2, 3), (i, j, 0))
    for k, v in z:
        if v == j:
            break
    rest = list(z)
    g = (x for x in (0, 1, 2, 3) if x != i)
    got = None
    if a:
        got = next(g)
    return first, again, rest, got, list(g), list(g)


def p_livenum(a, b, c, i, j):
    xs = [0, 1, 2, 3]
    out = []
    for n, x in enumerate(xs):
        out.append((n, x))
        if x == i or x == j and a:
            xs.remove(x)
    return xs, out


def p_shortcircuit(a, b, c, i, j):
    xs = [1, 2]
    return (any(k >= 2 or xs[k] == i for k in (0, 1, 2, 3)), all(k < 2 and xs[k] != i for k in (0, 1, 2, 3)),
            any(x for x in (a, b)), all(x for x in (a, b)))


def p_combos(a, b, c, i, j):
    import itertools
    xs = [k for k in (0, 1, 2) if k != i]
    out = []
    combos = itertools.combinations(range(3), 2)
    for k in combos:
        if j in k and a:
            out.append(k)
            break
        out.append(list(k))
    return out, list(combos), list(itertools.chain(xs, [9])), list(itertools.product((0, 1), xs)), list(itertools.chain.from_iterable([xs, [i]]))


class Box:
    def __init__(self, xs):
        self.xs = xs

    def active(self, i):
        for x in self.xs:
            if x == i:
                continue
            yield x

    def pairs(self, i):
        yield from ((x, y) for x in self.active(i) for y in self.xs if x < y)


def p_genmethod(a, b, c, i, j):
    b_ = Box([0, 1, 2, j] if a else [3, i])
    return list(b_.active(i)), list(b_.pairs(j)), sum(1 for _ in b_.active(1))


def p_counter(a, b, c, i, j):
    from collections import Counter
    n = Counter()
    for x in (0, 1, i, j):
        if x != 1 or a:
            n[x] += 1
    m = Counter(x for x in (i, j, 3) if x > 1)
    m.update([0, 0] if b else [i])
    return (n[0], n[2], n[7], sorted(n.values()), m[0], m[3], m.total(), m.most_common(1)[0][1],
            max(n.values()), n[i] == max(n.values()))


def p_defaultdict(a, b, c, i, j):
    from collections import defaultdict
    d, e, f = defaultdict(list), defaultdict(int), {}
    for k, x in enumerate((i, j, 2, 0)):
        d[x > 1].append(k)
        if k != 1 or a:
            e[x] += k
        f.setdefault(x, set()).add(k)
    return sorted(d.items()), e[2], e[i], len(f), f[j]


def p_numpy(a, b, c, i, j):
    x = np.array([[1, 0, 1], [i > 1, j > 1, a], [0, 0, 0], [b, 1, i]])
    y = np.array([1, 0, i > 0, c])
    pos = np.flatnonzero(y)
    cols = np.where(x[1] == 0)[0]
    return (len(pos), [int(k) for k in pos], cols.size, [int(k) for k in cols],
            int(np.all(x[:, [0, 1]] != 0, axis=1).sum()), int(np.any(x[0][cols] != 0)), int(np.sum(x[3][x[1] != 0])),
            np.count_nonzero(y == 1), bool((x[0] >= x[3]).all()), int((x != 0).sum(axis=1).max()),
            int(np.argmax(x.sum(axis=1))), int(x[np.asarray(y) == 1].sum()), [int(v) for v in x[0][x[1] == 1]])


def p_numpy2(a, b, c, i, j):
    x = np.array([i, j, 1, 2])
    x[x > 1] = 0
    z = np.where(x == 0, 5, x)
    keep = x[:, None] == x[None, :]
    return ([int(v) for v in x], [int(v) for v in z], int(keep.sum()), bool(keep.all()), int(np.max(z) - np.min(z)),
            [int(v) for v in np.maximum(x, z)], np.isclose(x.sum(), 1.0).item() if False else bool(np.isclose(x.sum(), 1.0)),
            [int(v) for v in np.zeros(3, dtype=int) + i], int(np.dot(x, z)), float(np.mean(x)))


def p_minmax_guarded(a, b, c, i, j):
    xs = [v for v in (i, j, 1) if v != 2]
    ys = [v for v in (i, j) if v > 1]
    return max(xs), min(xs), max(ys, default=-1), sorted(xs, reverse=True), min((x * x, x) for x in xs)


def p_narrow_ints(a, b, c, i, j):
    x = np.zeros(3, dtype=np.int8)
    x[0] = 40 * i
    x[1] = 100 * j - 150 if a else -j
    y = np.array([200 * i, -j, 7]).astype(np.uint8)
    z = np.array([20000 * i, 3, j]).astype(np.int16)
    return [int(v) for v in x], [int(v) for v in y], [int(v) for v in z]
