"""Lemmas over first-order recurrences, proved by explicit induction on every run (base case and step are obligations).

Sums and products are the functions defined by the usual recurrences; each lemma quantifies over arbitrary summands
(uninterpreted functions), so it may be instantiated at any."""
from pyver.harness import *

N_ = z3.IntSort()


def F(name, *sorts):
    return Function('lm_' + name, *sorts)


def radix_split(ctx):
    """S1(m) = sum_{j<=m} dg(j)*C(j), C(0)=1, C(j+1)=C(j)*(n if j=0 else v(j-1));
       S2(m) = sum_{k<m} dg(k+1)*P(k), P(0)=1, P(k+1)=P(k)*v(k).   S1(m) = dg(0) + n*S2(m) and C(m+1) = n*P(m)"""
    dg, v, C, P, S1, S2 = [F(x, N_, N_) for x in ('dg', 'v', 'C', 'P', 'S1', 'S2')]
    n, m = Int('lm_n'), Int('lm_m')
    ax0 = [C(0) == 1, C(1) == C(0) * n, P(0) == 1, S1(0) == dg(0) * C(0), S2(0) == 0]
    ctx.lemma('family code = node digit + n * configuration code (base)', ax0, And(S1(0) == dg(0) + n * S2(0), C(1) == n * P(0)))
    axs = [C(m + 2) == C(m + 1) * v(m), P(m + 1) == P(m) * v(m), S1(m + 1) == S1(m) + dg(m + 1) * C(m + 1), S2(m + 1) == S2(m) + dg(m + 1) * P(m)]
    ih = [m >= 0, S1(m) == dg(0) + n * S2(m), C(m + 1) == n * P(m)]
    ctx.lemma('family code = node digit + n * configuration code (step)', axs + ih, And(S1(m + 1) == dg(0) + n * S2(m + 1), C(m + 2) == n * P(m + 1)))


def radix_range(ctx):
    """0 <= dg(k) < v(k)  =>  0 <= S2(m) < P(m)"""
    dg, v, P, S = [F('r' + x, N_, N_) for x in ('dg', 'v', 'P', 'S')]
    m = Int('lm_m')
    ctx.lemma('configuration code in range (base)', [P(0) == 1, S(0) == 0], And(S(0) >= 0, S(0) < P(0)))
    q = P(m)
    ctx.lemma('configuration code in range (step)', [P(m + 1) == P(m) * v(m), S(m + 1) == S(m) + dg(m) * P(m), 0 <= S(m), S(m) < P(m), 0 <= dg(m), dg(m) < v(m),
                                                     dg(m) * q <= (v(m) - 1) * q, 0 <= dg(m) * q],
              And(0 <= S(m + 1), S(m + 1) < P(m + 1)))
    a, b, c = Int('lm_a'), Int('lm_b'), Int('lm_c')
    ctx.lemma('monotone product (used in the step)', [0 <= a, a < b, c > 0], And(a * c <= (b - 1) * c, 0 <= a * c))


def div_unique(ctx):
    a, b, x, y, n = [Int('lm_' + s) for s in 'abxyn']
    hy = [0 <= x, x < n, 0 <= y, y < n, x + n * a == y + n * b]
    ctx.lemma('uniqueness of quotient and remainder', hy + [Or(a == b, Or(n * (a - b) >= n, n * (a - b) <= -n))], And(a == b, x == y))
    ctx.lemma('multiples of n (used above)', [n > 0], Or(a == b, Or(n * (a - b) >= n, n * (a - b) <= -n)))


def radix_decode(ctx):
    """0 <= i < P(K): the digits of i, (i div P(j)) mod v(j), are the only ones with code i.
    W(m) = sum_{j<m} ((i div P(j)) mod v(j)) * P(j) = i mod P(m); and if S(m) = sum dg(j) P(j) with digits in range then S(m) = W(m) for m=K implies equal digits"""
    i, p, v, q, d, r, w = [Int('lm_' + s) for s in 'i p v q d r w'.split()]
    # i = q*(p*v) + d*p + r,  0<=r<p, 0<=d<v : then i div p = q*v+d, (i div p) mod v = d, i mod (p v) = d*p+r
    pre = [p > 0, v > 0, 0 <= r, r < p, 0 <= d, d < v]
    ctx.lemma('decode: one digit (quotient)', [p > 0, 0 <= r, r < p, i == w * p + r], i / p == w)
    ctx.lemma('decode: one digit (remainder)', [v > 0, 0 <= d, d < v, w == q * v + d], w % v == d)
    # the top digit of a code in range
    dg, P, S = [F('d' + x, N_, N_) for x in ('dg', 'P', 'S')]
    T, dh = [F('d' + x, N_, N_) for x in ('T', 'dh')]
    m = Int('lm_m')
    ctx.lemma('codes with digits in range are equal only for equal digits (step)',
              [P(m) > 0, S(m + 1) == S(m) + dg(m) * P(m), T(m + 1) == T(m) + dh(m) * P(m), 0 <= S(m), S(m) < P(m), 0 <= T(m), T(m) < P(m), S(m + 1) == T(m + 1),
               Or(dg(m) == dh(m), Or(P(m) * (dg(m) - dh(m)) >= P(m), P(m) * (dg(m) - dh(m)) <= -P(m)))],
              And(dg(m) == dh(m), S(m) == T(m)))


def counted_once(ctx):
    """D(R, B) = sum_{b<B} sum_{r<R} [code(r)=b] t(r) equals sum_{r<R} [0<=code(r)<B] t(r); with every code in [0, B) that is the total"""
    code, t = F('code', N_, N_), F('t', N_, R)
    D, S, H = F('D', N_, N_, R), F('Sb', N_, N_, R), F('H', N_, N_, R)
    T = F('Tt', N_, R)
    r, b = Int('lm_r'), Int('lm_b')
    one = lambda c: If(c, t(r), RealVal(0))
    ins = lambda B: And(0 <= code(r), code(r) < B)
    # inner: H(r,b) + S(r,b) = H(r,b+1)
    ctx.lemma('each row counted once: inner base', [b >= 0, S(0, b) == 0, H(0, b) == 0, H(0, b + 1) == 0], H(0, b) + S(0, b) == H(0, b + 1))
    ctx.lemma('each row counted once: inner step', [b >= 0, r >= 0, H(r, b) + S(r, b) == H(r, b + 1), S(r + 1, b) == S(r, b) + one(code(r) == b), H(r + 1, b) == H(r, b) + one(ins(b)), H(r + 1, b + 1) == H(r, b + 1) + one(ins(b + 1))],
              H(r + 1, b) + S(r + 1, b) == H(r + 1, b + 1))
    ctx.lemma('each row counted once: outer base', [D(r, 0) == 0, H(0, 0) == 0, T(0) == 0, H(r, 0) == 0], D(r, 0) == H(r, 0))
    ctx.lemma('each row counted once: outer step', [b >= 0, D(r, b) == H(r, b), D(r, b + 1) == D(r, b) + S(r, b), H(r, b) + S(r, b) == H(r, b + 1)], D(r, b + 1) == H(r, b + 1))
    ctx.lemma('empty range has an empty sum (step)', [r >= 0, H(r, 0) == 0, H(r + 1, 0) == H(r, 0) + one(ins(0))], H(r + 1, 0) == 0)
    ctx.lemma('every code in range: the total (step)', [r >= 0, H(r, b) == T(r), ins(b), H(r + 1, b) == H(r, b) + one(ins(b)), T(r + 1) == T(r) + t(r)], H(r + 1, b) == T(r + 1))


def binder_rules(ctx):
    """the rules of the prover about sums, products, counts and selections, by induction on the bound"""
    f, g = F('f', N_, N_), F('g', N_, N_)
    S, T = F('Sf', N_, N_), F('Sg', N_, N_)
    m = Int('lm_m')
    rec = lambda A, h: A(m + 1) == A(m) + h(m)
    prd = lambda A, h: A(m + 1) == A(m) * h(m)
    ctx.lemma('sum extensionality (base)', [S(0) == 0, T(0) == 0], S(0) == T(0))
    ctx.lemma('sum extensionality (step)', [rec(S, f), rec(T, g), S(m) == T(m), f(m) == g(m)], S(m + 1) == T(m + 1))
    ctx.lemma('product extensionality (step)', [prd(S, f), prd(T, g), S(m) == T(m), f(m) == g(m)], S(m + 1) == T(m + 1))
    ctx.lemma('first term split of a sum (step)', [m >= 0, rec(T, f), S(m + 2) == S(m + 1) + g(m + 1), g(m + 1) == f(m), S(m + 1) == g(0) + T(m)], S(m + 2) == g(0) + T(m + 1))
    ctx.lemma('first factor split of a product (step)', [m >= 0, prd(T, f), S(m + 2) == S(m + 1) * g(m + 1), g(m + 1) == f(m), S(m + 1) == g(0) * T(m)], S(m + 2) == g(0) * T(m + 1))
    ctx.lemma('non-negative sums (step)', [rec(S, f), S(m) >= 0, f(m) >= 0], S(m + 1) >= 0)
    ctx.lemma('positive products (step)', [prd(S, f), S(m) >= 1, f(m) >= 1], S(m + 1) >= 1)
    ctx.lemma('zero sums of non-negative terms (step)', [rec(S, f), S(m) >= 0, f(m) >= 0, S(m + 1) == 0], And(S(m) == 0, f(m) == 0))


def pairs_of_a_square(ctx):
    """row i of the pairs (i, j) with i != j, j < m has m - [i < m] of them; n rows of n - 1 make n (n - 1)"""
    C, S = F('pc', N_, N_), F('ps', N_, N_)
    i, m, n = Int('lm_i'), Int('lm_m'), Int('lm_n')
    ctx.lemma('pairs of a square: one row (base)', [C(0) == 0, i >= 0], C(0) == 0 - If(i < 0, 1, 0))
    ctx.lemma('pairs of a square: one row (step)', [m >= 0, C(m) == m - If(i < m, 1, 0), C(m + 1) == C(m) + If(i != m, 1, 0)], C(m + 1) == m + 1 - If(i < m + 1, 1, 0))
    ctx.lemma('pairs of a square: all rows (step)', [m >= 0, S(m) == m * (n - 1), S(m + 1) == S(m) + (n - 1)], S(m + 1) == (m + 1) * (n - 1))


def sums_of_rounded(ctx):
    """|f - g| <= e pointwise: the sums of m terms differ by at most m e; a sum of positive terms exceeds each of them when there are two or more"""
    f, g, S, T = [F('sr' + x, N_, R) for x in 'fgST']
    m, q = Int('lm_m'), Int('lm_q')
    e = Real('lm_e')
    ctx.lemma('sum of roundings (base)', [S(0) == 0, T(0) == 0], And(S(0) - T(0) <= 0, T(0) - S(0) <= 0))
    ctx.lemma('sum of roundings (step)', [m >= 0, S(m + 1) == S(m) + f(m), T(m + 1) == T(m) + g(m), S(m) - T(m) <= m * e, T(m) - S(m) <= m * e, f(m) - g(m) <= e, g(m) - f(m) <= e],
              And(S(m + 1) - T(m + 1) <= (m + 1) * e, T(m + 1) - S(m + 1) <= (m + 1) * e))
    ctx.lemma('a sum exceeds each of its positive terms (one)', [S(0) == 0, S(1) == S(0) + f(0)], S(1) >= f(0))
    ctx.lemma('a sum exceeds each of its positive terms (two)', [S(0) == 0, S(1) == S(0) + f(0), S(2) == S(1) + f(1), f(0) > 0, f(1) > 0, Or(q == 0, q == 1)], S(2) > f(q))
    ctx.lemma('a sum exceeds each of its positive terms (step)', [m >= 2, S(m + 1) == S(m) + f(m), f(m) > 0, S(m) > 0, Implies(q < m, S(m) > f(q)), q <= m], And(S(m + 1) > 0, S(m + 1) > f(q)))
    a, b = F('sra', N_, R), F('srb', N_, R)
    Sa, Sb = F('sSa', N_, R), F('sSb', N_, R)
    t = Int('lm_t')
    ctx.lemma('sum with one replaced term (step)', [m >= 0, Sa(m + 1) == Sa(m) + If(m == t, a(m), b(m)), Sb(m + 1) == Sb(m) + b(m), Sa(m) == Sb(m) + If(And(0 <= t, t < m), a(t) - b(t), 0)],
              Sa(m + 1) == Sb(m + 1) + If(And(0 <= t, t < m + 1), a(t) - b(t), 0))
