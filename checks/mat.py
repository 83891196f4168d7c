"""4x4 matrices over context terms."""


def M(xs, k=0):
    return [list(xs[k + 4 * r:k + 4 * r + 4]) for r in range(4)]


def MO(c, k=0):
    return [[c.o(k + 4 * r + j) for j in range(4)] for r in range(4)]


def mm(a, b):
    return [[a[r][0] * b[0][k] + a[r][1] * b[1][k] + a[r][2] * b[2][k] + a[r][3] * b[3][k] for k in range(4)]
            for r in range(4)]


def mv(a, v):
    return [a[r][0] * v[0] + a[r][1] * v[1] + a[r][2] * v[2] + (a[r][3] * v[3] if len(v) > 3 else 0) for r in range(4)]


ID = [[1 if r == k else 0 for k in range(4)] for r in range(4)]
T = lambda a: [[a[k][r] for k in range(4)] for r in range(4)]


def meq(c, name, k, m):
    return [('%s[%d][%d]' % (name, r, j), c.eq(c.o(k + 4 * r + j), m[r][j])) for r in range(4) for j in range(4)]


def mmeq(c, name, a, b):
    return [('%s[%d][%d]' % (name, r, j), c.eq(a[r][j], b[r][j])) for r in range(4) for j in range(4)]


def kz(c, m):
    return [[c.k(v) for v in r] for r in m]


def det3(a, b, c_):
    return (a[0] * (b[1] * c_[2] - b[2] * c_[1]) - a[1] * (b[0] * c_[2] - b[2] * c_[0]) +
            a[2] * (b[0] * c_[1] - b[1] * c_[0]))


def det4(m):
    tot = 0
    for j in range(4):
        sub = [[m[r][k] for k in range(4) if k != j] for r in range(1, 4)]
        t = m[0][j] * det3(*sub)
        tot = tot + t if j % 2 == 0 else tot - t
    return tot


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [p - q for p, q in zip(a, b)]


def add(a, b):
    return [p + q for p, q in zip(a, b)]


def scal(a, s):
    return [p * s for p in a]
