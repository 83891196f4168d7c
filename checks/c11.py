"""Geometric meaning of the transform constructors."""
from lib import *
from mat import *
import c09

BOUNDS = ['all real parameters: any translation and scale, any angle, any non-zero axis, any camera pose whose up vector '
          'is not parallel to the viewing direction, any field of view with tan(fov/2) defined and non-zero, near != far, '
          'both non-zero']
ASSUMPTIONS = ['float arithmetic read as exact real arithmetic; sin/cos as symbols with sin^2 + cos^2 = 1']
OUTSIDE = ['rounding error']


def m_of(c):
    return MO(c, 0)


def eqm(c, name, e):
    m = m_of(c)
    return [('%s[%d][%d]' % (name, r, k), c.eq(m[r][k], e[r][k] if not isinstance(e[r][k], int) else c.k(e[r][k])))
            for r in range(4) for k in range(4)]


def post_translate(c):
    v = c.x[:3]
    return eqm(c, 'adds the vector to points', [[1, 0, 0, v[0]], [0, 1, 0, v[1]], [0, 0, 1, v[2]], [0, 0, 0, 1]])


def post_scale(c):
    v = c.x[:3]
    return eqm(c, 'multiplies each coordinate', [[v[0], 0, 0, 0], [0, v[1], 0, 0], [0, 0, v[2], 0], [0, 0, 0, 1]])


def post_axis(ax):
    def post(c):
        s, k = c.sin(c.x[0]), c.cos(c.x[0])
        i, j = (ax + 1) % 3, (ax + 2) % 3
        e = [[1 if a == b else 0 for b in range(4)] for a in range(4)]
        e[i][i], e[i][j], e[j][i], e[j][j] = k, -s, s, k
        return eqm(c, 'right-handed rotation', e)
    return post


def post_rot(c):
    u, a = c.x[:3], c.x[3]
    m = m_of(c)
    n = c.sqrt(dot(u, u))
    s, k = c.sin(a), c.cos(a)
    out = []
    for r in range(3):
        out.append(('keeps the axis[%d]' % r, c.eq(dot(m[r][:3], u), u[r])))
        for q in range(3):
            out.append(('preserves lengths and angles[%d][%d]' % (r, q),
                        c.eq(dot(m[r][:3], m[q][:3]), c.k(1 if r == q else 0))))
    out.append(('turns by the angle', c.eq(m[0][0] + m[1][1] + m[2][2], 1 + 2 * k)))
    for r in range(3):
        i, j = (r + 1) % 3, (r + 2) % 3
        out.append(('right-handed[%d]' % r, c.eq((m[j][i] - m[i][j]) * n, 2 * s * u[r])))
    for r in range(3):
        out.append(('no translation[%d]' % r, c.eq(m[r][3], 0)))
        out.append(('affine[%d]' % r, c.eq(m[3][r], 0)))
    out.append(('affine[3]', c.eq(m[3][3], 1)))
    return out


def post_look(c):
    pos, tgt, up = c.x[0:3], c.x[3:6], c.x[6:9]
    d = sub(pos, tgt)
    m = m_of(c)
    L = c.sqrt(dot(d, d))
    ap = lambda p: mv(m, list(p) + [c.k(1)])
    a, b = ap(pos), ap(tgt)
    n = cross(up, d)
    out = [('the position becomes the origin[%d]' % r, c.eq(a[r], 0)) for r in range(3)]
    out += [('the target lies on the negative z axis (x)', c.eq(b[0], 0)),
            ('the target lies on the negative z axis (y)', c.eq(b[1], 0)),
            ('the target keeps its distance', c.eq(b[2], -L))]
    u = [dot(m[r][:3], up) for r in range(3)]
    out += [('up has no x part', c.eq(u[0], 0)), ('up has the y part of its projection', c.eq(u[1] * u[1] * L * L, dot(n, n))),
            ('up points up', c.pos(u[1], (dot(d, d), dot(n, n)), (1, dot(n, n))))]
    for r in range(3):
        for q in range(r, 3):
            out.append(('rigid[%d][%d]' % (r, q), c.eq(dot(m[r][:3], m[q][:3]), c.k(1 if r == q else 0))))
    out.append(('right-handed', c.eq(det3(m[0][:3], m[1][:3], m[2][:3]), 1)))
    out += [('affine[%d]' % k, c.eq(m[3][k], c.k(ID[3][k]))) for k in range(4)]
    return out


def pre_persp(c):
    h = c.x[0] / 2
    return [c.Not(c.eq(c.x[1], 0)), c.Not(c.eq(c.x[2], 0)), c.Not(c.eq(c.x[1], c.x[2])),
            c.Not(c.eq(c.sin(h), 0)), c.Not(c.eq(c.cos(h), 0))] + [c.Not(c.eq(g, 0)) for g in c.g[2:3]]


def post_persp(c):
    fov, near, far = c.x[:3]
    m = m_of(c)
    x, y, z = c.g[:3]
    s, k = c.sin(fov / 2), c.cos(fov / 2)
    h = mv(m, [x, y, z, c.k(1)])
    n = mv(m, [x, y, -near, c.k(1)])
    f = mv(m, [x, y, -far, c.k(1)])
    return [('near plane maps to 0', c.eq(n[2], 0)), ('near plane w', c.Not(c.eq(n[3], 0))),
            ('far plane maps to 1', c.eq(f[2], f[3])), ('far plane w', c.Not(c.eq(f[3], 0))),
            # x / (-z tan(fov/2))
            ('x is divided by depth times tan(fov/2)', c.eq(h[0] * -z * s, x * k * h[3])),
            ('y is divided by depth times tan(fov/2)', c.eq(h[1] * -z * s, y * k * h[3])),
            ('depth does not depend on x and y', c.And(c.eq(m[2][0], 0), c.eq(m[2][1], 0), c.eq(m[3][0], 0),
                                                       c.eq(m[3][1], 0)))]


def obligations(tier):
    out = []
    for t in FT:
        A = lambda n, fn, k, post, **kw: out.append(Ob('%s_%s' % (n, t), 'tr_%s_%s' % (fn, t), t, k, post, nout=16, **kw))
        A('translate', 'translate', 3, post_translate)
        A('scale', 'scale', 3, post_scale)
        A('rotate_x', 'rotx', 1, post_axis(0))
        A('rotate_y', 'roty', 1, post_axis(1))
        A('rotate_z', 'rotz', 1, post_axis(2))
        A('rotate', 'rotate', 4, post_rot, pre=c09.pre_axis)
        A('look_at', 'look', 9, post_look, pre=c09.pre_look, sample=c09.s_look, hints=c09.h_look)
        A('perspective', 'persp', 3, post_persp, pre=pre_persp, sample=c09.s_persp, ghosts=3)
    return out
