"""Textbook cross-section formulas (area, wetted perimeter, top width at a depth), shared by C01, C02, C04."""
SHAPES = {1: 'Circular', 2: 'Rect_Closed', 3: 'Rect_Open', 4: 'Triangular', 5: 'Trapezoidal', 6: 'Parabolic',
          7: 'Elliptical', 8: 'Wide', 9: 'Force_Main', 10: 'Floodplain'}
CODE = {v: k for k, v in SHAPES.items()}
NARGS = {'Circular': 1, 'Rect_Closed': 2, 'Rect_Open': 2, 'Triangular': 2, 'Trapezoidal': 3, 'Parabolic': 2, 'Elliptical': 2,
         'Wide': 2, 'Force_Main': 2, 'Floodplain': 7}


def depth(q, h1, h2, top):
    """mean depth of the two ends, kept between the bottom and the top of the section"""
    y = (h1 + h2) / 2
    return q.min(q.max(y, 0.0), top)


def sides(q, m):
    return q.sqrt(1 + m * m)


def area(q, shape, h1, h2, g):
    y = depth(q, h1, h2, g[0])
    if shape == 'Circular':
        r = g[0] / 2
        t = q.fn('ACOS', 1 - q.div(y, r))
        return r * r * (t - q.fn('SIN', t) * q.fn('COS', t))
    if shape in ('Rect_Closed', 'Rect_Open', 'Wide'):
        return g[1] * y
    if shape == 'Triangular':
        return g[1] * y * y
    if shape == 'Trapezoidal':
        return (g[1] + g[2] * y) * y
    if shape == 'Parabolic':
        return 2 * (g[1] * q.sqrt(q.div(y, g[0]))) * y / 3
    if shape == 'Elliptical':
        b, a = g[0] / 2, g[1] / 2
        t = q.fn('ASIN', q.div(y - b, b))
        return a * b * (q.PI / 2 + t + q.fn('SIN', t) * q.fn('COS', t))
    if shape == 'Force_Main':
        return q.PI * g[0] * g[0] / 4
    lo, mid, up = floodplain(q, y, g)
    wl, wm = 2 * g[4] * lo, 2 * g[4] * lo + 2 * g[5] * mid
    return g[6] * y + g[4] * lo * lo + (wl + g[5] * mid) * mid + (wm + g[3] * up) * up


def floodplain(q, y, g):
    """depths within the lower, the middle and the upper part"""
    lo = q.min(y, g[1])
    mid = q.min(q.max(y - g[1], 0.0), g[2])
    return lo, mid, q.max(y - g[1] - g[2], 0.0)


def perimeter(q, shape, h1, h2, g):
    y = depth(q, h1, h2, g[0])
    if shape == 'Circular':
        return g[0] * q.fn('ACOS', 1 - q.div(y, g[0] / 2))
    if shape in ('Rect_Closed', 'Rect_Open'):
        return g[1] + 2 * y
    if shape == 'Wide':
        return g[1]
    if shape == 'Triangular':
        return 2 * y * sides(q, g[1])
    if shape == 'Trapezoidal':
        return g[1] + 2 * y * sides(q, g[2])
    if shape == 'Parabolic':
        y = q.ite((h1 + h2) / 2 <= 0, q.min(q.rat(1, 2 ** 52), g[0]), y)      # a dry section: the value next to the bottom
        b = g[1] * q.sqrt(q.div(y, g[0]))
        x = q.div(4 * y, b)
        s = q.sqrt(1 + x * x)
        return (b / 2) * (s + q.div(q.fn('LOG', x + s), x))
    if shape == 'Elliptical':
        b, a = g[0] / 2, g[1] / 2
        t = q.fn('ASIN', q.div(y - b, b))
        m = 1 - q.div(a * a, b * b)
        return 2 * b * (q.fn('ELLIPE', m) + q.fn('ELLIPEINC', t, m))
    if shape == 'Force_Main':
        return q.PI * g[0]
    lo, mid, up = floodplain(q, y, g)
    return q.ite(y > 0, g[6], 0.0) + 2 * lo * sides(q, g[4]) + 2 * mid * sides(q, g[5]) + 2 * up * sides(q, g[3])


def width(q, shape, h1, h2, g, slot):
    y = depth(q, h1, h2, g[0])
    full = (h1 + h2) / 2 >= g[0]
    if shape == 'Circular':
        return q.ite(full, slot * g[0], g[0] * q.fn('SIN', q.fn('ACOS', 1 - q.div(y, g[0] / 2))))
    if shape == 'Rect_Closed':
        return q.ite(full, slot * g[1], g[1])
    if shape in ('Rect_Open', 'Wide'):
        return g[1]
    if shape == 'Triangular':
        return 2 * g[1] * y
    if shape == 'Trapezoidal':
        return g[1] + 2 * g[2] * y
    if shape == 'Parabolic':
        return g[1] * q.sqrt(q.div(y, g[0]))
    if shape == 'Elliptical':
        b = g[0] / 2
        return g[1] * q.fn('COS', q.fn('ASIN', q.div(y - b, b)))
    if shape == 'Force_Main':
        return g[0] * g[1]
    lo, mid, up = floodplain(q, y, g)
    return q.ite(y > 0, g[6], 0.0) + 2 * g[4] * lo + 2 * g[5] * mid + 2 * g[3] * up


def radius(q, A, P):
    return q.ite(P > 0, q.div(A, P), 0.0)


def proper(q, shape, g):
    """a section with extent: what the formulas assume of the geometry parameters"""
    c = [g[0] > 0]
    if shape in ('Parabolic', 'Elliptical', 'Rect_Closed', 'Rect_Open', 'Wide', 'Triangular'):
        c.append(g[1] > 0)
    if shape == 'Trapezoidal':
        c += [g[1] >= 0, g[2] >= 0]
    if shape == 'Floodplain':
        c += [g[1] >= 0, g[2] >= 0] + [x >= 0 for x in g[3:]]
    return q.And(*c)
