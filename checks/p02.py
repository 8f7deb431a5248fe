"""P02: coordinates wrap onto the torus consistently and the same physical edge is always the same edge object."""
from checks.common import *
import z3

BOUNDS = ('lattice size symbolic and unbounded (any even width, any height multiple of six) for the local statements, with the '
          'point within two periods of the origin cell; explicit sizes up to 16x24 (quick) / 24x36 (thorough) with any integer point; '
          'points are multiples of 1/2')
OUTSIDE = 'points further than two periods away when the size is symbolic; non-half-integer coordinates'
ASSUMPTIONS = ['reals stand in for floats (all coordinates involved are small half-integers, exact in doubles)']


def layout(S, w, h, **k):
    L = S.loader()
    HL = L.get('honeycomb_layout')
    return HL, HL.HoneycombLayout(data_width=w, data_height=h, sub_rounds=3, style='SD6', obs='H', noise=0.0)


def size(S, w, h):
    if w is None:
        return 2 * S.int('tiles_x', 1), 6 * S.int('tiles_y', 1)
    return w, h


def point(S, name, w, h, per):
    """A half-integer point within `per` periods around the cell."""
    x = S.int(name + '_x2')
    y = S.int(name + '_y2')
    S.assume(sand(x >= -4 * w * per, x <= 4 * w * per, y >= -2 * h * per, y <= 2 * h * per))
    return x / 2 + (y / 2) * 1j


def wraps(S, w=None, h=None):
    w, h = size(S, w, h)
    HL, lay = layout(S, w, h)
    c = point(S, 'p', w, h, 2)
    a = lay.wrap(c)
    W, H = 2 * w, h
    S.prove(sand(a.real >= 0, a.real < W, a.imag >= 0, a.imag < H), 'wrapped point lies in the fundamental cell')
    b = lay.wrap(a)
    S.prove(b == a, 'wrapping is idempotent')
    ax, ay = a.real - c.real, a.imag - c.imag
    S.prove(sand(sor(*[ax == k * W for k in range(-3, 4)]), sor(*[ay == k * H for k in range(-3, 4)])),
            'a point moves by whole periods only')


def periodic(S, kx, ky, w=None, h=None):
    w, h = size(S, w, h)
    HL, lay = layout(S, w, h)
    c = point(S, 'p', w, h, 1)
    a = lay.wrap(c)
    b = lay.wrap(c + kx * 2 * w + ky * h * 1j)
    S.prove(a == b, 'points that differ by whole periods wrap to the same point')


def hexcenter(S, w, h):
    col = S.int('col', 0)
    row = S.int('row', 0)
    S.assume(sand(col < w, 2 * row < h))
    odd = col % 2
    return 2 * col + (2 * row - odd) * 1j


def around(S, kx, ky, w=None, h=None):
    """Edges and qubits around a plaquette do not depend on which periodic image of the plaquette is asked for."""
    w, h = size(S, w, h)
    HL, lay = layout(S, w, h)
    c = hexcenter(S, w, h)
    img = c + kx * 2 * w + ky * h * 1j
    A, B = lay.all_edges_around_hex(c), lay.all_edges_around_hex(img)
    S.prove(len(A) == 6 and len(B) == 6, 'six edges around a plaquette')
    for e, f in zip(A, B):
        S.prove(e == f, 'edges around a plaquette do not depend on the periodic image')
        S.prove(snot(e != f), 'edge inequality is the negation of equality')
    if not S.symbolic:
        S.prove([hash(e) for e in A] == [hash(f) for f in B], 'equal edges hash alike')


def same_edge(S):
    """Endpoint order never matters; equality is exactly equality of the endpoint pair and centre."""
    L = S.loader()
    Edge = L.get('honeycomb_layout').Edge
    W, H = 2 * 2 * S.int('tiles_x', 1), 6 * S.int('tiles_y', 1)

    def pt(n):
        x, y = S.int(n + 'x', 0), S.int(n + 'y', 0)
        S.assume(sand(x < W, y < H))
        return x + y * 1j
    a, b, m = pt('a'), pt('b'), pt('m')
    e, f = Edge(left=a, right=b, center=m), Edge(left=b, right=a, center=m)
    S.prove(e == f, 'an edge does not depend on the order of its endpoints')
    S.prove(snot(e != f), 'edge inequality is the negation of equality (same edge)')
    S.prove(sor(sand(e.left == a, e.right == b), sand(e.left == b, e.right == a)), 'an edge keeps its endpoints')
    S.prove(e.center == m, 'an edge keeps its centre')
    if not S.symbolic:
        S.prove(hash(e) == hash(f) and len({e, f}) == 1, 'equal edges hash alike')


def distinct(S, what):
    L = S.loader()
    Edge = L.get('honeycomb_layout').Edge

    def pt(n):
        return S.int(n + 'x', 0, 40) + S.int(n + 'y', 0, 40) * 1j
    a, b, m = pt('a'), pt('b'), pt('m')
    e = Edge(left=a, right=b, center=m)
    o = pt('o')
    if what == 'endpoint':
        S.assume(sand(o != a, o != b, a != b))
        f = Edge(left=o, right=b, center=m)
    else:
        S.assume(o != m)
        f = Edge(left=a, right=b, center=o)
    S.prove(snot(e == f), f'edges with a different {what} are different')
    S.prove(e != f, f'edges with a different {what} are unequal')
    S.prove(not (e == 5) and e != 5, 'an edge is not equal to something else')


def jobs(tier):
    out = [job('wrap any size', wraps, bounds='any size'), job('same edge', same_edge),
           job('distinct endpoint', distinct, what='endpoint'), job('distinct centre', distinct, what='centre')]
    for kx, ky in ((1, 0), (0, 1), (-1, 0), (0, -1), (1, -1)):
        out.append(job(f'periodic any size {kx},{ky}', periodic, kx=kx, ky=ky))
    for kx, ky in ((1, 0), (0, 1), (-1, -1)):
        out.append(job(f'around any size {kx},{ky}', around, kx=kx, ky=ky, cost=5))
    ws, hs = ((2, 4, 10, 16), (6, 12, 24)) if tier == 'quick' else ((2, 4, 6, 8, 10, 12, 16, 20, 24), (6, 12, 18, 24, 30, 36))
    for w in ws:
        for h in hs:
            out.append(job(f'wrap {w}x{h}', wraps, w=w, h=h))
            out.append(job(f'periodic {w}x{h}', periodic, kx=1, ky=-1, w=w, h=h))
    return out
