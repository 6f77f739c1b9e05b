"""Events inside a zone (P01)."""

import numpy as np

from mtoolkit.catalog_filter import (CatalogFilter, NullCatalogFilter,
                                     SourceModelCatalogFilter)
from mtoolkit.source_model import AREA_BOUNDARY, POINT, default_area_source

PLACES = ((-1., -1.), (100., 40.), (-180., -60.))


# -- integer geometry ------------------------------------------------------
def turn(a, b, c):
    """Sign of the turn from a over b to c."""
    area = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (area > 0) - (area < 0)


def between(a, b, p):
    """Is p on the segment from a to b?"""
    return (turn(a, b, p) == 0 and
            min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and
            min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def touch(a, b, c, d):
    """Do the segments share a point?"""
    if turn(a, b, c) != turn(a, b, d) and turn(c, d, a) != turn(c, d, b):
        return True
    return (between(a, b, c) or between(a, b, d) or between(c, d, a) or
            between(c, d, b))


def simple(ring):
    """Does the ring (not closed) bound an area without touching itself?"""
    size = len(ring)
    if size < 3 or len(set(ring)) < size:
        return False
    for i in range(size):
        a, b = ring[i], ring[(i + 1) % size]
        for j in range(i + 1, size):
            c, d = ring[j], ring[(j + 1) % size]
            if j == i + 1 or (j + 1) % size == i:
                # neighbours: share one end, must not fold back
                shared, p, q = (b, a, d) if j == i + 1 else (a, b, c)
                if turn(p, shared, q) == 0 and not between(p, q, shared):
                    return False
            elif touch(a, b, c, d):
                return False
    return sum(a[0] * b[1] - b[0] * a[1]
               for a, b in zip(ring, ring[1:] + ring[:1])) != 0


def inside(ring, p):
    """Is p strictly inside the ring?"""
    odd = False
    for a, b in zip(ring, ring[1:] + ring[:1]):
        if between(a, b, p):
            return False
        if (a[1] > p[1]) != (b[1] > p[1]):
            side = turn(a, b, p) if b[1] > a[1] else turn(b, a, p)
            if side > 0:
                odd = not odd
    return odd


# -- scenarios -------------------------------------------------------------
def zone(ring, place, step=0.5):
    """A source with the ring as its boundary, in steps of some degrees."""
    source = default_area_source()
    source.area_boundary = AREA_BOUNDARY('epsg:4326', [
        POINT(place[0] + x * step, place[1] + y * step) for x, y in ring])
    return source


def grid(place, step=0.5, reach=6):
    """Rows over a grid, in a mixed order; and its points."""
    where = [(x, y) for x in range(-1, reach) for y in range(-1, reach)]
    where = where[::3] + where[1::3][::-1] + where[2::3] + where[:2]
    # some rows twice, one after the other or further on
    where = [p for k, p in enumerate(where) for _ in range(1 + (k % 5 == 3))]
    rows = [[1900. + k, 1. + k % 12, 1. + k % 28, place[0] + x * step,
             place[1] + y * step, 4. + k % 7 * 0.3, 0.01 * k]
            for k, (x, y) in enumerate(where)]
    for k in range(1, len(where)):
        if where[k] == where[k - 1]:
            rows[k] = list(rows[k - 1])
    return np.array(rows), where


def judge(run, ring, place, plain, step=0.5, reach=6):
    """Filter a grid of events with the ring."""
    rows, where = grid(place, step, reach)
    kept = rows.copy()
    source = zone(ring, place, step)
    before = list(source.area_boundary.pos_list)
    got, error = run.attempt(SourceModelCatalogFilter().filter_eqs, source,
                             rows)
    run.check(np.array_equal(kept, rows), 'the catalogue was changed')
    run.check(list(source.area_boundary.pos_list) == before,
              'the boundary was changed')
    if not simple(plain):
        run.check(error is not None, 'invalid boundary %r accepted', ring)
        if len(plain) >= 4:
            run.check(isinstance(error, RuntimeError), 'raised %r', error)
        run.outcome('invalid')
        return
    run.check(error is None, 'boundary %r refused: %r', ring, error)
    want = [k for k, p in enumerate(where) if inside(plain, p)]
    run.check(len(got) == len(want) and
              (not want or np.array_equal(got, rows[want])),
              'events %r inside %r, expected %r', [
                  int(r[0] - 1900) for r in got], ring, want)
    run.outcome(tuple(want))


def polygons(run):
    """Every sequence of lattice points as a boundary."""
    lattice = [(x, y) for x in (0, 2, 4) for y in (0, 2, 4)]
    size = run.pick('size', (3, 4, 5) if run.thorough else (3, 4))
    ring = [run.pick('v%d' % k, lattice) for k in range(size)]
    run.commit()
    if any(a == b for a, b in zip(ring, ring[1:] + ring[:1])):
        return
    run.note(ring=ring)
    place = PLACES[sum(x + y for x, y in ring) % 3]
    judge(run, ring, place, ring)


FIGURES = (
    [(0, 0), (4, 0), (4, 4), (2, 1), (0, 4)],
    [(0, 0), (4, 0), (4, 4), (0, 4), (0, 3), (3, 3), (3, 1), (0, 1)],
    [(0, 1), (1, 0), (3, 0), (4, 2), (2, 2), (2, 3), (4, 3), (3, 4), (0, 4)],
    [(0, 0), (2, 1), (4, 0), (3, 2), (4, 4), (2, 3), (0, 4), (1, 2)],
    [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (4, 4)],
    # invalid ones: bow tie, touching itself, spike
    [(0, 0), (4, 4), (4, 0), (0, 4)],
    [(0, 0), (4, 0), (2, 2), (4, 4), (0, 4), (2, 2)],
    [(0, 0), (4, 0), (4, 4), (4, 2), (6, 2), (4, 2), (0, 4)],
)


def figures(run):
    """Larger boundaries from every vertex on, both ways, open and closed."""
    which = run.pick('figure', range(len(FIGURES)))
    start = run.pick('start', range(len(FIGURES[which])))
    back = run.pick('backwards', (False, True))
    closed = run.pick('closed', (False, True))
    place = run.pick('place', PLACES)
    twice = run.pick('twice', ((), (0,), (2,), (1, 1, 3)))
    run.commit()
    ring = FIGURES[which][start:] + FIGURES[which][:start]
    if back:
        ring = ring[::-1]
    # vertices repeated in a row are the same boundary
    full = []
    for k, vertex in enumerate(ring):
        full += [vertex] * (1 + twice.count(k))
    run.note(ring=full, closed=closed, place=place)
    judge(run, full + ring[:1] if closed else full, place, ring)


# degrees per step: as fine as 10 cm, exact in binary
STEPS = (2. ** -10, 2. ** -17, 2. ** -20, 0.125, 0.375, 4.)


def fine(run):
    """The larger boundaries, very small and very large."""
    which = run.pick('figure', range(len(FIGURES)))
    step = run.pick('step', STEPS)
    back = run.pick('backwards', (False, True))
    start = run.pick('start', (0, 3))
    place = run.pick('place', PLACES[:1] + (
        (100., 8.), (-150., -48.), (0.25, -0.75), (-3.375, 10.625)))
    run.commit()
    ring = FIGURES[which][start:] + FIGURES[which][:start]
    if back:
        ring = ring[::-1]
    run.note(ring=ring, step=step, place=place)
    judge(run, ring, place, ring, step)


def many(run):
    """Many events, and boundaries of many vertices."""
    teeth = run.pick('teeth', (1, 2, 5, 9, 12))
    reach = run.pick('reach', (11, 16, 32, 40))
    step = run.pick('step', (0.5, 2. ** -12))
    back = run.pick('backwards', (False, True))
    run.commit()
    # a comb: teeth of several heights on a base of height 1
    ring = []
    for k in range(teeth):
        x, top = 3 * k, 4 + k * 5 % 7
        ring += [(x, y) for y in range(1, top)] + [(x, top)]
        ring += [(x + 2, y) for y in range(top - 1, 0, -1)]
    ring += [(3 * teeth - 1, 0), (0, 0)]
    if back:
        ring.reverse()
    run.note(vertices=len(ring), events=(reach + 1) ** 2, step=step)
    judge(run, ring, PLACES[0], ring, step, reach)


def several(run):
    """Several zones, one after the other, over one catalogue."""
    kind = run.pick('filter', ('zones', 'null', 'default'))
    order = [run.pick('zone%d' % k, range(5)) for k in range(3)]
    size = run.pick('events', (0, 1, 4, 60))
    judge_zones(run, kind, order, size)


def long_models(run):
    """Models of many zones."""
    kind = run.pick('filter', ('zones', 'null'))
    number = run.pick('zones', (0, 4, 5, 8, 9, 16, 17, 33, 65, 129))
    first = run.pick('first', range(5))
    step = run.pick('step', (0, 1, 2))
    size = run.pick('events', (1, 30))
    judge_zones(run, kind, [(first + step * k) % 5 for k in range(number)],
                size)


def judge_zones(run, kind, order, size):
    """What each of several zones gets."""
    ids = run.pick('ids', ('rising', 'falling', 'same', 'none'))
    run.commit()
    run.note(ids=ids, filter=kind, zones=order, events=size)
    place = PLACES[1]
    rows, where = grid(place)
    rows, where = rows[:size], where[:size]
    kept = rows.copy()
    sources = [zone(FIGURES[k], place) for k in order]
    for k, source in enumerate(sources):
        source.area_source_id = {
            'rising': 'zone%d' % k, 'falling': 'zone%d' % (len(order) - k),
            'same': 'zone', 'none': None}[ids]
        source.name = source.area_source_id
    chosen = {'zones': lambda: CatalogFilter(SourceModelCatalogFilter()),
              'null': lambda: CatalogFilter(NullCatalogFilter()),
              'default': CatalogFilter}[kind]()
    out = run.call(lambda: list(chosen.filter_eqs(sources, rows)))
    run.check(len(out) == len(sources) and all(
        a is b for (a, _), b in zip(out, sources)),
        'zones %r instead of the given ones in order', [
            getattr(a, 'area_source_id', a) for a, _ in out])
    run.check(np.array_equal(kept, rows), 'the catalogue was changed')
    for (_, got), k in zip(out, order):
        want = [i for i, p in enumerate(where)
                if kind != 'zones' or inside(FIGURES[k], p)]
        run.check(len(got) == len(want) and
                  (not want or np.array_equal(got, rows[want])),
                  'events %r inside zone %d, expected %r', got, k, want)
        run.outcome(tuple(want))


CHECKS = {
    'P01': {
        'scenarios': lambda tier: [('polygons', polygons, 0),
                                   ('figures', figures, 0),
                                   ('fine', fine, 0), ('many', many, 0),
                                   ('several', several, 0),
                                   ('long models', long_models, 0)],
        'assumptions': ['boundaries and events at multiples of a power of '
                        'two of degrees, where the integer oracle is exact'],
        'bounds': {
            'quick': 'every sequence of 3..4 points of a 3 x 3 lattice, 51 '
                     'events on and off the boundary; 8 larger figures from '
                     'every vertex, both ways, open and closed, at 3 places, '
                     'with vertices repeated; '
                     'every sequence of 3 of 5 zones x 3 filters, models of up to '
                     '129 zones; figures '
                     'in steps of 1e-6 to 4 degrees; combs of up to 150 '
                     'vertices over up to 1681 events',
            'thorough': 'sequences of 3..5 points'}},
}
