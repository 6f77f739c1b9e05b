"""Declustering (D01..D06) and the geometry of time and space under it."""

import datetime
import itertools
import math

import numpy as np

from mtoolkit.scientific import declustering as impl
from mtoolkit.scientific.catalogue_utilities import (decimal_year,
                                                     greg2julian, haversine)
from mtoolkit.scientific.declustering import (afteran_decluster,
                                              gardner_knopoff_decluster)

WINDOWS = ['GardnerKnopoff', 'Gruenthal', 'Uhrhammer']
CUMULATED = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
MONTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


# -- reference models ------------------------------------------------------
def ref_decimal_year(year, month, day):
    """Decimal year of a date, in years of 365 days."""
    return year + (CUMULATED[int(month) - 1] + day - 1.) / 365.


def ref_distance(lon1, lat1, lon2, lat2, radius=6371.227):
    """Great circle distance between unit vectors, in degrees and km."""
    def vector(lon, lat):
        lon, lat = math.radians(lon), math.radians(lat)
        return (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon),
                math.sin(lat))
    a, b = vector(lon1, lat1), vector(lon2, lat2)
    cross = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
             a[0] * b[1] - a[1] * b[0])
    return radius * math.atan2(math.sqrt(sum(c * c for c in cross)),
                               sum(x * y for x, y in zip(a, b)))


def ref_space(name, mag):
    """Radius of the window, in km (van Stiphout et al. 2010)."""
    if name == 'GardnerKnopoff':
        return 10. ** (0.1238 * mag + 0.983)
    if name == 'Gruenthal':
        return math.exp(1.77 + math.sqrt(0.037 + 1.02 * mag))
    return math.exp(-1.024 + 0.804 * mag)


def ref_time(name, mag):
    """Length of the window, in years (van Stiphout et al. 2010)."""
    if name == 'GardnerKnopoff':
        if mag >= 6.5:
            return 10. ** (0.032 * mag + 2.7389) / 365.
        return 10. ** (0.5409 * mag - 0.547) / 365.
    if name == 'Gruenthal':
        if mag >= 6.5:
            return 10. ** (2.8 + 0.024 * mag) / 365.
        return abs(math.exp(-3.95 + math.sqrt(0.62 + 17.32 * mag)) / 365.)
    return math.exp(-2.87 + 1.235 * mag) / 365.


def uhrhammer_as_coded(mag):
    """The recorded finding: the magnitude is divided, not the days."""
    return math.exp(-2.87 + 1.235 * mag / 365.)


def used_time(name, mag):
    """The window the reference declustering uses (D04 judges windows)."""
    if name == 'Uhrhammer':
        return uhrhammer_as_coded(mag)
    return ref_time(name, mag)


def from_largest(events):
    """The numbers of the events, the largest first."""
    return sorted(range(len(events)), key=lambda k: -events[k][5])


def all_orders(events):
    """Every order from the largest to the smallest event, with any order
    among events of the same magnitude."""
    groups = []
    for mag in sorted(set(e[5] for e in events), reverse=True):
        groups.append(itertools.permutations(
            [k for k, e in enumerate(events) if e[5] == mag]))
    for parts in itertools.product(*groups):
        yield [k for part in parts for k in part]


def ref_gardner_knopoff(events, name, foreshocks, order=None):
    """Clusters and flags; events: (year, month, day, lon, lat, mag)."""
    time = [ref_decimal_year(*e[:3]) for e in events]
    order = order or from_largest(events)
    cluster, flag = [0] * len(events), [0] * len(events)
    number = 0
    for main in order:
        if cluster[main]:
            continue
        mag = events[main][5]
        length = used_time(name, mag)
        members = []
        for other in order:
            if cluster[other] or other == main or events[other][5] > mag:
                continue
            delay = time[other] - time[main]
            if -length * foreshocks <= delay <= length and ref_distance(
                    events[other][3], events[other][4], events[main][3],
                    events[main][4]) <= ref_space(name, mag):
                members.append(other)
        if members:
            number += 1
            cluster[main] = number
            for other in members:
                cluster[other] = number
                flag[other] = 1 if time[other] >= time[main] else -1
    return cluster, flag


def ref_afteran(events, name, days, order=None):
    """Clusters and flags of the moving window."""
    time = [ref_decimal_year(*e[:3]) for e in events]
    order = order or from_largest(events)
    window = days / 365.
    cluster, flag = [0] * len(events), [0] * len(events)
    number = 0
    for main in order:
        if cluster[main]:
            continue
        near = [o for o in order if not cluster[o] and o != main and
                events[o][5] <= events[main][5] and
                ref_distance(events[o][3], events[o][4], events[main][3],
                             events[main][4]) <=
                ref_space(name, events[main][5])]
        after = sorted((o for o in near if time[o] >= time[main]),
                       key=lambda o: time[o])
        before = sorted((o for o in near if time[o] < time[main]),
                        key=lambda o: -time[o])
        members = {}
        for sign, chain in ((1, after), (-1, before)):
            last = time[main]
            for other in chain:
                if abs(time[other] - last) > window:
                    break
                members[other] = sign
                last = time[other]
        if members:
            number += 1
            cluster[main] = number
            for other, sign in members.items():
                cluster[other] = number
                flag[other] = sign
    return cluster, flag


# -- catalogues ------------------------------------------------------------
def date(days):
    """Calendar date of a number of days after 2001-01-01, 365 day years."""
    year, day = divmod(days, 365)
    month = 0
    while day >= MONTHS[month]:
        day -= MONTHS[month]
        month += 1
    return 2001. + year, month + 1., day + 1.


def event(days, km, mag, sigma=0.1, lon=20., lat=40.):
    """An event some days and km (northwards) from the origin."""
    return date(days) + (lon, lat + km / 111.2, mag, sigma)


def matrix(events):
    """The catalogue matrix of the events."""
    return np.array(events, dtype=float).reshape((len(events), -1))


def run_gk(run, mat, name, foreshocks):
    """Gardner and Knopoff on a copy; the input must not change."""
    given = mat.copy()
    out = run.call(gardner_knopoff_decluster, given, name, foreshocks)
    return out, np.array_equal(given, mat)


def run_afteran(run, mat, name, days):
    """Afteran on a copy; the input must not change."""
    given = mat.copy()
    out = run.call(afteran_decluster, given, name, days)
    return out, np.array_equal(given, mat)


def plain(vector):
    """The vector as a list of integers."""
    return [int(v) for v in np.asarray(vector).ravel()]


def check_partition(run, mat, out, untouched):
    """What any declustering must give back."""
    cluster, main, flag = out
    size = len(mat)
    run.check(untouched, 'the catalogue given was changed')
    run.check(np.shape(cluster) == (size,) and np.shape(flag) == (size,),
              'vectors of shape %r and %r for %d events',
              np.shape(cluster), np.shape(flag), size)
    cluster, flag = plain(cluster), plain(flag)
    run.check(set(flag) <= {-1, 0, 1}, 'flags %r', flag)
    numbers = sorted(set(cluster) - {0})
    run.check(numbers == list(range(1, len(numbers) + 1)),
              'cluster numbers %r', cluster)
    time = [ref_decimal_year(*row[:3]) for row in mat]
    for number in numbers:
        members = [k for k in range(size) if cluster[k] == number]
        mains = [k for k in members if flag[k] == 0]
        run.check(len(members) >= 2 and len(mains) == 1,
                  'cluster %d has members %r, main events %r', number,
                  members, mains)
        chief = mains[0]
        for k in members:
            run.check(mat[k, 5] <= mat[chief, 5],
                      'event %d is larger than the main event %d', k, chief)
            if flag[k] == 1:
                run.check(time[k] >= time[chief],
                          'aftershock %d is before its main event', k)
            if flag[k] == -1:
                run.check(time[k] < time[chief],
                          'foreshock %d is not before its main event', k)
    for k in range(size):
        run.check(cluster[k] or flag[k] == 0,
                  'event %d is in no cluster and is flagged', k)
    kept = mat[[k for k in range(size) if flag[k] == 0]]
    run.check(np.array_equal(np.asarray(main), kept),
              'the declustered catalogue is not the unflagged events in '
              'their order: %r', np.asarray(main).tolist())
    run.outcome(cluster, flag)


# -- D01: structure --------------------------------------------------------
def structure(run):
    """Catalogues with ties, duplicates and shared times and places."""
    size = run.pick('size', range(1, 5 if run.thorough else 4))
    events = []
    for k in range(size):
        events.append(event(run.pick('days%d' % k, (0, 10, 200, 700)
                                     if size < 4 else (0, 10, 200)),
                            run.pick('km%d' % k, (0, 28, 400)
                                     if size < 4 else (0, 28)),
                            run.pick('mag%d' % k, (4., 5.5, 7.))))
    run.commit()
    mat = matrix(events)
    run.note(events=events)
    for name in WINDOWS:
        for foreshocks in (0, 1.):
            check_partition(run, mat, *run_gk(run, mat, name, foreshocks))
        check_partition(run, mat, *run_afteran(run, mat, name, 60.5))


def structure_long(run):
    """Longer catalogues made of blocks of events."""
    blocks = {
        'pair': [(0, 0, 5.5), (10, 5, 4.)],
        'swarm': [(0, 0, 4.), (3, 2, 4.), (5, 0, 4.), (9, 1, 4.)],
        'fore': [(0, 0, 4.), (10, 0, 6.), (20, 0, 4.5)],
        'far': [(0, 300, 5.)],
        'twin': [(0, 0, 6.), (0, 0, 6.)],
        'chain': [(0, 0, 7.), (50, 0, 4.), (100, 0, 4.2), (150, 0, 4.4),
                  (230, 0, 4.6)]}
    names = sorted(blocks)
    picked = [run.pick('block%d' % k, names)
              for k in range(4 if run.thorough else 3)]
    gap = run.pick('gap', (5, 45, 400, 3000))
    turn = run.pick('order', ('time', 'reversed', 'rotated'))
    run.commit()
    events, start = [], 0
    for name in picked:
        for days, km, mag in blocks[name]:
            events.append(event(start + days, km, mag))
        start += gap
    if turn == 'reversed':
        events.reverse()
    elif turn == 'rotated':
        events = events[2:] + events[:2]
    mat = matrix(events)
    run.note(blocks=picked, gap=gap, order=turn)
    for name in WINDOWS:
        for foreshocks in (0, 0.5):
            check_partition(run, mat, *run_gk(run, mat, name, foreshocks))
        for days in (0.5, 60.5, 1e5):
            check_partition(run, mat, *run_afteran(run, mat, name, days))


# -- D02, D03: agreement ---------------------------------------------------
def compare(run, out, expected, what):
    """The vectors agree with the model."""
    cluster, _, flag = out
    run.check(plain(cluster) == expected[0],
              '%s: clusters %r, expected %r', what, plain(cluster),
              expected[0])
    run.check(plain(flag) == expected[1], '%s: flags %r, expected %r', what,
              plain(flag), expected[1])
    run.outcome(what, expected)


def distinct_catalogue(run, size, days, kms, mags, shift=()):
    """A catalogue whose magnitudes are all different, in any order."""
    order = run.permutation('mag', mags[:size])
    events = [event(run.pick('days%d' % k, days), run.pick('km%d' % k, kms),
                    order[k]) for k in range(size)]
    run.note(events=[e[:6] for e in events])
    return events


def gk_small(run):
    """Every small catalogue: times, places and sizes on a grid."""
    deep = run.thorough
    size = run.pick('size', range(1, 5 if deep else 4))
    if size == 4:
        grid = (0, 45, 200, 600), (0, 35)
    else:
        grid = (0, 30, 100, 300, 800), (0, 33, 45, 300)
    events = distinct_catalogue(run, size, grid[0], grid[1],
                                (6.6, 5.1, 4., 3.3))
    run.commit()
    mat = matrix(events)
    for name in WINDOWS:
        for foreshocks in (0, 0.3, 1.):
            out, _ = run_gk(run, mat, name, foreshocks)
            compare(run, out, ref_gardner_knopoff(events, name, foreshocks),
                    'GK %s %s' % (name, foreshocks))


def afteran_small(run):
    """Every small catalogue: chains of the moving window."""
    deep = run.thorough
    size = run.pick('size', range(1, 6 if deep else 5))
    if size == 5:
        grid = (0, 50, 100), (0, 35)
    elif size == 4:
        grid = (0, 50, 100, 190), (0, 35)
    else:
        grid = (0, 20, 50, 75, 125, 400), (0, 33, 45, 300)
    events = distinct_catalogue(run, size, grid[0], grid[1],
                                (6.6, 5.1, 4., 3.3, 3.0))
    run.commit()
    mat = matrix(events)
    names, lengths = WINDOWS, (30.5, 60.5, 100.5)
    if size == 3 and not deep:
        names, lengths = WINDOWS[:2], (60.5, 100.5)
    elif size > 3:
        names, lengths = WINDOWS[:1], (60.5, 100.5)
    for name in names:
        for days in lengths:
            out, _ = run_afteran(run, mat, name, days)
            compare(run, out, ref_afteran(events, name, days),
                    'Afteran %s %s' % (name, days))


TIES = {3: [(4., 4., 4.), (6.6, 4., 4.), (4., 4., 3.3)],
        4: [(4., 4., 4., 4.), (6.6, 4., 4., 4.), (5.1, 5.1, 4., 4.)]}


def ties_of(gk):
    """Catalogues with events of the same magnitude: the outcome is the one
    of the rule with some order of these."""
    def ties(run):
        size = run.pick('size', (2, 3, 4))
        if size == 2:
            mags = (4., 4.)
        else:
            mags = run.pick('mags', sorted(set(
                order for given in TIES[size]
                for order in itertools.permutations(given))))
        days = (0, 30, 100) if size == 4 else (0, 30, 55, 100, 300)
        kms = {2: (0, 20, 33, 45), 3: (0, 28, 56), 4: (0, 33)}[size]
        if size == 4 and not run.thorough:
            days = (0, 45, 100)
            first = (45, 0)
        else:
            first = None
        events = []
        for k in range(size):
            day, km = first if first and k == 0 else (
                run.pick('days%d' % k, days), run.pick('km%d' % k, kms))
            events.append(event(day, km, mags[k]))
        run.commit()
        run.note(events=[e[:6] for e in events])
        mat = matrix(events)
        orders = list(all_orders(events))
        deep = run.thorough and size < 4
        for name in WINDOWS if size == 2 or deep else WINDOWS[:1]:
            for given in (0, 1.) if gk else (60.5,):
                out, _ = (run_gk if gk else run_afteran)(
                    run, mat, name, given)
                allowed = [(ref_gardner_knopoff if gk else ref_afteran)(
                    events, name, given, order) for order in orders]
                run.check((plain(out[0]), plain(out[2])) in allowed,
                          '%s %s: clusters %r, flags %r; expected one of %r',
                          name, given, plain(out[0]), plain(out[2]), allowed)
                run.outcome(name, given, plain(out[2]))
    return ties


def edge_of(gk):
    """The scenario of the window edges for one of the algorithms."""
    def edges(run):
        name = run.pick('window', WINDOWS)
        mag = run.pick('mag', [k / 4. for k in range(12, 34)])
        run.commit()
        run.note(window=name, mag=mag)
        edges_in_space(run, gk, name, mag)
        if gk:
            edges_in_time(run, name, mag)
        else:
            edges_of_moving_window(run, name, mag)
    return edges


def edges_in_space(run, gk, name, mag):
    """Pairs on either side of the radius, in every direction."""
    space = ref_space(name, mag)
    for factor in (0.2, 0.9999, 1.0001, 1.5):
        km = space * factor
        for lon, lat in ((20., 40.), (179.999, -70.), (-179.999, 0.)):
            for east in (False, True):
                if east:
                    half = math.sin(km / 6371.227 / 2.) / math.cos(
                        math.radians(lat))
                    step = 2. * math.degrees(math.asin(half))
                    place = (lon + step + 180.) % 360. - 180., lat
                else:
                    place = lon, lat + math.degrees(km / 6371.227)
                events = [date(0) + (lon, lat, mag, 0.1),
                          date(0) + place + (mag - 0.7, 0.1)]
                if gk:
                    out, _ = run_gk(run, matrix(events), name, 0.5)
                    want = ref_gardner_knopoff(events, name, 0.5)
                else:
                    out, _ = run_afteran(run, matrix(events), name, 30.5)
                    want = ref_afteran(events, name, 30.5)
                compare(run, out, want, 'edge in space %s' % factor)


def edges_in_time(run, name, mag):
    """Pairs on either side of the length of the fixed window."""
    start = 40000
    length = used_time(name, mag) * 365.
    for edge in (1., 0.5, -0.5, -1.):
        for off in (-1, 0, 1, 2):
            days = int(math.floor(length * abs(edge))) + off
            if days < 0 or min(abs(days - length * f)
                               for f in (1., 0.5)) < 1e-6:
                continue
            if edge < 0:
                days = -days
            events = [event(start, 0, mag), event(start + days, 0, mag - 1)]
            for foreshocks in (0, 0.5, 1.):
                out, _ = run_gk(run, matrix(events), name, foreshocks)
                compare(run, out,
                        ref_gardner_knopoff(events, name, foreshocks),
                        'edge in time %s %s' % (edge, off))


def inverse(function, value):
    """The magnitude at which an increasing function has a value."""
    low, high = 0., 12.
    for _ in range(60):
        middle = (low + high) / 2.
        if function(middle) < value:
            low = middle
        else:
            high = middle
    return high


def close_edges(run):
    """Pairs of whole days apart, barely in and barely out of the window."""
    name = run.pick('window', WINDOWS[:2])
    mag = run.pick('mag', [k / 20. for k in range(60, 170)])
    start = run.pick('start', (0, 217, 40003))
    run.commit()
    run.note(window=name, mag=mag, start=start)
    # the next magnitudes at which the window is a whole number of days
    days = int(math.ceil(ref_time(name, mag) * 365.))
    branch = (lambda m: ref_time(name, m)) if mag >= 6.5 else (
        lambda m: ref_time(name, min(m, 6.4999999)))
    exact = inverse(lambda m: branch(max(m, mag)) * 365., days)
    for at, foreshocks in ((days, 0.), (-days, 1.)):
        for shift in (-0.01, 0.01):
            main = exact + shift
            if exact < mag or (exact - 0.02 < 6.5) != (exact + 0.02 < 6.5):
                continue
            if abs(branch(main) * 365. - days) > 40 * abs(shift) * days:
                continue
            events = [event(start + 2000, 0, main),
                      event(start + 2000 + at, 0, main - 1)]
            for extra in ((), (event(0, 0, 2., 0.1, -100., -40.),)):
                rows = list(extra) + events
                out, _ = run_gk(run, matrix(rows), name, foreshocks)
                compare(run, out, ref_gardner_knopoff(rows, name, foreshocks),
                        'close edge %d %s' % (at, shift))


def fine_magnitudes(run):
    """Magnitudes that differ in later decimals only."""
    gk = run.pick('algorithm', (True, False))
    base = run.pick('base', (3.9, 5.1, 6.46, 6.98))
    step = run.pick('step', (0.04, 0.004, 0.00004))
    size = run.pick('size', (2, 3))
    order = run.permutation('mag', range(size))
    events = [event(run.pick('days%d' % k, (0, 40, 41)),
                    run.pick('km%d' % k, (0, 6)), base + step * order[k])
              for k in range(size)]
    run.commit()
    run.note(events=[e[:6] for e in events])
    for name in WINDOWS:
        if gk:
            out, kept = run_gk(run, matrix(events), name, 0.5)
            want = ref_gardner_knopoff(events, name, 0.5)
        else:
            out, kept = run_afteran(run, matrix(events), name, 60.5)
            want = ref_afteran(events, name, 60.5)
        check_partition(run, matrix(events), out, kept)
        compare(run, out, want, 'fine magnitudes')


def sizes_at_the_ends(gk):
    """Very small events, whose windows are parts of a day, and huge ones."""
    def scenario(run):
        kind = run.pick('kind', ('tiny', 'negative', 'huge'))
        mags, days, kms = {
            'tiny': ((0.3, 0.05, 0.9), (0, 1, 2), (0, 4)),
            'negative': ((-0.6, 0.2, -1.1), (0, 1), (0, 4)),
            'huge': ((9.4, 8.6, 7.9), (0, 900, 1600), (0, 90))}[kind]
        events = distinct_catalogue(run, 3, days, kms, mags)
        run.commit()
        # the square root of Gruenthal's window ends above -0.04
        for name in WINDOWS[::2] if kind == 'negative' else WINDOWS:
            if gk:
                for foreshocks in (0, 1.):
                    out, kept = run_gk(run, matrix(events), name, foreshocks)
                    check_partition(run, matrix(events), out, kept)
                    compare(run, out, ref_gardner_knopoff(
                        events, name, foreshocks), '%s %s' % (kind, name))
            else:
                out, kept = run_afteran(run, matrix(events), name, 365.5)
                check_partition(run, matrix(events), out, kept)
                compare(run, out, ref_afteran(events, name, 365.5),
                        '%s %s' % (kind, name))
    return scenario


def edges_of_moving_window(run, name, mag):
    """Pairs and chains on either side of the moving window."""
    start = 40000
    for window in (10, 60, 100):
        for days in range(-window - 2, window + 3):
            events = [event(start, 0, mag), event(start + days, 0, mag - 1)]
            if abs(days) > 2:
                events.append(event(start + 2 * days, 0, mag - 2))
                events.append(event(start + 3 * days, 0, mag - 1.5))
            for off in (-0.01, 0.01, 0.5):
                if off == 0.5 or abs(abs(days) - window) < 1.5:
                    out, _ = run_afteran(run, matrix(events), name,
                                         window + off)
                    compare(run, out, ref_afteran(events, name, window + off),
                            'edge in time %s' % days)


def many_events(kind, number):
    """Many clusters, one cluster of many events, or many single events."""
    events = []
    for k in range(number):
        place = 0.1, -170. + 2.5 * (k % 130), -60. + 20. * (k // 130 % 7)
        when = 20000 + 37 * k % 1100
        if kind == 'one cluster':
            # chains of 7 days before and after the largest
            events.append(event(20000 + 7 * ((k + 1) // 2) * (-1) ** k, 0,
                                7.9 if k == 0 else 3. + 0.001 * k))
        else:
            events.append(event(when, 0, 5. + 0.001 * k, *place))
        if kind == 'clusters':
            events.append(event(when + 5, 0, 4. + 0.0005 * k, *place))
            if k % 3 == 0:
                events.append(event(when - 4, 0, 3. + 0.0005 * k, *place))
    return events


def long_catalogues(judge):
    """The scenario of long catalogues for one property."""
    def scenario(run):
        kind = run.pick('kind', ('clusters', 'one cluster', 'single'))
        number = run.pick('number', (60, 127, 128, 129, 255, 256, 257) + (
            (511, 512, 513) if run.thorough else ()))
        order = run.pick('order', ('as made', 'reversed', 'interleaved',
                                   'by time'))
        run.commit()
        run.note(kind=kind, number=number, order=order)
        events = many_events(kind, number)
        if order == 'reversed':
            events.reverse()
        elif order == 'interleaved':
            events = events[::3] + events[1::3] + events[2::3]
        elif order == 'by time':
            events.sort(key=lambda e: ref_decimal_year(*e[:3]))
        judge(run, events)
    return scenario


def thousands(judge):
    """The scenario of catalogues of over a thousand events."""
    def scenario(run):
        kind = run.pick('kind', ('scattered', 'one cluster', 'swarm',
                                 'many clusters'))
        order = run.pick('order', ('as made', 'by time'))
        run.commit()
        if kind == 'one cluster':
            events = many_events(kind, 1100)
        elif kind == 'swarm':
            # several on a day, all in the cluster of the largest
            events = [event(20000 + 41 * k % 271, k % 23,
                            7.9 if k == 700 else 3. + 0.001 * k)
                      for k in range(1100)]
        elif kind == 'many clusters':
            events = []
            for k in range(1050):
                place = 0.1, -170. + 2.5 * (k % 130), -60. + 15. * (k // 130)
                when = 20000 + 37 * k % 1100
                events += [event(when, 0, 4.4 + 0.001 * (377 * k % 1051),
                                 *place),
                           event(when + 3, 0, 3. + 0.001 * k, *place)]
        else:
            # many single events, in size between those of the clusters
            events = many_events('clusters', 100)
            events = [e[:5] + (e[5] * 3 - 9.,) + e[6:] for e in events]
            events += [event(20000 + 41 * k % 1300, 0, 4.4 + 0.001 * k, 0.1,
                             -169. + 2.5 * (k % 130),
                             -68. + 16. * (k // 130)) for k in range(1100)]
        run.note(kind=kind, events=len(events), order=order)
        if order == 'by time':
            events.sort(key=lambda e: ref_decimal_year(*e[:3]))
        judge(run, events)
    return scenario


def micro(judge):
    """The scenario of small events, also below zero, after larger ones."""
    def scenario(run):
        low = run.pick('low', (-1.5, -0.7, 0., 0.6, 1.3, 2.1))
        pairs = run.pick('pairs', (1, 3, 9))
        large = run.pick('large', (0, 1, 6, 11))
        days = run.pick('days', (0, 20))
        order = run.pick('order', (1, -1))
        run.commit()
        run.note(low=low, pairs=pairs, large=large, days=days)
        events = [event(900 * k, 0, 6.05 + 0.1 * k, 0.1, 100. + k, -30.)
                  for k in range(large)]
        for k in range(pairs):
            main = low + 0.05 * k
            first = event(400 + 30 * k, 0, main, 0., 10. + k, 5.)
            second = event(400 + 30 * k + days, 3, main - 0.5, 0., 10. + k,
                           5.)
            events += [second, first] if k % 2 else [first, second]
        judge(run, events[::order])
    return scenario


def rim_of_moving_window(run):
    """Chains of whole years apart: events exactly at the end are in."""
    window = run.pick('window', (0, 365, 730, 1095))
    gaps = [run.pick('gap%d' % k, (0, 1, 2, 3)) for k in range(3)]
    main = run.pick('main', range(4))
    sizes = run.permutation('mag', (4., 4.2, 4.4))
    run.commit()
    mags = sizes[:main] + [7.] + sizes[main:]
    events, year = [], 2001.
    for k, mag in enumerate(mags):
        events.append((year, 1., 1., 20., 40., mag, 0.1))
        year += gaps[k] if k < 3 else 0
    run.note(window=window, gaps=gaps, mags=mags)
    out, _ = run_afteran(run, matrix(events), 'GardnerKnopoff',
                         float(window))
    compare(run, out, ref_afteran(events, 'GardnerKnopoff', float(window)),
            'rim of %d days' % window)


def long_partition(run, events):
    """The structure of the answer."""
    check_partition(run, matrix(events), *run_gk(
        run, matrix(events), 'Gruenthal', 0.5))
    check_partition(run, matrix(events), *run_afteran(
        run, matrix(events), 'GardnerKnopoff', 60.5))


def long_gk(run, events):
    """The answer of Gardner and Knopoff."""
    compare(run, run_gk(run, matrix(events), 'GardnerKnopoff', 0.5)[0],
            ref_gardner_knopoff(events, 'GardnerKnopoff', 0.5), 'long')


def long_afteran(run, events):
    """The answer of Afteran."""
    compare(run, run_afteran(run, matrix(events), 'GardnerKnopoff', 60.5)[0],
            ref_afteran(events, 'GardnerKnopoff', 60.5), 'long')


# -- D06: the order of the records ----------------------------------------
SEQUENCES = [
    [(0, 0, 4.1), (12, 3, 6.6), (30, 8, 4.4), (55, 30, 5.2), (400, 0, 4.9),
     (410, 2, 4.)],
    [(0, 0, 5.), (20, 40, 4.8), (45, 80, 4.6), (90, 0, 6.8), (120, 5, 4.5),
     (121, 5, 4.3)],
    [(0, 0, 7.1), (50, 10, 6.9), (100, 20, 6.7), (150, 30, 6.5),
     (200, 40, 6.3), (250, 50, 6.1)],
    [(5, 0, 4.), (5, 0, 4.5), (5, 0, 5.), (5, 60, 5.5), (700, 60, 6.),
     (701, 0, 6.4)],
    [(0, 0, 4.2), (50, 0, 4.3), (100, 0, 4.4), (150, 0, 6.1), (200, 0, 4.5),
     (250, 0, 4.6)],
    [(0, 0, 5.14), (12, 3, 5.11), (30, 8, 5.12), (55, 30, 4.44),
     (400, 0, 4.41), (410, 2, 4.45)],
]


def orders(run):
    """All orders of the records of a catalogue give the same answer."""
    which = run.pick('catalogue', range(len(SEQUENCES)))
    size = 6 if run.thorough else 5
    order = run.permutation('order', range(size))
    run.commit()
    events = [event(*SEQUENCES[which][k]) for k in range(size)]
    mat = matrix(events)
    shuffled = mat[order]
    run.note(catalogue=which, order=order)
    for name in WINDOWS:
        for label, base, other in (
                ('Gardner-Knopoff', run_gk(run, mat, name, 0.5)[0],
                 run_gk(run, shuffled, name, 0.5)[0]),
                ('Afteran', run_afteran(run, mat, name, 60.5)[0],
                 run_afteran(run, shuffled, name, 60.5)[0])):
            for k in (0, 2):
                one, two = plain(base[k]), plain(other[k])
                run.check([one[o] for o in order] == two,
                          '%s: %r in the given order, %r in order %r',
                          label, one, two, order)
            run.outcome(which, name, label, plain(base[0]), plain(base[2]))


def far_away(run):
    """Events out of every window change nothing for the others."""
    which = run.pick('catalogue', range(len(SEQUENCES)))
    where = run.pick('position', range(6))
    kind = run.pick('kind', ('far', 'late', 'both'))
    mag = run.pick('mag', (3.05, 5.55, 8.05))
    run.commit()
    events = [event(*e) for e in SEQUENCES[which]]
    stranger = event(30000 if kind != 'far' else 50, 0, mag, 0.1,
                     *((20., 40.) if kind == 'late' else (-100., -40.)))
    more = events[:where] + [stranger] + events[where:]
    run.note(catalogue=which, position=where, kind=kind, mag=mag)
    for name in WINDOWS:
        for label, base, other in (
                ('Gardner-Knopoff', run_gk(run, matrix(events), name, 0.5),
                 run_gk(run, matrix(more), name, 0.5)),
                ('Afteran', run_afteran(run, matrix(events), name, 60.5),
                 run_afteran(run, matrix(more), name, 60.5))):
            for k in (0, 2):
                one, two = plain(base[0][k]), plain(other[0][k])
                run.check(two[where] == 0, '%s: the stranger is clustered',
                          label)
                run.check(one == two[:where] + two[where + 1:],
                          '%s: %r without, %r with a stranger', label, one,
                          two)
            run.outcome(which, name, label, plain(base[0][0]))


def far_pairs(run):
    """Pairs near the ends of a window, with and without a stranger."""
    name = run.pick('window', WINDOWS)
    mag = run.pick('mag', (3.6, 4.7, 5.4, 6.7))
    when = run.pick('when', (-36500, -40111, 5, 36741))
    side = run.pick('side', (1, -1))
    run.commit()
    length = used_time(name, mag) * 365.
    if name == 'Uhrhammer':
        side, length = 0, 20
    for off in range(-2, 4):
        days = 40000 + (side or 1) * (int(length) + off)
        pair = [event(40000, 0, mag), event(days, 0, mag - 1)]
        stranger = event(40000 + when, 0, 3.1, 0.1, -100., -40.)
        for where in range(3):
            more = pair[:where] + [stranger] + pair[where:]
            for label, base, other in (
                    ('Gardner-Knopoff', run_gk(run, matrix(pair), name, 1.),
                     run_gk(run, matrix(more), name, 1.)),
                    ('Afteran',
                     run_afteran(run, matrix(pair), name, length + 0.5),
                     run_afteran(run, matrix(more), name, length + 0.5))):
                for k in (0, 2):
                    one, two = plain(base[0][k]), plain(other[0][k])
                    run.check(two[where] == 0 and
                              one == two[:where] + two[where + 1:],
                              '%s: %r without, %r with a stranger', label,
                              one, two)
                run.outcome(label, plain(base[0][0]))
    run.note(window=name, mag=mag, when=when, side=side)


# -- D04: windows ----------------------------------------------------------
def calc(name, mags):
    """The windows of magnitudes, through the table of windows."""
    return impl.time_dist_windows[name].calc(mags)


def windows(run):
    """Every magnitude of a grid, alone and in vectors."""
    name = run.pick('window', WINDOWS)
    block = run.pick('block', range(0, 1000, 20))
    run.commit()
    mags = np.array([(block + k) / 100. for k in range(20)])
    before = mags.copy()
    run.note(window=name, mags=mags)
    for vector in (mags, mags[::-1].copy(), mags[7:8].copy(),
                   np.concatenate([mags[:1], [9.5], mags])):
        space, time = run.call(calc, name, vector)
        run.check(np.shape(space) == np.shape(vector) == np.shape(time),
                  'shapes %r %r', np.shape(space), np.shape(time))
        for mag, km, years in zip(vector, space, time):
            want = ref_space(name, mag)
            run.check(abs(km - want) <= 1e-9 * want,
                      '%s radius of magnitude %r: %r km, expected %r', name,
                      mag, km, want)
            want = ref_time(name, mag)
            if abs(years - want) <= 1e-9 * want:
                continue
            if name == 'Uhrhammer':
                coded = uhrhammer_as_coded(mag)
                if abs(years - coded) <= 1e-9 * coded:
                    run.finding('uhrhammer-time', 'Uhrhammer length of '
                                'magnitude %r: %r years, published %r' % (
                                    mag, years, want))
                    continue
            run.fail('%s length of magnitude %r: %r years, expected %r',
                     name, mag, years, want)
    run.check(np.array_equal(mags, before), 'the magnitudes were changed')
    run.outcome(name, block)


def window_growth(run):
    """Larger events have windows at least as large (within a branch)."""
    name = run.pick('window', WINDOWS)
    run.commit()
    mags = np.arange(200, 900) / 100.
    space, time = run.call(calc, name, mags)
    run.note(window=name)
    for k in range(1, len(mags)):
        run.check(space[k] > space[k - 1], '%s: the radius shrinks at %r',
                  name, mags[k])
        if mags[k] != 6.5:
            run.check(time[k] > time[k - 1], '%s: the length shrinks at %r',
                      name, mags[k])
    run.check((space > 0).all() and (time > 0).all(), 'a window is empty')
    run.outcome(name)


# -- D05: dates and distances ----------------------------------------------
def calendar(run):
    """Every day of a year, in order."""
    year = run.pick('year', [-10000, -1, 0, 1, 1581, 1600, 1899, 1900, 1964,
                             1999, 2000, 2001, 2012])
    run.commit()
    leap = year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
    days = [(m + 1, d + 1) for m in range(12)
            for d in range(MONTHS[m] + (1 if m == 1 and leap else 0))]
    years = np.array([float(year)] * len(days))
    months = np.array([float(m) for m, _ in days])
    numbers = np.array([float(d) for _, d in days])
    out = run.call(decimal_year, years, months, numbers)
    run.check(np.shape(out) == (len(days),), 'shape %r', np.shape(out))
    run.note(year=year, days=len(days))
    for k, (month, day) in enumerate(days):
        want = ref_decimal_year(year, month, day)
        run.check(abs(out[k] - want) < 1e-8, '%d-%d-%d is %r, expected %r',
                  year, month, day, out[k], want)
        run.check(year <= out[k] < year + 1, '%d-%d-%d is %r', year, month,
                  day, out[k])
        run.check(k == 0 or out[k] >= out[k - 1],
                  '%d-%d-%d is before the day before', year, month, day)
        run.check(abs((out[k] - year) * 365 - k) < 1 + 1e-6,
                  '%d-%d-%d is over a day off', year, month, day)
    # one date at a time, and shuffled
    for k in range(0, len(days), 17):
        one = run.call(decimal_year, years[k:k + 1], months[k:k + 1],
                       numbers[k:k + 1])
        run.check(abs(one[0] - out[k]) < 1e-8, 'alone %r, in a vector %r',
                  one[0], out[k])
    back = run.call(decimal_year, years[::-1], months[::-1], numbers[::-1])
    run.check(np.allclose(back[::-1], out, rtol=0, atol=1e-8),
              'the order of the dates matters')
    run.outcome(year)


def julian(run):
    """Every day of the Gregorian calendar, year by year."""
    year = run.pick('year', list(range(1583, 2401)))
    run.commit()
    day = datetime.date(year, 1, 1)
    run.note(year=year)
    while day.year == year:
        want = day.toordinal() + 1721424.5
        for hour, minute, second in ((0., 0., 0.), (18., 45., 36.),
                                     (0., 0., 59.984375), (23., 59., 0.)):
            got = run.call(greg2julian, float(year), float(day.month),
                           float(day.day), hour, minute, second)
            moment = want + (hour + minute / 60. + second / 3600.) / 24.
            run.check(abs(got - moment) < 2e-9,
                      '%s %s is %r, expected %r', day, hour, got, moment)
        day += datetime.timedelta(1)
    run.outcome(year)


GRID = [(lon, lat) for lat in (-90, -60.5, -1, 0, 0.001, 33, 89.9, 90)
        for lon in (-180, -179.99, -90, 0, 0.001, 45, 135.25, 180)]


def antipodes(run):
    """Points opposite to each other, and almost: half a circle away."""
    lon = run.pick('lon', list(range(-180, 180, 10)) + [0.1, 33.3, -77.7])
    off = run.pick('off', (0., 1e-9, 1e-6))
    run.commit()
    lats = np.arange(-90., 90.01, 1.)
    run.note(lon=lon, off=off, points=len(lats))
    half = math.pi * 6371.227
    opposite = lon + 180. if lon < 0 else lon - 180.
    for k in range(0, len(lats), 3):
        many = run.call(haversine, np.array([opposite] * 3),
                        -lats[k:k + 3] + off, float(lon), float(lats[k]))
        run.check(abs(many[0, 0] - half) < 1.,
                  'from %r to %r: %r km, expected %r', (lon, lats[k]),
                  (opposite, -lats[k] + off), many[0, 0], half)
    for lat in lats.tolist():
        one = run.call(haversine, float(lon), lat, float(opposite),
                       -lat + off)
        run.check(abs(one[0, 0] - half) < 1.,
                  'from %r to %r: %r km, expected %r', (lon, lat),
                  (opposite, -lat + off), one[0, 0], half)
        # one row of a matrix has its antipode in it
        wide = run.call(haversine, np.array([0.5, opposite, 90.5]),
                        np.array([10.5, -lat + off, 20.5]),
                        np.array([float(lon), 3.25]), np.array([lat, 4.5]))
        run.check(np.all(np.isfinite(wide)) and
                  abs(wide[1, 0] - half) < 1., 'the distances %r', wide)
    run.outcome(lon)


def meridians(run):
    """Matrices of places on the same meridians, or parallels."""
    count = run.pick('places', (1, 2, 3, 5))
    shift = run.pick('shift', (0., 7.5, -30.))
    same = run.pick('same', ('lon', 'lat', 'both', 'none'))
    run.commit()
    run.note(places=count, shift=shift, same=same)
    lon = np.array([10. + 23. * k for k in range(count)])
    lat = np.array([-40. + 17. * k for k in range(count)])
    lon2 = lon if same in ('lon', 'both') else lon + shift
    lat2 = lat if same in ('lat', 'both') else lat[::-1] + shift
    for one in (lon2, lon2.copy()):
        got = run.call(haversine, lon, lat, one, lat2)
        run.check(np.shape(got) == (count, count), 'shape %r', np.shape(got))
        for i in range(count):
            for j in range(count):
                want = ref_distance(lon[i], lat[i], lon2[j], lat2[j])
                run.check(abs(got[i, j] - want) < 1e-3 + 1e-7 * want,
                          'entry %d,%d is %r, expected %r', i, j, got[i, j],
                          want)
    run.outcome(count, same)


def neighbours(run):
    """Places that are very close to each other, but not the same."""
    lon = run.pick('lon', (-180., -77.7, 0., 12.5, 33.3, 179.9))
    lat = run.pick('lat', (-90., -89.9, -45.5, 0., 1.5, 60.25, 89.9))
    run.commit()
    steps = (0., 1e-9, 1e-8, 1e-7, 1e-5, 1e-3)
    pairs = [(east, north) for east in steps for north in steps]
    lons = np.array([lon + east for east, _ in pairs])
    lats = np.array([lat + north for _, north in pairs])
    run.note(lon=lon, lat=lat, steps=len(pairs))
    got = run.call(haversine, lons, lats, lon, lat)
    wide = run.call(haversine, np.append(lons, 5.), np.append(lats, 5.),
                    np.array([lon, 50.]), np.array([lat, 7.]))
    for k, (east, north) in enumerate(pairs):
        mid = math.radians((lats[k] + lat) / 2.)
        want = 6371.227 * math.hypot(
            math.radians(lons[k] - lon) * math.cos(mid),
            math.radians(lats[k] - lat))
        for km in (got[k, 0], wide[k, 0]):
            run.check(abs(km - want) <= 1e-4 * want + 1e-13,
                      'from %r, %r steps %r, %r: %r km, expected %r', lon,
                      lat, east, north, km, want)
    run.outcome(lon, lat)


def distances(run):
    """Every pair of points of a grid, in every calling form."""
    one = run.pick('from', GRID)
    run.commit()
    lon = np.array([float(g[0]) for g in GRID])
    lat = np.array([float(g[1]) for g in GRID])
    kept = lon.copy(), lat.copy()
    many = run.call(haversine, lon, lat, float(one[0]), float(one[1]))
    run.check(np.shape(many) == (len(GRID), 1), 'shape %r', np.shape(many))
    run.note(start=one, points=len(GRID))
    for k, two in enumerate(GRID):
        want = ref_distance(one[0], one[1], two[0], two[1])
        tolerance = 1e-3 + 1e-7 * want if want > 20000 else 1e-6
        run.check(abs(many[k, 0] - want) <= tolerance,
                  'from %r to %r: %r km, expected %r', one, two, many[k, 0],
                  want)
        alone = run.call(haversine, float(two[0]), float(two[1]),
                         float(one[0]), float(one[1]))
        run.check(np.shape(alone) == (1, 1) and
                  abs(alone[0, 0] - many[k, 0]) < 1e-6,
                  'alone %r, in a vector %r', alone, many[k, 0])
        back = run.call(haversine, float(one[0]), float(one[1]),
                        float(two[0]), float(two[1]))
        run.check(abs(back[0, 0] - alone[0, 0]) < 1e-6,
                  'from %r to %r: %r, back %r', one, two, alone, back)
    run.check(np.array_equal(lon, kept[0]) and np.array_equal(lat, kept[1]),
              'the points were changed')
    pos = GRID.index(one)
    rows = [(pos + 11 * k) % len(GRID) for k in range(5)]
    cols = [(pos + 5 + 9 * k) % len(GRID) for k in range(3)]
    matrix2 = run.call(haversine, lon[rows], lat[rows], lon[cols], lat[cols])
    run.check(np.shape(matrix2) == (5, 3), 'shape %r', np.shape(matrix2))
    for i, row in enumerate(rows):
        for j, col in enumerate(cols):
            want = ref_distance(lon[row], lat[row], lon[col], lat[col])
            run.check(abs(matrix2[i, j] - want) < 1e-3 + 1e-7 * want,
                      'entry %d,%d is %r, expected %r', i, j, matrix2[i, j],
                      want)
    rad = run.call(haversine, np.radians(lon), np.radians(lat),
                   math.radians(one[0]), math.radians(one[1]), True, 1.)
    run.check(np.allclose(rad * 6371.227, many, rtol=1e-7, atol=1e-3),
              'radians and degrees differ')
    run.outcome(one)


ASSUME = ['magnitudes of a catalogue are all different where the exact '
          'answer is compared; with ties any order of these is allowed',
          'no event lies exactly (to 1e-6) on the edge of a window, but for '
          'the moving window of D03',
          'the length of the Uhrhammer window in D01..D03, D06 is the one '
          'the code uses: D04 records that it is not the published one']

CHECKS = {
    'D01': {
        'scenarios': lambda tier: [('structure', structure, 0),
                                   ('fine magnitudes', fine_magnitudes, 0),
                                   ('blocks', structure_long, 0),
                                   ('sizes GK', sizes_at_the_ends(True), 0),
                                   ('sizes Afteran',
                                    sizes_at_the_ends(False), 0),
                                   ('long', long_catalogues(long_partition),
                                    0),
                                   ('thousands', thousands(long_partition),
                                    0),
                                   ('micro', micro(long_partition), 0)],
        'assumptions': ASSUME,
        'bounds': {
            'quick': 'every catalogue of up to 3 events over 4 times, 3 '
                     'places, 3 magnitudes (ties and duplicates included); '
                     'every sequence of 3 of 6 blocks x 4 gaps x 3 orders; '
                     'all windows; pairs and triples of magnitudes '
                     '0.04, 0.004 and 0.00004 apart; 60..257 clusters, members or single '
                     'events in 4 orders, over a thousand in 2; 1..9 pairs of '
                     'magnitude -2 to 2.5; '
                     'triples of magnitudes from -1.1 to 0.9 and 7.9 to 9.4',
            'thorough': 'as quick, 4 events over 3 times, 2 places, 3 '
                        'magnitudes; sequences of 4 blocks'}},
    'D02': {
        'scenarios': lambda tier: [('catalogues', gk_small, 0),
                                   ('ties', ties_of(True), 0),
                                   ('fine magnitudes', fine_magnitudes, 0),
                                   ('close edges', close_edges, 0),
                                   ('sizes', sizes_at_the_ends(True), 0),
                                   ('long', long_catalogues(long_gk), 0),
                                   ('thousands', thousands(long_gk), 0),
                                   ('micro', micro(long_gk), 0),
                                   ('edges', edge_of(True), 0)],
        'assumptions': ASSUME,
        'bounds': {
            'quick': 'every catalogue of up to 3 events over 5 times, 4 '
                     'places, all magnitude orders; 3 windows x 3 foreshock '
                     'proportions; every catalogue of 2..4 events with ties '
                     'over 3..5 times, 2..4 places: the outcome of some order '
                     'of these; both sides of every window edge for 22 '
                     'magnitudes, in space within 1e-4 of it; pairs and '
                     'triples of magnitudes 0.04, 0.004 and 0.00004 apart; windows whose '
                     'length is a whole number of days but for 0.01 units '
                     'of magnitude; 60..257 clusters, members or single '
                     'events in 4 orders, over a thousand in 2; 1..9 pairs of '
                     'magnitude -2 to 2.5; '
                     'triples of magnitudes from -1.1 to 0.9 and 7.9 to 9.4',
            'thorough': 'as quick, and 4 events over 4 times and 2 places'}},
    'D03': {
        'scenarios': lambda tier: [('catalogues', afteran_small, 0),
                                   ('ties', ties_of(False), 0),
                                   ('fine magnitudes', fine_magnitudes, 0),
                                   ('long', long_catalogues(long_afteran), 0),
                                   ('thousands', thousands(long_afteran), 0),
                                   ('micro', micro(long_afteran), 0),
                                   ('rim', rim_of_moving_window, 0),
                                   ('sizes', sizes_at_the_ends(False), 0),
                                   ('edges', edge_of(False), 0)],
        'assumptions': ASSUME,
        'bounds': {
            'quick': 'every catalogue of up to 3 events over 6 times, 4 '
                     'places and 4 events over 4 times, 2 places, all '
                     'magnitude orders; 2..4 events with ties as in D02; '
                     '3 lengths of the moving window, both '
                     'sides of its edge by 0.01 days and, in whole years, exactly on it; pairs and triples of '
                     'magnitudes 0.04, 0.004 and 0.00004 apart; 60..257 clusters, members or single '
                     'events in 4 orders, over a thousand in 2; 1..9 pairs of '
                     'magnitude -2 to 2.5; '
                     'triples of magnitudes from -1.1 to 0.9 and 7.9 to 9.4',
            'thorough': 'as quick, and 5 events over 3 times and 2 places'}},
    'D04': {
        'scenarios': lambda tier: [('windows', windows, 0),
                                   ('growth', window_growth, 0)],
        'assumptions': ['magnitudes between 0 and 10'],
        'bounds': {
            'quick': 'every magnitude from 0.00 to 9.99 by 0.01, alone and '
                     'in vectors, 3 windows',
            'thorough': 'as quick'}},
    'D05': {
        'scenarios': lambda tier: [('calendar', calendar, 0),
                                   ('julian', julian, 0),
                                   ('antipodes', antipodes, 0),
                                   ('neighbours', neighbours, 0),
                                   ('meridians', meridians, 0),
                                   ('distances', distances, 0)],
        'assumptions': ['Gregorian dates of 1583..2400 for the Julian day'],
        'bounds': {
            'quick': 'every day of 13 years; every day of 1583..2400; every '
                     'pair of 64 points, poles and antimeridian included, '
                     'alone and as matrices of mixed latitudes; antipodes on a '
                     'grid of 10 x 1 degrees; 42 places and 36 steps of 1e-9 to '
                     '1e-3 degrees from each',
            'thorough': 'as quick'}},
    'D06': {
        'scenarios': lambda tier: [('orders', orders, 0),
                                   ('far away', far_away, 0),
                                   ('far pairs', far_pairs, 0)],
        'assumptions': ASSUME,
        'bounds': {
            'quick': 'all 120 orders of 5 records of 5 catalogues; a distant '
                     'event at every position, also of pairs within 3 days of '
                     'the end of a window',
            'thorough': 'all 720 orders of 6 records'}},
}
