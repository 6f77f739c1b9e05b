"""Completeness analysis and selection of events (S01..S03)."""

import bisect
from fractions import Fraction
import math

import numpy as np

from mtoolkit.scientific.completeness import (selected_eq_flag_vector,
                                              stepp_analysis)


# -- reference models ------------------------------------------------------
def exact(value):
    """The decimal number that a float stands for."""
    return Fraction(repr(round(float(value), 10)))


def bins_of(lower, upper, step):
    """Edges from lower on, until upper is inside: one bin or more."""
    edges = [lower, lower + step]
    while edges[-1] < upper:
        edges.append(edges[-1] + step)
    return edges


def ref_stepp(events, dm, dt, ttol, lock):
    """Stepp's table: [(year, magnitude)], and the closest call.

    For each magnitude bin the completeness length is the time window at
    which the logarithmic slope of the standard deviation of the rate last
    departs from the Poisson slope by more than the tolerance.
    """
    years = [e[0] for e in events]
    mags = [Fraction(round(100. * e[1]), 100) for e in events]
    low = Fraction(math.floor(10 * min(mags)), 10)
    high = Fraction(math.ceil(10 * max(mags)), 10)
    edges = bins_of(low, high, exact(dm))
    rows = len(edges) - 1
    end, start = max(years), min(years)
    lengths = []
    k = 1
    while dt * k < end - start + 2:
        lengths.append(float(dt * k))
        k += 1
    margin = 1.
    table, last = [], None
    for j in range(rows):
        inside = sorted(year for year, mag in zip(years, mags)
                        if mag >= edges[j] and (j == rows - 1 or
                                                mag < edges[j + 1]))
        sigma = []
        for length in lengths:
            count = len(inside) - bisect.bisect_left(inside, end - length)
            sigma.append(max(math.sqrt(count) / length, 1e-14))
        resid = []
        for i in range(1, len(lengths)):
            run = math.log10(lengths[i] / lengths[i - 1])
            resid.append(math.log10(sigma[i] / sigma[i - 1]) / run -
                         math.log10(math.sqrt(lengths[i - 1] / lengths[i])) /
                         run)
        found = None
        for i in range(1, len(resid)):
            change = abs(resid[i] - resid[i - 1])
            margin = min(margin, abs(change - ttol))
            if change > ttol:
                found = i - 1
        if found is None:
            found = 0 if last is None else last
        if lock and last is not None and found < last:
            found = last
        last = found
        table.append((end - lengths[found], float(edges[j])))
    return table, margin


def ref_selected(year, mag, table, flag):
    """Is the event dropped (1) or kept (0)?"""
    if flag != 0:
        return 1
    for row_year, row_mag in table:
        if year < row_year and mag < row_mag:
            return 1
    return 0


# -- S01 -------------------------------------------------------------------
def judge(run, events, dm, dt, ttol, lock):
    """Compare one analysis with the model and check its structure."""
    years = np.array([float(e[0]) for e in events])
    mags = np.array([float(e[1]) for e in events])
    kept = years.copy(), mags.copy()
    table = run.call(stepp_analysis, years, mags, dm, dt, ttol, lock)
    run.check(np.array_equal(years, kept[0]) and
              np.array_equal(mags, kept[1]), 'the catalogue was changed')
    want, margin = ref_stepp(events, dm, dt, ttol, lock)
    run.check(np.shape(table) == (len(want), 2), 'shape %r, expected %d rows',
              np.shape(table), len(want))
    for k, (year, mag) in enumerate(want):
        run.check(abs(table[k, 1] - mag) < 1e-9, 'row %d: magnitude %r, '
                  'expected %r', k, table[k, 1], mag)
        run.check(years.min() - 2 * dt <= table[k, 0] < years.max(),
                  'row %d: year %r out of the catalogue', k, table[k, 0])
        if lock and k:
            run.check(table[k, 0] <= table[k - 1, 0],
                      'row %d: complete since %r, smaller ones since %r', k,
                      table[k, 0], table[k - 1, 0])
    if margin < 1e-7:
        return None                     # decided by rounding
    for k, (year, mag) in enumerate(want):
        run.check(abs(table[k, 0] - year) < 1e-9,
                  'row %d (magnitude %r): complete since %r, expected %r', k,
                  mag, table[k, 0], year)
    run.outcome(dm, dt, ttol, lock, [w[0] for w in want])
    return table


CELLS = [(year, mag) for year in (2000, 2003, 2011, 2014, 2020)
         for mag in (4.05, 4.65, 5.25)]
SETTINGS = [(0.5, 1, 0.2, True), (0.5, 1, 0.2, False), (0.3, 2, 0.1, True),
            (0.5, 5, 0.15, False), (1.0, 3, 0.3, True)]


def multisets(run):
    """Every multiset of events over a grid of years and magnitudes."""
    size = run.pick('size', range(2, 6 if run.thorough else 5))
    first, events = 0, []
    for k in range(size):
        cell = run.pick('cell%d' % k, range(first, len(CELLS)))
        events.append(CELLS[cell])
        first = cell
    run.commit()
    if len(set(e[0] for e in events)) < 2:
        return
    run.note(events=events)
    span = events[-1][0] - events[0][0]
    for setting in SETTINGS:
        if setting[1] < span + 2:
            judge(run, events, *setting)


EDGES = [(year, mag) for year in (2000, 2003, 2014, 2020)
         for mag in (4., 4.5, 5., 5.5)]


def decimal_edges(run):
    """Events on the edges of bins of tenths and other decimals."""
    dm = run.pick('dm', (0.1, 0.2, 0.3, 0.4, 0.15, 0.05, 0.01))
    low = run.pick('low', [k / 10. for k in range(25, 51)])
    step = run.pick('step', range(0, 21 if run.thorough else 13))
    run.commit()
    top = round(low + step * dm, 2)
    run.note(dm=dm, low=low, top=top)
    events = [(1990 + 7 * j + k, m)
              for j, m in enumerate((low, round(low + dm * (step // 2), 2),
                                     top))
              for k in range(3)] + [(2020, low), (1999, top)]
    for dt, ttol, lock in ((1, 0.2, True), (2, 0.1, False)):
        one = judge(run, events, dm, dt, ttol, lock)
        judge(run, events[::-1], dm, dt, ttol, lock)
        if one is not None:
            run.outcome(dm, low, top, one[:, 0].tolist())


def on_the_edges(run):
    """Every multiset of events on the edges of bins of half a unit."""
    size = run.pick('size', range(2, 6 if run.thorough else 5))
    first, events = 0, []
    for k in range(size):
        cell = run.pick('cell%d' % k, range(first, len(EDGES)))
        events.append(EDGES[cell])
        first = cell
    run.commit()
    span = events[-1][0] - events[0][0]
    if not span:
        return
    # magnitudes count to two decimals
    jitter = run.pick('jitter', (0., 0.0042, -0.0042, 'mixed'))
    events = [(y, m + ((-1) ** k * 0.0042 if jitter == 'mixed' else jitter))
              for k, (y, m) in enumerate(events)]
    run.note(events=events)
    for setting in ((0.5, 1, 0.2, True), (0.5, 2, 0.1, False),
                    (1.0, 1, 0.2, False)):
        judge(run, events, *setting)


def histories(run):
    """Catalogues of three bins, each with one of several histories."""
    patterns = {
        'steady': range(1980, 2020, 2), 'recent': range(2008, 2020),
        'once': [1995], 'stopped': range(1980, 1996, 3),
        'gap': list(range(1980, 1988)) + list(range(2010, 2020, 2)),
        'growing': [1980, 1999, 2008, 2012, 2014, 2015, 2016, 2017, 2018],
        'none': []}
    names = sorted(patterns)
    mags = (4.05, 4.65, 5.25, 5.85)
    events = []
    picked = []
    for k in range(4 if run.thorough else 3):
        name = run.pick('bin%d' % k, names)
        picked.append(name)
        events += [(year, mags[k]) for year in patterns[name]]
    dt = run.pick('dt', (1, 2, 5, 10))
    run.commit()
    if len(set(e[0] for e in events)) < 2 or max(events)[0] - min(
            events)[0] + 2 <= dt:
        return
    run.note(histories=picked, dt=dt)
    for ttol in (0.05, 0.2, 0.6):
        for lock in (True, False):
            for dm in (0.3, 0.6, 2.):
                one = judge(run, events, dm, dt, ttol, lock)
                two = judge(run, events[::-1], dm, dt, ttol, lock)
                run.check(one is None or two is None or
                          np.allclose(one, two, rtol=0, atol=1e-9),
                          'the order of the events matters')


def long_histories(run):
    """Long catalogues: many years, many bins, many events."""
    span = run.pick('span', (60, 130, 400))
    bins = run.pick('bins', (6, 20, 45))
    every = run.pick('every', (3, 17))
    dt = run.pick('dt', (1, 5, 20))
    ttol = run.pick('ttol', (0.02, 0.2))
    run.commit()
    events = []
    for j in range(bins):
        since = 2010 - span * (j + 2) // (bins + 2)
        for k, year in enumerate(range(since, 2011, 1 + j % every)):
            events += [(year, round(2.05 + 0.1 * j, 2))] * (1 + (k * j) % 3)
        events.append((2010 - span, round(2.05 + 0.1 * j, 2)))
    run.note(span=span, bins=bins, every=every, dt=dt, events=len(events))
    for dm in (0.1, 0.7):
        for lock in (True, False):
            judge(run, events, dm, dt, ttol, lock)


# -- S02 -------------------------------------------------------------------
def select(run, years, mags, table, flags):
    """The selection on copies, judged against the model."""
    years, mags, flags = (np.array(v, dtype=float)
                          for v in (years, mags, flags))
    table = np.array(table, dtype=float).reshape((-1, 2))
    kept = [v.copy() for v in (years, mags, table, flags)]
    out = run.call(selected_eq_flag_vector, years, mags, table[:, 0],
                   table[:, 1], flags)
    for one, two in zip(kept, (years, mags, table, flags)):
        run.check(np.array_equal(one, two), 'an input was changed')
    run.check(np.shape(out) == np.shape(years), 'shape %r', np.shape(out))
    got = [int(v) for v in out]
    want = [ref_selected(y, m, table.tolist(), f)
            for y, m, f in zip(years, mags, flags)]
    run.check(got == want, 'selected %r, expected %r (table %r)', got, want,
              table.tolist())
    run.outcome(got)
    return got


ROWS = [(year, mag) for year in (1990., 2000., 2010.)
        for mag in (4., 4.5, 5.)]
EVENTS = [(year, mag, flag) for year in (1989., 1990., 1999., 2000., 2010.)
          for mag in (3.9, 4., 4.4, 4.5, 5., 6.) for flag in (0, 1, -1)]


def tables(run):
    """Every table of up to three rows, every event of a grid."""
    size = run.pick('rows', range(0, 4))
    table = [run.pick('row%d' % k, ROWS) for k in range(size)]
    run.commit()
    run.note(table=table, events=len(EVENTS))
    years, mags, flags = zip(*EVENTS)
    got = select(run, years, mags, table, flags)
    back = select(run, years[::-1], mags[::-1], table, flags[::-1])
    run.check(got == back[::-1], 'the order of the events matters')
    for k in range(0, len(EVENTS), 7):
        one = select(run, years[k:k + 1], mags[k:k + 1], table,
                     flags[k:k + 1])
        run.check(one == got[k:k + 1], 'alone %r, together %r', one,
                  got[k:k + 1])


def sequences(run):
    """Every short sequence of events against one table."""
    table = run.pick('table', [
        [(1990., 4.)], [(2010., 4.), (2000., 4.5), (1990., 5.)],
        [(1990., 5.), (2010., 4.)], [(2000., 4.), (2000., 4.5)]])
    size = run.pick('size', range(0, 4))
    menu = EVENTS[::4]
    events = [run.pick('event%d' % k, menu) for k in range(size)]
    run.commit()
    run.note(table=table, events=events)
    columns = list(zip(*events)) or [(), (), ()]
    select(run, columns[0], columns[1], table, columns[2])


def fractions(run):
    """Years within a year, and magnitudes close to each other."""
    size = run.pick('rows', range(1, 3))
    table = [(run.pick('since%d' % k, (1990.25, 1990.5, 1990.9999, 1991.)),
              run.pick('above%d' % k, (4., 4.05, 4.0001, 4.3 + 2. ** -51)))
             for k in range(size)]
    run.commit()
    events = [(year, mag, 0)
              for year in (1990., 1990.25 - 1e-9, 1990.25, 1990.4, 1990.5, 1990.75, 1990.9999,
                           1991., 1991.2)
              for mag in (3.9999, 4. - 1e-8, 4. - 2. ** -51, 4., 4. + 2. ** -50,
                          4.00005, 4.0001 - 1e-8, 4.0001, 4.03, 4.05, 4.1,
                          4.3)]
    run.note(table=table, events=len(events))
    columns = list(zip(*events))
    select(run, columns[0], columns[1], table, columns[2])


def long_selection(run):
    """Many events against tables of many rows."""
    rows = run.pick('rows', (1, 5, 9, 16, 33))
    number = run.pick('events', (100, 127, 128, 129, 255, 256, 257, 1000,
                                 1024, 1025))
    order = run.pick('order', ('falling', 'rising', 'mixed'))
    run.commit()
    run.note(rows=rows, events=number, order=order)
    table = [(2000. - 7 * k, 3. + 0.1 * k) for k in range(rows)]
    if order == 'rising':
        table.reverse()
    elif order == 'mixed':
        table = table[::2] + table[1::2]
    columns = list(zip(*[
        (1750. + 37 * k % 270, 2.5 + 0.17 * (k % 23),
         (0, 0, 1, 0, -1)[k % 5]) for k in range(number)]))
    select(run, columns[0], columns[1], table, columns[2])


# -- S03 -------------------------------------------------------------------
def monotone(run):
    """More complete tables keep more; complete events are never lost."""
    years = [run.pick('since%d' % k, (1985., 1995., 2005., 2015.))
             for k in range(3)]
    raised = run.pick('raised', range(3))
    run.commit()
    # complete since, for magnitudes from 4, 4.5 and 5: never increasing
    years = sorted(years, reverse=True)
    table = list(zip(years, (4., 4.5, 5.)))
    events = [(float(y), m, 0) for y in range(1980, 2021, 5)
              for m in (3.5, 4., 4.2, 4.5, 4.9, 5., 7.)]
    run.note(table=table)
    columns = list(zip(*events))
    got = select(run, columns[0], columns[1], table, columns[2])
    for (year, mag, _), dropped in zip(events, got):
        since = [y for y, m in table if m <= mag]
        if since and year >= since[-1]:
            run.check(not dropped, 'the event %r %r is complete in %r and '
                      'is dropped', year, mag, table)
        if mag < 4. and year < min(years):
            run.check(dropped, 'the event %r %r is complete nowhere in %r '
                      'and is kept', year, mag, table)
    later = [(y + 7. if k == raised else y, m)
             for k, (y, m) in enumerate(table)]
    more = select(run, columns[0], columns[1], later, columns[2])
    for k in range(len(events)):
        run.check(more[k] >= got[k], 'a later year of completeness keeps '
                  'event %r', events[k])
    flags = [(-1, 0, 1)[k % 3] for k in range(len(events))]
    clustered = select(run, columns[0], columns[1], table, flags)
    for k in range(len(events)):
        run.check(clustered[k] == (1 if flags[k] else got[k]),
                  'event %r with flag %d: %d', events[k], flags[k],
                  clustered[k])
    run.outcome(table, got)


CHECKS = {
    'S01': {
        'scenarios': lambda tier: [('multisets', multisets, 0),
                                   ('edges', on_the_edges, 0),
                                   ('decimal edges', decimal_edges, 0),
                                   ('histories', histories, 0),
                                   ('long', long_histories, 0)],
        'assumptions': [
            'magnitudes off the edges of the bins, but for bins of half a '
            'unit, and catalogues that span '
            'at least one time window and one magnitude bin',
            'cases in which a slope is within 1e-7 of the tolerance are '
            'judged by structure only'],
        'bounds': {
            'quick': 'every multiset of 2..4 events over 5 years and 3 '
                     'magnitudes, 5 settings, and over 4 years and 4 edges of '
                     'bins; every triple of 7 histories '
                     'over 40 years, 4 x 3 x 2 x 3 settings, both orders; '
                     '54 catalogues of up to 45 bins over up to 400 years',
            'thorough': 'multisets of up to 5 events; 4 histories'}},
    'S02': {
        'scenarios': lambda tier: [('tables', tables, 0),
                                   ('sequences', sequences, 0),
                                   ('fractions', fractions, 0),
                                   ('long', long_selection, 0),
                                   ('monotone', monotone, 0)],
        'assumptions': ['the rule is the one of the code: an event is dropped '
                        'when some row has a later year and a larger '
                        'magnitude'],
        'bounds': {
            'quick': 'every table of up to 3 of 9 rows against 90 events; '
                     'every sequence of up to 3 of 23 events against 4 '
                     'tables; 10 numbers of up to 1025 events x 5 of up to '
                     '33 rows x 3 orders; 64 tables of non-increasing years x 3 changes; tables and '
                     'events less than a year and 0.1 units apart',
            'thorough': 'as quick'}},
}
