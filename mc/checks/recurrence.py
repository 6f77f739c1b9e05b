"""Recurrence parameters (R01..R04)."""

from fractions import Fraction
import math

import numpy as np

from mtoolkit.scientific.recurrence import (b_max_likelihood, b_maxlike_time,
                                            recurrence_analysis,
                                            recurrence_table, weichert,
                                            weichert_prep)

LOG10E = math.log10(math.e)


def near(got, want, rel=1e-8, absolute=1e-10):
    """Equal up to rounding; NaN equals NaN."""
    if math.isnan(want) or math.isnan(got):
        return math.isnan(want) and math.isnan(got)
    if math.isinf(want) or math.isinf(got):
        return want == got
    return abs(got - want) <= absolute + rel * abs(want)


def div(a, b):
    """IEEE division."""
    if b == 0:
        return float('nan') if a == 0 or math.isnan(a) else math.copysign(
            float('inf'), a)
    return a / b


def exact(value):
    """The decimal number that a float stands for."""
    return Fraction(repr(round(float(value), 10)))


def edges_from(low, width, number):
    """Edges of so many bins."""
    return [low + k * width for k in range(number + 1)]


# -- R01 -------------------------------------------------------------------
def table_of(run, years, mags, dm):
    """The table on copies of the catalogue."""
    years, mags = np.array(years, dtype=float), np.array(mags, dtype=float)
    kept = years.copy(), mags.copy()
    out = run.call(recurrence_table, mags, dm, years)
    run.check(np.array_equal(kept[0], years) and
              np.array_equal(kept[1], mags), 'the catalogue was changed')
    return out


def check_table(run, years, mags, dm):
    """Counts, sums and rates of one recurrence table."""
    out = table_of(run, years, mags, dm)
    run.check(np.ndim(out) == 2 and np.shape(out)[1] == 5, 'shape %r',
              np.shape(out))
    size, span = len(mags), max(years) - min(years) + 1.
    count = [float(v) for v in out[:, 1]]
    run.check(sum(count) == size, '%r events counted of %d', sum(count), size)
    low, width = exact(math.floor(10 * exact(min(mags))) / 10.), exact(dm)
    inside = {}
    for mag in mags:
        k = (exact(mag) - low) // width
        inside[k] = inside.get(k, 0) + 1
    run.check(len(out) > max(inside), '%d bins do not reach %r', len(out),
              max(mags))
    above = np.cumsum(count[::-1])[::-1]
    for k, row in enumerate(out):
        run.check(row[2] == above[k], 'row %d: %r events at or above, '
                  'expected %r', k, row[2], above[k])
        run.check(near(row[3], row[1] / span) and near(row[4],
                                                       row[2] / span),
                  'row %d: rates %r %r of %r %r in %r years', k, row[3],
                  row[4], row[1], row[2], span)
        run.check(near(row[0], float(low + (k + Fraction(1, 2)) * width),
                       1e-9), 'row %d: magnitude %r', k, row[0])
        run.check(inside.get(k, 0) == row[1], 'row %d: %r events in the bin '
                  'of %r, expected %d', k, row[1], row[0], inside.get(k, 0))
    run.outcome(dm, count, span)


def tables(run):
    """Every multiset of events: counts, sums and rates."""
    dm = run.pick('dm', (0.1, 0.2, 0.25, 0.3, 0.5, 1.0))
    size = run.pick('size', range(1, 6 if run.thorough else 5))
    menu = (4.0, 4.13, 4.3, 4.57, 4.6, 5.0, 5.91, 6.2, 7.0)
    first, mags = 0, []
    for k in range(size):
        which = run.pick('mag%d' % k, range(first, len(menu)))
        mags.append(menu[which])
        first = which
    run.commit()
    run.note(dm=dm, mags=mags)
    for years in ([2000 + 3 * k for k in range(size)],
                  [2010 - k * k for k in range(size)], [1999] * size,
                  [1987.71 + 2.6 * k for k in range(size)]):
        for order in (1, -1):
            check_table(run, years, mags[::order], dm)


def fine_table(run):
    """Every magnitude with two decimals falls in one bin."""
    dm = run.pick('dm', (0.1, 0.2, 0.5, 0.05, 0.02, 0.01))
    low = run.pick('low', [k / 100. for k in range(380, 420)])
    run.commit()
    run.note(dm=dm, low=low)
    mags = [round(low + k / 100., 2) for k in range(0, 320)]
    check_table(run, [2000] * 160 + [2004] * 160, mags, dm)
    for k in range(0, 320, 20):
        check_table(run, [2000, 2001], [low, round(low + k / 100., 2)], dm)
        # later decimals, just above and below
        for more in (0.004, -0.004, 0.0004, -0.0004, 0.00001, -0.00001):
            check_table(run, [2000, 2001], [
                round(low + more, 5), round(low + k / 100. - more, 5)], dm)


NUMBERS = (50, 127, 128, 129, 255, 256, 257, 1000, 1025)


def many(number, bins, span, low=4.03):
    """Many events: years and magnitudes off the edges of tenths."""
    return [(2010. - (k * k + 7 * k) % (span + 1),
             round(low + 0.1 * ((k * k * 3 + k) % (k % bins + 1)), 2))
            for k in range(number)]


def long_tables(run):
    """Many events in many bins."""
    number = run.pick('events', NUMBERS)
    bins = run.pick('bins', (2, 9, 30, 55))
    span = run.pick('span', (0, 1, 40, 300, 1500))
    run.commit()
    run.note(events=number, bins=bins, span=span)
    events = many(number, bins, span)
    for order in (1, -1):
        years, mags = zip(*events[::order])
        for dm in (0.1, 0.2):
            check_table(run, years, mags, dm)


# -- R02 -------------------------------------------------------------------
def ref_bender(centres, counts, dm, m_c):
    """b-value and its error of binned magnitudes (Aki, Bender)."""
    rows = [(m, n) for m, n in zip(centres, counts) if m >= m_c]
    total = float(sum(n for _, n in rows))
    lowest = min(m for m, _ in rows)
    mean = div(sum(m * n for m, n in rows), total)
    b = div(LOG10E, mean - lowest + dm / 2.)
    spread = div(sum(n * (m - mean) ** 2 for m, n in rows),
                 total * (total - 1))
    return b, 2.3 * b * b * (math.sqrt(spread) if spread >= 0
                             else float('nan'))


def bender(run):
    """Every vector of counts over up to five bins."""
    bins = run.pick('bins', range(1, 6))
    counts = [run.pick('n%d' % k, (0, 1, 3, 20)) for k in range(bins)]
    dm = run.pick('dm', (0.1, 0.5))
    run.commit()
    run.note(counts=counts, dm=dm)
    centres = [4. + dm / 2. + k * dm for k in range(bins)]
    for m_c in (0., 4., 4. + dm, 4. + dm * 1.2, 4. + 2 * dm + dm / 4.):
        rows = [n for m, n in zip(centres, counts) if m >= m_c]
        if not rows or sum(rows) < 2:
            continue
        mval, obs = np.array(centres), np.array(counts, dtype=float)
        got = run.call(b_max_likelihood, mval, obs, dm, m_c)
        run.check(mval.tolist() == centres and obs.tolist() == counts,
                  'an input was changed')
        want = ref_bender(centres, counts, dm, m_c)
        run.check(near(got[0], want[0]) and near(got[1], want[1]),
                  'b %r expected %r (m_c %r)', got, want, m_c)
        run.outcome(round(want[0], 6), round(want[1], 6))


def ref_bins(mags, dm):
    """Bin centres and counts."""
    mags, width = [exact(m) for m in mags], exact(dm)
    low = Fraction(math.floor(10 * min(mags)), 10)
    number = int((max(mags) - low) // width) + 1
    counts = [0] * number
    for mag in mags:
        counts[int((mag - low) // width)] += 1
    return [low + (k + Fraction(1, 2)) * width for k in range(number)], counts


def ref_mle(years, mags, table, dm, ref_mag):
    """Weighted mean of the parameters of the periods of completeness."""
    periods = []
    for year, _ in table:
        if year not in periods:
            periods.append(year)
    parts = []
    for since in periods:
        m_c = min(m for y, m in table if y == since)
        events = [(y, m) for y, m in zip(years, mags)
                  if y >= since and m >= m_c - 1e-5]
        if not events:
            return None
        span = max(e[0] for e in events) - min(e[0] for e in events) + 1.
        centres, counts = ref_bins([e[1] for e in events], dm)
        if not any(c >= exact(m_c) for c in centres):
            return None
        if float(exact(m_c)) != m_c and exact(m_c) in centres:
            return None                  # decided by rounding
        counts = [n for c, n in zip(centres, counts) if c >= exact(m_c)]
        centres = [float(c) for c in centres if c >= exact(m_c)]
        b, sigma_b = ref_bender(centres, counts, dm, 0.)
        rate_c = math.log10(len(events) / span)
        a = rate_c + b * m_c
        sigma_a = abs(rate_c + (b + sigma_b) * ref_mag - a)
        rate = 10. ** (a - b * ref_mag)
        sigma_rate = 10. ** (a + sigma_a - b * ref_mag - math.log10(rate))
        parts.append((len(events), b, sigma_b, rate, sigma_rate))
    total = float(sum(p[0] for p in parts))
    return [sum(p[0] / total * p[k] for p in parts) for k in (1, 2, 3, 4)]


MLE_TABLES = [[(1980., 4.)], [(1990., 4.5)], [(2000., 4.), (1980., 5.)],
              [(2000., 4.), (2000., 4.5), (1985., 5.), (1985., 5.5)],
              [(2005., 4.), (1995., 4.5), (1980., 5.)],
              [(1980., 3.5), (1980., 4.)],
              [(1996., 4.), (1995.5, 4.5), (1995.25, 5.)],
              [(1985., 4.5), (1985., 4.)],
              [(1996., 5.), (1996., 4.), (1980., 5.5)],
              # no increment lock: rows of a period apart from each other
              [(1996., 4.), (1980., 4.5), (1996., 5.)],
              [(1985., 4.), (1996., 4.5), (1985., 5.), (2002., 5.5)],
              [(1985., 4.), (1996., 4.5), (1996., 5.), (1985., 5.5),
               (1996., 6.)]]


def mle(run):
    """Every multiset of events over a grid, with every table."""
    size = run.pick('size', range(2, 6 if run.thorough else 5))
    menu = [(y, m) for m in (4.03, 4.57, 5.18, 6.33)
            for y in (1981., 1996., 2003.6, 2011.)]
    first, events = 0, []
    for k in range(size):
        which = run.pick('event%d' % k, range(first, len(menu)))
        events.append(menu[which])
        first = which
    run.commit()
    run.note(events=events)
    for table in MLE_TABLES:
        for dm, ref in ((0.1, 4.), (0.2, 5.), (0.5, 0.)):
            judge_mle(run, events, table, dm, ref)


def judge_mle(run, events, table, dm, ref):
    """Compare both entry points with the model."""
    want = ref_mle([e[0] for e in events], [e[1] for e in events], table, dm,
                   ref)
    if want is None:
        return
    for turn in (1, -1):
        years = np.array([e[0] for e in events[::turn]])
        mags = np.array([e[1] for e in events[::turn]])
        rows = np.array(table)
        kept = years.copy(), mags.copy(), rows.copy()
        one = run.call(b_maxlike_time, years, mags, rows[:, 0], rows[:, 1],
                       dm, ref)
        two = run.call(recurrence_analysis, years, mags, rows, dm, 'MLE',
                       ref, 1.)
        for got in (one, two):
            run.check(len(got) == 4 and all(
                near(float(g), w, 1e-7) for g, w in zip(got, want)),
                'parameters %r, expected %r (table %r, dm %r, reference %r)',
                [float(g) for g in got], want, table, dm, ref)
        for a, b in zip(kept, (years, mags, rows)):
            run.check(np.array_equal(a, b), 'an input was changed')
    run.outcome([round(w, 5) if math.isfinite(w) else str(w) for w in want])


def at_completeness(run):
    """Events exactly at a completeness magnitude that was computed."""
    base = run.pick('base', (4.1, 4.3, 4.6, 5.2, 5.7))
    noise = run.pick('noise', (0., 1e-12, -1e-12, 1.8e-15, -1.8e-15, 1e-7))
    counts = [run.pick('n%d' % k, (1, 3)) for k in range(3)]
    run.commit()
    run.note(base=base, noise=noise, counts=counts)
    events = []
    for k, mag in enumerate((base, base + 0.43, base + 1.07)):
        events += [(1984. + 9 * j + k, mag) for j in range(counts[k])]
    events.append((1983., base - 0.33))
    for table in ([(1980., base + noise)],
                  [(1992., base + noise), (1980., base + 0.91)]):
        for dm in (0.1, 0.2):
            judge_mle(run, events, table, dm, 4.)


def decimal_mle(run):
    """Events of tenths, in bins of tenths, complete from a bin's centre."""
    dm = run.pick('dm', (0.1, 0.2, 0.3, 0.4))
    low = run.pick('low', [k / 10. for k in range(20, 51)])
    above = run.pick('above', (0, 1, 2, 3, 4, 6))
    run.commit()
    run.note(dm=dm, low=low, above=above)
    for top in range(above + 1, above + 20, 3):
        events = [(1960. + (7 * k) % 50, round(low + (k * k) % (top + 1) / 10.,
                                               1)) for k in range(2 * top)]
        for table in ([(1960., round(low + above / 10., 1))],
                      [(1980., low), (1960., round(low + above / 10., 1))]):
            judge_mle(run, events, table, dm, 4.)


def mle_rows(run):
    """Every table of up to four rows, in any order of years and sizes."""
    size = run.pick('rows', range(1, 5))
    sizes = run.permutation('mag', (4., 4.5, 5., 3.5)[:size])
    since = (1980., 1996., 2003.) if size < 4 or run.thorough else (
        1980., 1996.)
    table = [(run.pick('since%d' % k, since), sizes[k]) for k in range(size)]
    run.commit()
    run.note(table=table)
    for events in ([(1978. + (11 * k) % 37, round(3.53 + 0.01 * ((k * k) % 223), 2))
                    for k in range(60)],
                   [(1985. + (5 * k) % 21, 4.02 + 0.5 * (k % 4))
                    for k in range(19)]):
        for dm, ref in ((0.1, 4.), (0.5, 5.)):
            judge_mle(run, events, table, dm, ref)


def mle_histories(run):
    """Longer catalogues: counts per period and bin."""
    periods = ((1980., 1994.), (1995., 2004.), (2005., 2014.))
    mags = (4.03, 4.57, 5.18, 6.33)
    counts = [[run.pick('n%d%d' % (p, m), (0, 2) if m else (1, 8))
               for m in range(len(mags))] for p in range(3)]
    run.commit()
    events = []
    for p, (start, end) in enumerate(periods):
        for m, mag in enumerate(mags):
            for k in range(counts[p][m]):
                events.append((start + (k * 7 + m) % (end - start + 1), mag))
    run.note(counts=counts)
    for table in MLE_TABLES if run.thorough else MLE_TABLES[2:5] + MLE_TABLES[6:]:
        judge_mle(run, events, table, 0.2, 4.5)


def long_mle(run):
    """Many events, many rows of completeness."""
    number = run.pick('events', NUMBERS)
    bins = run.pick('bins', (9, 30))
    span = run.pick('span', (40, 300))
    rows = run.pick('rows', (1, 2, 5, 9, 24))
    run.commit()
    run.note(events=number, bins=bins, span=span, rows=rows)
    table = [(2010. - span * (k // 2 + 1) // (6 if rows < 24 else 15),
              3.98 + (0.1 if rows < 24 else 0.03) * k)
             for k in range(rows)]
    for dm, ref in ((0.1, 4.), (0.2, 5.5)):
        judge_mle(run, many(number, bins, span), table, dm, ref)


# -- R03 -------------------------------------------------------------------
def ref_prep(years, mags, table, dm, dt):
    """Centres, periods and counts of the complete part of a catalogue."""
    mags = [Fraction(round(10 * exact(m)), 10) for m in mags]
    dm, dt, table = exact(dm), exact(dt), [(exact(y), exact(m))
                                           for y, m in table]
    years = [exact(y) for y in years]
    first, low = min(years), min(mags)
    number = math.ceil((max(mags) - low) / dm + Fraction(1, 2))
    counts = [0.] * number
    for year, mag in zip(years, mags):
        j = int((mag - low) // dm)
        since = first + (year - first) // dt * dt
        if not any(since < y and low + j * dm < m for y, m in table):
            counts[j] += 1.
    edges = edges_from(low, dm, number)
    spans = []
    for edge in edges[:-1]:
        rows = [y for y, m in table if m <= edge]
        since = rows[-1] if rows else table[-1][0]
        spans.append(float(max(years) - since + 1))
    centres = [float((a + b) / 2) for a, b in zip(edges, edges[1:])]
    return centres, spans, counts


PREP_TABLES = [[(1980., 4.)], [(2000., 4.), (1980., 5.)],
               [(2005., 4.), (1995., 4.5), (1985., 5.)],
               [(1990., 4.5), (1990., 5.)], [(2010., 4.), (1980., 6.)],
               [(1970., 4.), (1960., 5.)],
               [(2000.5, 4.02), (1995., 4.55), (1990., 5.25)],
               [(1980., 5.), (2005., 4.25)]]


def prep(run):
    """Every multiset of events over a grid, with every table."""
    size = run.pick('size', range(1, 6 if run.thorough else 5))
    menu = [(y, m) for m in (4., 4.5, 5.5, 6.) for y in (1980., 1995., 2000.4,
                                                         2012.)]
    first, events = 0, []
    for k in range(size):
        which = run.pick('event%d' % k, range(first, len(menu)))
        events.append(menu[which])
        first = which
    run.commit()
    run.note(events=events)
    for table in PREP_TABLES:
        for dm, dt in ((0.5, 1.), (0.5, 5.), (1., 0.5), (0.25, 10.)):
            want = ref_prep([e[0] for e in events], [e[1] for e in events],
                            table, dm, dt)
            for turn in (1, -1):
                years = np.array([e[0] for e in events[::turn]])
                # magnitudes are rounded to one decimal
                mags = np.array([e[1] for e in events[::turn]]) + 0.03 * turn
                rows = np.array(table)
                kept = years.copy(), mags.copy(), rows.copy()
                got = run.call(weichert_prep, years, mags, rows[:, 0],
                               rows[:, 1], dm, dt)
                for name, g, w in zip(('centres', 'periods', 'counts'), got,
                                      want):
                    run.check(len(g) == len(w) and np.allclose(
                        g, w, rtol=0, atol=1e-9), '%s %r, expected %r '
                        '(table %r, dm %r, dt %r)', name, list(g), w, table,
                        dm, dt)
                for a, b in zip(kept, (years, mags, rows)):
                    run.check(np.array_equal(a, b), 'an input was changed')
            run.outcome(want)


def decimal_prep(run):
    """Events on the edges of bins and years of tenths, as in practice."""
    dm = run.pick('dm', (0.1, 0.2, 0.3))
    dt = run.pick('dt', (0.1, 0.2, 1., 0.3))
    low = run.pick('low', [k / 10. for k in range(20, 51, 3)])
    start = run.pick('start', (1900., 1961., 1987.))
    run.commit()
    run.note(dm=dm, dt=dt, low=low, start=start)
    for top in range(1, 29, 1 if run.thorough else 3):
        mags = [round(low + k / 10., 1) for k in range(top + 1)]
        years = [start + (7 * k) % 24 for k in range(len(mags))]
        middle = mags[top // 2]
        for table in ([(start + 14., low)],
                      [(start + 21., low), (start + 7., middle)],
                      [(start + 14., low), (start + 7., middle),
                       (start, mags[-1])]):
            want = ref_prep(years, mags, table, dm, dt)
            rows = np.array(table)
            got = run.call(weichert_prep, np.array(years), np.array(mags),
                           rows[:, 0], rows[:, 1], dm, dt)
            for name, g, w in zip(('centres', 'periods', 'counts'), got,
                                  want):
                run.check(len(g) == len(w) and np.allclose(
                    g, w, rtol=0, atol=1e-9), '%s %r, expected %r '
                    '(table %r, magnitudes %r, years %r)', name, list(g), w,
                    table, mags, years)
            run.outcome(want)


def prep_rows(run):
    """Every table of up to four rows, in any order of years and sizes."""
    size = run.pick('rows', range(1, 5))
    sizes = run.permutation('mag', (4., 4.5, 5., 3.5)[:size])
    since = (1978., 1991., 2001.) if size < 4 or run.thorough else (
        1978., 1991.)
    table = [(run.pick('since%d' % k, since), sizes[k]) for k in range(size)]
    run.commit()
    run.note(table=table)
    events = [(1971. + (11 * k) % 41, round(3.5 + 0.1 * ((k * k) % 23), 1))
              for k in range(60)]
    for dm, dt in ((0.1, 1.), (0.5, 1.), (0.5, 7.)):
        years, mags = (np.array(v) for v in zip(*events))
        want = ref_prep(years.tolist(), mags.tolist(), table, dm, dt)
        rows = np.array(table)
        got = run.call(weichert_prep, years, mags, rows[:, 0], rows[:, 1],
                       dm, dt)
        for name, g, w in zip(('centres', 'periods', 'counts'), got, want):
            run.check(len(g) == len(w) and np.allclose(
                g, w, rtol=0, atol=1e-9), '%s %r, expected %r (table %r, dm '
                '%r, dt %r)', name, list(g), w, table, dm, dt)
        run.outcome(dm, dt, want)


def long_prep(run):
    """Many events, many rows of completeness."""
    number = run.pick('events', NUMBERS[:-2])
    bins = run.pick('bins', (9, 30))
    span = run.pick('span', (40, 300))
    rows = run.pick('rows', (1, 2, 5, 9, 33))
    run.commit()
    run.note(events=number, bins=bins, span=span, rows=rows)
    table = [(2010. - span * (k // 2 + 1) // max(6, rows // 2 + 2),
              4. + 0.5 * k)
             for k in range(rows)]
    events = [(year, 4. + 0.5 * round((mag - 4.03) * 10))
              for year, mag in many(number, bins, span)]
    years, mags = (np.array(v) for v in zip(*events))
    for dm, dt in ((0.5, 1.), (1., 5.)):
        want = ref_prep(years.tolist(), mags.tolist(), table, dm, dt)
        rows = np.array(table)
        got = run.call(weichert_prep, years, mags, rows[:, 0], rows[:, 1],
                       dm, dt)
        for name, g, w in zip(('centres', 'periods', 'counts'), got, want):
            run.check(len(g) == len(w) and np.allclose(
                g, w, rtol=0, atol=1e-9), '%s %r, expected %r (table %r)',
                name, list(g), w, table)
        run.outcome(number, bins, span, rows, sum(want[2]))


def prep_lengths(run):
    """Tables whose columns differ in length are refused."""
    one = run.pick('years', range(1, 4))
    two = run.pick('magnitudes', range(1, 4))
    run.commit()
    run.note(years=one, magnitudes=two)
    _, error = run.attempt(
        weichert_prep, np.array([1990., 2000.]), np.array([4., 5.]),
        np.array([1990. - k for k in range(one)]),
        np.array([4. + k for k in range(two)]), 0.5, 1.)
    run.check((error is None) == (one == two), '%d years and %d magnitudes '
              'give %r', one, two, error)
    run.outcome(one == two)


# -- R04 -------------------------------------------------------------------
def mean_of(beta, mags, spans):
    """Mean magnitude of the distribution, relative to the lowest."""
    weights = [t * math.exp(-beta * (m - mags[0]))
               for m, t in zip(mags, spans)]
    total = sum(weights)
    mean = sum(w * (m - mags[0]) for m, w in zip(mags, weights)) / total
    square = sum(w * (m - mags[0]) ** 2
                 for m, w in zip(mags, weights)) / total
    return mean, square - mean ** 2


def ref_weichert(mags, spans, counts, ref_mag):
    """The maximum of the likelihood, by bisection; None when there is none."""
    total = float(sum(counts))
    if len(mags) < 2 or not total > 0:
        return None
    if total in (counts[0], counts[-1]):
        return None
    target = sum(n * (m - mags[0]) for m, n in zip(mags, counts)) / total
    low, high = -200., 200.
    for _ in range(200):
        mid = (low + high) / 2.
        if mean_of(mid, mags, spans)[0] > target:
            low = mid
        else:
            high = mid
    beta = (low + high) / 2.
    variance = mean_of(beta, mags, spans)[1]
    step = mags[1] - mags[0]
    rate = total * sum(math.exp(-beta * (m - mags[0])) for m in mags) / sum(
        t * math.exp(-beta * (m - mags[0])) for m, t in zip(mags, spans))
    a = rate * math.exp(-beta * (ref_mag - (mags[0] - step / 2.)))
    sigma = math.sqrt(1. / (total * variance))
    return (beta / math.log(10.), sigma / math.log(10.), a,
            a / math.sqrt(total))


def estimate(run, mags, spans, counts, ref_mag, **more):
    """The estimate on copies, or None when it refuses."""
    args = [np.array(v, dtype=float) for v in (spans, mags, counts)]
    kept = [v.copy() for v in args]
    out, error = run.attempt(weichert, args[0], args[1], args[2], ref_mag,
                             **more)
    for one, two in zip(kept, args):
        run.check(np.array_equal(one, two, equal_nan=True), 'an input was changed')
    if error is not None:
        run.check(isinstance(error, ValueError), 'raised %r', error)
        return None
    return [float(v) for v in out]


def converges(mags, spans, counts):
    """Does Newton's method, started where the code starts, converge?"""
    total = float(sum(counts))
    if total in (counts[0], counts[-1]):
        return False
    target = sum(n * (m - mags[0]) for m, n in zip(mags, counts)) / total
    beta, steps = 1.5, []
    for _ in range(60):
        mean, variance = mean_of(beta, mags, spans)
        if variance <= 0:
            return False
        step = (mean - target) / variance
        beta += step
        steps.append(abs(step))
        if abs(beta) > 15:
            return False
        if abs(step) < 1e-9:
            return max(steps) < 8
    return False


def close(got, want):
    """Agreement within what the stabilisation tolerance allows."""
    return (near(got[0], want[0], 1e-5, 1e-6) and
            all(near(g, w, 5e-4, 1e-12) for g, w in zip(got[1:], want[1:])))


def likelihood(run):
    """Every vector of counts and periods over up to four bins."""
    deep = run.thorough
    bins = run.pick('bins', range(2, 6 if deep else 5))
    menu = (0, 1, 4, 30) if bins < 4 else (0, 2, 15)
    counts = [run.pick('n%d' % k, menu) for k in range(bins)]
    spans = [run.pick('t%d' % k, (0.4, 5., 40., 300.) if bins < 4 else (10., 150.))
             for k in range(bins)]
    run.commit()
    run.note(counts=counts, spans=spans)
    for step in (0.1, 0.5):
        mags = [4.25 + step * k for k in range(bins)]
        for ref in (4., 5.5):
            want = ref_weichert(mags, spans, counts, ref)
            got = estimate(run, mags, spans, counts, ref)
            if want is None or not converges(mags, spans, counts):
                run.outcome('undefined', got is None)
                if got is None or want is None:
                    # all events in one end bin: the slope has no maximum
                    run.check(got is None or abs(got[0]) > 3 or
                              not all(map(math.isfinite, got)),
                              'estimate %r of counts %r', got, counts)
                    continue
            run.check(got is not None, 'no estimate, expected %r', want)
            run.check(close(got, want), 'estimate %r, expected %r (mags %r, '
                      'reference %r)', got, want, mags, ref)
            run.outcome([round(w, 4) for w in want])


def long_likelihood(run):
    """Many bins, many events."""
    bins = run.pick('bins', (6, 10, 25, 60))
    slope = run.pick('slope', (0.6, 0.9, 1.3))
    most = run.pick('most', (40, 1000, 50000))
    fall = run.pick('periods', ('same', 'growing', 'steps'))
    step = run.pick('step', (0.1, 0.25, 0.5))
    run.commit()
    run.note(bins=bins, slope=slope, most=most, periods=fall, step=step)
    spans = [50. if fall == 'same' else 20. + 9. * k if fall == 'growing'
             else (30., 80., 400.)[3 * k // bins] for k in range(bins)]
    mags = [4.05 + step * k for k in range(bins)]
    counts = [round(most * 10. ** (-slope * step * k) * t / spans[0] +
                    (k % 3) * 0.3) for k, t in enumerate(spans)]
    want = ref_weichert(mags, spans, counts, 5.)
    if want is None or not converges(mags, spans, counts):
        return
    got = estimate(run, mags, spans, counts, 5.)
    run.check(got is not None and close(got, want), 'estimate %r, expected '
              '%r', got, want)
    run.outcome([round(w, 4) for w in want])


def scaling(run):
    """Longer periods, more events, another reference magnitude."""
    counts = [run.pick('n%d' % k, (1, 6, 25) if k < 2 else (0, 3))
              for k in range(4)]
    spans = [run.pick('t%d' % k, (20., 90.)) for k in range(4)]
    run.commit()
    run.note(counts=counts, spans=spans)
    spans = sorted(spans)
    mags = [4.1 + 0.2 * k for k in range(4)]
    if not converges(mags, spans, counts):
        return
    base = estimate(run, mags, spans, counts, 5.)
    run.check(base is not None, 'no estimate')
    longer = estimate(run, mags, [3. * t for t in spans], counts, 5.)
    run.check(longer is not None and close(longer, [
        base[0], base[1], base[2] / 3., base[3] / 3.]),
        'tripled periods: %r from %r', longer, base)
    more = estimate(run, mags, spans, [4 * n for n in counts], 5.)
    run.check(more is not None and close(more, [
        base[0], base[1] / 2., base[2] * 4., base[3] * 2.]),
        'fourfold counts: %r from %r', more, base)
    for ref in (3.5, 4., 4.7, 6., 0.05, -1.):
        moved = estimate(run, mags, spans, counts, ref)
        factor = 10. ** (-base[0] * (ref - 5.))
        run.check(moved is not None and close(moved, [
            base[0], base[1], base[2] * factor, base[3] * factor]),
            'reference %r: %r from %r', ref, moved, base)
    shifted = estimate(run, [m + 1. for m in mags], spans, counts, 6.)
    run.check(shifted is not None and close(shifted, base),
              'all one magnitude larger: %r from %r', shifted, base)
    run.outcome([round(v, 4) for v in base])


def endings(run):
    """Counts without a maximum: the estimate is refused, and ends."""
    bins = run.pick('bins', range(0, 5))
    where = run.pick('bin', range(max(bins, 1)))
    count = run.pick('count', (0, 1, 7, float('nan')))
    spans = [run.pick('t%d' % k, (1., 30., 1000.)) for k in range(bins)]
    run.commit()
    run.note(bins=bins, bin=where, count=count, spans=spans)
    counts = [count if k == where else 0 for k in range(bins)]
    mags = [4.25 + 0.5 * k for k in range(bins)]
    got = estimate(run, mags, spans, counts, 5.)
    if got is not None:
        middle = 0 < where < bins - 1 and count in (1, 7)
        run.check(middle or not all(map(math.isfinite, got)) or
                  abs(got[0]) > 3, 'estimate %r of counts %r', got, counts)
    run.outcome(got is None)


def composed(run):
    """The analysis is the preparation followed by the estimate."""
    counts = [[run.pick('n%d%d' % (p, m), (0, 3) if m else (2, 9))
               for m in range(3)] for p in range(3)]
    which = run.pick('table', range(len(PREP_TABLES)))
    run.commit()
    events = []
    for p, start in enumerate((1981., 1995., 2006.)):
        for m, mag in enumerate((4., 4.5, 5.5)):
            for k in range(counts[p][m]):
                events.append((start + (k * 5 + m) % 9, mag))
    run.note(counts=counts, table=PREP_TABLES[which])
    years = np.array([e[0] for e in events])
    mags = np.array([e[1] for e in events])
    for dm, dt, ref in ((0.5, 1., 4.), (0.5, 5., 5.)):
        centres, spans, number = ref_prep(
            years.tolist(), mags.tolist(), PREP_TABLES[which], dm, dt)
        want = ref_weichert(centres, spans, number, ref)
        rows = np.array(PREP_TABLES[which])
        got, error = run.attempt(recurrence_analysis, years, mags, rows, dm,
                                 'Weichert', ref, dt)
        if want is None or not converges(centres, spans, number):
            continue
        run.check(error is None and close([float(g) for g in got], want),
                  'parameters %r %r, expected %r', got, error, want)
        run.outcome([round(w, 4) for w in want])


CHECKS = {
    'R01': {
        'scenarios': lambda tier: [('tables', tables, 0),
                                   ('every magnitude', fine_table, 0),
                                   ('long', long_tables, 0)],
        'assumptions': ['magnitudes and widths are decimal numbers of up '
                        'to ten decimals'],
        'bounds': {
            'quick': 'every multiset of up to 4 of 9 magnitudes, 6 bin '
                     'widths, 3 sets of years, both orders; every magnitude '
                     'of two decimals over 3 units from 40 origins, bins of '
                     '0.01 to 0.5; 180 '
                     'catalogues of up to 1025 events, 55 bins, 1500 years',
            'thorough': 'multisets of up to 5'}},
    'R02': {
        'scenarios': lambda tier: [('bins', bender, 0),
                                   ('catalogues', mle, 0),
                                   ('at completeness', at_completeness, 0),
                                   ('decimals', decimal_mle, 0),
                                   ('long', long_mle, 0),
                                   ('rows', mle_rows, 0),
                                   ('histories', mle_histories, 0)],
        'assumptions': ['magnitudes and widths are decimal numbers of up '
                        'to ten decimals'],
        'bounds': {
            'quick': 'every vector of 4 counts over up to 5 bins; every '
                     'multiset of 2..4 events over 4 years and 4 magnitudes '
                     'x 7 tables x 3 settings; every history of 12 counts; '
                     '5 x 6 completeness magnitudes at, or 1e-15 to 1e-7 '
                     'beside, the magnitude of an event; catalogues of tenths '
                     'from 31 magnitudes on, 4 widths, complete from 6 '
                     'magnitudes on; every table of up to 3 rows over 3 years '
                     '(4 over 2), magnitudes in any order; 144 catalogues of '
                     'up to 1025 events and tables of up to 9 rows',
            'thorough': 'multisets of up to 5; 7 tables'}},
    'R03': {
        'scenarios': lambda tier: [('catalogues', prep, 0),
                                   ('decimals', decimal_prep, 0),
                                   ('rows', prep_rows, 0),
                                   ('long', long_prep, 0),
                                   ('lengths', prep_lengths, 0)],
        'assumptions': ['magnitudes, years and widths are decimal numbers '
                        'of up to ten decimals'],
        'bounds': {
            'quick': 'every multiset of up to 4 events over 4 years and 4 '
                     'magnitudes x 8 tables x 4 bin sizes, both orders; '
                     'catalogues of tenths from 11 magnitudes x 3 years on, '
                     'bins of 3 widths in magnitude and 4 in time; every '
                     'table of up to 3 rows over 3 years (4 over 2), '
                     'magnitudes in any order; 140 '
                     'catalogues of up to 257 events',
            'thorough': 'multisets of up to 5'}},
    'R04': {
        'scenarios': lambda tier: [('likelihood', likelihood, 0),
                                   ('long', long_likelihood, 0),
                                   ('scaling', scaling, 0),
                                   ('endings', endings, 0),
                                   ('composed', composed, 0)],
        'assumptions': ['a reference magnitude other than 0',
                        'an estimate is required where Newton iterations '
                        'from b = 0.65 converge; elsewhere a refusal '
                        '(ValueError) is accepted too'],
        'bounds': {
            'quick': 'every vector of counts and periods over 2..4 bins; '
                     'scaling and 6 reference magnitudes for 36 x 16 cases; counts in a single bin, '
                     'none, NaN; 3584 catalogues through the analysis; up to '
                     '60 bins of up to 50000 events',
            'thorough': 'up to 5 bins'}},
}
