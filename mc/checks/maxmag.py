"""Maximum magnitude (M01..M03)."""

import itertools
import math

import numpy as np

from mtoolkit.scientific.maximum_magnitude import (cum_mo_uncertainty,
                                                   cumulative_moment,
                                                   exp_spaced_points,
                                                   gauss_cdf_hastings,
                                                   h_smooth,
                                                   kijko_nonparametric_gauss,
                                                   kijko_npg_intfunc_simps,
                                                   maximum_magnitude_analysis)

# Abramowitz and Stegun 26.2.18
NORMAL = (0.196854, 0.115194, 0.000344, 0.019527)
# the quirks of the distribution function: (tail, sign)
GOOD, BAD = (False, False), (True, True)


# -- reference models ------------------------------------------------------
def quantile(values, prob):
    """Quantile with plotting positions (k - 0.4) / (n + 0.2)."""
    data = sorted(values)
    size = len(data)
    if size == 1:
        return data[0]
    place = size * prob + 0.4 + prob * 0.2
    k = int(math.floor(min(max(place, 1), size - 1)))
    part = min(max(place - k, 0.), 1.)
    return (1. - part) * data[k - 1] + part * data[k]


def ref_smooth(mags, quirk):
    """Silverman's bandwidth of two decimals; (value, distance to a tie)."""
    spread = (quantile(mags, 0.75) - quantile(mags, 0.25)) / 1.34
    if not quirk and len(mags) > 1:
        mean = sum(mags) / len(mags)
        spread = min(spread, math.sqrt(
            sum((m - mean) ** 2 for m in mags) / (len(mags) - 1.)))
    raw = 100. * 0.9 * spread * len(mags) ** -0.2
    return round(raw) / 100., abs(raw - math.floor(raw) - 0.5)


def ref_cdf(x, quirk):
    """The normal distribution as Hastings approximates it."""
    if x > 5.:
        return 1.
    if x < -5.:
        return 1. if quirk[0] else 0.
    size = abs(x)
    tail = 0.5 * (1. + sum(
        (-c if quirk[1] and k == 1 else c) * size ** (k + 1)
        for k, c in enumerate(NORMAL))) ** -4.
    return tail if x < 0 else 1. - tail


def ref_points(lower, upper, number):
    """Points equally spaced in their exponentials."""
    low, high = math.exp(lower), math.exp(upper)
    return [math.log(low + k * (high - low) / (number - 1.))
            for k in range(number)]


def ref_integral(points, mags, width, neq, quirk):
    """Trapezoidal integral of the distribution of the largest of neq."""
    low, high = min(points), max(points)
    if width <= 0.:
        return float('nan')
    base = [ref_cdf((low - m) / width, quirk) for m in mags]
    full = sum(ref_cdf((high - m) / width, quirk) for m in mags) - sum(base)
    if full == 0.:
        return float('nan')
    values = [((sum(ref_cdf((p - m) / width, quirk) for m in mags) -
                sum(base)) / full) ** neq for p in points]
    return sum(0.5 * (values[k] + values[k + 1]) * (points[k + 1] - points[k])
               for k in range(len(points) - 1))


def ref_kijko(mags, sigma_of, neq, samples, tolerance, most, observed,
              no_std, tail):
    """Acceptable (maximum, sigma) pairs, None when undefined."""
    if observed:
        top, sigmas = observed[0], [observed[1]]
    else:
        top = max(mags)
        sigmas = [s for m, s in sigma_of if m == top]
    kept = sorted(mags)[-neq:] if len(mags) > neq else list(mags)
    width, tie = ref_smooth(kept, no_std)
    if tie < 1e-6 or width <= 0.:
        return None
    count = float(len(kept))
    found, answers, turn = top, [], 0
    while True:
        try:
            points = ref_points(min(kept), found, samples)
            delta = ref_integral(points, kept, width, count, tail)
        except (ValueError, OverflowError):
            return None
        if isinstance(delta, complex) or not abs(delta) < 50.:
            return None
        turn += 1
        step = abs(top + delta - found)
        found = top + delta
        if abs(step - tolerance) < 1e-7:
            return None             # too close to call
        done = step <= tolerance
        if done or turn >= most:
            answers += [(found, math.sqrt(s ** 2 + delta ** 2))
                        for s in sigmas]
        if done or turn >= most + 1:
            return answers


def near(got, want, tolerance=1e-7):
    """Equal up to rounding."""
    return abs(float(got) - want) <= tolerance * max(1., abs(want))


# -- M01 -------------------------------------------------------------------
MENU = (4.013, 4.337, 4.709, 5.081, 5.573, 6.329, 7.211)


def judge_kijko(run, got, models, what):
    """Compare with the published method, then with the recorded defects."""
    for number, (flags, ids) in enumerate(models):
        want = flags()
        if want is None:
            if number == 1:
                run.outcome('undefined', str(models[0][0]()))
                return
            continue
        if any(near(got[0], w[0]) and near(got[1], w[1]) for w in want):
            for ident, message in ids:
                run.finding(ident, message)
            run.outcome(round(float(got[0]), 6), round(float(got[1]), 6))
            return
    run.fail('%s: maximum %r and sigma %r, expected one of %r', what, got[0],
             got[1], models[0][0]())


def kijko_models(mags, sigma_of, neq, samples, tolerance, most, observed):
    """The published method and the recorded departures from it."""
    names = (('smoothing-std', 'the bandwidth ignores the standard '
              'deviation'),
             ('hastings-tail', 'the distribution is 1 below -5 sigma'),
             ('hastings-sign', 'the distribution is off by up to 0.18'))

    def model(std, tail, sign):
        return lambda: ref_kijko(mags, sigma_of, neq, samples, tolerance,
                                 most, observed, std, (tail, sign))
    flags = [(False, False, False), (True, True, True)]
    flags += [f for f in itertools.product((False, True), repeat=3)
              if f not in flags]
    return [(model(*f), [n for n, on in zip(names, f) if on]) for f in flags]


def kijko(run):
    """Every multiset of magnitudes, with every choice of the settings."""
    size = run.pick('size', range(3, 7 if run.thorough else 6))
    first, mags = 0, []
    for k in range(size):
        which = run.pick('m%d' % k, range(first, len(MENU)))
        mags.append(MENU[which])
        first = which
    run.commit()
    if len(set(mags)) < 2:
        return
    run.note(magnitudes=mags)
    order = mags[1::2] + mags[0::2][::-1]
    sigmas = [0.1 + 0.05 * k for k in range(size)]
    pairs = list(zip(order, sigmas))
    for neq in sorted({2, 3, size - 1, size, size + 5}):
        for most, samples, tolerance in ((40, 9, 1e-4), (0, 7, 1e-4),
                                         (2, 7, 1e-9), (400, 8, 1e-10)):
            for observed in (False, (mags[-1] + 0.25, 0.37)):
                if observed and neq not in (3, size):
                    continue
                args = np.array(order), np.array(sigmas)
                kept = [v.copy() for v in args]
                if observed:
                    got = run.call(kijko_nonparametric_gauss, args[0],
                                   args[1], neq, samples, tolerance, most,
                                   observed)
                else:
                    got = run.call(
                        maximum_magnitude_analysis,
                        np.arange(size) + 1990., args[0], args[1],
                        'Kijko_Npg', tolerance, most, neq, samples, 3)
                for a, b in zip(kept, args):
                    run.check(np.array_equal(a, b), 'an input was changed')
                judge_kijko(run, got, kijko_models(
                    order, pairs, neq, samples, tolerance, most, observed),
                    'neq %r, %r iterations, %r samples, observed %r' % (
                        neq, most, samples, observed))


def kijko_orders(run):
    """Every order of the events gives the same."""
    which = run.pick('events', ((4.013, 4.709, 5.081, 6.329, 6.101),
                                (5.573, 5.573, 5.081, 4.337, 4.013),
                                (4.013, 4.337, 4.709, 5.081, 7.211)))
    order = run.permutation('order', list(range(5)))
    run.commit()
    run.note(events=which, order=order)
    sigma = dict((m, 0.1 + 0.07 * k) for k, m in enumerate(which))
    mags = [which[k] for k in order]
    sigmas = [sigma[m] for m in mags]
    for neq in (3, 4, 5):
        got = run.call(kijko_nonparametric_gauss, np.array(mags),
                       np.array(sigmas), neq, 9, 1e-4, 300, False)
        run.check(got[0] >= max(mags) and got[1] >= sigma[max(mags)],
                  'maximum %r and sigma %r below the observed ones', *got)
        judge_kijko(run, got, kijko_models(
            mags, list(zip(mags, sigmas)), neq, 9, 1e-4, 300, False),
            'neq %r' % neq)


def many(number, seed):
    """Magnitudes of a longer catalogue, without ties."""
    return [round(4. + 2.9 * ((k * k * 7 + 3 * k + seed) % 101) / 101. *
                  ((k * 13 + seed) % 29) / 29. + 0.0001 * k, 6)
            for k in range(number)]


def kijko_long(run):
    """Longer catalogues, more points, the largest of many."""
    number = run.pick('events', (11, 12, 40, 101, 129))
    neq = run.pick('neq', (10, 11, 12, 100, 101))
    samples = run.pick('samples', (11, 51))
    seed = run.pick('seed', (0, 5, 17))
    run.commit()
    run.note(events=number, neq=neq, samples=samples, seed=seed)
    mags = many(number, seed)
    sigmas = [0.05 + 0.01 * (k % 7) for k in range(number)]
    got = run.call(maximum_magnitude_analysis, np.arange(number) + 1850.,
                   np.array(mags), np.array(sigmas), 'Kijko_Npg', 1e-5, 6,
                   neq, samples, 3)
    judge_kijko(run, got, kijko_models(mags, list(zip(mags, sigmas)), neq,
                                       samples, 1e-5, 6, False), 'long')


# -- M02 -------------------------------------------------------------------
def ref_moment(years, mags):
    """Range of the departures from the mean moment rate, as magnitude."""
    first, last = int(min(years)), int(max(years))
    rate = [math.fsum(10. ** (9.05 + 1.5 * m)
                      for y, m in zip(years, mags) if y == year)
            for year in range(first, last + 1)]
    mean = math.fsum(rate) / len(rate)
    total, away = 0., []
    for k, value in enumerate(rate):
        total += value
        away.append(total - mean * (k + 1))
    spread = abs(max(away)) + abs(min(away))
    if spread <= 1e-9 * mean:
        return None
    return 2. / 3. * (math.log10(spread) - 9.05)


def moment(run):
    """Every multiset of events over a grid of years and magnitudes."""
    size = run.pick('size', range(1, 6 if run.thorough else 5))
    menu = [(y, m) for y in (1990., 1991., 1994., 2003.)
            for m in (4.1, 5.25, 7.)]
    first, events = 0, []
    for k in range(size):
        which = run.pick('event%d' % k, range(first, len(menu)))
        events.append(menu[which])
        first = which
    run.commit()
    run.note(events=events)
    years = [e[0] for e in events]
    mags = [e[1] for e in events]
    want = ref_moment(years, mags)
    for turn in (1, -1):
        y, m = np.array(years[::turn]), np.array(mags[::turn])
        kept = y.copy(), m.copy()
        got = run.call(cumulative_moment, y, m)
        if want is None:
            run.check(not np.isfinite(got) or got < min(mags) - 2,
                      'maximum magnitude %r of a constant rate', got)
        else:
            run.check(near(got, want, 1e-6), 'maximum magnitude %r, expected '
                      '%r', got, want)
        for count in (2, 5):
            mean, std = run.call(maximum_magnitude_analysis, y, m,
                                 np.zeros(size), 'Cumulative_Moment', 1e-5,
                                 100, 10, 10, count)
            if want is not None:
                run.check(near(mean, want, 1e-6) and abs(std) < 1e-9,
                          'without uncertainty: %r and %r, expected %r and 0',
                          mean, std, want)
        run.check(np.array_equal(kept[0], y) and np.array_equal(kept[1], m),
                  'an input was changed')
    run.outcome(want and round(want, 6))


def bootstrap(run):
    """The bootstrap answers to its random numbers."""
    which = run.pick('events', (
        ((1990., 4.1), (1993., 5.2)), ((1990., 6.), (1990., 5.), (2001., 4.)),
        ((2001., 5.5), (1995., 5.6), (1980., 4.5), (1995., 7.)),
        ((1990., 0.2), (1992., -0.1), (1991., 0.15))))
    sigmas = [run.pick('s%d' % k, (0., 0.1, 0.3)) for k in range(len(which))]
    seed = run.pick('seed', (0, 1, 2, 1000, 2 ** 32 - 1) + (
        tuple(range(3, 10)) if run.thorough else ()))
    count = run.pick('samples', (2, 3, 7))
    run.commit()
    run.note(events=which, sigmas=sigmas, seed=seed, samples=count)
    years = [e[0] for e in which]
    mags = [e[1] for e in which]
    source = np.random.RandomState(seed)
    values = []
    for _ in range(count):
        noise = source.normal(0, 1, len(which))
        values.append(ref_moment(years, [
            m + s * n for m, s, n in zip(mags, sigmas, noise)]))
    mean = sum(values) / count
    std = math.sqrt(sum((v - mean) ** 2 for v in values) / (count - 1.))
    y, m, s = np.array(years), np.array(mags), np.array(sigmas)
    kept = y.copy(), m.copy(), s.copy()
    for again in range(2):
        got = run.call(cum_mo_uncertainty, y, m, s, count, seed)
        run.check(near(got[0], mean, 1e-6) and abs(got[1] - std) < 1e-6,
                  'mean and deviation %r, expected %r', got, (mean, std))
    np.random.seed(seed)
    got = run.call(maximum_magnitude_analysis, y, m, s, 'Cumulative_Moment',
                   1e-5, 100, 10, 10, count)
    run.check(near(got[0], mean, 1e-6) and abs(got[1] - std) < 1e-6,
              'analysis: mean and deviation %r, expected %r', got,
              (mean, std))
    for a, b in zip(kept, (y, m, s)):
        run.check(np.array_equal(a, b), 'an input was changed')
    run.outcome(round(mean, 6), round(std, 6))


def moment_long(run):
    """Many events over many years, with and without the bootstrap."""
    number = run.pick('events', (30, 128, 257, 1000, 1025))
    span = run.pick('span', (1, 9, 99, 100, 300, 1200))
    seed = run.pick('seed', (0, 5, 17))
    count = run.pick('samples', (2, 25, 101))
    run.commit()
    run.note(events=number, span=span, seed=seed, samples=count)
    mags = many(number, seed)
    years = [float(1999 - (k * k * 3 + k // 2 + seed) % (span + 1))
             for k in range(number)]
    want = ref_moment(years, mags)
    y, m = np.array(years), np.array(mags)
    got = run.call(cumulative_moment, y, m)
    run.check(near(got, want, 1e-6), 'maximum magnitude %r, expected %r', got,
              want)
    sigmas = [0.05 * (k % 5) for k in range(number)]
    source = np.random.RandomState(seed)
    few = min(number, 60)
    values = []
    for _ in range(count):
        noise = source.normal(0, 1, few)
        values.append(ref_moment(years[:few], [
            a + b * c for a, b, c in zip(mags[:few], sigmas, noise)]))
    mean = sum(values) / count
    std = math.sqrt(sum((v - mean) ** 2 for v in values) / (count - 1.))
    got = run.call(cum_mo_uncertainty, y[:few], m[:few],
                   np.array(sigmas[:few]), count, seed)
    run.check(near(got[0], mean, 1e-6) and abs(got[1] - std) < 1e-6,
              'mean and deviation %r, expected %r', got, (mean, std))
    run.outcome(round(want, 6), round(mean, 6))


# -- M03 -------------------------------------------------------------------
def bandwidth(run):
    """Every multiset of magnitudes."""
    size = run.pick('size', range(2, 8 if run.thorough else 7))
    first, mags = 0, []
    for k in range(size):
        which = run.pick('m%d' % k, range(first, len(MENU)))
        mags.append(MENU[which])
        first = which
    run.commit()
    run.note(magnitudes=mags)
    for order in (mags, mags[::-1], mags[1::2] + mags[::2]):
        data = np.array(order)
        got = float(run.call(h_smooth, data))
        run.check(data.tolist() == order, 'an input was changed')
        want, tie = ref_smooth(mags, False)
        old, close = ref_smooth(mags, True)
        if tie < 1e-6 or close < 1e-6:
            continue
        if abs(got - want) > 1e-9:
            run.check(abs(got - old) < 1e-9, 'bandwidth %r, expected %r', got,
                      want)
            run.finding('smoothing-std', 'bandwidth %r of %r, expected %r' % (
                got, mags, want))
    run.outcome(round(got, 6))


def bandwidth_long(run):
    """Longer samples."""
    number = run.pick('events', tuple(range(8, 60)) + (
        100, 127, 128, 129, 255, 256, 257, 1000))
    seed = run.pick('seed', (0, 5, 17, 23))
    run.commit()
    run.note(events=number, seed=seed)
    mags = many(number, seed)
    want, tie = ref_smooth(mags, False)
    old, close = ref_smooth(mags, True)
    got = float(run.call(h_smooth, np.array(mags)))
    if tie < 1e-6 or close < 1e-6:
        return
    if abs(got - want) > 1e-9:
        run.check(abs(got - old) < 1e-9, 'bandwidth %r, expected %r', got,
                  want)
        run.finding('smoothing-std', 'bandwidth %r of %r, expected %r' % (
            got, mags, want))
    run.outcome(round(got, 6))


def normal(run):
    """The distribution function on a fine grid."""
    mean = run.pick('mean', (0., -1.5, 4.2))
    sigma = run.pick('sigma', (1., 0.25, 3.))
    part = run.pick('part', range(16))
    run.commit()
    run.note(mean=mean, sigma=sigma, part=part)
    step = 0.002 if run.thorough else 0.01
    xs = [-8.003 + part + step * k for k in range(int(round(1. / step)))]
    data = np.array([mean + sigma * x for x in xs])
    kept = data.copy()
    got = run.call(gauss_cdf_hastings, data, mean, sigma)
    plain = run.call(gauss_cdf_hastings, np.array(xs))
    run.check(np.array_equal(kept, data), 'an input was changed')
    for x, y, z in zip(xs, got, plain):
        want = 0.5 * math.erfc(-x / math.sqrt(2.))
        if abs(abs(x) - 5.) < 1e-6:
            continue
        for value in (y, z):
            if abs(value - want) <= 2.6e-4:
                continue
            run.check(near(value, ref_cdf(x, BAD), 1e-9), 'distribution %r '
                      'at %r, expected %r', value, x, want)
            run.finding('hastings-tail' if x < -5. else 'hastings-sign',
                        'the distribution is %r at %r' % (value, x))
    run.outcome(part, round(float(got[0]), 6))


def spaced(run):
    """Points between two bounds."""
    lower = run.pick('lower', (-1., 0., 3.97, 4.5))
    span = run.pick('span', (0.003, 0.5, 1.75, 4.))
    number = run.pick('number', tuple(range(2, 30)) + (51, 100))
    run.commit()
    run.note(lower=lower, span=span, number=number)
    got = run.call(exp_spaced_points, lower, lower + span, number)
    want = ref_points(lower, lower + span, number)
    run.check(len(got) == number and np.allclose(got, want, rtol=0,
                                                 atol=1e-9),
              'points %r, expected %r', list(got), want)
    run.outcome([round(w, 9) for w in want[:3]])


def integral(run):
    """The integral over a few points."""
    size = run.pick('size', (2, 3, 4))
    first, mags = 0, []
    for k in range(size):
        which = run.pick('m%d' % k, range(first, len(MENU)))
        mags.append(MENU[which])
        first = which
    run.commit()
    run.note(magnitudes=mags)
    data = np.array(mags)
    for number in (2, 3, 8):
        for extra in (0.1, 0.9, (mags[0] - mags[-1]) / 3.):
            if extra == 0.:
                continue
            # also from below the smallest event on
            points = ref_points(mags[0] - (0.4 if extra == 0.9 else 0.),
                                mags[-1] + extra, number)
            for width in (0.17, 0.61, 3.):
                grid = np.array(points)
                for neq in (1., float(size), 20.):
                    got = run.call(kijko_npg_intfunc_simps, grid, data, width,
                                   neq)
                    run.check(grid.tolist() == points and
                              data.tolist() == mags, 'an input was changed')
                    want = ref_integral(points, mags, width, neq, GOOD)
                    if math.isnan(want):
                        continue
                    if not near(got, want, 1e-8):
                        old = ref_integral(points, mags, width, neq, BAD)
                        run.check(isinstance(old, complex) or
                                  near(got, old, 1e-8) or
                                  not np.isfinite(old + got),
                                  'integral %r, expected %r', got, want)
                        for ident in ('hastings-tail', 'hastings-sign'):
                            run.finding(ident, 'integral %r of %r, expected '
                                        '%r' % (got, mags, want))
                    run.outcome(round(want, 9))


CHECKS = {
    'M01': {
        'scenarios': lambda tier: [('catalogues', kijko, 0),
                                   ('long', kijko_long, 0),
                                   ('orders', kijko_orders, 0)],
        'assumptions': ['bandwidth above zero and not within 1e-8 of a '
                        'rounding tie',
                        'the normal distribution as approximated by Abramowitz '
                        'and Stegun 26.2.18'],
        'bounds': {
            'quick': 'every multiset of 3..5 of 7 magnitudes x up to 5 '
                     'numbers of largest events x 3 iteration settings, '
                     'with and without an observed maximum; every order of '
                     '3 catalogues; 150 settings for up to 129 events',
            'thorough': 'multisets of up to 6'}},
    'M02': {
        'scenarios': lambda tier: [('catalogues', moment, 0),
                                   ('long', moment_long, 0),
                                   ('bootstrap', bootstrap, 0)],
        'assumptions': ['whole years', 'random numbers of the numpy '
                        'generator are the environment'],
        'bounds': {
            'quick': 'every multiset of up to 4 events over 4 years and 3 '
                     'magnitudes; every vector of uncertainties from 3 x 5 '
                     'seeds x 3 sample counts for 3 catalogues; 270 '
                     'catalogues and settings of up to 1025 events',
            'thorough': 'multisets of up to 5, 12 seeds'}},
    'M03': {
        'scenarios': lambda tier: [('bandwidth', bandwidth, 0),
                                   ('long', bandwidth_long, 0),
                                   ('normal', normal, 0),
                                   ('points', spaced, 0),
                                   ('integral', integral, 0)],
        'assumptions': ['Hastings approximates within 2.5e-4'],
        'bounds': {
            'quick': 'every multiset of 2..6 of 7 magnitudes; -8..8 in steps '
                     'of 0.01 for 9 distributions; 30 numbers of points; '
                     '240 samples of 8..1000',
            'thorough': 'multisets of up to 7; steps of 0.002'}},
}
