"""Magnitude frequency distribution of a fault (F01)."""

from fractions import Fraction
import math

from mc import sut

from mtoolkit.geo.simple_fault import SimpleFaultGeo
from mtoolkit.geo.tectonic_region import TectonicRegionBuilder
from mtoolkit.scientific.fault_calculator import get_mfd

FAULTS = (([(10., 45.), (10.5, 45.2)], 0., 12., 90.),
          ([(-75., -10.), (-75.5, -11.), (-76., -11.)], 5., 40., 18.),
          ([(179.8, 0.), (-179.9, 0.3)], 2.5, 15., 60.))
REGIONS = ((30., 1.25e-5), (49., 1e-4), (12.5, 3e-5))


def edges_of(low, width, most):
    """Edges of the bins centred from low on, below the largest magnitude."""
    low, width, most = (Fraction(repr(round(float(v), 10)))
                        for v in (low, width, most))
    number = max(math.ceil((most - low) / width), 0)
    low, width = float(low), float(width)
    return [low + (k - 0.5) * width for k in range(number + 1)]


def exceeding(mag, slip, region, fault, b, most, scaling):
    """Yearly number of events above a magnitude (Anderson and Luco, 1)."""
    _, upper, lower, dip = fault
    wide = (lower - upper) / math.sin(math.radians(dip))
    beta = math.sqrt(region[1] * 10. ** scaling[0] /
                     (region[0] * 1e10 * wide * 1e5))
    d, b = scaling[1] * math.log(10.), b * math.log(10.)
    return ((d - b) / b * (slip / 10.) / beta * math.exp(b * (most - mag)) *
            math.exp(-d / 2. * most))


def near(got, want):
    """Equal up to rounding."""
    return abs(got - want) <= 1e-8 * abs(want) + 1e-18


def make(fault, region):
    """The real objects of a fault and its region."""
    return (SimpleFaultGeo(*fault),
            TectonicRegionBuilder.create_new_tect_region(
                '009', {'model': ['Peer'], 'weight': [1.]},
                {'value': [region[0], 99.], 'weight': [0.5, 0.5]},
                {'value': [region[1], 1.], 'weight': [0.5, 0.5]}))


def rates(run):
    """Every combination of the parameters."""
    fault = run.pick('fault', FAULTS)
    region = run.pick('region', REGIONS)
    slip = run.pick('slip', (0.01, 1., 20., 150.))
    quiet = run.pick('aseismic', (0., 0.25, 0.999))
    b = run.pick('b', (0.5, 0.8, 1., 1.4, 1.5, 2.1))
    run.commit()
    run.note(fault=fault, region=region, slip=slip, aseismic=quiet, b=b)
    geo, tectonic = make(fault, region)
    for low, width in ((5., 0.5), (4.25, 0.25), (6.5, 1.), (5., 0.1)):
        for most in (6.96, 8.03, 6.5, 7., 4.1):
            for scaling in (None, (16.05, 1.5), (16.1, 1.6)):
                more = {} if scaling is None else {'moment_scaling': scaling}
                got = run.call(get_mfd, slip, quiet, tectonic, geo, b, low,
                               width, max_mag=most, **more)
                edges = edges_of(low, width, most)
                total = [exceeding(e, slip * (1. - quiet), region, fault, b,
                                   most, scaling or (16.05, 1.5))
                         for e in edges]
                want = [a - c for a, c in zip(total, total[1:])]
                run.check(len(got) == len(want), '%d bins of %r from %r '
                          'below %r, expected %d', len(got), width, low, most,
                          len(want))
                for k, (g, w) in enumerate(zip(got, want)):
                    run.check(near(g, w), 'rate %r in bin %d of %r from %r '
                              'below %r, expected %r', g, k, width, low, most,
                              w)
                if want:
                    run.check(near(sum(got), total[0] - total[-1]),
                              'the rates do not add up')
                run.outcome(len(want), '%.6g' % sum(want))


def bins(run):
    """Largest magnitudes at, and beside, the centre of a bin."""
    width = run.pick('width', (0.1, 0.2, 0.3, 0.05, 0.25))
    low = run.pick('low', [k / 10. for k in range(40, 71)])
    run.commit()
    run.note(width=width, low=low)
    geo, tectonic = make(FAULTS[0], REGIONS[0])
    for number in range(0, 40):
        for more in (0., 0.001, -0.001):
            most = round(low + number * width + more, 4)
            got = run.call(get_mfd, 5., 0.1, tectonic, geo, 0.9, low, width,
                           max_mag=most)
            want = len(edges_of(low, width, most)) - 1
            run.check(len(got) == want, '%d bins of %r from %r below %r, '
                      'expected %d', len(got), width, low, most, want)
    run.outcome(width, low, want)


def largest(run):
    """Without a largest magnitude it comes from the area and the rake."""
    fault = run.pick('fault', FAULTS)
    rake = run.pick('rake', (None, -180., -90., 0., 45., 90., 180.))
    b = run.pick('b', (0.7, 1.1))
    width = run.pick('width', (0.1, 0.25, 0.5))
    run.commit()
    run.note(fault=fault, rake=rake, b=b, width=width)
    geo, tectonic = make(fault, REGIONS[0])
    area = geo.get_area()
    most = sut.WC1994().get_median_mag(area, rake)
    del sut.WC_CALLS[:]
    got = run.call(get_mfd, 5., 0.1, tectonic, geo, b, 4., width, rake=rake)
    run.check(len(sut.WC_CALLS) > 0 and
              all(abs(a - area) < 1e-6 * area and r == rake
                  for a, r in sut.WC_CALLS),
              'scaling relation asked for %r, expected %r', sut.WC_CALLS,
              (area, rake))
    want = run.call(get_mfd, 5., 0.1, tectonic, geo, b, 4., width,
                    max_mag=most, rake=rake)
    run.check(len(got) == len(want) and
              all(near(g, w) for g, w in zip(got, want)),
              'rates %r, expected %r', got, want)
    edges = edges_of(4., width, most)
    run.check(len(got) == len(edges) - 1, '%d bins, expected %d', len(got),
              len(edges) - 1)
    run.outcome(len(got), '%.6g' % sum(got))


def scales(run):
    """Magnitudes at and below zero (microseismicity) are magnitudes."""
    low = run.pick('low', (-3., -1., -0.5, 0., 0.5))
    most = run.pick('most', (-2.5, -0.5, 0., 0, -0., 0.25, 1.))
    width = run.pick('width', (0.25, 0.5))
    rake = run.pick('rake', (None, 90.))
    if most <= low:
        return
    run.commit()
    run.note(low=low, most=most, width=width)
    geo, tectonic = make(FAULTS[0], REGIONS[0])
    got = run.call(get_mfd, 5., 0.1, tectonic, geo, 0.9, low, width,
                   max_mag=most, rake=rake)
    edges = edges_of(low, width, most)
    total = [exceeding(m, 4.5, REGIONS[0], FAULTS[0], 0.9, most,
                       (16.05, 1.5)) for m in edges]
    run.check(len(got) == len(edges) - 1 and
              all(near(g, one - other) for g, one, other in zip(
                  got, total, total[1:])),
              'rates %r of %r from %r below %r', got, width, low, most)
    run.outcome(len(got))


def refused(run):
    """Slip and aseismic share out of their ranges."""
    slip = run.pick('slip', (-1., -1e-9, 0., 0, 1e-9, 3.))
    quiet = run.pick('aseismic', (-1., -1e-9, 0., 0.5, 0.9999, 1., 1, 1.5,
                                  100.))
    most = run.pick('largest', (7.3, None))
    run.commit()
    run.note(slip=slip, aseismic=quiet)
    geo, tectonic = make(FAULTS[0], REGIONS[0])
    got, error = run.attempt(get_mfd, slip, quiet, tectonic, geo, 0.9, 5.,
                             0.5, max_mag=most)
    good = slip > 0 and 0 <= quiet < 1
    run.check((error is None) == good, 'slip %r and aseismic share %r give '
              '%r', slip, quiet, got if error is None else error)
    run.outcome(good)


def histories(run):
    """Calls do not depend on the calls before them."""
    order = [run.pick('call%d' % k, range(4)) for k in range(3)]
    run.commit()
    run.note(order=order)
    setups = ((FAULTS[0], REGIONS[0], 1., 0.), (FAULTS[1], REGIONS[1], 9.,
                                                0.5),
              (FAULTS[2], REGIONS[2], 4., 0.2), (FAULTS[1], REGIONS[0], 2.,
                                                 0.))
    made = [make(f, r) for f, r, _, _ in setups]
    for k in order:
        fault, region, slip, quiet = setups[k]
        got = run.call(get_mfd, slip, quiet, made[k][1], made[k][0], 0.9, 5.,
                       0.5, max_mag=7.2)
        total = [exceeding(e, slip * (1. - quiet), region, fault, 0.9, 7.2,
                           (16.05, 1.5)) for e in edges_of(5., 0.5, 7.2)]
        run.check(len(got) == len(total) - 1 and all(
            near(g, a - c) for g, a, c in zip(got, total, total[1:])),
            'rates %r after %r', got, order)
    run.outcome(order[-1])


CHECKS = {
    'F01': {
        'scenarios': lambda tier: [('rates', rates, 0),
                                   ('bins', bins, 0),
                                   ('largest', largest, 0),
                                   ('scales', scales, 0),
                                   ('refused', refused, 0),
                                   ('histories', histories, 0)],
        'assumptions': ['a stand-in for the scaling relation of nhlib, which '
                        'is not installed, records what it is asked',
                        'magnitudes and widths are decimal numbers of up '
                        'to eight decimals'],
        'bounds': {
            'quick': '3 faults x 3 regions x 4 slips x 3 aseismic shares x 6 '
                     'b values x 20 sets of bins x 3 moment scalings; bins of '
                     '5 widths from 31 magnitudes to 120 others; 7 '
                     'rakes; every history of 3 calls over 4',
            'thorough': 'the same'}},
}
