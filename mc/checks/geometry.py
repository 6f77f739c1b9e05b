"""Fault geometry and tectonic regions (G01, G02)."""

import math

from mtoolkit.geo.simple_fault import SimpleFaultGeo
from mtoolkit.geo.tectonic_region import TectonicRegionBuilder


# -- G01 -------------------------------------------------------------------
def vector(lon, lat):
    """Unit vector of a location."""
    lon, lat = math.radians(lon), math.radians(lat)
    return (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon),
            math.sin(lat))


def distance(one, two):
    """Great circle distance from the angle between two vectors."""
    a, b = vector(*one), vector(*two)
    cross = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
             a[0] * b[1] - a[1] * b[0])
    return 6371. * math.atan2(math.sqrt(sum(c * c for c in cross)),
                              sum(x * y for x, y in zip(a, b)))


def valid(trace, upper, lower, dip):
    """Is it a fault?"""
    return (len(trace) >= 2 and 0 <= upper < lower and 0 < dip <= 90 and
            all(-180 <= p[0] <= 180 and -90 <= p[1] <= 90 for p in trace))


def attempt_fault(run, trace, upper, lower, dip):
    """Build a fault and judge whether it was refused as it should."""
    fault, error = run.attempt(SimpleFaultGeo, trace, upper, lower, dip)
    if valid(trace, upper, lower, dip):
        run.check(error is None, 'valid fault refused: %r', error)
    else:
        run.check(isinstance(error, ValueError), 'invalid fault %s',
                  'accepted' if error is None else 'raised %r' % error)
    run.outcome(error is None)
    return fault


NAN, INF = float('nan'), float('inf')
LONS = (-INF, -180.0001, -180., -179.9999, 0., 12.5, 180., 180. + 1e-9,
        180.0001, 181.,
        INF, NAN)
LATS = (-INF, -90.0001, -90. - 1e-9, -90., 0., 45.25, 90., 90. + 1e-9, 90.0001, 360.,
        NAN)


def points(run):
    """Every coordinate at every position of a trace."""
    size = run.pick('size', range(0, 5))
    where = run.pick('point', range(max(size, 1)))
    lon = run.pick('lon', LONS)
    lat = run.pick('lat', LATS)
    trace = [(10. + k, 20. - k) for k in range(size)]
    if size:
        trace[where] = (lon, lat)
    run.commit()
    run.note(trace=trace)
    fault = attempt_fault(run, trace, 0., 12., 60.)
    if fault is not None:
        judge(run, fault, trace, 0., 12., 60.)


def depths(run):
    """Every combination of depths and dip."""
    upper = run.pick('upper', (-INF, -5., -1e-6, 0., 0, 1e-6, 4., 12., 700.,
                               INF, NAN))
    lower = run.pick('lower', (-1., -1e-6, 0., 1e-6, 2e-6, 4., 12., 12.0001,
                               35, NAN))
    dip = run.pick('dip', (-30., -1e-6, 0., 0, 1e-9, 1e-7, 1e-6, 0.5, 5., 30.,
                           45., 89.9, 90., 90, 90. + 1e-9, 90.0001, 120.,
                           180., 270., 360., INF, NAN))
    run.commit()
    run.note(upper=upper, lower=lower, dip=dip)
    trace = [(10., 20.), (11.5, 19.), (11.5, 18.)]
    fault = attempt_fault(run, trace, upper, lower, dip)
    if fault is not None:
        judge(run, fault, trace, upper, lower, dip)


def judge(run, fault, trace, upper, lower, dip):
    """Length, width and area."""
    length = sum(distance(a, b) for a, b in zip(trace, trace[1:]))
    width = (lower - upper) / math.sin(math.radians(dip))
    for _ in range(2):
        for name, got, want in (
                ('length', run.call(fault.get_length), length),
                ('width', run.call(fault.get_width), width),
                ('area', run.call(fault.get_area), length * width)):
            run.check(abs(got - want) <= 1e-3 * (
                width if name == 'area' else 1) * 1e-2 + 1e-6 * want,
                '%s %r, expected %r', name, got, want)
    run.outcome(round(length, 3), round(width, 3))


def traces(run):
    """Every sequence of locations, also across the date line and poles."""
    menu = ((0., 0.), (1., 0.), (0., 1.5), (179.5, 10.), (-179.5, 10.),
            (180., -82.), (0., 82.), (30., 90.), (-60., -90.))
    size = run.pick('size', (2, 3, 4) if run.thorough else (2, 3))
    trace = [run.pick('p%d' % k, menu) for k in range(size)]
    run.commit()
    run.note(trace=trace)
    for form in (list(trace), tuple(trace), [list(p) for p in trace]):
        fault = attempt_fault(run, form, 1., 13., 30.)
        judge(run, fault, trace, 1., 13., 30.)
        run.check([tuple(p) for p in form] == trace, 'the trace was changed')


def long_traces(run):
    """Traces of many points: every point counts."""
    size = run.pick('size', (5, 8, 9, 16, 17, 33, 64, 65, 100, 101, 128, 129,
                             256, 257, 1000, 1001))
    kind = run.pick('bad', (None, (180.5, 0.), (-190., 3.), (12., 90.5),
                            (0., -91.)))
    where = run.pick('where', ('first', 'second', 'middle', 'last but one',
                               'last'))
    run.commit()
    place = {'first': 0, 'second': 1, 'middle': size // 2,
             'last but one': size - 2, 'last': size - 1}[where]
    trace = [(-150. + 290. * k / size, 60. * math.sin(0.3 * k) - 0.01 * k)
             for k in range(size)]
    run.note(size=size, bad=kind, where=where)
    if kind is None:
        # a step aside at this point
        trace[place] = (trace[place][0] + 1.25, trace[place][1] + 2.5)
    else:
        trace[place] = kind
    fault = attempt_fault(run, trace, 2., 17., 50.)
    if fault is not None:
        judge(run, fault, trace, 2., 17., 50.)


def antipodes(run):
    """Pairs of antipodal points of a grid."""
    lon = run.pick('lon', range(-180, 1, 1 if run.thorough else 10))
    run.commit()
    run.note(lon=lon)
    for lat in range(-90, 91):
        trace = [(lon, lat), (lon + 180, -lat)]
        fault = run.call(SimpleFaultGeo, trace, 0., 10., 90.)
        got = run.call(fault.get_length)
        run.check(abs(got - math.pi * 6371.) < 1e-3, 'length %r between '
                  'antipodes at %r', got, trace)


# -- G02 -------------------------------------------------------------------
NAMES = (TectonicRegionBuilder.ACTIVE_SHALLOW_CRUST,
         TectonicRegionBuilder.SUBDUCTION_INTERFACE,
         TectonicRegionBuilder.SUBDUCTION_INTRASLAB,
         TectonicRegionBuilder.STABLE_CONTINENTAL,
         TectonicRegionBuilder.VOLCANIC)
MODULI = (30., 49., 49., 29., 29.)
RATIOS = (1.25e-5, 1.25e-5, 1.25e-5, 1e-4, 1.25e-5)

WEIGHTS = ((), (1.,), (0.9,), (1.1,), (0.,), (0.5, 0.5), (0.5, 0.6),
           (0.7, 0.3), (1.5, -0.5), (0.1, 0.2, 0.7), (0.2, 0.3, 0.5),
           (0.3, 0.3, 0.3), (1.001,), (0.999,), (1. / 3,) * 3, (NAN,),
           (NAN, 1.), (0.5, NAN), (INF,), (INF, -INF), (1 + 1e-5,),
           (1 - 1e-5,), (0.5, 0.50001), (1 + 1e-6,), (0.3, 0.699999),
           (1 + 1e-7,), (0.5, 0.4999999))
VALUES = ((), (30.,), (0.,), (-1.,), (1e-9,), (30., 40.), (30., 0.),
          (-5., 30.), (1., 2., 3.), (1., 2., -3.), (NAN,), (30., NAN),
          (NAN, 30.), (-INF,))
MODELS = ((), ('WC1994',), ('Peer',), ('wc1994',), ('',), ('Peer', 'WC1994'),
          ('WC1994', 'Other'), ('Peer', 'Peer', 'WC1994'))


def weights_ok(values, weights):
    """One weight each, and they sum to one."""
    return len(values) == len(weights) and abs(sum(weights) - 1.) < 1e-8


def judge_region(run, build, msr, smod, dlr):
    """Is a region accepted exactly when it is one?"""
    region, error = run.attempt(
        build,
        msr={'model': list(msr[0]), 'weight': list(msr[1])},
        smod={'value': list(smod[0]), 'weight': list(smod[1])},
        dlr={'value': list(dlr[0]), 'weight': list(dlr[1])})
    good = (weights_ok(*msr) and weights_ok(*smod) and weights_ok(*dlr) and
            all(m in ('Peer', 'WC1994') for m in msr[0]) and
            all(v > 0 for v in smod[0] + dlr[0]))
    if not good:
        run.check(isinstance(error, ValueError), 'invalid region %s',
                  'accepted' if error is None else 'raised %r' % error)
    else:
        run.check(error is None, 'valid region refused: %r', error)
        run.check(region.shear_mod_first_value == smod[0][0] and
                  region.disp_length_ratio_first_value == dlr[0][0],
                  'values %r and %r, expected %r and %r',
                  region.shear_mod_first_value,
                  region.disp_length_ratio_first_value, smod[0][0], dlr[0][0])
    run.outcome(good, smod[0][:1], dlr[0][:1])
    return region


def builders():
    """The ways to make a region."""
    out = [('new', lambda **kw: TectonicRegionBuilder.create_new_tect_region(
        '009', **kw))]
    for name in NAMES:
        out.append((name, lambda name=name, **kw:
                    TectonicRegionBuilder.create_tect_region_by_name(
                        name, **kw)))
    return out


def regions(run):
    """Every combination of values and weights of one of the parameters."""
    which = run.pick('builder', range(len(NAMES) + 1))
    what = run.pick('parameter', ('msr', 'smod', 'dlr'))
    values = run.pick('values', MODELS if what == 'msr' else VALUES)
    weights = run.pick('weights', WEIGHTS)
    run.commit()
    run.note(builder=which, parameter=what, values=values, weights=weights)
    full = {'msr': (('Peer', 'WC1994'), (0.25, 0.75)),
            'smod': ((27., 31.), (0.4, 0.6)), 'dlr': ((2e-5,), (1.,))}
    full[what] = (values, weights)
    judge_region(run, builders()[which][1], **full)


def crossed(run):
    """Lengths and sums of the three parameters together."""
    menu = ((1, (1.,)), (2, (0.5, 0.5)), (2, (1.,)), (1, (0.5, 0.5)),
            (1, (0.9,)), (2, (0.6, 0.6)))
    sizes = [run.pick(name, menu) for name in ('msr', 'smod', 'dlr')]
    run.commit()
    run.note(sizes=sizes)
    full = {'msr': (('Peer', 'WC1994')[:sizes[0][0]], sizes[0][1]),
            'smod': ((27., 31.)[:sizes[1][0]], sizes[1][1]),
            'dlr': ((2e-5, 1e-4)[:sizes[2][0]], sizes[2][1])}
    for _, build in builders():
        judge_region(run, build, **full)


def tenths(run):
    """Every way to split one into weights of whole tenths."""
    size = run.pick('size', (2, 3, 4, 5))
    left, weights = 10, []
    for k in range(size - 1):
        share = run.pick('w%d' % k, range(1, left - (size - 1 - k) + 1))
        weights.append(share)
        left -= share
    weights.append(left)
    run.commit()
    run.note(weights=weights)
    share = tuple(w / 10. for w in weights)
    off = share[:-1] + (share[-1] + 0.05,)
    values = tuple(10. + k for k in range(size))
    for last in (share, off):
        judge_region(run, builders()[0][1],
                     msr=(('Peer', 'WC1994') + ('Peer',) * (size - 2), last),
                     smod=(values, share), dlr=(values, share))
        judge_region(run, builders()[0][1], msr=(('Peer',), (1.,)),
                     smod=(values, last), dlr=(values, share))


def long_lists(run):
    """Lists of many values, one of them wrong."""
    size = run.pick('size', (4, 5, 6, 8, 9, 16, 17))
    place = run.pick('place', range(size))
    what = run.pick('parameter', ('msr', 'smod', 'dlr'))
    wrong = run.pick('wrong', ('nothing', 'value', 'weight', 'weight a little',
                               'more weights',
                               'fewer weights'))
    run.commit()
    run.note(size=size, place=place, parameter=what, wrong=wrong)
    values = ['Peer' if k % 3 else 'WC1994' for k in range(size)] if (
        what == 'msr') else [1.5 + k for k in range(size)]
    weights = [1. / size] * size
    if wrong == 'value':
        bad = ('', 'other') if what == 'msr' else (0., -values[place])
        bad = bad[place % 2]
        values[place] = bad
    elif wrong == 'weight':
        weights[place] += 0.01
    elif wrong == 'weight a little':
        weights[place] -= 1e-6
    elif wrong == 'more weights':
        weights = [1. / (size + 1)] * (size + 1)
    elif wrong == 'fewer weights':
        weights = [1. / (size - 1)] * (size - 1)
    full = {'msr': (('Peer',), (1.,)), 'smod': ((27.,), (1.,)),
            'dlr': ((2e-5,), (1.,))}
    full[what] = (tuple(values), tuple(weights))
    for _, build in builders()[:2]:
        judge_region(run, build, **full)


def defaults(run):
    """Regions by name, with every subset of their parameters given."""
    name = run.pick('name', NAMES + ('', 'volcanic', 'VOLCANIC', 'Unknown',
                                     None, '001'))
    given = run.subset('given', ('msr', 'smod', 'dlr'))
    before = run.pick('another before', (False, True))
    run.commit()
    run.note(name=name, given=given)
    values = {'msr': {'model': ['Peer'], 'weight': [1.]},
              'smod': {'value': [11., 12.], 'weight': [0.5, 0.5]},
              'dlr': {'value': [3e-4], 'weight': [1.]}}
    if before:
        for other in NAMES:
            run.call(TectonicRegionBuilder.create_tect_region_by_name, other,
                     **values)
    region, error = run.attempt(
        TectonicRegionBuilder.create_tect_region_by_name, name,
        **{key: values[key] for key in given})
    if name not in NAMES:
        run.check(isinstance(error, ValueError), 'region %r %s', name,
                  'accepted' if error is None else 'raised %r' % error)
        return
    run.check(error is None, 'raised %r', error)
    which = NAMES.index(name)
    want = (11. if 'smod' in given else MODULI[which],
            3e-4 if 'dlr' in given else RATIOS[which])
    got = (region.shear_mod_first_value, region.disp_length_ratio_first_value)
    run.check(got == want, 'shear modulus and ratio %r, expected %r', got,
              want)
    again = run.call(TectonicRegionBuilder.create_tect_region_by_name, name,
                     **{key: values[key] for key in given})
    run.check(region == again and not region != again,
              'two regions made alike differ')
    for other in NAMES:
        if other != name:
            third = run.call(
                TectonicRegionBuilder.create_tect_region_by_name, other,
                **{key: values[key] for key in given})
            run.check(third != region and not third == region,
                      'regions %r and %r are equal', name, other)
    run.outcome(got)


CHECKS = {
    'G01': {
        'scenarios': lambda tier: [('points', points, 0),
                                   ('depths', depths, 0),
                                   ('traces', traces, 0),
                                   ('long', long_traces, 0),
                                   ('antipodes', antipodes, 0)],
        'assumptions': ['depths that end', 'a sphere of 6371 km'],
        'bounds': {
            'quick': '12 longitudes x 11 latitudes (some of them not numbers) '
                     'at every position of up to 4 points; 11 x 10 depths '
                     'x 22 dips; every sequence of '
                     '2..3 of 9 locations; antipodes on a 10 x 1 degree grid; 16 '
                     'sizes of traces of up to 1001 points, a step aside or '
                     'out of the globe at 5 positions',
            'thorough': 'sequences of up to 4; a 1 x 1 degree grid'}},
    'G02': {
        'scenarios': lambda tier: [('regions', regions, 0),
                                   ('crossed', crossed, 0),
                                   ('tenths', tenths, 0),
                                   ('long', long_lists, 0),
                                   ('defaults', defaults, 0)],
        'assumptions': ['weights that sum to one do so within rounding, the '
                        'others are off by 1e-7 or more'],
        'bounds': {
            'quick': '6 ways to make a region x 3 parameters x 8..14 lists '
                     'of values x 27 lists of weights; every combination of '
                     '6 sizes; every split of one into up to 5 tenths; '
                     'lists of up to 17 with one wrong value at every '
                     'position; every '
                     'name x subset of given parameters',
            'thorough': 'the same'}},
}
