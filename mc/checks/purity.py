"""Calls are independent of the calls before them (K01)."""

import decimal
import gc
import io
import locale
import logging
import os
import pickle
import random
import signal
import sys
import warnings

import numpy as np

from mc import sut
from mc.checks import catalogue, nrml

from mtoolkit.catalog_filter import (CatalogFilter, NullCatalogFilter,
                                     SourceModelCatalogFilter)
from mtoolkit.eqcatalog import EqEntryReader
from mtoolkit.geo.simple_fault import SimpleFaultGeo
from mtoolkit.geo.tectonic_region import TectonicRegionBuilder
from mtoolkit.jobs import NRML_SCHEMA_PATH
from mtoolkit.scientific.catalogue_utilities import (decimal_year,
                                                     greg2julian, haversine)
from mtoolkit.scientific.completeness import (selected_eq_flag_vector,
                                              stepp_analysis)
from mtoolkit.scientific.declustering import (afteran_decluster,
                                              gardner_knopoff_decluster,
                                              time_dist_windows)
from mtoolkit.scientific.fault_calculator import get_mfd
from mtoolkit.scientific.maximum_magnitude import (
    cum_mo_uncertainty, cumulative_moment, exp_spaced_points,
    gauss_cdf_hastings, h_smooth, kijko_nonparametric_gauss,
    kijko_npg_intfunc_simps, maximum_magnitude_analysis)
from mtoolkit.scientific.recurrence import (b_max_likelihood, b_maxlike_time,
                                            recurrence_analysis,
                                            recurrence_table, weichert,
                                            weichert_prep)
from mtoolkit.source_model import default_area_source
from nrml.reader import NRMLReader
from nrml.writer import AreaSourceWriter


# -- the arguments, shared by all calls of a sequence ----------------------
def events(rows):
    """A catalogue matrix."""
    return np.array([[y, m, d, lon, lat, mag, sigma] for
                     y, m, d, lon, lat, mag, sigma in rows])


def arguments():
    """Catalogues, tables and objects, made anew."""
    first = events([
        (1990, 1, 3, 10.02, 45.01, 4.25, 0.1),
        (1990, 1, 5, 10.00, 45.00, 6.15, 0.2),
        (1990, 1, 9, 10.05, 45.03, 4.85, 0.1),
        (1990, 2, 27, 10.01, 45.02, 4.35, 0.3),
        (1993, 6, 1, -30.0, 12.00, 5.05, 0.2),
        (1996, 3, 1, 10.01, 45.00, 4.45, 0.1),
        (1999, 12, 31, 60.0, -12.0, 5.55, 0.2)])
    second = events([
        (1950 + k - k % 2, 1 + k % 12, 1 + k % 28, 10. + k % 6 // 2, 45.,
         4.05 + 0.2 * (k * k % 7), 0.1 * (k % 4)) for k in range(24)])
    third = events([
        (1900 + (k * 37) % 100, 1 + k % 12, 1 + k * 5 % 28,
         10. + k * 7 % 40 / 10., 44. + k * 3 % 20 / 10.,
         4.05 + 0.1 * (k * k % 23), 0.05 * (k % 5)) for k in range(300)])
    return {
        'a': first, 'b': second, 'c': third,
        'flags c': np.array([(k * k % 7 > 3) - (k % 11 == 0)
                             for k in range(300)]),
        'table a': np.array([[1990., 4.]]),
        'table b': np.array([[1965., 4.], [1955., 4.25], [1950., 4.5]]),
        'flags': np.array([0, -1, 1, 0, 0, 0, 1]),
        'magnitudes': np.array([4.25, 6.5, 7.75]),
        'zone': nrml.build(dict(nrml.BASE, pos=(9., 44., 11.5, 44., 11.5, 46.,
                                                9., 46.))),
        'fault': SimpleFaultGeo([(10., 45.), (10.5, 45.2)], 0., 12., 90.),
        'region': TectonicRegionBuilder.create_tect_region_by_name(
            TectonicRegionBuilder.VOLCANIC)}


def plain(value):
    """The value without its identity, bit by bit."""
    if isinstance(value, np.ndarray):
        return ('array', value.shape,
                [plain(v) for v in value.ravel().tolist()])
    if isinstance(value, (np.generic,)):
        return plain(value.item())
    if isinstance(value, float):
        return value.hex() if value == value else 'nan'
    if isinstance(value, dict):
        return ('dict', [(k, plain(value[k])) for k in sorted(value)])
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if hasattr(value, '__dict__'):
        return (type(value).__name__, plain(vars(value)))
    return value


def stamp(shared):
    """The arguments, bit by bit."""
    return {key: (value.shape, value.dtype.str, value.tobytes())
            if isinstance(value, np.ndarray) else plain(value)
            for key, value in shared.items()}


def columns(a, key):
    """Years and magnitudes."""
    return a[key][:, 0], a[key][:, 5]


def cluster(function, key, *settings):
    """A declustering operation."""
    return lambda a: function(a[key], *settings)


def recur(key, table, *settings):
    """A recurrence operation."""
    return lambda a: recurrence_analysis(
        a[key][:, 0], a[key][:, 5], a[table], *settings)


def maximum(key, *settings):
    """A maximum magnitude operation; the bootstrap has no uncertainty."""
    def operation(a):
        sigma = a[key][:, 6]
        if settings[0] == 'Cumulative_Moment':
            sigma = sigma * 0.
        return maximum_magnitude_analysis(
            a[key][:, 0], a[key][:, 5], sigma, *settings)
    return operation


def read_catalogue(name):
    """Read a catalogue of two records."""
    def operation(a):
        rows = [dict(catalogue.DEFAULT, Agency=name),
                dict(catalogue.DEFAULT, Agency='', sigmaMw='', second='',
                     SemiMajor90='', ErrorStrike='')]
        text = '\n'.join([catalogue.HEADER] + [
            ','.join(row[f] for f in catalogue.FIELDS) for row in rows])
        return EqEntryReader(io.StringIO(text + '\n')).read_eq_catalog()
    return operation


def read_long(a):
    """Read a catalogue of many records."""
    text = [catalogue.HEADER] + [
        ','.join(dict(catalogue.DEFAULT, eventID=str(k + 1),
                      day=str(1 + k % 28))[f] for f in catalogue.FIELDS)
        for k in range(150)]
    return EqEntryReader(io.StringIO(
        '\n'.join(text) + '\n')).read_eq_catalog()


def read_bad(a):
    """Read a catalogue whose second record is refused."""
    rows = [catalogue.DEFAULT, dict(catalogue.DEFAULT, month='13')]
    text = '\n'.join([catalogue.HEADER] + [
        ','.join(row[f] for f in catalogue.FIELDS) for row in rows])
    return EqEntryReader(io.StringIO(text + '\n')).read_eq_catalog()


def model(values):
    """Write and read a source model."""
    def operation(a):
        path = os.path.join(sut.scratch(), 'model-%d.xml' % os.getpid())
        try:
            AreaSourceWriter(path).serialize([nrml.build(v) for v in values])
            with open(path, 'rb') as source:
                text = source.read()
            return (list(NRMLReader(path, NRML_SCHEMA_PATH).read()),
                    text.decode('utf-8'))
        finally:
            if os.path.exists(path):
                os.remove(path)
    return operation


def zone_of(a):
    """The events of a zone."""
    return [(s, e) for s, e in CatalogFilter(
        SourceModelCatalogFilter()).filter_eqs([a['zone']], a['b'])]


def no_zone(a):
    """All events."""
    return [(s, e) for s, e in CatalogFilter(NullCatalogFilter()).filter_eqs(
        [a['zone']], a['a'])]


def bad_zone(a):
    """A zone that is refused."""
    source = nrml.build(dict(nrml.BASE, pos=(0., 0., 1., 1., 1., 0., 0., 1.)))
    return list(CatalogFilter(SourceModelCatalogFilter()).filter_eqs(
        [source], a['a']))


def regions(name, **given):
    """A tectonic region, and what is in it."""
    def operation(a):
        made = TectonicRegionBuilder.create_tect_region_by_name(name, **given)
        rest = {'msr': {'model': ['WC1994'], 'weight': [1.]},
                'smod': {'value': [29.], 'weight': [1.]},
                'dlr': {'value': [1.25e-5], 'weight': [1.]}}
        return (made.shear_mod_first_value, made.disp_length_ratio_first_value,
                made == TectonicRegionBuilder.create_new_tect_region(
                    '005', **dict(rest, **given)))
    return operation


OPERATIONS = (
    ('GK a', cluster(gardner_knopoff_decluster, 'a', 'GardnerKnopoff', 0.5)),
    ('GK b', cluster(gardner_knopoff_decluster, 'b', 'Gruenthal', 0)),
    ('GK default', cluster(gardner_knopoff_decluster, 'b')),
    ('Afteran a', cluster(afteran_decluster, 'a', 'Gruenthal', 60.)),
    ('Afteran b', cluster(afteran_decluster, 'b', 'GardnerKnopoff', 400.)),
    ('Stepp b', lambda a: stepp_analysis(*columns(a, 'b'), 0.5, 5, 0.2,
                                         True)),
    ('Stepp b free', lambda a: stepp_analysis(*columns(a, 'b'), 0.25, 2, 0.1,
                                              False)),
    ('Stepp default', lambda a: stepp_analysis(*columns(a, 'a'))),
    ('selected', lambda a: selected_eq_flag_vector(
        *columns(a, 'a'), a['table b'][:, 0], a['table b'][:, 1],
        a['flags'])),
    ('table', lambda a: recurrence_table(a['b'][:, 5], 0.25, a['b'][:, 0])),
    ('MLE a', recur('a', 'table a', 0.5, 'MLE', 4., 1.)),
    ('MLE b', recur('b', 'table b', 0.5, 'MLE', 2., 1.)),
    ('Weichert a', recur('a', 'table a', 0.5, 'Weichert', 4., 1.)),
    ('Weichert b', recur('b', 'table b', 0.5, 'Weichert', 3., 2.)),
    ('Bender', lambda a: b_max_likelihood(
        np.array([4.1, 4.3, 4.5]), np.array([9., 5., 1.]))),
    ('Kijko a', maximum('a', 'Kijko_Npg', 1e-5, 50, 100, 51, 10)),
    ('Kijko b', maximum('b', 'Kijko_Npg', 1e-2, 20, 10, 21, 10)),
    ('moment a', maximum('a', 'Cumulative_Moment', 1e-5, 50, 100, 51, 3)),
    ('moment b', lambda a: cumulative_moment(*columns(a, 'b'))),
    ('seeded', lambda a: cum_mo_uncertainty(
        a['b'][:, 0], a['b'][:, 5], a['b'][:, 6], 5, seed=3)),
    ('decimal year', lambda a: decimal_year(
        a['a'][:, 0], a['a'][:, 1], a['a'][:, 2])),
    ('distance', lambda a: haversine(
        a['a'][:, 3], a['a'][:, 4], a['a'][0, 3], a['a'][0, 4])),
    ('distance in radians', lambda a: haversine(
        0.1, 0.2, 0.3, 0.4, radians=True, earth_rad=1000.)),
    ('julian', lambda a: greg2julian(
        a['a'][:, 0], a['a'][:, 1], a['a'][:, 2], a['a'][:, 1],
        a['a'][:, 2], a['a'][:, 6])),
    ('rates', lambda a: get_mfd(5., 0.1, a['region'], a['fault'], 0.9, 5.,
                                0.5, max_mag=7.2)),
    ('rates by rake', lambda a: get_mfd(1., 0., a['region'], a['fault'], 1.1,
                                        4., 0.25, rake=90.)),
    ('fault', lambda a: (a['fault'].get_length(), a['fault'].get_width(),
                         a['fault'].get_area())),
    ('volcanic', regions(TectonicRegionBuilder.VOLCANIC)),
    ('active', regions(TectonicRegionBuilder.ACTIVE_SHALLOW_CRUST,
                       smod={'value': [7.], 'weight': [1.]})),
    ('interface', regions(TectonicRegionBuilder.SUBDUCTION_INTERFACE)),
    ('catalogue', read_catalogue('ISC')),
    ('catalogue 2', read_catalogue('X')),
    ('bad catalogue', read_bad),
    ('model', model([nrml.BASE])),
    ('models', model([nrml.OTHER, nrml.THIRD])),
    ('zone', zone_of), ('no zone', no_zone), ('bad zone', bad_zone),
    ('default source', lambda a: default_area_source()),
)
SHORT = len(OPERATIONS)
# the same over hundreds of events
OPERATIONS += (
    ('GK c', cluster(gardner_knopoff_decluster, 'c', 'Uhrhammer', 1.)),
    ('Afteran c', cluster(afteran_decluster, 'c', 'GardnerKnopoff', 90.)),
    ('Stepp c', lambda a: stepp_analysis(*columns(a, 'c'), 0.2, 5, 0.2,
                                         True)),
    ('selected c', lambda a: selected_eq_flag_vector(
        *columns(a, 'c'), a['table b'][:, 0], a['table b'][:, 1],
        a['flags c'])),
    ('table c', lambda a: recurrence_table(a['c'][:, 5], 0.1, a['c'][:, 0])),
    ('MLE c', recur('c', 'table b', 0.2, 'MLE', 4.2, 1.)),
    ('Weichert c', recur('c', 'table b', 0.2, 'Weichert', 4.2, 1.)),
    ('Kijko c', maximum('c', 'Kijko_Npg', 1e-3, 20, 90, 21, 10)),
    ('Kijko c all', maximum('c', 'Kijko_Npg', 1e-3, 10, 400, 11, 10)),
    ('moment c', maximum('c', 'Cumulative_Moment', 1e-5, 50, 100, 51, 3)),
    ('decimal year c', lambda a: decimal_year(
        a['c'][:, 0], a['c'][:, 1], a['c'][:, 2])),
    ('distance c', lambda a: haversine(
        a['c'][:, 3], a['c'][:, 4], a['c'][:9, 3], a['c'][:9, 4])),
    ('long catalogue', read_long),
    ('zone c', lambda a: [(s, e) for s, e in CatalogFilter(
        SourceModelCatalogFilter()).filter_eqs([a['zone']], a['c'])]))
BASE = len(OPERATIONS)


# -- calls that differ from each other in one argument only ----------------
def made_of(values):
    """A column."""
    return np.array(values, dtype=float)


YEARS = made_of([1950, 1951, 1951, 1960, 1972, 1972, 1990, 2000, 2001, 2004])
MAGS = made_of([4.2, 5.5, 4.4, 4.1, 6.3, 5.1, 4.8, 4.3, 4.2, 5.6])
ROWS = events([(1990 + k // 3, 1 + k % 12, 3 + k, 10. + 0.02 * (k % 4), 45.,
                4.05 + 0.3 * (k * k % 7), 0.1) for k in range(9)])


def moved(rows, column, by):
    """The catalogue with some values of a column moved."""
    out = rows.copy()
    out[1::2, column] += by
    return out


def listed(*values):
    """Columns as an algorithm gets them."""
    return [made_of(v) for v in values]


def fault_of(*args):
    """The figures of a fault."""
    fault = SimpleFaultGeo(*args)
    return fault.get_length(), fault.get_width(), fault.get_area()


def rates_of(slip, quiet, ratio, depth, *rest):
    """The rates of a fault and region."""
    region = TectonicRegionBuilder.create_new_tect_region(
        '009', {'model': ['Peer'], 'weight': [1.]},
        {'value': [30.], 'weight': [1.]},
        {'value': [ratio], 'weight': [1.]})
    fault = SimpleFaultGeo([(10., 45.), (10.5, 45.2)], 0., depth, 90.)
    return get_mfd(slip, quiet, region, fault, *rest)


def read_text(*changes):
    """Read a catalogue with one record changed."""
    rows = [catalogue.DEFAULT, dict(catalogue.DEFAULT, **dict(changes)),
            catalogue.DEFAULT]
    text = '\n'.join([catalogue.HEADER] + [
        ','.join(row[f] for f in catalogue.FIELDS) for row in rows])
    return EqEntryReader(io.StringIO(text + '\n')).read_eq_catalog()


def zone_at(pos, rows):
    """The events inside of a zone of one name."""
    return [e for _, e in CatalogFilter(SourceModelCatalogFilter()).filter_eqs(
        [nrml.build(dict(nrml.BASE, pos=pos))], rows)]


FAMILIES = (
    ('GK', gardner_knopoff_decluster, (ROWS, 'GardnerKnopoff', 0.5), (
        [moved(ROWS, k, by) for k, by in ((0, 1), (1, 1), (2, 1), (3, 0.9),
                                          (4, -0.9), (5, 0.4))],
        ['Gruenthal', 'Uhrhammer'], [0., 1.])),
    ('Afteran', afteran_decluster, (ROWS, 'GardnerKnopoff', 60.), (
        [moved(ROWS, k, by) for k, by in ((0, 1), (1, 1), (2, 1), (3, 0.9),
                                          (4, -0.9), (5, 0.4))],
        ['Gruenthal', 'Uhrhammer'], [20., 300.])),
    ('windows', lambda m, name: time_dist_windows[name].calc(m),
     (MAGS, 'GardnerKnopoff'), ([MAGS[::-1].copy(), MAGS + 1.],
                                ['Gruenthal', 'Uhrhammer'])),
    ('windows 2', lambda m, name: time_dist_windows[name].calc(m),
     (MAGS, 'Gruenthal'), ([MAGS[::-1].copy(), MAGS + 1.], ['Uhrhammer'])),
    ('windows 3', lambda m, name: time_dist_windows[name].calc(m),
     (MAGS, 'Uhrhammer'), ([MAGS[::-1].copy(), MAGS + 1.], [])),
    ('Stepp', stepp_analysis, (YEARS, MAGS, 0.3, 1, 0.2, True), (
        [YEARS[::-1].copy(), YEARS + 7], [MAGS[::-1].copy(), MAGS + 0.4],
        [0.2, 0.5], [2, 5], [0.1, 0.5], [False])),
    ('selected', selected_eq_flag_vector, listed(
        YEARS, MAGS, [1990, 1960], [4., 5.], [0] * 10), (
        [YEARS[::-1].copy()], [MAGS[::-1].copy()],
        [made_of([2000, 1970])], [made_of([4.2, 5.4])],
        [made_of([0, 1] * 5)])),
    ('table', recurrence_table, (MAGS, 0.3, YEARS), (
        [MAGS[::-1].copy(), MAGS + 0.1], [0.2], [YEARS[::-1].copy(),
                                                 YEARS * 2])),
    ('Bender', b_max_likelihood, listed(
        [4.1, 4.3, 4.5, 4.7], [9, 5, 2, 1]) + [0.2, 0.], (
        [made_of([4.2, 4.4, 4.6, 4.8])], [made_of([9, 5, 2, 2])], [0.1],
        [4.2])),
    ('periods', b_maxlike_time, listed(YEARS, MAGS, [1990, 1950], [4., 4.2])
     + [0.3, 4.], (
        [YEARS[::-1].copy()], [MAGS[::-1].copy()], [made_of([1972, 1950])],
        [made_of([4.1, 4.3])], [0.2], [5.])),
    ('prepared', weichert_prep, listed(YEARS, MAGS, [1990, 1950], [4., 4.5])
     + [0.5, 1.], (
        [YEARS[::-1].copy()], [MAGS[::-1].copy()], [made_of([1972, 1950])],
        [made_of([4., 5.])], [0.4], [5.])),
    ('Weichert', weichert, listed([20., 40., 60.], [4.25, 4.75, 5.25],
                                  [9, 5, 2]) + [4., 1.5, 1e-5], (
        [made_of([20., 40., 80.])], [made_of([4.5, 5., 5.5])],
        [made_of([9, 5, 3])], [0., 5.], [2.], [1e-2])),
    ('analysis', recurrence_analysis, (
        YEARS, MAGS, np.array([[1990., 4.], [1950., 4.5]]), 0.5, 'Weichert',
        4., 1.), (
        [YEARS[::-1].copy()], [MAGS[::-1].copy()],
        [np.array([[1972., 4.], [1950., 4.5]])], [0.4], ['MLE'], [5.],
        [5.])),
    ('Kijko', kijko_nonparametric_gauss, (
        MAGS, MAGS * 0.1, 6, 21, 1e-3, 30, False), (
        [MAGS[::-1].copy(), MAGS + 0.3], [MAGS * 0.2], [4, 50], [11],
        [1e-1], [2], [(7., 0.3)])),
    ('bandwidth', h_smooth, (MAGS,), ([MAGS[::-1].copy(), MAGS * 2,
                                       MAGS ** 2],)),
    ('normal', gauss_cdf_hastings, (MAGS, 4.5, 1.), (
        [MAGS[::-1].copy(), MAGS + 0.3], [5.], [0.5])),
    ('points', exp_spaced_points, (4., 6., 11), ([3.], [7.], [5])),
    ('integral', kijko_npg_intfunc_simps, (
        made_of([4., 5., 6.]), MAGS, 0.3, 6.), (
        [made_of([4., 5.5, 6.])], [MAGS[::-1].copy(), MAGS + 0.3], [0.2],
        [3.])),
    ('moment', cumulative_moment, (YEARS, MAGS), (
        [YEARS[::-1].copy(), YEARS + 1], [MAGS[::-1].copy(), MAGS + 0.2])),
    ('bootstrap', lambda *args: cum_mo_uncertainty(*args[:4], seed=args[4]),
     (YEARS, MAGS, MAGS * 0.05, 4, 11), (
         [YEARS[::-1].copy()], [MAGS[::-1].copy()], [MAGS * 0.1], [3], [12])),
    ('decimal year', decimal_year, listed([1990, 2000], [2, 12], [3, 31]), (
        [made_of([1991, 2000])], [made_of([3, 12])], [made_of([4, 31])])),
    ('julian', greg2julian, (1990., 2., 3., 4., 5., 6.), (
        [1991.], [3.], [4.], [5.], [6.], [7.])),
    ('distance', haversine, listed([10., 20.], [45., -3.], [11., 7.],
                                   [46., 8.]) + [False, 6371.227], (
        [made_of([10., 21.])], [made_of([45., -4.])], [made_of([11., 6.])],
        [made_of([46., 9.])], [True], [1000.])),
    ('rates', rates_of, (5., 0.1, 1e-4, 12., 0.9, 5., 0.5, 7.2), (
        [6.], [0.2], [2e-4], [13.], [1.], [5.5], [0.25], [7.7, None])),
    ('fault', fault_of, ([(10., 45.), (10.5, 45.2)], 1., 12., 60.), (
        [[(10., 45.), (10.5, 45.3)], [(10.5, 45.2), (11., 45.2),
                                      (10., 45.)]], [2.], [13.], [50.])),
    ('text', read_text, (('Mw', '5.5'),), (
        [('Mw', '5.6'), ('second', ''), ('Agency', 'ISC'), ('day', '31'),
         ('longitude', '-7.5'), ('month', '13'), ('sigmaMw', '-1')],)),
    ('zone', zone_at, ((9., 44., 11.5, 44., 11.5, 46., 9., 46.), ROWS), (
        [(9., 44., 10.01, 44., 10.01, 46., 9., 46.),
         (9., 44., 11.5, 44., 9., 46.)],
        [moved(ROWS, 3, 5.), moved(ROWS, 4, 5.), ROWS[::-1].copy()])),
    ('document', lambda **v: model([dict(nrml.BASE, **v)])(None), (),
     [dict([(name, menu[1])]) for name, menu in nrml.MENU]),
)


def call_of(function, args):
    """An operation with its own arguments."""
    if isinstance(args, dict):
        return lambda a: function(**args)
    return lambda a: function(*args)


MEMBERS = []
for title, function, base, menus in FAMILIES:
    group = [len(OPERATIONS)]
    calls = [base if base else {}]
    if base:
        for position, menu in enumerate(menus):
            calls += [tuple(base[:position]) + (other,) +
                      tuple(base[position + 1:]) for other in menu]
    else:
        calls += menus
    start = len(OPERATIONS)
    OPERATIONS += tuple(('%s %d' % (title, k), call_of(function, args))
                        for k, args in enumerate(calls))
    MEMBERS.append(range(start, len(OPERATIONS)))
NAMES = [name for name, _ in OPERATIONS]


def scribble(value, depth=0):
    """Overwrite whatever can be changed in a result."""
    if depth > 6:
        return
    if isinstance(value, np.ndarray):
        if value.flags.writeable and value.dtype.kind in 'if':
            value[...] = 77
    elif isinstance(value, list):
        for item in value:
            scribble(item, depth + 1)
        value.append('scribble')
    elif isinstance(value, dict):
        for item in list(value.values()):
            scribble(item, depth + 1)
        value['scribble'] = 1
    elif isinstance(value, tuple):
        for item in value:
            scribble(item, depth + 1)
    elif hasattr(value, '__dict__'):
        for key, item in list(vars(value).items()):
            scribble(item, depth + 1)
            setattr(value, key, 'scribble')


def environment():
    """State of the process that calls could leave behind."""
    # PyPI numpy keeps its error handling per thread
    return (sorted(np.geterr().items()), os.getcwd(),
            repr(np.get_printoptions()), dict(os.environ),
            sys.getrecursionlimit(), locale.setlocale(locale.LC_ALL),
            signal.getsignal(signal.SIGINT), random.getstate(),
            logging.root.manager.disable, sys.stdout, sys.stderr,
            str(decimal.getcontext()))


def perform(order, spoil):
    """Perform the operations: [(result, result after all)], and complaints."""
    warnings.simplefilter('ignore')
    np.seterr(divide='warn', over='warn', under='ignore', invalid='warn')
    shared = arguments()
    kept = stamp(shared)
    outside = environment()
    noise = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    results, raw, trouble = [], [], []
    for place, number in enumerate(order):
        name, operation = OPERATIONS[number]
        try:
            value = operation(shared)
        except Exception as error:
            value = ('raised', type(error).__name__)
        results.append(plain(value))
        raw.append(value)
        if stamp(shared) != kept:
            trouble.append('%s changed its arguments' % name)
            break
        if environment() != outside:
            trouble.append('%s changed the state of the process' % name)
            break
        if name == 'seeded' and noise != (
                np.random.get_state()[1].tobytes(),
                np.random.get_state()[2]):
            trouble.append('%s used the shared random numbers' % name)
        noise = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
        if spoil == place:
            scribble(value)
            shared = arguments()
            spoilt = plain(value)
    later = [plain(value) for value in raw]
    if spoil is not None and not trouble:
        if later[spoil] != spoilt:
            trouble.append('the result of %s, changed by its caller, was '
                           'changed later' % OPERATIONS[order[spoil]][0])
        later[spoil] = None
    return results, later, trouble


def in_child(order, spoil=None):
    """Perform the operations in a process of their own."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            gc.disable()
            with os.fdopen(wfd, 'wb') as out:
                pickle.dump(perform(order, spoil), out)
        except BaseException as error:
            os.write(2, repr(error).encode())
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as source:
        data = source.read()
    os.waitpid(pid, 0)
    if not data:
        raise AssertionError('no results of %r' % (order,))
    return pickle.loads(data)


BASELINES = []


def baselines():
    """The result of each operation alone in a fresh process."""
    if not BASELINES:
        for number in range(len(OPERATIONS)):
            BASELINES.append(in_child([number])[0][0])
    return BASELINES


def judge(run, order, spoil=None):
    """Compare the results of a sequence with those of the calls alone."""
    alone = baselines()
    names = [NAMES[k] for k in order]
    run.note(calls=names, spoiled=spoil)
    run.calls += len(order)
    results, later, trouble = in_child(order, spoil)
    run.check(not trouble, '%s', trouble)
    for place, number in enumerate(order):
        run.check(results[place] == alone[number], '%s gives %r after %r, '
                  'alone %r', names[place], results[place], names[:place],
                  alone[number])
        if later[place] is not None:
            run.check(later[place] == results[place], 'the result of %s '
                      'became %r from %r after %r', names[place],
                      later[place], results[place], names[place + 1:])
    run.outcome(*order)


def pairs(run):
    """One operation, another one, and the first one again."""
    first = run.pick('first', range(BASE))
    second = run.pick('second', range(BASE))
    run.commit()
    judge(run, [first, second, first, second])


def families(run):
    """Calls of one function that differ in one argument, both ways."""
    family = run.pick('family', MEMBERS)
    run.commit()
    other = run.pick('other', family[1:])
    judge(run, [family[0], other, family[0], other])
    judge(run, [other, family[0], other])


def siblings(run):
    """All calls of a family, one after the other, from each of them on."""
    family = list(run.pick('family', MEMBERS))
    run.commit()
    start = run.pick('start', range(len(family)))
    turn = run.pick('turn', (1, -1))
    judge(run, (family[start:] + family[:start])[::turn])


def marathon(run):
    """Many calls: one operation on and on, or all of them in turn."""
    which = run.pick('operation', list(range(BASE)) + ['all', 'short'])
    run.commit()
    if which == 'all':
        judge(run, list(range(BASE)) * 2)
    elif which == 'short':
        judge(run, list(range(SHORT)) * 5)
    else:
        judge(run, [which] * (70 if which < SHORT else 6))


def triples(run):
    """Three operations, and the first one again."""
    order = [run.pick('call%d' % k, range(SHORT)) for k in range(3)]
    run.commit()
    judge(run, order + [order[0]])


def spoiled(run):
    """Whatever the caller does to a result stays with the caller."""
    first = run.pick('first', range(BASE))
    second = run.pick('second', range(BASE))
    run.commit()
    judge(run, [first, second, first], 0)


CHECKS = {
    'K01': {
        'scenarios': lambda tier: [('pairs', pairs, 0),
                                   ('spoiled', spoiled, 0),
                                   ('families', families, 0),
                                   ('siblings', siblings, 0),
                                   ('many', marathon, 0)] + (
            [('triples', triples, 0)] if tier == 'thorough' else []),
        'assumptions': ['the bootstrap without a seed is judged without '
                        'uncertainties, its random numbers are the '
                        'environment'],
        'bounds': {
            'quick': 'every ordered pair of %d operations, repeated, over '
                     'shared arguments; with the first result overwritten'
                     ', 14 of them of hundreds of events'
                     '; %d families of calls of one function that differ '
                     'in one argument, both ways and all in turn; each '
                     'operation 70 times, all of them in turn'
                     % (BASE, len(FAMILIES)),
            'thorough': 'every ordered triple of %d too' % SHORT}},
}
