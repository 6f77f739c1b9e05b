"""Workflows: what is run, on what, and what comes of it (W01..W07)."""

import io
import logging
import os
import pickle
import runpy
import sys

import numpy as np
from lxml import etree

from mc import sut
from mc.checks import catalogue, nrml
from mc.checks.filtering import inside

from mtoolkit.catalog_filter import CatalogFilter, SourceModelCatalogFilter
from mtoolkit.eqcatalog import EqEntryReader
from mtoolkit.jobs import (retrieve_completeness_table,
                           store_completeness_table)
from mtoolkit.scientific.completeness import (selected_eq_flag_vector,
                                              stepp_analysis)
from mtoolkit.scientific.declustering import (afteran_decluster,
                                              gardner_knopoff_decluster)
from mtoolkit.scientific.maximum_magnitude import maximum_magnitude_analysis
from mtoolkit.scientific.recurrence import recurrence_analysis
from mtoolkit.source_model import default_area_source
from mtoolkit.workflow import (Context, PreprocessingBuilder,
                               ProcessingBuilder, Workflow)

SETTINGS = {
    'GardnerKnopoff': {'time_dist_windows': 'Gruenthal',
                       'foreshock_time_window': 0.25},
    'Afteran': {'time_dist_windows': 'GardnerKnopoff', 'time_window': 150.8},
    'Stepp': {'time_window': 5, 'magnitude_windows': 0.5, 'sensitivity': 0.15,
              'increment_lock': True},
    'Recurrence': {'magnitude_window': 0.5, 'recurrence_algorithm': 'Weichert',
                   'reference_magnitude': 4.5, 'time_window': 1.0},
    'MaximumMagnitude': {'maxim_mag_algorithm': 'Kijko_Npg',
                         'iteration_tolerance': 1e-5,
                         'maximum_iterations': 15, 'neq': 12,
                         'number_samples': 21, 'number_bootstraps': 4}}


# -- files and configurations ----------------------------------------------
def place(name):
    """A file in the scratch directory."""
    return os.path.join(sut.scratch(), name)


def put(name, text):
    """Write a file; returns its path."""
    path = place(name)
    with open(path, 'w') as out:
        out.write(text)
    return path


def remove(*paths):
    """Remove files, if they exist."""
    for path in paths:
        if path and os.path.exists(path):
            os.remove(path)


def csv_of(rows, alike=False):
    """A catalogue of rows (year, month, day, lon, lat, mag, sigma)."""
    lines = [catalogue.HEADER]
    for k, (year, month, day, lon, lat, mag, sigma) in enumerate(rows):
        values = dict(
            catalogue.DEFAULT, eventID=str(1 if alike else k + 1),
            Agency='A%d' % (0 if alike else k % 3),
            year=str(year), month=str(month), day=str(day),
            longitude=repr(float(lon)), latitude=repr(float(lat)),
            Mw=repr(float(mag)), sigmaMw=repr(float(sigma)))
        lines.append(','.join(values[f] for f in catalogue.FIELDS))
    return '\n'.join(lines) + '\n'


def entries_of(path):
    """The entries of a catalogue file."""
    with open(path) as source:
        return [dict(e) for e in EqEntryReader(source).read_eq_catalog()]


def config_of(**changes):
    """A configuration."""
    config = {'eq_catalog_file': None, 'pprocessing_result_file': None,
              'completeness_table_file': None, 'source_model_file': None,
              'result_file': None, 'apply_processing_jobs': True,
              'preprocessing_jobs': None, 'processing_jobs': None}
    for key, value in SETTINGS.items():
        config[key] = dict(value)
    config.update(changes)
    return config


class Warnings(logging.Handler):
    """Collects the warnings."""

    def __init__(self):
        logging.Handler.__init__(self, logging.WARNING)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def execute(run, config, functions=None):
    """Build and run a workflow: (context, warnings, error of the build)."""
    collect = Warnings()
    logger = logging.getLogger('mt_logger')
    logger.addHandler(collect)
    try:
        built, error = run.attempt(lambda: Workflow(
            PreprocessingBuilder().build(config),
            ProcessingBuilder().build(config)))
        if error is not None:
            return None, [], error
        context = Context()
        context.config = config
        if functions:
            context.map_sc.update(functions)
        chosen = CatalogFilter(SourceModelCatalogFilter()) if config[
            'source_model_file'] else CatalogFilter()
        run.call(built.start, context, chosen)
        return context, collect.lines, None
    finally:
        logger.removeHandler(collect)


def law(source):
    """The parameters the calculations are for."""
    rate = source.rupture_rate_model
    return tuple(rate.truncated_gutenberg_richter)


def rest(source):
    """Everything else in a source."""
    out = dict(nrml.parts(source))
    for name in ('a', 'b', 'min', 'max'):
        out.pop(name)
    return out


# -- W01 -------------------------------------------------------------------
ROWS = ((1990, 2, 3, 10.5, 45.5, 4.75, 0.1), (1992, 7, 9, 30., 12., 5.5, 0.3),
        (1991, 1, 1, 10.25, 45.25, 6.25, 0.2), (1985, 5, 5, 10.5, 45.25, 4.5,
                                                0.),
        (2001, 12, 31, 20.75, -5.5, 5., 0.05))
MATRIX = np.array(ROWS, dtype=float)
ZONES = (dict(nrml.BASE, id='z1', name='first', pos=(10., 45., 11., 45., 11.,
                                                     46., 10., 46.)),
         dict(nrml.OTHER, id='z2', name='second', pos=(20., -6., 21., -6.,
                                                       21., -5.)),
         dict(nrml.THIRD, id='z3', name='third', pos=(29., 11., 31., 11.,
                                                      31., 13., 29., 13.)))
FLAGS = {'gk': np.array([0, 0, 1, 0, 0]), 'afteran': np.array([-1, 0, 0, 0,
                                                               1])}
TABLE = np.array([[1990., 4.], [1980., 4.5], [1971., 6.125]])
STORED = np.array([[1984., 4.25], [1970., 5.]])
SELECTED = np.array([0, 1, 1, 0, 0])
UNKNOWN = 'Reasenberg'
PRE = (None, [], ['GardnerKnopoff'], ['Afteran'], ['Stepp'],
       ['GardnerKnopoff', 'Stepp'], ['Stepp', 'GardnerKnopoff'],
       ['Afteran', 'Stepp'], ['Stepp', 'Afteran'], [UNKNOWN],
       ['GardnerKnopoff', UNKNOWN], [UNKNOWN, 'Stepp'],
       ['Stepp', 'gardnerknopoff'], ['Stepp', 'Stepp'],
       ['Stepp', 'Afteran', 'Stepp'])
PROCESSING = (None, [], ['Recurrence'], ['MaximumMagnitude'],
              ['Recurrence', 'MaximumMagnitude'],
              ['MaximumMagnitude', 'Recurrence'], [UNKNOWN],
              ['Recurrence', 'maximummagnitude'],
              ['Recurrence', 'MaximumMagnitude', 'Recurrence'],
              ['MaximumMagnitude', 'MaximumMagnitude'])
SHARED = ('GardnerKnopoff', 'Afteran', 'Stepp', 'Recurrence',
          'MaximumMagnitude')


def frozen(value):
    """A value that does not change any more."""
    if isinstance(value, np.ndarray):
        return np.array(value, copy=True)
    return value


def alike(got, want):
    """Equal arguments."""
    if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
        return np.shape(got) == np.shape(want) and np.array_equal(got, want)
    return type(got) is type(want) and got == want


def recorders(calls, recurrence, maximum):
    """Functions that note their arguments and give scripted results."""
    def note(name, *args):
        calls.append((name,) + tuple(frozen(a) for a in args))

    def gk(catalog_matrix, window_opt='GardnerKnopoff', fs_time_prop=0):
        note('gk', catalog_matrix, window_opt, fs_time_prop)
        return FLAGS['gk'] * 1, catalog_matrix[FLAGS['gk'] == 0], FLAGS[
            'gk'].copy()

    def afteran(catalog_matrix, window_opt='GardnerKnopoff', time_window=60.):
        note('afteran', catalog_matrix, window_opt, time_window)
        return FLAGS['afteran'] * 1, catalog_matrix[
            FLAGS['afteran'] == 0], FLAGS['afteran'].copy()

    def stepp(year, mw, dm=0.1, dt=1, ttol=0.2, iloc=True):
        note('stepp', year, mw, dm, dt, ttol, iloc)
        return TABLE.copy()

    def select(year, mw, cyear, cmw, flag_vector):
        note('select', year, mw, cyear, cmw, flag_vector)
        return SELECTED.copy()

    def recur(year_col, magnitude_col, completeness_table, magnitude_window,
              recurrence_algorithm, reference_magnitude, time_window):
        note('recurrence', year_col, magnitude_col, completeness_table,
             magnitude_window, recurrence_algorithm, reference_magnitude,
             time_window)
        return recurrence()

    def largest(year_col, magnitude_col, sigma_mw, maxim_mag_algorithm,
                iteration_tolerance, maximum_iterations, neq, number_samples,
                number_bootstraps):
        note('maximum', year_col, magnitude_col, sigma_mw,
             maxim_mag_algorithm, iteration_tolerance, maximum_iterations,
             neq, number_samples, number_bootstraps)
        return maximum()
    return {'gardner_knopoff': gk, 'afteran': afteran, 'stepp': stepp,
            'select_eq_vector': select, 'recurrence': recur,
            'maximum_magnitude': largest}


def expected_calls(config, zones, matrix=MATRIX, stored=STORED):
    """What a configuration asks for: (calls, kept rows, table)."""
    calls, working, flags = [], matrix, np.zeros(len(matrix))
    table = np.array([[matrix[:, 0].min(), matrix[:, 5].min()]])
    for job in config['preprocessing_jobs'] or ():
        settings = config[job]
        if job == 'GardnerKnopoff':
            calls.append(('gk', working, settings['time_dist_windows'],
                          settings['foreshock_time_window']))
            flags = FLAGS['gk']
            working = MATRIX[flags == 0]
        elif job == 'Afteran':
            calls.append(('afteran', MATRIX, settings['time_dist_windows'],
                          settings['time_window']))
            flags = FLAGS['afteran']
            working = MATRIX[flags == 0]
        else:
            calls.append(('stepp', working[:, 0], working[:, 5],
                          settings['magnitude_windows'],
                          settings['time_window'], settings['sensitivity'],
                          settings['increment_lock']))
            table = TABLE
    stores = bool(config['preprocessing_jobs'] and
                  config['pprocessing_result_file'])
    if stores:
        calls.append(('select', MATRIX[:, 0], MATRIX[:, 5], table[:, 0],
                      table[:, 1], flags))
    elif not config['preprocessing_jobs'] and config[
            'completeness_table_file']:
        table = stored
    if config['apply_processing_jobs']:
        for zone in zones:
            rows = rows_of(zone, working)
            if not len(rows):
                continue
            for job in config['processing_jobs'] or ():
                settings = config[job]
                if job == 'Recurrence':
                    calls.append((
                        'recurrence', rows[:, 0], rows[:, 5], table,
                        settings['magnitude_window'],
                        settings['recurrence_algorithm'],
                        settings['reference_magnitude'],
                        settings['time_window']))
                else:
                    calls.append((
                        'maximum', rows[:, 0], rows[:, 5], rows[:, 6],
                        settings['maxim_mag_algorithm'],
                        settings['iteration_tolerance'],
                        settings['maximum_iterations'], settings['neq'],
                        settings['number_samples'],
                        settings['number_bootstraps']))
    return calls, stores, table


def rows_of(zone, rows):
    """The rows inside a zone (None: everywhere), in multiples of 1/64."""
    if zone is None:
        return rows
    pos = [int(round(v * 64)) for v in zone['pos']]
    ring = list(zip(pos[::2], pos[1::2]))
    return rows[[inside(ring, (int(round(r[3] * 64)), int(round(r[4] * 64))))
                 for r in rows]] if len(rows) else rows


def configurations(run):
    """Every configuration of jobs and files, with scripted calculations."""
    model = run.pick('source model', ('model', None, ''))
    before = run.pick('preprocessing', PRE)
    after = run.pick('processing', PROCESSING)
    result = run.pick('result', ('stored', None, ''))
    run.commit()
    table = run.pick('table', ('table', None, ''))
    apply_jobs = run.pick('apply', (True, False))
    if before and result and not table:
        return              # nowhere to store the table
    zones = ZONES if model else (None,)
    paths = {'catalogue': put('in.csv', csv_of(ROWS)),
             'model': put('in.xml', nrml.render(ZONES)),
             'stored': put('stored.csv', 'old'),
             'table': put('table.csv', '\n'.join(
                 '%10.5f,%10.5f' % tuple(row) for row in STORED) + '\n'),
             'none': place('result.xml')}
    config = config_of(
        eq_catalog_file=paths['catalogue'],
        source_model_file=paths['model'] if model else model,
        preprocessing_jobs=before, processing_jobs=after,
        pprocessing_result_file=paths['stored'] if result else result,
        completeness_table_file=paths['table'] if table else table,
        result_file=paths['none'], apply_processing_jobs=apply_jobs)
    given = pickle.dumps(config)
    bytes_before = {k: open(p, 'rb').read() for k, p in paths.items()
                    if k != 'none'}
    calls = []
    run.note(source_model=model, preprocessing=before, processing=after,
             result=result, table=table, apply=apply_jobs)
    context, _, error = execute(run, config, recorders(
        calls, lambda: (0.9, 0.1, 2.5, 0.2), lambda: (7.25, 0.3)))
    known = set(SHARED)
    bad = [j for j in (before or []) + (after or []) if j not in known]
    if bad:
        run.check(isinstance(error, RuntimeError), 'job %r gives %r', bad,
                  error)
        run.check(not calls and all(
            open(paths[k], 'rb').read() == bytes_before[k]
            for k in bytes_before), 'something ran despite job %r', bad)
        run.outcome('refused')
        return
    run.check(error is None, 'refused: %r', error)
    want, stores, last = expected_calls(config, zones)
    judge_calls(run, calls, want)
    run.check(pickle.dumps(config) == given, 'the configuration was changed')
    for name in ('catalogue', 'model'):
        run.check(open(paths[name], 'rb').read() == bytes_before[name],
                  'the %s was changed', name)
    if stores:
        kept = entries_of(paths['stored'])
        run.check([e['eventID'] for e in kept] == [
            k + 1 for k in range(len(ROWS)) if not SELECTED[k]],
            'stored %r', [e['eventID'] for e in kept])
        rows = [[float(v) for v in line.split(',')]
                for line in open(paths['table'])]
        run.check(np.allclose(rows, last, rtol=0, atol=5e-6) and
                  np.shape(rows) == np.shape(last), 'table %r, expected %r',
                  rows, last)
    else:
        for name in ('stored', 'table'):
            run.check(open(paths[name], 'rb').read() == bytes_before[name],
                      'the %s was written', name)
    sources = context.sm_definitions
    run.check(len(sources) == len(zones), '%d sources', len(sources))
    for source, zone in zip(sources, zones):
        base = nrml.build(zone) if zone else default_area_source()
        run.check(rest(source) == rest(base), 'source %r, expected %r',
                  rest(source), rest(base))
        expect = list(law(base))
        if apply_jobs:
            for job in after or ():
                if job == 'Recurrence':
                    expect[0:3] = 2.5, 0.9, 4.5
                else:
                    expect[3] = 7.25
            if zone is not None and not len(rows_of(
                    zone, MATRIX[FLAGS['gk'] == 0] if 'GardnerKnopoff' in (
                        before or ()) else MATRIX[FLAGS['afteran'] == 0]
                    if 'Afteran' in (before or ()) else MATRIX)):
                expect = list(law(base))
        run.check(list(law(source)) == expect, 'parameters %r of %r, '
                  'expected %r', law(source), base.name, expect)
    remove(*paths.values())
    run.outcome(tuple(c[0] for c in calls), stores)


MISSPELT = (lambda n: ' ' + n, lambda n: n + ' ', lambda n: n + '\n',
            lambda n: n.upper(), lambda n: n.lower(), lambda n: n[:-1],
            lambda n: n + 's', lambda n: '', lambda n: n[:1],
            lambda n: n + ',' + n, lambda n: '\t' + n, lambda n: 0,
            lambda n: True)


def misspelt(run):
    """No job but the known ones, spelled as they are."""
    name = run.pick('job', SHARED)
    change = run.pick('change', range(len(MISSPELT)))
    own, bad = name in SHARED[:3], MISSPELT[change](name)
    jobs = run.pick('others', ([], [SHARED[0]], [SHARED[2]]) if own else (
        [], [SHARED[3]], [SHARED[4]]))
    place_of = run.pick('place', range(len(jobs) + 1))
    run.commit()
    jobs = jobs[:place_of] + [bad] + jobs[place_of:]
    lists = {'preprocessing_jobs': ['Stepp'],
             'processing_jobs': ['Recurrence']}
    lists['preprocessing_jobs' if own else 'processing_jobs'] = jobs
    run.note(lists=lists)
    stored = put('stored.csv', 'old')
    calls = []
    _, _, error = execute(run, config_of(
        eq_catalog_file=put('in.csv', csv_of(ROWS)),
        pprocessing_result_file=stored,
        completeness_table_file=put('table.csv', 'old'), **lists), recorders(
            calls, lambda: (0.9, 0.1, 2.5, 0.2), lambda: (7.25, 0.3)))
    run.check(isinstance(error, RuntimeError), 'jobs %r give %r', jobs, error)
    run.check(not calls and open(stored).read() == 'old',
              'something ran despite jobs %r', jobs)
    run.outcome(name, change)


OTHERS = {bool: (True, False, 1, 0),
          float: (0., 0.125, -2.5, 1e-9, 1e9, 150, 7, 0),
          int: (0, 1, 2, 255, 257, 100000, 10 ** 10),
          str: ('GardnerKnopoff', 'Gruenthal', 'Weichert', 'MLE', 'Other')}


def settings(run):
    """Every setting with every kind of value reaches its calculation."""
    jobs = run.pick('jobs', ((['GardnerKnopoff', 'Stepp'], JOBS[0]),
                             (['Stepp', 'Afteran'], JOBS[0][::-1]),
                             (['Stepp'], JOBS[1]), (None, JOBS[2])))
    job = run.pick('job', [j for j in SHARED if j in (jobs[0] or ()) or
                           j in jobs[1]])
    key = run.pick('setting', sorted(SETTINGS[job]))
    kind = type(SETTINGS[job][key])
    run.commit()
    value = run.pick('value', OTHERS[kind] + (
        OTHERS[float] if kind is int else ()))
    run.note(jobs=jobs, job=job, setting=key, value=value)
    config = config_of(
        eq_catalog_file=put('in.csv', csv_of(ROWS)),
        source_model_file=put('in.xml', nrml.render(ZONES)),
        preprocessing_jobs=jobs[0], processing_jobs=jobs[1],
        pprocessing_result_file=place('stored.csv'),
        completeness_table_file=place('table.csv') if jobs[0] else None)
    config[job][key] = value
    given = pickle.dumps(config)
    calls = []
    _, _, error = execute(run, config, recorders(
        calls, lambda: (0.9, 0.1, 2.5, 0.2), lambda: (7.25, 0.3)))
    run.check(error is None, 'refused: %r', error)
    judge_calls(run, calls, expected_calls(config, ZONES)[0])
    run.check(pickle.dumps(config) == given, 'the configuration was changed')
    run.outcome(job, key, str(value))


def judge_calls(run, calls, want):
    """The calculations performed are the expected ones."""
    run.check([c[0] for c in calls] == [c[0] for c in want],
              'performed %r, expected %r', [c[0] for c in calls],
              [c[0] for c in want])
    for k, (got, exp) in enumerate(zip(calls, want)):
        for n, (a, b) in enumerate(zip(got, exp)):
            run.check(alike(a, b), 'step %d, %s: argument %d is %r, expected '
                      '%r', k, exp[0], n, a, b)


EVENTS = ((1990, 2, 3, 10.5, 45.5, 4.75, 0.1), (-350, 7, 9, 10.5, 45.25, -0.5,
                                                0.),
          (0, 1, 1, 10.25, 45.25, 0., 0.), (2011, 12, 31, 179.5, -89.5, 9.5,
                                            2.5),
          (-900, 2, 2, 10.5, 45.5, 7.5, 3.))
STORES = ([(1984., 4.25)], [(2010., 3.), (2000., 3.5), (1990., 4.), (1980.,
                                                                     4.5),
                            (1970., 5.), (1960., 5.5), (1950., 6.)],
          [(1970., 5.), (1990., 4.), (1990., 4.5), (1980., 3.)],
          [(-350.5, 0.125), (-350.5, 0.125), (0., -1.5)])


def catalogues(run):
    """Unusual events and tables reach the calculations as they are."""
    size = run.pick('size', (1, 2, 3))
    rows = [run.pick('event%d' % k, EVENTS) for k in range(size)]
    run.commit()
    table = run.pick('table', (None,) + STORES)
    model = run.pick('model', (True, False))
    run.note(events=rows, table=table, model=model)
    zones = ZONES[:1] if model else (None,)
    config = config_of(
        eq_catalog_file=put('in.csv', csv_of(rows)),
        source_model_file=put('in.xml', nrml.render(ZONES[:1]))
        if model else None, processing_jobs=JOBS[0],
        completeness_table_file=put('table.csv', '\n'.join(
            '%r,%r' % row for row in table) + '\n') if table else None)
    calls = []
    context, _, error = execute(run, config, recorders(
        calls, lambda: (0.9, 0.1, 2.5, 0.2), lambda: (7.25, 0.3)))
    run.check(error is None, 'refused: %r', error)
    matrix = np.array(rows, dtype=float)
    run.check(alike(context.catalog_matrix, matrix),
              'the catalogue became %r', context.catalog_matrix)
    judge_calls(run, calls, expected_calls(
        config, zones, matrix, np.array(table) if table else None)[0])
    run.outcome(table, [c[0] for c in calls])


# -- W02 -------------------------------------------------------------------
NAN, INF = float('nan'), float('inf')
RECUR = (('a', (0.91234567891234, 0.123456789123, 2.51234567891234,
                0.2123456789123)), ('b', (1.25, 0., -0.5, 0.)),
         ('error', None), ('nan', (NAN, 0.1, 2.5, 0.2)),
         ('inf', (0.9, 0.1, INF, 0.2)), ('sigma', (0.9, NAN, 2.5, 0.2)),
         ('siga', (0.9, 0.1, 2.5, NAN)), ('slope', (-INF, 0.1, 2.5, 0.2)))
SIGNS = (('zero', (0., 0., 0., 0.)), ('falling', (-0.4, 0.1, 1e9, 1e-9)),
         ('minus', (1e-9, 5., -7.25, 3.)))
LARGEST = (('c', (7.2512345678912, 0.3123456789123)), ('d', (5.5, 0.)), ('nan', (NAN, NAN)))
MICRO = (('minus', (-0.41, 0.1)), ('nought', (0., 0.2)), ('inf', (INF, 0.1)),
         ('-inf', (-INF, 0.1)))


def outcomes(run):
    """Every outcome of each job in each zone."""
    number = run.pick('zones', (1, 2, 3))
    jobs = run.pick('jobs', PROCESSING[2:6])
    script, empty = [], []
    for z in range(number):
        empty.append(run.pick('empty%d' % z, (False, True)))
        few = number == 3 and not run.thorough
        if z == 0:
            run.commit()
        script.append((
            run.pick('recurrence%d' % z, RECUR[1:4] if few else RECUR)
            if 'Recurrence' in jobs and not empty[-1] else None,
            run.pick('maximum%d' % z, LARGEST[::2] if few else LARGEST + (
                MICRO if number == 1 else ()))
            if 'MaximumMagnitude' in jobs and not empty[-1] else None))
    zones = [dict(zone, pos=(100. + z, 80., 101. + z, 80., 101., 81.))
             if empty[z] else zone for z, zone in enumerate(ZONES[:number])]
    performed(run, jobs, script, empty, zones)


def laws(run):
    """Every kind of law in the model, replaced by every kind of result."""
    zone = dict(ZONES[0], a=run.pick('a', (5., 0., -1.5)),
                b=run.pick('b', (0.8, 0., 2.5)),
                min=run.pick('minimum', (4.75, 0., 4.5, 8.)),
                max=run.pick('maximum', (7., 0., 4.25, 10.)))
    jobs = run.pick('jobs', PROCESSING[2:6])
    run.commit()
    reference = run.pick('reference', (4.5, 0., -1.5))
    script = [(run.pick('recurrence', RECUR[:4] + SIGNS)
               if 'Recurrence' in jobs else None,
               run.pick('largest', LARGEST + (('e', (0.25, 0.)),))
               if 'MaximumMagnitude' in jobs else None)]
    performed(run, jobs, script, [False], [zone], reference)


def performed(run, jobs, script, empty, zones, reference=4.5):
    """Run the jobs with these results of the functions."""
    number = len(zones)
    run.note(jobs=jobs, script=script, empty=empty, reference=reference,
             laws=[
        (z['a'], z['b'], z['min'], z['max']) for z in zones])
    queue = {'r': [s[0] for s in script if s[0]],
             'm': [s[1] for s in script if s[1]]}

    def recurrence():
        name, value = queue['r'].pop(0)
        if name == 'error':
            raise ValueError('not defined')
        return value

    def maximum():
        return queue['m'].pop(0)[1]
    paths = put('in.csv', csv_of(ROWS)), put('in.xml', nrml.render(zones))
    calls = []
    config = config_of(eq_catalog_file=paths[0], source_model_file=paths[1],
                       processing_jobs=jobs)
    config['Recurrence']['reference_magnitude'] = reference
    context, warned, error = execute(run, config, recorders(
        calls, recurrence, maximum))
    run.check(error is None, 'refused: %r', error)
    run.check(not queue['r'] and not queue['m'], 'jobs left out: %r', queue)
    run.check(np.array_equal(context.working_catalog, MATRIX) and
              np.array_equal(context.catalog_matrix, MATRIX),
              'the catalogue was changed')
    run.check(len(context.sm_definitions) == number, '%d sources',
              len(context.sm_definitions))
    for z, source in enumerate(context.sm_definitions):
        base = nrml.build(zones[z])
        expect, lost = list(law(base)), bool(empty[z])
        sigmas = [None, None, None]
        for job in jobs:
            kind = script[z][0 if job == 'Recurrence' else 1]
            if kind is None:
                continue
            name, value = kind
            if value is None or not np.all(np.isfinite(
                    value if job == 'Recurrence' else value[:1])):
                lost = True
            elif job == 'Recurrence':
                expect[0:3] = value[2], value[0], reference
                sigmas[0:2] = value[1], value[3]
            else:
                expect[3] = value[0]
                sigmas[2] = value[1]
        run.check(list(law(source)) == expect, 'zone %d has %r, expected %r',
                  z, law(source), expect)
        run.check(rest(source) == rest(base), 'zone %d became %r from %r', z,
                  rest(source), rest(base))
        got = [getattr(source, name, None) for name in (
            'recurrence_sigb', 'recurrence_siga_m', 'max_mag_sigma')]
        run.check(got == sigmas, 'zone %d has uncertainties %r, expected %r',
                  z, got, sigmas)
        about = [line for line in warned if base.name in line] if (
            base.name) else []
        if base.name:
            run.check(bool(about) == lost, 'zone %d: %d warnings, lost: %r',
                      z, len(about), lost)
    run.check(bool(warned) == any(
        empty[z] or any(k and (k[1] is None or not np.all(np.isfinite(
            k[1] if n == 0 else k[1][:1]))) for n, k in enumerate(script[z]))
        for z in range(number)), 'warnings: %r', warned)
    run.outcome(tuple(tuple(k and k[0] for k in s) for s in script),
                tuple(empty))


# -- W03 -------------------------------------------------------------------
def real_rows():
    """A catalogue with many, few and no events by zone."""
    rows = []
    for k in range(30):
        rows.append((1960 + k % 40, 1 + k % 12, 1 + k % 28, 10.25 + 0.25 *
                     (k % 3), 45.25 + 0.5 * (k % 2),
                     4.05 + 0.3 * (k * k % 11 % 7), 0.))
        if k % 2:
            rows.append((1955 + (7 * k) % 45, 1 + k % 12, 2 + k % 27, 20.5,
                         -5.75 + 0.25 * (k % 3), 4.15 + 0.2 * (k * 5 % 13),
                         0.))
    rows.append((1984, 4, 4, 30.5, 12.5, 6.35, 0.))
    for k in range(4):
        rows.append((1991 + k, 3, 7, 40.5, 1.5, 5.05, 0.))
    # an aftershock or two
    rows.append((1984, 4, 9, 30.5, 12.53125, 4.75, 0.))
    rows.append((1999, 4, 9, 120.5, 12.5, 8.05, 0.))
    return rows


REAL = {'many': (10., 45., 11., 45., 11., 46., 10., 46.),
        'half': (10.375, 45., 11., 45., 11., 46., 10.375, 46.),
        'other': (20., -6., 21., -6., 21., -5., 20., -5.),
        'both': (9., -7., 22., -7., 22., 47., 9., 47.),
        'single': (30., 12., 31., 12., 31., 12.515625, 30., 12.515625),
        'same': (40., 1., 41., 1., 41., 2., 40., 2.),
        'empty': (-50., 1., -49., 1., -49., 2., -50., 2.)}
JOBS = (['Recurrence', 'MaximumMagnitude'], ['Recurrence'],
        ['MaximumMagnitude'])
DIRECT = {}


def settings_of(recur, largest, before):
    """A configuration for the real functions."""
    config = config_of(preprocessing_jobs=before)
    config['Recurrence'] = dict(config['Recurrence'],
                                recurrence_algorithm=recur)
    config['MaximumMagnitude'] = dict(config['MaximumMagnitude'],
                                      maxim_mag_algorithm=largest)
    return config


def direct_pre(config, rows):
    """The preprocessing composed of the scientific functions."""
    working, flags = rows, np.zeros(len(rows))
    table = np.array([[rows[:, 0].min(), rows[:, 5].min()]])
    for job in config['preprocessing_jobs'] or ():
        s = config[job]
        if job == 'GardnerKnopoff':
            _, working, flags = gardner_knopoff_decluster(
                rows.copy(), s['time_dist_windows'],
                s['foreshock_time_window'])
        elif job == 'Afteran':
            _, working, flags = afteran_decluster(
                rows.copy(), s['time_dist_windows'], s['time_window'])
        else:
            table = stepp_analysis(
                working[:, 0].copy(), working[:, 5].copy(),
                s['magnitude_windows'], s['time_window'], s['sensitivity'],
                s['increment_lock'])
    return working, flags, table


def direct(config, rows, table, base):
    """The parameters of a zone, composed of the scientific functions."""
    expect = list(base)
    if not len(rows):
        return expect
    years, mags = rows[:, 0].copy(), rows[:, 5].copy()
    for job in config['processing_jobs'] or ():
        s = config[job]
        if job == 'Recurrence':
            try:
                b, sigb, a, siga = recurrence_analysis(
                    years, mags, table.copy(), s['magnitude_window'],
                    s['recurrence_algorithm'], s['reference_magnitude'],
                    s['time_window'])
            except ValueError:
                continue
            if np.all(np.isfinite([b, sigb, a, siga])):
                expect[0:3] = a, b, s['reference_magnitude']
        else:
            most, _ = maximum_magnitude_analysis(
                years, mags, rows[:, 6].copy(), s['maxim_mag_algorithm'],
                s['iteration_tolerance'], s['maximum_iterations'], s['neq'],
                s['number_samples'], s['number_bootstraps'])
            if np.isfinite(most):
                expect[3] = most
    return expect


def near(got, want):
    """Equal but for rounding; text is equal."""
    return len(got) == len(want) and all(
        g == w or (isinstance(w, (float, int)) and
                   isinstance(g, (float, int)) and
                   abs(g - w) <= 1e-9 * abs(w)) for g, w in zip(got, want))


def zones_apart(run):
    """Zones in every company get what they get alone."""
    names = sorted(REAL)
    size = run.pick('size', (1, 2, 3))
    left, order = list(names), []
    for k in range(size):
        name = run.pick('zone%d' % k, left)
        left.remove(name)
        order.append(name)
    run.commit()
    recur = run.pick('recurrence', ('Weichert', 'MLE'))
    largest = run.pick('maximum', ('Kijko_Npg', 'Cumulative_Moment'))
    before = run.pick('before', (
        ['GardnerKnopoff', 'Stepp'],) + (
            (None, ['Afteran'], ['Stepp']) if run.thorough or size < 3
            else ()))
    jobs = run.pick('jobs', JOBS[:3 if run.thorough or size < 3 else 1])
    run.note(zones=order, recurrence=recur, maximum=largest, before=before,
             jobs=jobs)
    rows = real_rows()
    zones = [dict(nrml.BASE, id=name, name=name, pos=REAL[name],
                  a=1.5 + k, max=6.25 + k) for k, name in enumerate(order)]
    config = settings_of(recur, largest, before)
    config.update(
        eq_catalog_file=put('in.csv', csv_of(rows)),
        source_model_file=put('in.xml', nrml.render(zones)),
        processing_jobs=jobs)
    context, warned, error = execute(run, config)
    run.check(error is None, 'refused: %r', error)
    working, _, table = direct_pre(config, np.array(rows, dtype=float))
    run.check(np.array_equal(context.working_catalog, working),
              'the working catalogue was changed')
    for z, source in enumerate(context.sm_definitions):
        base = nrml.build(zones[z])
        want = direct(config, rows_of(zones[z], working), table, law(base))
        run.check(near(law(source), want), '%s has %r, expected %r',
                  order[z], law(source), want)
        run.check(rest(source) == rest(base), '%s became %r from %r',
                  order[z], rest(source), rest(base))
        untouched = list(law(base)) == want
        if untouched:
            run.check(any(order[z] in line for line in warned),
                      'no warning about %s', order[z])
        run.outcome(order[z], recur, largest, str(before), untouched)


def many_zones(run):
    """Models of many zones, with names of their own or all alike."""
    number = run.pick('zones', (4, 5, 9, 10, 11, 16, 17, 33, 64, 65, 129))
    alike_names = run.pick('alike', (False, True))
    recur = run.pick('recurrence', ('Weichert', 'MLE'))
    run.commit()
    kind = run.pick('kind', ('tiles', 'nested', 'copies'))
    before = run.pick('before', (None, ['GardnerKnopoff', 'Stepp']))
    reference = run.pick('reference', (4.5, 3.25))
    rows, zones = [], []
    for k in range(60):
        rows.append((1950 + k * 7 % 59, 1 + k % 12, 1 + k % 28,
                     10.03125 + k * 11 % 16, 45.5, 4.05 + 0.1 * (k * k % 23),
                     0.))
    for z in range(number):
        west, east = 10. + z % 16, 11. + z % 16
        if kind == 'nested':
            west, east = 10., 10.5 + z % 17
        elif kind == 'copies':
            west, east = 10., 22.
        zones.append(dict(
            nrml.BASE, id='z%d' % z, name='zone' if alike_names else
            'zone%d' % z, pos=(west, 45., east, 45., east, 46., west, 46.),
            a=1.5 + z, max=6.25 + z / 64.))
    config = settings_of(recur, 'Cumulative_Moment', before)
    config['Recurrence']['reference_magnitude'] = reference
    config.update(
        eq_catalog_file=put('in.csv', csv_of(rows)),
        source_model_file=put('in.xml', nrml.render(zones)),
        processing_jobs=JOBS[0])
    given = pickle.dumps(config)
    run.note(reference=reference, zones=number, alike=alike_names, kind=kind, before=before,
             recurrence=recur)
    context, _, error = execute(run, config)
    run.check(error is None, 'refused: %r', error)
    run.check(pickle.dumps(config) == given, 'the configuration was changed')
    working, _, table = direct_pre(config, np.array(rows, dtype=float))
    run.check(len(context.sm_definitions) == number, '%d sources',
              len(context.sm_definitions))
    for z, source in enumerate(context.sm_definitions):
        base = nrml.build(zones[z])
        want = direct(config, rows_of(zones[z], working), table, law(base))
        run.check(near(law(source), want), 'zone %d has %r, expected %r', z,
                  law(source), want)
        run.check(rest(source) == rest(base), 'zone %d became %r from %r', z,
                  rest(source), rest(base))
    run.outcome(number, kind, recur, [round(v, 6) for s in
                                      context.sm_definitions
                                      for v in law(s)[:4]])


# -- W04 -------------------------------------------------------------------
SITES = ((10., 45.), (10.0625, 45.03125), (60., -10.))
LENGTHS = (9, 10, 11, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255,
           256, 257, 400, 513, 1100)
DATES = ((1990, 1, 1), (1990, 1, 11), (1990, 3, 1), (1997, 12, 31),
         (1982, 2, 28))
SIZES = (4.15, 5.05, 6.25, -0.35)
CHAINS = (['GardnerKnopoff'], ['Afteran'], ['GardnerKnopoff', 'Stepp'],
          ['Afteran', 'Stepp'], ['Stepp'], ['Stepp', 'GardnerKnopoff'],
          ['Stepp', 'Afteran'])


def kept_events(run):
    """The stored catalogue has the events that were kept, as they were."""
    size = run.pick('size', (1, 2, 3, 4) if run.thorough else (1, 2, 3))
    rows = []
    for k in range(size):
        few = size + (not run.thorough)
        when = run.pick('when%d' % k, DATES if few < 4 else DATES[::2] +
                        DATES[1:3 + size - few])
        where = run.pick('where%d' % k, SITES if size < 3 else SITES[:2])
        mag = run.pick('mag%d' % k, SIZES if size < 3 else SIZES[
            :3 if few < 4 else 2])
        rows.append(when + where + (mag, (0., 0.1, 2.5, 40.)[k]))
    # records may also have the same identifiers, or be the same altogether
    alike = run.pick('alike', (False, True) if size == 2 or size > 2
                     and len(set(r[3:5] for r in rows)) == 1 else (False,))
    if alike:
        rows = [r[:6] + (2.25,) for r in rows]
    run.commit()
    stored_as_kept(run, rows, alike)


def parts_of_years(run):
    """Completeness since some time within a year."""
    window = run.pick('window', (0.75, 1.5, 2.5, 3.25))
    end = run.pick('end', (1997, 2004))
    gaps = [run.pick('gap%d' % k, range(1, 12, 1 if run.thorough else 2))
            for k in range(2)]
    mags = [run.pick('mag%d' % k, (4.15, 5.05)) for k in range(3)]
    run.commit()
    run.note(window=window)
    rows = [(end, 3, 3, 10., 45., mags[0], 0.1),
            (end - gaps[0], 3, 3, 10., 45., mags[1], 0.1),
            (end - gaps[0] - gaps[1], 3, 3, 20., 45., mags[2], 0.1)]
    stored_as_kept(run, rows, False, window)


def stored_as_kept(run, rows, alike, window=5):
    """Run every list of jobs on a catalogue and judge what is stored."""
    span = max(r[0] for r in rows) - min(r[0] for r in rows)
    given = put('in.csv', csv_of(rows, alike))
    entries = entries_of(given)
    matrix = np.array(rows, dtype=float)
    stored, table_file = place('stored.csv'), place('table.csv')
    for before in CHAINS:
        if 'Stepp' in before and span < window + 1:
            continue            # shorter than the time windows
        if window != 5 and 'Stepp' not in before:
            continue            # judged elsewhere
        run.note(rows=rows[:5], number=len(rows), before=before)
        remove(stored, table_file)
        config = config_of(
            eq_catalog_file=given, preprocessing_jobs=before,
            pprocessing_result_file=stored,
            completeness_table_file=table_file, apply_processing_jobs=False)
        config['Stepp']['time_window'] = window
        _, _, error = execute(run, config)
        run.check(error is None, 'refused: %r', error)
        working, flags, table = direct_pre(config, matrix)
        gone = selected_eq_flag_vector(
            matrix[:, 0].copy(), matrix[:, 5].copy(), table[:, 0].copy(),
            table[:, 1].copy(), np.array(flags))
        want = [e for e, g in zip(entries, gone) if g == 0]
        got = entries_of(stored)
        run.check(len(got) == len(want), 'stored %r, expected %r after %r',
                  [e['eventID'] for e in got], [e['eventID'] for e in want],
                  before)
        for one, other in zip(got, want):
            diff = catalogue.same_entry(one, other)
            run.check(diff is None, 'stored event: %s', diff)
        if 'Stepp' not in before:
            run.check(len(got) == len(working), 'a main shock is missing')
        run.outcome(tuple(e['eventID'] for e in got), str(before))


def many_events(number, kind):
    """A longer catalogue: pairs, ties, chains or strangers."""
    rows = []
    for k in range(number):
        where = (10. + 3. * (k % 7) + 0.03125 * (k % 3), 45. - 4. * (k % 5))
        year, month, day = 1900 + k * 37 % 110, 1 + k % 12, 1 + k * 7 % 28
        mag = 4.05 + 0.1 * (k * k % 29)
        if kind == 'pairs':
            half = k // 2
            where = (10. + 3. * (half % 7), 45. - 4. * (half % 5))
            year, month = 1900 + half * 37 % 110, 1 + half % 12
            day = 3 + 5 * (k % 2)
            mag = 6.15 - 1.1 * (k % 2) + 0.1 * (half % 3)
        elif kind == 'ties':
            mag = 5.05
        elif kind == 'chain':
            where = (10., 45. + 0.0625 * (k % 2))
            year, month, day = 1910 + k // 12, 1 + k % 12, 5
            mag = 4.55 + 0.1 * (k % 13)
        rows.append((year, month, day) + where + (mag, 0.05 * (k % 4)))
    rows.append((2009, 5, 5, 150., -60., 4.15, 0.))
    return rows


def long_catalogues(run):
    """Longer catalogues are stored alike."""
    number = run.pick('events', LENGTHS if run.thorough else LENGTHS[2::3])
    kind = run.pick('kind', ('mixed', 'pairs', 'ties', 'chain'))
    run.commit()
    order = run.pick('order', ('given', 'time', 'backwards'))
    rows = many_events(number, kind)
    if order != 'given':
        rows = sorted(rows, reverse=order == 'backwards')
    stored_as_kept(run, rows, False)


# -- W05 -------------------------------------------------------------------
YEARS = (1990., 1850., 0., -350., 1964.5, 2011., -10000., 1876.54321,
         -98765.43219)
MAGNITUDES = (4., 5.25, 0., -1.5, 4.0999999, 7.12345, 10.1)


def tables(run):
    """Completeness tables stored and retrieved."""
    size = run.pick('rows', (1, 2, 3))
    rows = []
    for k in range(size):
        year = run.pick('year%d' % k, YEARS if size < 3 else YEARS[:3])
        run.commit()
        mag = run.pick('magnitude%d' % k,
                       MAGNITUDES if size < 3 else MAGNITUDES[1:5])
        rows.append([year, mag])
    path = place('table.csv')
    again = place('again.csv')
    run.note(table=rows)
    kept(run, rows, path, again)


def long_tables(run):
    """Tables of many rows."""
    size = run.pick('rows', LENGTHS)
    kind = run.pick('kind', ('usual', 'growing', 'equal', 'mixed'))
    run.commit()
    rows = []
    for k in range(size):
        year, mag = 2010. - k, 3. + k / 64.
        if kind == 'growing':
            year = 1500. + k
        elif kind == 'equal':
            year, mag = 1990., 4.5
        elif kind == 'mixed':
            year, mag = 2000. - k * 37 % 101, 4. + k * k % 13 / 7.
        rows.append([year, mag])
    run.note(rows=size, kind=kind)
    kept(run, rows, place('table.csv'), place('again.csv'))


def kept(run, rows, path, again):
    """A table is stored, retrieved and stored."""
    size = len(rows)
    context = Context()
    context.config = config_of(completeness_table_file=path)
    context.completeness_table = np.array(rows)
    if len(rows) == 2:
        put('table.csv', 'an older, much longer table\n' * 20)
    run.call(store_completeness_table, context)
    run.check(np.array_equal(context.completeness_table, np.array(rows)),
              'storing changed the table')
    other = Context()
    other.config = config_of(completeness_table_file=path)
    run.call(retrieve_completeness_table, other)
    got = other.completeness_table
    run.check(np.shape(got) == (size, 2) and got.dtype.kind == 'f',
              'a table of %d rows comes back as %r', size, got)
    run.check(bool(np.all(np.abs(got - np.array(rows)) <= 5.0001e-6)),
              'table %r comes back as %r', rows, got)
    other.config = config_of(completeness_table_file=again)
    run.call(store_completeness_table, other)
    with open(path, 'rb') as one, open(again, 'rb') as two:
        text = one.read()
        run.check(text == two.read(), 'stored again it is another file')
    lines = text.decode('ascii').splitlines()
    run.check(len(lines) == size and all(
        len(line.split(',')) == 2 for line in lines), 'file %r', text)
    remove(path, again)
    run.outcome(size, text)


def layouts(run):
    """Tables somebody else wrote."""
    rows = run.pick('rows', ([[1990., 4.]], [[1990., 4.], [1960., 5.5]],
                             [[1990., 4.], [1960., 5.5], [1850., 7.25]]))
    form = run.pick('format', ('%g,%g', '%.2f, %.2f', '  %g ,\t%.3f',
                               '%e,%e', '%+g,%+g'))
    end = run.pick('end', ('\n', '\r\n'))
    last = run.pick('last line', (True, False))
    comment = run.pick('comment', ('', '# year, magnitude\n'))
    run.commit()
    text = comment + end.join(form % tuple(row) for row in rows)
    path = put('table.csv', '')
    with open(path, 'wb') as out:
        out.write((text + (end if last else '')).encode('ascii'))
    run.note(text=text)
    context = Context()
    context.config = config_of(completeness_table_file=path)
    run.call(retrieve_completeness_table, context)
    run.check(np.shape(context.completeness_table) == np.shape(rows) and
              np.allclose(context.completeness_table, rows, rtol=1e-6),
              'read %r, expected %r', context.completeness_table, rows)
    remove(path)
    run.outcome(form, len(rows))


# -- W06 -------------------------------------------------------------------
def yaml_of(config):
    """The configuration as a file, blanks as blanks."""
    lines = []
    for key in sorted(config):
        value = config[key]
        if value is None:
            lines.append('%s:' % key)
        elif isinstance(value, bool):
            lines.append('%s: %s' % (key, 'yes' if value else 'no'))
        elif isinstance(value, list):
            lines.append('%s:' % key)
            lines += ['- %s' % item for item in value]
        elif isinstance(value, dict):
            lines.append('%s: {' % key)
            lines.append(',\n'.join('  %s: %s' % (
                k, '%.10f' % v if isinstance(v, float) else v)
                for k, v in sorted(value.items())))
            lines.append('}')
        else:
            lines.append('%s: %s' % (key, value))
    return '\n'.join(lines) + '\n'


def program(run, args, cwd):
    """Run the program in a process of its own: (status, output)."""
    run.calls += 1
    out = os.path.join(cwd, 'output.txt')
    pid = os.fork()
    if pid == 0:
        status = 70
        try:
            os.chdir(cwd)
            fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False))
            sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False))
            logger = logging.getLogger('mt_logger')
            del logger.handlers[:]
            logger.setLevel(logging.NOTSET)
            sys.argv = ['main.py'] + list(args)
            try:
                runpy.run_path(os.path.join(sut.ROOT, 'main.py'),
                               run_name='__main__')
                status = 0
            except SystemExit as stop:
                status = stop.code if isinstance(stop.code, int) else (
                    0 if stop.code is None else 1)
            except BaseException as error:
                print('Traceback: %s: %s' % (type(error).__name__, error))
                status = 1
            logging.shutdown()
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(status)
    status = os.waitpid(pid, 0)[1]
    with open(out) as source:
        text = source.read()
    os.remove(out)
    return os.waitstatus_to_exitcode(status), text


def end_to_end(run):
    """The program with every kind of configuration."""
    model = run.pick('model', (('many', 'empty'), ('other', 'many', 'single'),
                               ('same',), None))
    before = run.pick('before', (None, ['GardnerKnopoff'],
                                 ['GardnerKnopoff', 'Stepp'], ['Afteran']))
    jobs = run.pick('jobs', (JOBS[0], JOBS[1], None))
    recur = run.pick('recurrence', ('Weichert', 'MLE'))
    largest = run.pick('maximum', ('Kijko_Npg', 'Cumulative_Moment'))
    run.commit()
    apply_jobs = run.pick('apply', (True, False))
    results = run.pick('results', ('both', 'preprocessed', 'model', None))
    detailed = run.pick('detailed', (False, True) if run.thorough or
                        results == 'both' else (False,))
    folder = run.pick('folder', ('', 'below', 'above') if detailed else (
        '', 'below'))
    run.note(folder=folder, model=model, before=before, jobs=jobs, recurrence=recur,
             maximum=largest, apply=apply_jobs, results=results,
             detailed=detailed)
    cwd = place('run')
    os.makedirs(cwd, exist_ok=True)
    for name in os.listdir(cwd):
        os.remove(os.path.join(cwd, name))
    rows = real_rows()
    zones = [dict(nrml.BASE, id=n, name=n, pos=REAL[n], a=1.5 + k)
             for k, n in enumerate(model or ())]
    put('run/in.csv', csv_of(rows))
    if model:
        put('run/in.xml', nrml.render(zones))
    config = settings_of(recur, largest, before)
    config.update(
        eq_catalog_file='in.csv', source_model_file=model and 'in.xml',
        processing_jobs=jobs, apply_processing_jobs=apply_jobs,
        pprocessing_result_file='stored.csv' if results in (
            'both', 'preprocessed') else None,
        completeness_table_file='table.csv' if results in (
            'both', 'preprocessed') and before else None,
        result_file='out.xml' if results in ('both', 'model') else None)
    # the files of a configuration are those of the folder of the run
    option = {'': 'config.yml', 'below': os.path.join('conf', 'config.yml'),
              'above': os.path.join('..', 'Config A.yaml')}[folder]
    home = os.path.dirname(os.path.join(cwd, option))
    os.makedirs(home, exist_ok=True)
    put(os.path.join('run', option), yaml_of(config))
    if apply_jobs or results in ('both', None):
        # results of an earlier run
        for name in ('stored.csv', 'table.csv', 'out.xml'):
            put('run/' + name, 'an earlier and much longer result\n' * 4000)
    given = {n: open(os.path.join(cwd, n), 'rb').read()
             for n in os.listdir(cwd) if n != 'conf'}
    status, text = program(run, (['-d'] if detailed else []) + [
        '-i', option], cwd)
    if folder:
        os.remove(os.path.join(cwd, option))
        if folder == 'below':
            run.check(not os.listdir(home), 'files %r beside the '
                      'configuration', os.listdir(home))
            os.rmdir(home)
    run.check(status == 0, 'exit %r: %s', status, text[-400:])
    results_of_run, want_files = set(), set(given)
    if detailed:
        want_files.add('debug.log')
    if before and config['pprocessing_result_file']:
        results_of_run |= {'stored.csv', 'table.csv'}
    if config['result_file']:
        results_of_run.add('out.xml')
    want_files |= results_of_run
    run.check(set(os.listdir(cwd)) == want_files, 'files %r, expected %r',
              sorted(os.listdir(cwd)), sorted(want_files))
    for name, data in given.items():
        run.check(name in results_of_run or
                  open(os.path.join(cwd, name), 'rb').read() == data,
                  '%s was changed', name)
    matrix = np.array(rows, dtype=float)
    working, flags, table = direct_pre(config, matrix)
    if 'stored.csv' in results_of_run:
        gone = selected_eq_flag_vector(
            matrix[:, 0].copy(), matrix[:, 5].copy(), table[:, 0].copy(),
            table[:, 1].copy(), np.array(flags))
        got = [e['eventID'] for e in entries_of(os.path.join(
            cwd, 'stored.csv'))]
        run.check(got == [k + 1 for k, g in enumerate(gone) if g == 0],
                  'stored %r', got)
        lines = np.array([[float(v) for v in line.split(',')] for line in
                          open(os.path.join(cwd, 'table.csv'))])
        run.check(lines.shape == table.shape and
                  bool(np.all(np.abs(lines - table) < 5.0001e-6)),
                  'table %r, expected %r', lines, table)
    if config['result_file']:
        results_of(run, os.path.join(cwd, 'out.xml'), config, zones, working,
                   table)
    for name in os.listdir(cwd):
        os.remove(os.path.join(cwd, name))
    run.outcome(model, str(before), str(jobs), recur, largest, apply_jobs,
                results)


def results_of(run, path, config, zones, working, table):
    """The result document has the sources with their parameters."""
    tree = etree.parse(path)
    if zones:
        run.check(nrml.schema().validate(tree), 'the result is not valid: %s',
                  nrml.schema().error_log)
    found = nrml.extract(path)
    bases = [nrml.build(z) for z in zones] or [default_area_source()]
    run.check(len(found) == len(bases), '%d sources in the result',
              len(found))
    for z, (values, base) in enumerate(zip(found, bases)):
        want = list(law(base))
        if config['apply_processing_jobs']:
            want = direct(config, rows_of(zones[z] if zones else None,
                                          working), table, want)
        got = [values[k] for k in ('a', 'b', 'min', 'max')]
        run.check(near(got, want[:4]), 'source %s has %r, expected %r',
                  base.name, got, want)
        for key, value in (zones[z] if zones else {'id': 'MTK'}).items():
            if key not in ('a', 'b', 'min', 'max'):
                run.check(values[key] == value, '%s of source %s is %r, '
                          'expected %r', key, base.name, values[key], value)


def refusals(run):
    """The program says so when it cannot do what it is asked."""
    case = run.pick('case', ('unknown job', 'unknown processing job',
                             'no catalogue', 'bad catalogue', 'bad header',
                             'no model', 'bad model', 'crossed zone',
                             'no config', 'bad config', 'no arguments'))
    detailed = run.pick('detailed', (False, True))
    earlier = run.pick('earlier result', (False, True))
    run.commit()
    run.note(case=case, detailed=detailed, earlier=earlier)
    cwd = place('run')
    os.makedirs(cwd, exist_ok=True)
    for name in os.listdir(cwd):
        os.remove(os.path.join(cwd, name))
    rows = real_rows()
    zone = dict(nrml.BASE, id='many', name='many', pos=REAL['many'])
    text = csv_of(rows)
    if case == 'bad catalogue':
        text = text.replace(',1984,4,4,', ',1984,4,32,', 1)
    if case == 'bad header':
        text = text.replace('Agency', 'Agence', 1)
    if case != 'no catalogue':
        put('run/in.csv', text)
    if case == 'crossed zone':
        zone['pos'] = (10., 45., 11., 46., 11., 45., 10., 46.)
    text = nrml.render([zone])
    if case == 'bad model':
        text = text.replace('hypocentralDepth', 'hypocentreDepth')
    if case != 'no model':
        put('run/in.xml', text)
    config = settings_of('Weichert', 'Kijko_Npg', ['GardnerKnopoff'])
    config.update(eq_catalog_file='in.csv', source_model_file='in.xml',
                  processing_jobs=['Recurrence'], result_file='out.xml')
    if case == 'unknown job':
        config['preprocessing_jobs'] = ['GardnerKnopoff', UNKNOWN]
    if case == 'unknown processing job':
        config['processing_jobs'] = [UNKNOWN]
    text = yaml_of(config)
    if case == 'bad config':
        text = text.replace('processing_jobs:\n- Rec', 'processing_jobs: [Rec')
    if case != 'no config':
        put('run/config.yml', text)
    if earlier:
        put('run/out.xml', 'an earlier result\n' * 100)
    given = {n: open(os.path.join(cwd, n), 'rb').read()
             for n in os.listdir(cwd)}
    args = [] if case == 'no arguments' else (
        ['-d'] if detailed else []) + ['-i', 'config.yml']
    status, text = program(run, args, cwd)
    if case == 'no arguments':
        run.check(status == 0 and 'usage' in text.lower(), 'exit %r: %s',
                  status, text[-300:])
    else:
        run.check(status != 0, '%s is no error', case)
    run.check(earlier or 'out.xml' not in os.listdir(cwd),
              'a result despite %s', case)
    for name, data in given.items():
        run.check(name in os.listdir(cwd) and open(
            os.path.join(cwd, name), 'rb').read() == data,
                  '%s changed despite %s', name, case)
    for name in os.listdir(cwd):
        os.remove(os.path.join(cwd, name))
    run.outcome(case, status)


def written_as(value, flow, quote):
    """A value of a configuration."""
    if value is None:
        return ('', '~', 'null')[flow]
    if isinstance(value, bool):
        return (('no', 'yes'), ('false', 'true'), ('Off', 'On'))[flow][value]
    if isinstance(value, float):
        return '%.10f' % value
    if isinstance(value, str) and quote:
        return quote + value + quote
    return str(value)


def layouts_of(run):
    """A configuration means the same in every layout."""
    flow = run.pick('flow', (0, 1, 2))
    quote = run.pick('quote', ('', '"', "'"))
    space = run.pick('space', ('', '# blank: 1\n\n'))
    after = run.pick('after', ('', '   # comment: x'))
    newline = run.pick('newline', ('\n', '\r\n'))
    order = run.pick('order', (1, -1))
    start = run.pick('start', ('', '---\n'))
    run.commit()
    jobs = run.pick('jobs', (None, ['Recurrence'],
                             ['Recurrence', 'MaximumMagnitude']))
    config = settings_of('Weichert', 'Kijko_Npg', ['GardnerKnopoff', 'Stepp'])
    config.update(eq_catalog_file='a folder/in.csv', source_model_file=None,
                  processing_jobs=jobs, apply_processing_jobs=bool(jobs),
                  result_file='out.xml')
    lines = []
    for key in sorted(config)[::order]:
        value = config[key]
        if isinstance(value, dict):
            items = ['%s: %s' % (k, written_as(v, flow, quote))
                     for k, v in sorted(value.items())[::order]]
            text = ('\n' + '\n'.join('  ' + i + after for i in items)
                    if flow == 0 else ' {' + ', '.join(items) + '}' + after
                    if flow == 1 else ' {\n ' + ',\n '.join(items) + '\n }')
        elif isinstance(value, list):
            items = [written_as(v, flow, quote) for v in value]
            text = ('\n' + '\n'.join('- ' + i + after for i in items)
                    if flow == 0 else ' [' + ', '.join(items) + ']' + after
                    if flow == 1 else '\n' + '\n'.join(
                        '    -   ' + i for i in items))
        else:
            text = ' ' + written_as(value, flow, quote) + after
        lines.append(space + key + ':' + text)
    text = (start + '\n'.join(lines) + '\n').replace('\n', newline)
    path = place('layout.yml')
    with open(path, 'w', newline='') as out:
        out.write(text)
    run.note(text=text)
    first = run.call(Context, path)
    run.check(first.config == config, 'read as %r, expected %r', first.config,
              config)
    second = run.call(Context, path)
    run.check(second.config == config, 'read again as %r', second.config)
    first.config.clear()
    run.check(second.config == config, 'two runs share a configuration')
    with open(path, newline='') as source:
        run.check(source.read() == text, 'the configuration was changed')
    run.outcome(flow, quote, str(jobs))


# -- W07 -------------------------------------------------------------------
STAGED = ((['GardnerKnopoff'], 'Weichert', 'Kijko_Npg', JOBS[0]),
          (['GardnerKnopoff'], 'MLE', 'Cumulative_Moment', JOBS[0]),
          (['Afteran'], 'MLE', 'Kijko_Npg', JOBS[0]),
          (['Afteran'], 'Weichert', 'Cumulative_Moment', JOBS[0]),
          (['GardnerKnopoff', 'Stepp'], 'MLE', 'Kijko_Npg', JOBS[1]),
          (['Afteran', 'Stepp'], 'MLE', 'Kijko_Npg', JOBS[1]),
          (['Stepp'], 'MLE', 'Kijko_Npg', JOBS[1]),
          (['Stepp'], 'MLE', 'Kijko_Npg', JOBS[1], 0.125, 1.5),
          (['GardnerKnopoff', 'Stepp'], 'MLE', 'Kijko_Npg', JOBS[1], 0.125,
           2.25))


def staged(run, rows, zones, setting):
    """Preprocess and process at once, and in two runs of the workflow."""
    before, recur, largest, jobs = setting[:4]
    stored, table = place('stored.csv'), place('table.csv')
    remove(stored, table)
    config = settings_of(recur, largest, before)
    if setting[4:]:
        (config['Stepp']['magnitude_windows'],
         config['Stepp']['time_window']) = setting[4:]
    config.update(
        eq_catalog_file=put('in.csv', csv_of(rows)),
        source_model_file=put('in.xml', nrml.render(zones)),
        processing_jobs=jobs, pprocessing_result_file=stored,
        completeness_table_file=table)
    once, _, error = execute(run, config)
    run.check(error is None, 'refused: %r', error)
    second = settings_of(recur, largest, None)
    second.update(
        eq_catalog_file=stored, source_model_file=place('in.xml'),
        processing_jobs=jobs, completeness_table_file=table)
    again, _, error = execute(run, second)
    run.check(error is None, 'refused: %r', error)
    for one, two in zip(once.sm_definitions, again.sm_definitions):
        run.check(near(law(two), list(law(one))), 'in two stages %s has %r, '
                  'in one %r after %r, %s', one.area_source_id, law(two),
                  law(one), before, recur)
    return [law(s) for s in once.sm_definitions]


def stages(run):
    """Small catalogues."""
    size = run.pick('size', (1, 2, 3, 4) if run.thorough else (1, 2, 3))
    events, low = [], 0
    kinds = [(year, 2, 3 + 5 * k, mag) for k, year in enumerate(
        (1965, 1972, 1991, 1991)) for mag in (4.15, 4.75, 5.55)]
    for k in range(size):
        low += run.pick('event%d' % k, range(len(kinds) - low))
        events.append(kinds[low])
    run.commit()
    order = run.pick('order', (1, -1))
    run.note(events=events, order=order)
    rows = [e[:3] + (10.5, 45.5, e[3], 0.) for e in events[::order]]
    zone = dict(nrml.BASE, pos=REAL['many'])
    span = max(e[0] for e in events) - min(e[0] for e in events)
    for setting in STAGED:
        if span < 6 and 'Stepp' in setting[0]:
            continue
        out = staged(run, rows, [zone], setting)
        run.outcome(str(setting[0]), [round(v, 6) for v in out[0][:4]])


def stages_of_zones(run):
    """A larger catalogue without some of its events, several zones."""
    setting = run.pick('setting', STAGED)
    names = run.pick('zones', (('many', 'half', 'other'), ('both', 'single'),
                               ('same', 'empty', 'many')))
    run.commit()
    drop = run.pick('dropped', range(0, 12 if run.thorough else 6))
    step = run.pick('every', (5, 7, 11))
    rows = [r for k, r in enumerate(real_rows()) if k % step != drop]
    run.note(setting=setting, zones=names, dropped=(drop, step))
    zones = [dict(nrml.BASE, id=n, name=n, pos=REAL[n]) for n in names]
    out = staged(run, rows, zones, setting)
    run.outcome(names, [[round(v, 6) for v in o[:4]] for o in out])


CHECKS = {
    'W01': {
        'scenarios': lambda tier: [('configurations', configurations, 0),
                                   ('settings', settings, 0),
                                   ('misspelt', misspelt, 0),
                                   ('catalogues', catalogues, 0)],
        'assumptions': ['the scientific functions give scripted results',
                        'a completeness table file is named where the '
                        'preprocessed catalogue is to be stored',
                        'one declustering algorithm in a configuration'],
        'bounds': {
            'quick': '3 kinds of source model x 15 lists of preprocessing '
                     'jobs x 10 of processing jobs x 3 result files x 3 '
                     'tables x processing on and off; every setting with 4..15 '
                     'values; 13 misspellings of every job at every place; every sequence of up to 3 of 5 events x 5 '
                     'tables of up to 7 rows',
            'thorough': 'the same'}},
    'W02': {
        'scenarios': lambda tier: [('outcomes', outcomes, 0),
                                   ('laws', laws, 0)],
        'assumptions': ['the scientific functions give scripted results'],
        'bounds': {
            'quick': 'every outcome (6 of the recurrence, 3 of the maximum '
                     'magnitude, no events) in each of 1..2 zones, 3 and 2 '
                     'of them in each of 3 zones; 4 lists of jobs; 144 laws '
                     'of the model, also with bounds beyond the results',
            'thorough': 'all outcomes in 3 zones'}},
    'W03': {
        'scenarios': lambda tier: [('zones', zones_apart, 0),
                                   ('many', many_zones, 0)],
        'assumptions': ['events without uncertainty, so that the bootstrap '
                        'is not random'],
        'bounds': {
            'quick': 'every sequence of 1..3 of 7 zones (overlapping, '
                     'nested, empty, with a single event, of one magnitude) '
                     'x 2 x 2 algorithms x 1..4 preprocessings x 1..3 lists '
                     'of jobs; models of up to 129 zones side by side, '
                     'nested or alike, also of the same name',
            'thorough': 'all combinations'}},
    'W04': {
        'scenarios': lambda tier: [('kept', kept_events, 0),
                                   ('years', parts_of_years, 0),
                                   ('long', long_catalogues, 0)],
        'assumptions': ['Stepp on catalogues of more than one time window'],
        'bounds': {
            'quick': 'every catalogue of up to 2 events over 5 dates, 3 places '
                     'and 4 magnitudes, and of 3 events over 4 dates, 2 '
                     'places and 2 magnitudes, x 7 lists of jobs, also with '
                     'the same identifiers and uncertainties; 4 kinds of '
                     'catalogues of up to 1100 events in 3 orders; 4 time '
                     'windows of parts of a year',
            'thorough': '3 events over 5 dates, 2 places and 3 magnitudes, '
                        '4 events over 4, 2 and 2'}},
    'W05': {
        'scenarios': lambda tier: [('tables', tables, 0),
                                   ('long tables', long_tables, 0),
                                   ('layouts', layouts, 0)],
        'assumptions': ['five decimals of the stored table'],
        'bounds': {
            'quick': 'every table of up to 2 rows over 9 years and 7 '
                     'magnitudes, 3 rows over 3 and 4; 4 kinds of tables of '
                     'up to 1100 rows; 120 layouts',
            'thorough': 'the same'}},
    'W06': {
        'scenarios': lambda tier: [('program', end_to_end, 0),
                                   ('refusals', refusals, 0),
                                   ('layouts', layouts_of, 0)],
        'assumptions': ['events without uncertainty, so that the bootstrap '
                        'is not random',
                        'validity of the result is judged for models that '
                        'were read, the default source is not valid NRML'],
        'bounds': {
            'quick': '4 models x 4 preprocessings x 3 lists of jobs x 2 x 2 '
                     'algorithms x processing on and off x 4 sets of files; '
                     'detailed with all of the files; files left by earlier '
                     'runs; 11 refusals, also over an earlier result; 864 '
                     'layouts of a configuration',
            'thorough': 'detailed and not with any files'}},
    'W07': {
        'scenarios': lambda tier: [('catalogues', stages, 0),
                                   ('zones', stages_of_zones, 0)],
        'assumptions': ['events without uncertainty, so that the bootstrap '
                        'is not random',
                        'with a completeness analysis only for the maximum '
                        'likelihood recurrence with the increment lock: the '
                        'other calculations also look at incomplete events'],
        'bounds': {
            'quick': 'every multiset of 1..3 of 12 events, both orders, x 9 '
                     'settings; 9 settings x 3 models x 18 catalogues of 40 '
                     'events',
            'thorough': 'multisets of up to 4; 36 catalogues'}},
}
