"""What the log says about a run (V01)."""

import logging
import os
import re

import numpy as np

from mc.checks import nrml
from mc.checks.workflow import (config_of, csv_of, direct_pre, place, program,
                                put, real_rows, REAL, remove, rows_of,
                                settings_of, yaml_of)

from mtoolkit.catalog_filter import CatalogFilter, SourceModelCatalogFilter
from mtoolkit.scientific.completeness import selected_eq_flag_vector
from mtoolkit.scientific.declustering import (afteran_decluster,
                                              gardner_knopoff_decluster)
from mtoolkit.scientific.maximum_magnitude import maximum_magnitude_analysis
from mtoolkit.scientific.recurrence import recurrence_analysis
from mtoolkit.workflow import (Context, PreprocessingBuilder,
                               ProcessingBuilder, Workflow)

WHOLE = r'(-?\d+)\s*$'
FIGURES = (
    ('read', re.compile(r'catalog length: ' + WHOLE)),
    ('sources', re.compile(r'number source models: ' + WHOLE)),
    ('left', re.compile(r'events after declustering: ' + WHOLE)),
    ('removed', re.compile(r'removed during declustering: ' + WHOLE)),
    ('clusters', re.compile(r'clusters identified: ' + WHOLE)),
    ('analysed', re.compile(r'into completeness algorithm: ' + WHOLE)),
    ('stored', re.compile(r'Stored Eq entries: ' + WHOLE)),
    ('dropped', re.compile(r'after preprocessing jobs: ' + WHOLE)),
    ('zone', re.compile(r'inside the zone (.*): ' + WHOLE)),
    ('law', re.compile(r'Bvalue: *(\S+), Sigma_b: *(\S+), Avalue: *(\S+), '
                       r'Sigma_a: *(\S+)\s*$')),
    ('largest', re.compile(r'Max magnitude: *(\S+), Sigma: *(\S+)\s*$')),
)
BANNERS = {'GARDNER_KNOPOFF': 'GardnerKnopoff', 'AFTERAN': 'Afteran',
           'STEPP': 'Stepp', 'RECURRENCE': 'Recurrence',
           'MAXIMUM_MAGNITUDE': 'MaximumMagnitude'}


class Lines(logging.Handler):
    """Collects all messages."""

    def __init__(self):
        logging.Handler.__init__(self, logging.DEBUG)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def figures(lines):
    """The figures and jobs that are reported, in order."""
    found, jobs = [], []
    for line in lines:
        for name, pattern in FIGURES:
            match = pattern.search(line)
            if match:
                found.append((name,) + match.groups())
        if line.strip() in BANNERS:
            jobs.append(BANNERS[line.strip()])
    return found, jobs


def expected(config, rows, zones):
    """What there is to report."""
    matrix = np.array(rows, dtype=float)
    said = [('read', len(rows)), ('sources', len(zones) or 1)]
    jobs = []
    working, flags = matrix, np.zeros(len(rows))
    for job in config['preprocessing_jobs'] or ():
        jobs.append(job)
        s = config[job]
        if job == 'Stepp':
            said.append(('analysed', len(working)))
            continue
        if job == 'GardnerKnopoff':
            vcl, working, flags = gardner_knopoff_decluster(
                matrix.copy(), s['time_dist_windows'],
                s['foreshock_time_window'])
        else:
            vcl, working, flags = afteran_decluster(
                matrix.copy(), s['time_dist_windows'], s['time_window'])
        said += [('left', len(working)),
                 ('removed', len(matrix) - len(working)),
                 ('clusters', len(set(vcl.tolist()) - set([0])))]
    table = direct_pre(config, matrix)[2]
    if config['preprocessing_jobs'] and config['pprocessing_result_file']:
        gone = selected_eq_flag_vector(
            matrix[:, 0].copy(), matrix[:, 5].copy(), table[:, 0].copy(),
            table[:, 1].copy(), np.array(flags))
        left = int(np.sum(gone == 0))
        said += [('stored', left), ('dropped', len(rows) - left)]
    if config['apply_processing_jobs']:
        for zone in zones or (None,):
            inside = rows_of(zone, working)
            if zone:
                said.append(('zone', zone['name'], len(inside)))
            for job in config['processing_jobs'] or ():
                jobs.append(job)
                if len(inside):
                    said += computed(config, job, inside, table)
    return said, jobs


def computed(config, job, rows, table):
    """The parameters of a zone, if they are."""
    s = config[job]
    years, mags = rows[:, 0].copy(), rows[:, 5].copy()
    if job == 'Recurrence':
        try:
            values = recurrence_analysis(
                years, mags, table.copy(), s['magnitude_window'],
                s['recurrence_algorithm'], s['reference_magnitude'],
                s['time_window'])
        except ValueError:
            return []
        return [('law',) + tuple(values)] if np.all(
            np.isfinite(values)) else []
    values = maximum_magnitude_analysis(
        years, mags, rows[:, 6].copy(), s['maxim_mag_algorithm'],
        s['iteration_tolerance'], s['maximum_iterations'], s['neq'],
        s['number_samples'], s['number_bootstraps'])
    return [('largest',) + tuple(values)] if np.isfinite(values[0]) else []


def agree(run, lines, config, rows, zones):
    """Judge what was reported."""
    found, jobs = figures(lines)
    want, order = expected(config, rows, zones)
    run.check(jobs == order, 'announced %r, expected %r', jobs, order)
    run.check([f[0] for f in found] == [w[0] for w in want],
              'reported %r, expected %r', [f[0] for f in found],
              [w[0] for w in want])
    for have, exp in zip(found, want):
        for said, true in zip(have[1:], exp[1:]):
            if isinstance(true, str):
                run.check(said == true, 'reported %r, expected %r', have, exp)
            elif isinstance(true, int):
                run.check(int(said) == true, 'reported %r, expected %r', have,
                          exp)
            else:
                run.check(abs(float(said) - true) <= (
                              5.001e-4 + 1e-12 * abs(true)) or
                          np.isnan(true) and np.isnan(float(said)),
                          'reported %r, expected %r', have, exp)
    return want


EVENTS = ((1990, 1, 1, 10.5, 45.5, 6.25, 0.),
          (1990, 1, 11, 10.53125, 45.5, 4.95, 0.),
          (1997, 12, 31, 20.5, -5.5, 5.05, 0.),
          (1997, 12, 27, 20.5, -5.53125, 4.15, 0.),
          (1997, 12, 31, 20.5, -5.5, 5.05, 0.),
          (1982, 2, 28, 60., -10., 5.55, 0.))
NAMES = {'many': '100%s wide', 'other': 'zone %d: 3', 'empty': '50%',
         'half': '{0} \\n %(x)s', 'both': 'many', 'single': 'Number of'}
ZONES = tuple(dict(nrml.BASE, id=n, name=NAMES[n], pos=REAL[n])
              for n in ('many', 'other', 'empty'))
BEFORE = (None, ['GardnerKnopoff'], ['Afteran'], ['Stepp'],
          ['GardnerKnopoff', 'Stepp'], ['Stepp', 'Afteran'])


def small(run):
    """Few events: none, some or all of them in clusters."""
    rows = run.subset('event', EVENTS)
    backwards = run.pick('backwards', (False, True))
    before = run.pick('before', BEFORE)
    run.commit()
    if not rows:
        return
    if backwards:
        rows = rows[::-1]
    if 'Stepp' in (before or ()) and max(r[0] for r in rows) - min(
            r[0] for r in rows) < 6:
        return              # shorter than the time windows
    stores = run.pick('stores', (True, False))
    zones = run.pick('zones', ((), ZONES, ZONES[:1])[
        :3 if run.thorough else 2])
    apply_jobs = run.pick('apply', (True, False))
    after = run.pick('after', (['Recurrence', 'MaximumMagnitude'],
                               ['MaximumMagnitude', 'Recurrence'])[
                                   :1 + (run.thorough or stores)])
    reported(run, rows, zones, before, after, stores, apply_jobs,
             'Weichert', 'Cumulative_Moment')


def larger(run):
    """A catalogue that defines the parameters of some zones."""
    before = run.pick('before', BEFORE)
    recur = run.pick('recurrence', ('Weichert', 'MLE'))
    largest = run.pick('maximum', ('Kijko_Npg', 'Cumulative_Moment'))
    run.commit()
    names = run.subset('zone', sorted(REAL))
    zones = [dict(nrml.BASE, id=n, name=NAMES.get(n, n), pos=REAL[n])
             for n in names]
    after = run.pick('after', (['Recurrence', 'MaximumMagnitude'],
                               ['Recurrence'], ['MaximumMagnitude']))
    if not run.thorough and len(names) not in (0, 2, 7) and (
            before is not None or after != ['Recurrence',
                                            'MaximumMagnitude']):
        return
    reported(run, real_rows(), zones, before, after, True, True, recur,
             largest, {}, len(names) == 2)


def steep(run):
    """Rates over many orders of magnitude."""
    slope = run.pick('slope', (1, 2, 4, 8))
    reference = run.pick('reference', (0., -1., -3.5, 5., 9.))
    recur = run.pick('recurrence', ('Weichert', 'MLE'))
    before = run.pick('before', BEFORE[:2])
    alike = run.pick('alike', (False, True))
    run.commit()
    rows = [(1960 + k % 40, 1 + k % 12, 1 + k % 28, 10.25, 45.25,
             4.05 + 0.1 * (k % (3 * slope) < 2) + 0.1 * (k % (5 * slope) < 1),
             0.) for k in range(60)]
    reported(run, rows, ZONES[:1], before, ['Recurrence'], True, True, recur,
             'Kijko_Npg', {'reference_magnitude': reference}, alike)


def reported(run, rows, zones, before, after, stores, apply_jobs, recur,
             largest, changes=(), alike=False):
    """A run of the workflow, and the messages of it."""
    stored, table = place('stored.csv'), place('table.csv')
    config = settings_of(recur, largest, before)
    config['Recurrence'].update(changes)
    config.update(
        eq_catalog_file=put('in.csv', csv_of(rows, alike)),
        source_model_file=put('in.xml', nrml.render(zones))
        if zones else None, processing_jobs=after,
        pprocessing_result_file=stored if stores else None,
        completeness_table_file=table if stores and before else None,
        apply_processing_jobs=apply_jobs)
    run.note(rows=rows, zones=[z['name'] for z in zones], before=before,
             after=after, stores=stores, apply=apply_jobs)
    collect = Lines()
    logger = logging.getLogger('mt_logger')
    level = logger.level
    logger.addHandler(collect)
    logger.setLevel(logging.DEBUG)
    try:
        context = Context()
        context.config = config
        run.call(Workflow(PreprocessingBuilder().build(config),
                          ProcessingBuilder().build(config)).start, context,
                 CatalogFilter(SourceModelCatalogFilter()) if zones
                 else CatalogFilter())
    finally:
        logger.setLevel(level)
        logger.removeHandler(collect)
    want = agree(run, collect.lines, config, rows, zones)
    remove(stored, table)
    run.outcome(tuple(str(w) for w in want))


def console(run):
    """The program: figures with -d, on the console and in the log file."""
    names = run.pick('zones', (('many', 'empty', 'other'), ('single',), ()))
    before = run.pick('before', BEFORE)
    after = run.pick('after', (['Recurrence', 'MaximumMagnitude'],
                               ['Recurrence'], None))
    run.commit()
    zones = [dict(nrml.BASE, id=n, name=NAMES[n], pos=REAL[n])
             for n in names]
    rows = real_rows()
    cwd = place('report')
    os.makedirs(cwd, exist_ok=True)
    for name in os.listdir(cwd):
        os.remove(os.path.join(cwd, name))
    put('report/in.csv', csv_of(rows))
    if zones:
        put('report/in.xml', nrml.render(zones))
    config = settings_of('Weichert', 'Cumulative_Moment', before)
    config.update(
        eq_catalog_file='in.csv', source_model_file='in.xml' if zones
        else None, processing_jobs=after, result_file=None,
        pprocessing_result_file='stored.csv' if before else None,
        completeness_table_file='table.csv' if before else None)
    put('report/config.yml', yaml_of(config))
    run.note(zones=names, before=before, after=after)
    status, plain = program(run, ['-i', 'config.yml'], cwd)
    run.check(status == 0, 'exit %r: %s', status, plain[-400:])
    found, jobs = figures(plain.splitlines())
    run.check(not found, 'figures without -d: %r', found)
    order = expected(config, rows, zones)[1]
    run.check(jobs == order, 'announced %r, expected %r', jobs, order)
    status, text = program(run, ['-d', '-i', 'config.yml'], cwd)
    run.check(status == 0, 'exit %r: %s', status, text[-400:])
    agree(run, text.splitlines(), config, rows, zones)
    with open(os.path.join(cwd, 'debug.log')) as source:
        logged = source.read()
    agree(run, logged.splitlines(), config, rows, zones)
    for line in plain.splitlines():
        if 'not possible' in line:
            run.check(line in text.splitlines() and
                      line in logged.splitlines(), 'warning %r is missing '
                      'with -d', line)
    run.outcome(names, str(before), str(after))


CHECKS = {
    'V01': {
        'scenarios': lambda tier: [('small', small, 0), ('larger', larger, 0),
                                   ('steep', steep, 0),
                                   ('console', console, 0)],
        'assumptions': ['messages are recognised by their text ("Number of '
                        'events after declustering" and so on)',
                        'the scientific functions are right; other '
                        'properties decide that'],
        'bounds': {
            'quick': 'every subset of 6 events, two of them alike, in both orders x 6 lists of '
                     'preprocessing jobs x results x zones x order of '
                     'processing jobs; a catalogue of 51 events with all '
                     'zones, names with format signs; rates of 1e-9 to 1e30; '
                     'the program in 54 configurations with and without '
                     'detail',
            'thorough': 'one zone as well, all orders; the larger catalogue with every subset of 7 '
                        'zones'}},
}
