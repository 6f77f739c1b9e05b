"""Value objects and pipelines (E01, J01)."""

from mc.checks import nrml

from mtoolkit.geo.tectonic_region import TectonicRegion, TectonicRegionBuilder
from mtoolkit.source_model import default_area_source
from mtoolkit.workflow import (Context, PipeLine, PreprocessingBuilder,
                               ProcessingBuilder, Workflow)


# -- E01 -------------------------------------------------------------------
PARTS = nrml.MENU + (('nrml', ('n1', 'n2', None)),
                     ('model', ('sm1', 'n1', None)))
REGION = (
    ('id', ('001', '002', '1')),
    ('models', (['WC1994'], ['Peer'], ['WC1994', 'Peer'],
                ['Peer', 'WC1994'])),
    ('weights', ([1.], [0.25, 0.75], [0.75, 0.25])),
    ('moduli', ([30.], [30.0000001], [49., 30.], [30., 49.])),
    ('ratios', ([1.25e-5], [1e-4], [1e-4, 1.25e-5])),
)


def decide(run, one, other, equal, where):
    """Judge both operators, from both sides."""
    for x, y in ((one, other), (other, one)):
        run.check(bool(run.call(lambda: x == y)) == equal,
                  '%s: equality is %r', where, not equal)
        run.check(bool(run.call(lambda: x != y)) == (not equal),
                  '%s: inequality is %r', where, equal)
    run.check(bool(run.call(lambda: one == one)), '%s: not equal to itself',
              where)


def sources(run):
    """Pairs of sources that differ in up to two parts, read or made."""
    one = dict((name, menu[0]) for name, menu in PARTS)
    other = dict((name, run.dev(name, menu)) for name, menu in PARTS)
    run.commit()
    run.note(changed={k: v for k, v in other.items() if v != one[k]})
    equal = all(one[k] == other[k] for k in one)
    decide(run, nrml.build(one), nrml.build(other), equal, 'sources')
    # results do not count
    noted = nrml.build(one)
    noted.recurrence_sigb = 0.5
    decide(run, noted, nrml.build(other), equal, 'a source with results')
    decide(run, default_area_source(), nrml.build(other), False,
           'the default source')
    shown = str(nrml.build(other))
    for key in ('nrml', 'model', 'id', 'name', 'region', 'hypo', 'a', 'b',
                'min', 'max', 'type', 'strike', 'dip', 'rake', 'srs',
                'mtype'):
        run.check(str(other[key]) in shown or repr(other[key]) in shown,
                  '%s (%r) is not shown: %r', key, other[key], shown)
    run.outcome(equal)


def pairs(run):
    """Pairs of sources that differ in one part, any values of it."""
    part, menu = run.pick('part', PARTS)
    run.commit()
    menu = tuple(menu) + LIKE.get(part, ())
    one = run.pick('one', range(len(menu)))
    other = run.pick('other', range(len(menu)))
    base = dict((name, values[0]) for name, values in PARTS)
    first, second = dict(base), dict(base)
    first[part], second[part] = menu[one], menu[other]
    run.note(part=part, one=menu[one], other=menu[other])
    equal = menu[one] == menu[other]
    decide(run, nrml.build(first), nrml.build(second), equal, part)
    run.outcome(part, equal)


# values that are close to each other, or alike when converted
LIKE = {
    'region': ('', 'active shallow crust', ' Active Shallow Crust',
               'Active Shallow Crust ', 'Active  Shallow Crust'),
    'id': ('1', '01', '1.0', 'SRC03', ' src03', ''),
    'name': ('', ' ', 'Quito ', 'quito', 'None', '0'),
    'nrml': ('', 'N1', ' n1'), 'model': ('', 'N1', ' n1'),
    'srs': ('', 'EPSG:4326'), 'type': ('', 'ml'), 'mtype': ('', 'mw', None),
    'pos': ((), (0., 0.), (0., 0., 1., 0., 1., 1.), (1., 0., 1., 1., 0., 0.),
            (0., 1., 0., 1., 1., 1.), (0., 0., 1., 0., 1., 1., 0., 0.),
            (1., 1., 1., 0., 0., 0.)),
    'mags': ((), (5., 6.), (6., 5.), (5., 5.), (5., 6., 6.)),
    'depths': ((), (5., 6.), (6., 5.), (5., 5.), (5., 6., 6.)),
    'a': (5. + 2. ** -50, 5), 'b': (0.8 + 2. ** -50, 0.), 'min': (-4.75,),
    'max': (7. + 2. ** -48, float('inf')), 'strike': (10.5 + 360., -349.5),
    'dip': (88.00000001, -88.), 'rake': (356.5, 3.5),
    'hypo': (5250. + 2. ** -38, 5250, 5.25)}


def defaults(run):
    """The default source: each one its own, and always the same."""
    first = run.call(default_area_source)
    part = run.pick('part', ('name', 'tectonic_region', 'area_boundary',
                             'rupture_rate_model', 'rupture_depth_dist',
                             'hypocentral_depth', 'points', 'depths',
                             'magnitudes'))
    run.commit()
    second = run.call(default_area_source)
    decide(run, first, second, True, 'two default sources')
    if part == 'points':
        first.area_boundary.pos_list.append(first.area_boundary.pos_list[0])
    elif part == 'depths':
        first.rupture_depth_dist.depth.append(1.)
    elif part == 'magnitudes':
        first.rupture_depth_dist.magnitude.values.append(1.)
    else:
        setattr(first, part, 'other')
    decide(run, first, second, False, 'a changed default source')
    decide(run, second, run.call(default_area_source), True,
           'a later default source')
    run.outcome(part)


def region_of(values):
    """A tectonic region."""
    def fill(items, name):
        return {name: list(items), 'weight': list(
            values['weights'] if len(items) == len(values['weights'])
            else [1.] if len(items) == 1 else [0.5, 0.5])}
    return TectonicRegion(values['id'], fill(values['models'], 'model'),
                          fill(values['moduli'], 'value'),
                          fill(values['ratios'], 'value'))


def regions(run):
    """Pairs of regions."""
    one = dict((name, run.pick('one ' + name, menu)) for name, menu in REGION)
    run.commit()
    other = dict(one)
    for name, menu in REGION:
        left = [one[name]] + [m for m in menu if m != one[name]]
        other[name] = run.dev(name, left)
    run.note(one=one, other=other)

    def plain(values):
        got = []
        for name in ('models', 'moduli', 'ratios'):
            items = values[name]
            got.append((items, values['weights']
                        if len(items) == len(values['weights'])
                        else [0.5] * len(items)))
        return values['id'], [(a, b if len(a) > 1 else 1) for a, b in got]
    equal = plain(one) == plain(other)
    decide(run, region_of(one), region_of(other), equal, 'regions')
    run.outcome(equal)


NAMES = ('Active Shallow Crust', 'Subduction Interface',
         'Subction Intraslab', 'Stable Continental', 'Volcanic')


def named(run):
    """Regions by name: equal exactly to those of the same parameters."""
    one = run.pick('one', NAMES)
    other = run.pick('other', NAMES)
    change = run.pick('change', (None, 'smod', 'dlr', 'msr'))
    run.commit()
    make = TectonicRegionBuilder.create_tect_region_by_name
    given = {None: {}, 'smod': {'smod': {'value': [31.], 'weight': [1.]}},
             'dlr': {'dlr': {'value': [2e-5], 'weight': [1.]}},
             'msr': {'msr': {'model': ['Peer'], 'weight': [1.]}}}[change]
    decide(run, run.call(make, one), run.call(make, other, **given),
           one == other and not given, 'regions by name')
    decide(run, run.call(make, one, **given), run.call(make, one, **given),
           True, 'regions by name, changed alike')
    # however they are made
    full = {'smod': {'value': [31.], 'weight': [1.]},
            'dlr': {'value': [2e-5], 'weight': [1.]},
            'msr': {'model': ['Peer'], 'weight': [1.]}}
    decide(run, run.call(make, one, **full), run.call(
        TectonicRegionBuilder.create_new_tect_region,
        '00%d' % (NAMES.index(other) + 1), **full), one == other,
        'a region by name and one by identifier')
    run.outcome(one == other, change)


# -- J01 -------------------------------------------------------------------
class Refused(Exception):
    """What a job of the harness raises."""


# what jobs give back, to no avail
ANSWERS = (None, StopIteration, False, True, 0, 1, '', 'stop', [], Refused('given back'))
FAILURES = (Refused, StopIteration, IndexError, AttributeError)


class Plugin(object):
    """A job that is an object, and one that counts as false."""

    def __init__(self, act):
        self.act = act

    def __call__(self, context):
        return self.act(context)

    def __len__(self):
        return 0


def machine(run):
    """Histories of pipelines: made, extended, compared and run."""
    log = []

    def job(name, fails=False):
        def act(context):
            log.append((name, context))
            if fails:
                raise failure
            return answer
        return act
    jobs = {'a': job('a'), 'b': Plugin(job('b')), 'x': job('x', True)}
    failure = run.pick('failure', FAILURES)('x')
    answer = run.pick('answer', ANSWERS if failure.__class__ is Refused
                      else ANSWERS[:1])
    first = run.pick('first', ('', 'a', 'ab', 'xa', None))
    second = run.pick('second', ('', 'a', 'ab', 'ba', None))
    model = [list(first or ''), list(second or '')]
    made = [run.call(PipeLine) if text is None else
            run.call(PipeLine, [jobs[c] for c in text])
            for text in (first, second)]
    depth = 4 if run.thorough else 3
    steps = []
    for step in range(depth):
        which = run.pick('pipeline%d' % step, (0, 1))
        what = run.pick('step%d' % step, ('add a', 'add b', 'add x', 'run'))
        if step == 0:
            run.commit()
        steps.append((which, what))
        run.note(first=first, second=second, steps=list(steps))
        if what == 'run':
            context = Context()
            del log[:]
            _, error = run.attempt(made[which].run, context)
            want = []
            for name in model[which]:
                want.append(name)
                if name == 'x':
                    break
            run.check([n for n, _ in log] == want, 'ran %r, expected %r',
                      [n for n, _ in log], want)
            run.check(all(c is context for _, c in log),
                      'a job got another context')
            run.check(error is failure if 'x' in want
                      else error is None, 'run gives %r', error)
        else:
            name = what[-1]
            run.call(made[which].add_job, jobs[name])
            model[which].append(name)
        for pipeline, names in zip(made, model):
            run.check(pipeline.jobs == [jobs[n] for n in names],
                      'a pipeline has other jobs')
        decide(run, made[0], made[1], model[0] == model[1], 'pipelines')
    run.check(run.call(PipeLine).jobs == [], 'a new pipeline has jobs')
    run.outcome(tuple(model[0]), tuple(model[1]))


def one_list(run):
    """Two pipelines made of one list of jobs, which changes afterwards."""
    log = []

    def job(name):
        return lambda context: log.append(name)
    jobs = {'a': job('a'), 'b': job('b'), 'c': job('c')}
    text = run.pick('jobs', ('', 'a', 'ab', 'aa'))
    steps = [run.pick('step%d' % k, ('first', 'second', 'list', 'emptied',
                                     'run')) for k in range(3)]
    run.commit()
    run.note(jobs=text, steps=steps)
    given = [jobs[c] for c in text]
    made = [run.call(PipeLine, given), run.call(PipeLine, given)]
    model, listed = [list(text), list(text)], list(text)
    for step in steps:
        if step == 'list':
            given.append(jobs['b'])
            listed.append('b')
        elif step == 'emptied':
            del given[:]
            del listed[:]
        elif step == 'run':
            run.call(made[0].run, Context())
        else:
            which = ('first', 'second').index(step)
            run.call(made[which].add_job, jobs['c'])
            model[which].append('c')
        for pipeline, names in zip(made, model):
            del log[:]
            run.call(pipeline.run, Context())
            run.check(log == names, 'ran %r, expected %r', log, names)
        run.check(given == [jobs[n] for n in listed],
                  'the list of jobs was changed')
        decide(run, made[0], made[1], model[0] == model[1], 'pipelines')
    run.outcome(tuple(model[0]), tuple(model[1]))


class Fixed(object):
    """A filter with a script."""

    def __init__(self, pairs, log, fails):
        self.pairs, self.log, self.fails = pairs, log, fails

    def filter_eqs(self, definitions, catalog):
        """The zones of the script."""
        self.log.append(('filter', definitions, catalog))
        for k, pair in enumerate(self.pairs):
            if k == self.fails:
                raise Refused('zone')
            yield pair


def workflow(run):
    """Preprocessing once, then processing once for each zone."""
    before = run.pick('before', (0, 1, 2))
    after = run.pick('after', (0, 1, 2))
    zones = run.pick('zones', (0, 1, 2, 3))
    apply_jobs = run.pick('apply', (True, False))
    run.commit()
    total = before + (after * zones if apply_jobs else 0)
    bad = run.pick('failing step', [None] + list(range(total)))
    torn = run.pick('failing zone', (None, 0, zones - 1))
    if torn is not None and (torn >= zones or torn < 0):
        return
    failure = run.pick('failure', FAILURES[:1 if bad is None else 4])
    answer = run.pick('answer', ANSWERS)
    run.note(before=before, after=after, zones=zones, apply=apply_jobs,
             failing=bad, zone=torn)
    log = []

    def job(name, processing):
        def act(context):
            step = len([e for e in log if e[0] != 'filter'])
            log.append((name, (context.cur_sm, context.current_filtered_eq)
                        if processing else None))
            if not processing:
                context.sm_definitions = ['defs', step]
                context.working_catalog = ['rows', step]
            if step == bad:
                raise failure(name)
            return answer
        return Plugin(act) if before == after else act
    pre = PipeLine([job('p%d' % k, False) for k in range(before)])
    pro = PipeLine([job('q%d' % k, True) for k in range(after)])
    context = Context()
    context.config = {'apply_processing_jobs': apply_jobs}
    pairs = [('zone%d' % k, 'events%d' % k) for k in range(zones)]
    started = run.call(Workflow, pre, pro)
    want, failed = [], False
    for k in range(before):
        want.append(('p%d' % k, None))
        if len(want) - 1 == bad:
            failed = True
            break
    if apply_jobs and not failed:
        last = before - 1
        want.append(('filter', ['defs', last] if before else None,
                     ['rows', last] if before else None))
        for k in range(zones):
            if k == torn or failed:
                failed = True
                break
            for j in range(after):
                want.append(('q%d' % j, pairs[k]))
                if len(want) - 2 == bad:
                    failed = True
                    break
    for again in (False, True):
        # a second start with the same context does everything again
        del log[:]
        _, error = run.attempt(started.start, context,
                               Fixed(pairs, log, torn))
        got = [(e[0],) + tuple(e[1:]) for e in log]
        if zones == 0 and apply_jobs and got != want:
            # a filter is free not to be asked for nothing
            want = [w for w in want if w[0] != 'filter']
        run.check(got == want, 'performed %r, expected %r (again: %r)',
                  got, want, again)
        run.check(isinstance(error, (failure, Refused)) if failed
                  else error is None, 'the run gives %r', error)
    run.outcome(tuple(e[0] for e in log), failed)


KNOWN = {'Recurrence': 'recurrence', 'MaximumMagnitude': 'maximum_magnitude'}


LISTS = (None, [], ['Recurrence'], ['MaximumMagnitude', 'Recurrence'],
         ['Recurrence', 'Recurrence'],
         ['Recurrence', 'MaximumMagnitude', 'Recurrence'])


def builders(run):
    """Two builders, two builds: each pipeline its own."""
    one = run.pick('one', LISTS)
    other = run.pick('other', LISTS)
    shared = run.pick('same builder', (True, False))
    kind = run.pick('kind', ('processing', 'preprocessing'))
    run.commit()
    first = ProcessingBuilder() if kind == 'processing' \
        else PreprocessingBuilder()
    second = first if shared else type(first)()

    def config(jobs):
        out = {'source_model_file': None, 'pprocessing_result_file': None,
               'completeness_table_file': None, 'processing_jobs': None,
               'preprocessing_jobs': None}
        key = kind + '_jobs'
        out[key] = jobs and list(jobs)
        return out
    given, later = config(one), config(other)
    a = run.call(first.build, given)
    known = list(a.jobs)
    b = run.call(second.build, later)
    run.check(given == config(one) and later == config(other),
              'a configuration was changed')
    run.check(a.jobs == known, 'an earlier pipeline was changed')
    run.check(a is not b, 'the same pipeline twice')
    decide(run, a, b, (one or []) == (other or []), 'built pipelines')
    extra = 0 if kind == 'processing' else 4
    run.check(len(a.jobs) == len(one or ()) + extra and
              len(b.jobs) == len(other or ()) + extra,
              'pipelines of %d and %d jobs', len(a.jobs), len(b.jobs))
    b.add_job(len)
    run.check(a.jobs == known, 'an earlier pipeline was extended')
    run.check(run.call(type(first)().build, given).jobs == known,
              'a later pipeline has other jobs')
    run.outcome(str(one), str(other), kind)


CHECKS = {
    'E01': {
        'scenarios': lambda tier: [
            ('sources', sources, 3 if tier == 'thorough' else 2),
            ('pairs', pairs, 0), ('defaults', defaults, 0),
            ('regions', regions, 3 if tier == 'thorough' else 1),
            ('named', named, 0)],
        'assumptions': ['no part is NaN'],
        'bounds': {
            'quick': 'sources that differ in up to 2 of 19 parts; every pair '
                     'of regions one parameter apart',
            'thorough': 'up to 3 parts; regions up to 3 parameters apart'}},
    'J01': {
        'scenarios': lambda tier: [('machine', machine, 0),
                                   ('workflow', workflow, 0),
                                   ('one list', one_list, 0),
                                   ('builders', builders, 0)],
        'assumptions': [],
        'bounds': {
            'quick': 'histories of 3 steps on two pipelines; up to 2 jobs '
                     'before, 2 jobs for each of up to 3 zones, each step '
                     'failing; every pair of builds; pipelines made of one list',
            'thorough': 'histories of 4 steps'}},
}
