"""Runs of the program that are interrupted, and repeated (L02)."""

import io
import logging
import os
import resource
import runpy
import shutil
import signal
import sys

from mc import sut
from mc.checks import nrml
from mc.checks.workflow import (JOBS, REAL, csv_of, place, put, real_rows,
                                settings_of, yaml_of)

STEPS = ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.link',
         'os.symlink', 'os.truncate', 'shutil.copyfile', 'shutil.move')
RESULTS = ('stored.csv', 'table.csv', 'out.xml')
INPUTS = ('in.csv', 'in.xml', 'config.yml')

# what is run: model, preprocessing, processing, algorithms
RUNS = ((('many', 'other'), ['GardnerKnopoff', 'Stepp'], JOBS[0], 'MLE',
         'Kijko_Npg'),
        (('same', 'empty', 'many'), ['Afteran'], JOBS[1], 'Weichert',
         'Cumulative_Moment'),
        (None, ['Stepp'], JOBS[1], 'MLE', 'Cumulative_Moment'),
        (('many',), ['GardnerKnopoff'], None, 'MLE', 'Kijko_Npg'))


def attempt(run, cwd, detailed, kind=None, at=None):
    """Run the program, which may be cut short: status, points passed."""
    run.calls += 1
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        status, steps = 70, [0]
        try:
            os.close(rfd)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            os.chdir(cwd)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False))
            sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False))
            logger = logging.getLogger('mt_logger')
            del logger.handlers[:]
            logger.setLevel(logging.NOTSET)
            sys.argv = ['main.py'] + (['-d'] if detailed else []) + [
                '-i', 'config.yml']

            def watch(event, args):
                if event not in STEPS or not args:
                    return
                path = args[0]
                if not isinstance(path, (str, bytes)):
                    return
                path = os.path.abspath(os.fsdecode(path))
                if not path.startswith(cwd + os.sep):
                    return
                if kind == 'killed at a step' and steps[0] == at:
                    os.kill(os.getpid(), signal.SIGKILL)
                steps[0] += 1
            sys.addaudithook(watch)
            if kind in ('killed at a byte', 'full at a byte'):
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kind ==
                              'killed at a byte' else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (at, at))
            try:
                runpy.run_path(os.path.join(sut.ROOT, 'main.py'),
                               run_name='__main__')
                status = 0
            except SystemExit as stop:
                status = stop.code if isinstance(stop.code, int) else (
                    0 if stop.code is None else 1)
            except BaseException:
                status = 1
            logging.shutdown()
            os.write(wfd, b'%d' % steps[0])
        finally:
            os._exit(status)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as source:
        passed = source.read()
    status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    return status, int(passed) if passed else None


def clear(cwd):
    """An empty folder."""
    if os.path.isdir(cwd):
        shutil.rmtree(cwd)
    os.makedirs(cwd)


def prepare(which, cwd):
    """The input of a run."""
    model, before, jobs, recur, largest = RUNS[which]
    name = os.path.basename(cwd)
    put(name + '/in.csv', csv_of(real_rows()))
    if model:
        put(name + '/in.xml', nrml.render([
            dict(nrml.BASE, id=n, name=n, pos=REAL[n], a=1.5 + k)
            for k, n in enumerate(model)]))
    config = settings_of(recur, largest, before)
    config.update(
        eq_catalog_file='in.csv', source_model_file=model and 'in.xml',
        processing_jobs=jobs, apply_processing_jobs=bool(jobs),
        pprocessing_result_file='stored.csv',
        completeness_table_file='table.csv', result_file='out.xml')
    put(name + '/config.yml', yaml_of(config))


def content(cwd, names):
    """The files that are there."""
    found = {}
    for name in names:
        path = os.path.join(cwd, name)
        if os.path.exists(path):
            with open(path, 'rb') as source:
                found[name] = source.read()
    return found


WANT = {}


def undisturbed(run, which, detailed):
    """Results, inputs, the number of steps, the size of the largest file."""
    key = (which, detailed)
    if key not in WANT:
        cwd = place('undisturbed')
        clear(cwd)
        prepare(which, cwd)
        given = content(cwd, INPUTS)
        status, steps = attempt(run, cwd, detailed)
        if status != 0:
            raise AssertionError('an undisturbed run ends with %r' % status)
        largest = max(os.path.getsize(os.path.join(cwd, n))
                      for n in os.listdir(cwd) if n not in INPUTS)
        WANT[key] = content(cwd, RESULTS), given, steps, largest
        clear(cwd)
    return WANT[key]


def judge(run, cwd, which, detailed, status):
    """What an attempt left."""
    want, given = undisturbed(run, which, detailed)[:2]
    run.check(content(cwd, INPUTS) == given, 'an input was changed')
    if status == 0:
        have = content(cwd, RESULTS)
        for name in RESULTS:
            run.check(have.get(name) == want.get(name), 'a run without error '
                      'leaves %s with %r..., expected %r...', name,
                      (have.get(name) or b'')[:200],
                      (want.get(name) or b'')[:200])


def points_of(run, kind, which, detailed, step):
    """All of the points where a run can be cut short."""
    _, _, steps, largest = undisturbed(run, which, detailed)
    if kind == 'killed at a step':
        return list(range(steps))
    return list(range(0, largest, step)) + [largest - 1]


def once(run):
    """One interruption, at every point, and the run again."""
    which = run.pick('run', range(len(RUNS)))
    kind = run.pick('kind', ('killed at a step', 'killed at a byte',
                             'full at a byte'))
    detailed = run.pick('detailed', (False, True))
    earlier = run.pick('earlier', ('nothing', 'another run', 'junk'))
    part = run.pick('part', range(4))
    run.commit()
    step = 23 if run.thorough else (397, 181)[which == 0 and not detailed]
    for at in points_of(run, kind, which, detailed, step)[part::4]:
        run.note(run=which, kind=kind, at=at, detailed=detailed,
                 earlier=earlier)
        cwd = place('interrupted')
        clear(cwd)
        if earlier == 'another run':
            prepare((which + 1) % len(RUNS), cwd)
            status, _ = attempt(run, cwd, False)
            run.check(status == 0, 'another run ends with %r', status)
            for name in INPUTS:
                if os.path.exists(os.path.join(cwd, name)):
                    os.remove(os.path.join(cwd, name))
        elif earlier == 'junk':
            for name in RESULTS:
                put('interrupted/' + name, 'an earlier, longer result\n' * 700)
        prepare(which, cwd)
        first, _ = attempt(run, cwd, detailed, kind, at)
        judge(run, cwd, which, detailed, first)
        if kind == 'killed at a step':
            run.check(first != 0, 'the run was killed, but ends with 0')
        again, _ = attempt(run, cwd, detailed)
        run.check(again == 0, 'repeated after %s %d (%r), the run ends with '
                  '%r', kind, at, first, again)
        judge(run, cwd, which, detailed, again)
        run.outcome(which, kind, first == 0, again)
    clear(place('interrupted'))


def twice(run):
    """Two interruptions, of different kinds, and the run again."""
    which = run.pick('run', range(len(RUNS)) if run.thorough else (0, 1))
    first = run.pick('first', ('killed at a step', 'killed at a byte',
                               'full at a byte'))
    second = run.pick('second', ('killed at a step', 'killed at a byte',
                                 'full at a byte'))
    part = run.pick('part', range(8))
    run.commit()
    step = 401 if run.thorough else 1499
    for one in points_of(run, first, which, False, step)[part::8]:
        for two in points_of(run, second, which, False, step)[
                ::1 if run.thorough else 2]:
            run.note(run=which, kinds=(first, second), at=(one, two))
            cwd = place('interrupted')
            clear(cwd)
            prepare(which, cwd)
            for kind, at in ((first, one), (second, two)):
                status, _ = attempt(run, cwd, False, kind, at)
                judge(run, cwd, which, False, status)
            status, _ = attempt(run, cwd, False)
            run.check(status == 0, 'the third run ends with %r', status)
            judge(run, cwd, which, False, status)
            run.outcome(which, first, second)
    clear(place('interrupted'))


def stages(run):
    """Two runs, the second with the results of the first: one is cut."""
    kind = run.pick('kind', ('killed at a step', 'killed at a byte',
                             'full at a byte'))
    which = run.pick('run', (0, 1))
    cut = run.pick('interrupted run', (0, 1))
    part = run.pick('part', range(4))
    run.commit()
    model, before, jobs, recur, largest = RUNS[which]

    def stage(cwd, number):
        prepare(which, cwd)
        config = settings_of(recur, largest, before if number == 0 else None)
        config.update(
            eq_catalog_file=('in.csv', 'stored.csv')[number],
            source_model_file='in.xml', processing_jobs=jobs,
            apply_processing_jobs=number == 1,
            pprocessing_result_file=('stored.csv', None)[number],
            completeness_table_file='table.csv',
            result_file=(None, 'out.xml')[number])
        put(os.path.basename(cwd) + '/config.yml', yaml_of(config))

    key = ('stages', which)
    if key not in WANT:
        cwd = place('undisturbed')
        clear(cwd)
        steps, size = [], []
        for number in (0, 1):
            stage(cwd, number)
            status, passed = attempt(run, cwd, False)
            if status != 0:
                raise AssertionError('undisturbed: %r' % status)
            steps.append(passed)
        have = content(cwd, RESULTS)
        size = [max(len(have['stored.csv']), len(have['table.csv'])),
                len(have['out.xml'])]
        WANT[key] = have, steps, size
        clear(cwd)
    want, steps, size = WANT[key]
    points = range(steps[cut]) if kind == 'killed at a step' else list(
        range(0, size[cut], 47 if run.thorough else 331)) + [size[cut] - 1]
    for at in list(points)[part::4]:
        run.note(run=which, kind=kind, at=at, interrupted=cut)
        cwd = place('interrupted')
        clear(cwd)
        for number in (0, 1):
            stage(cwd, number)
            if number == cut:
                attempt(run, cwd, False, kind, at)
            status, _ = attempt(run, cwd, False)
            run.check(status == 0, 'run %d repeated after %s %d ends with %r',
                      number, kind, at, status)
        have = content(cwd, RESULTS)
        for name in RESULTS:
            run.check(have.get(name) == want.get(name), '%s is %r..., '
                      'expected %r...', name, (have.get(name) or b'')[:200],
                      (want.get(name) or b'')[:200])
        run.outcome(which, kind, cut)
    clear(place('interrupted'))


CHECKS = {
    'L02': {
        'scenarios': lambda tier: [('once', once, 0), ('twice', twice, 0),
                                   ('stages', stages, 0)],
        'assumptions': ['a run is killed when it opens, makes, renames or '
                        'removes a file, or when a file reaches a size; a '
                        'full disk is a limit of the file size',
                        'events without uncertainty, so that the bootstrap '
                        'is not random',
                        'the log file and files with other names are not '
                        'judged'],
        'bounds': {
            'quick': '4 configurations x killed at every step on a file, '
                     'killed or refused a byte at every 181th or 397th byte, '
                     'with and without detail, over nothing, another run or '
                     'junk; pairs of interruptions of 2 configurations; '
                     'either of two stages interrupted',
            'thorough': 'every 23rd byte; pairs of interruptions at every '
                        '401st byte of 4 configurations'}},
}
