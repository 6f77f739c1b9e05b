"""Storing results on a disk that fails (L01)."""

import errno
import gc
import os
import pickle
import resource
import signal
import sys

import numpy as np

from mc import sut
from mc.checks import catalogue, nrml

from mtoolkit.eqcatalog import EqEntryReader, EqEntryWriter
from mtoolkit.jobs import store_completeness_table, store_preprocessed_catalog
from mtoolkit.workflow import Context
from nrml.writer import AreaSourceWriter


MADE = {}


def entries(number):
    """Entries of a catalogue, as they are read."""
    if number not in MADE:
        MADE[number] = make_entries(number)
    return MADE[number]


def make_entries(number):
    """Read a catalogue of so many entries."""
    import io
    rows = []
    for k in range(number):
        record = dict(catalogue.DEFAULT, eventID=str(k + 1),
                      year=str(1950 + k % 60), longitude=str(k % 90))
        rows.append(','.join(record[f] for f in catalogue.FIELDS))
    text = '\n'.join([catalogue.HEADER] + rows) + '\n'
    return EqEntryReader(io.StringIO(text)).read_eq_catalog()


def store_catalogue(path, size):
    """Store entries."""
    EqEntryWriter(path).write_rows(entries(size))


def context_of(path, size):
    """A context that is ready to be stored."""
    context = Context()
    context.config = {'pprocessing_result_file': path,
                      'completeness_table_file': path}
    context.eq_catalog = entries(size)
    context.catalog_matrix = np.zeros((size, 7))
    context.selected_eq_vector = np.zeros(size)
    context.completeness_table = np.array(
        [[1990. - k, 4. + 0.1 * k] for k in range(size)])
    return context


def store_catalogue_job(path, size):
    """Store what was selected."""
    store_preprocessed_catalog(context_of(path, size))


def store_table(path, size):
    """Store a completeness table."""
    store_completeness_table(context_of(path, size))


def store_model(path, size):
    """Store a source model."""
    AreaSourceWriter(path).serialize([
        nrml.build(dict(nrml.BASE, id='s%d' % k)) for k in range(size)])


STORES = (('catalogue', store_catalogue), ('selected', store_catalogue_job),
          ('table', store_table), ('model', store_model))


def in_child(store, path, size, limit):
    """Store with a limit of the file size: what was reported, in a child."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        answer = 'died'
        try:
            os.close(rfd)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            gc.freeze()
            lost = []
            sys.unraisablehook = lambda info: lost.append(info.exc_value)
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            try:
                store(path, size)
                answer = 'stored'
            except BaseException as error:
                answer = 'raised %s' % type(error).__name__
            gc.collect()
            if lost and answer == 'stored':
                answer = 'lost %r' % lost[0]
        finally:
            os.write(wfd, pickle.dumps(answer))
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, 'rb') as source:
        data = source.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else 'died'


def full_size(store, path, size):
    """The bytes of a file that is stored without trouble."""
    answer = in_child(store, path, size, None)
    if answer != 'stored':
        raise AssertionError('without a fault: %s' % answer)
    with open(path, 'rb') as source:
        return source.read()


def limited(run):
    """The disk takes only so many bytes, for every number of them."""
    which = run.pick('store', range(len(STORES)))
    size = run.pick('size', (1, 4, 150))
    part = run.pick('part', range(16))
    earlier = size == 1 and run.pick('earlier file', (False, True))
    run.commit()
    entries(size)
    name, store = STORES[which]
    run.note(store=name, size=size, part=part, earlier=earlier)
    path = os.path.join(sut.scratch(), 'stored')
    whole = full_size(store, path, size)
    total = len(whole)
    step = {1: 1, 4: 2, 150: 37 if run.thorough else 389}[size]
    if not run.thorough:
        step *= 10
    cuts = list(range(0, total, step)) + [total - 1, total, total + 1,
                                          total + 5000]
    for limit in cuts[part::16]:
        if os.path.exists(path):
            os.remove(path)
        if earlier:
            with open(path, 'wb') as out:
                out.write(b'0,0\n' * 30)
        answer = run.call(in_child, store, path, size, limit)
        found = None
        if os.path.exists(path):
            with open(path, 'rb') as source:
                found = source.read()
        if limit < total:
            run.check(answer.startswith('raised'), 'only %d of %d bytes '
                      'could be stored: %s', limit, total, answer)
        else:
            run.check(answer == 'stored' and found == whole, 'room for all '
                      'of the %d bytes: %s', total, answer)
        run.outcome(name, limit < total, answer)


def no_room(run):
    """A full device, a missing folder, a folder in the way."""
    which = run.pick('store', range(len(STORES)))
    size = run.pick('size', (1, 4, 150))
    where = run.pick('where', ('/dev/full', 'missing', 'folder', 'in a file'))
    run.commit()
    name, store = STORES[which]
    run.note(store=name, size=size, where=where)
    base = sut.scratch()
    folder = os.path.join(base, 'folder')
    os.makedirs(folder, exist_ok=True)
    plain = os.path.join(base, 'plain')
    with open(plain, 'w') as out:
        out.write('x')
    path = {'/dev/full': '/dev/full',
            'missing': os.path.join(base, 'missing', 'stored'),
            'folder': folder,
            'in a file': os.path.join(plain, 'stored')}[where]
    answer = run.call(in_child, store, path, size, None)
    run.check(answer.startswith('raised'), '%s: %s', where, answer)
    run.check(not os.path.exists(os.path.join(base, 'missing')),
              'a folder was made')
    with open(plain) as source:
        run.check(source.read() == 'x', 'another file was changed')
    run.outcome(name, where, answer)


def write_calls(run):
    """Any one of the write calls, or the opening, fails with any error."""
    which = run.pick('store', range(len(STORES)))
    size = run.pick('size', (1, 150))
    after = run.pick('fails after', range(12 if run.thorough else 5))
    code = run.pick('error', (errno.ENOSPC, errno.EIO, errno.EDQUOT))
    once = run.pick('once', (False, True))
    run.commit()
    name, store = STORES[which]
    run.note(store=name, size=size, after=after, error=code, once=once)
    path = os.path.join(sut.scratch(), 'stored')
    entries(size)
    whole = full_size(store, path, size)
    failed = os.path.join(sut.scratch(), 'failed')
    if os.path.exists(failed):
        os.remove(failed)

    def broken(path, size):
        import builtins
        import io
        real = io.FileIO
        count = [0]

        class Disk(real):
            """A disk whose write number `after` fails."""

            def write(self, data):
                count[0] += 1
                if count[0] == after + 1:
                    os.close(os.open(failed, os.O_CREAT | os.O_WRONLY))
                if count[0] == after + 1 or count[0] > after and not once:
                    raise OSError(code, os.strerror(code))
                return real.write(self, data)

        def opened(file, mode='r', buffering=-1, encoding=None, errors=None,
                   newline=None, closefd=True, opener=None):
            if not isinstance(file, str) or not set(mode) & set('wax+'):
                return plain(file, mode, buffering, encoding, errors,
                             newline, closefd, opener)
            raw = Disk(file, mode.replace('b', '').replace('t', ''))
            buffered = io.BufferedWriter(raw, 512)
            if 'b' in mode:
                return buffered
            return io.TextIOWrapper(buffered, encoding or 'utf-8', errors,
                                    newline)
        plain = builtins.open
        builtins.open = opened
        try:
            store(path, size)
        finally:
            builtins.open = plain

    answer = run.call(in_child, broken, path, size, None)
    if os.path.exists(failed):
        run.check(answer.startswith('raised'), 'write number %d failed: %s',
                  after + 1, answer)
    else:
        with open(path, 'rb') as source:
            found = source.read()
        run.check(answer == 'stored' and found == whole, 'without a fault: '
                  '%s', answer)
    run.outcome(name, os.path.exists(failed), answer)


CHECKS = {
    'L01': {
        'scenarios': lambda tier: [('limited', limited, 0),
                                   ('no room', no_room, 0),
                                   ('write calls', write_calls, 0)],
        'assumptions': ['a full disk is a limit of the file size '
                        '(RLIMIT_FSIZE), /dev/full, or a write that raises; '
                        'errors of closing without writing are not injected'],
        'bounds': {
            'quick': '4 ways to store x 3 sizes x every tenth or twentieth '
                     'byte of small files and every 3890th of large ones, with '
                     'and without an earlier file; 4 bad places; each of the '
                     'first 5 write calls with 3 errors, once or for good',
            'thorough': 'every byte or every second of small files, every '
                        '37th of large ones; the first 12 write calls'}},
}
