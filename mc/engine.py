"""Stateless explorer: exhaustive enumeration of bounded choice trees.

A scenario is a function of one `Run`.  It draws every input, every operation
and every environment answer from the run (`pick`, `dev`), drives the real
code (`call`) and judges what it observed against a reference model.  The
explorer executes the scenario once per complete path of the choice tree,
depth first, until the tree is exhausted: nothing is sampled.

`pick` branches over all its options.  `dev` is a deviation from the default
environment or record: its option 0 is free, any other costs one unit of the
scenario's deviation budget (iterated context bounding for sequential code).

`commit` ends the part of a path that is shared out: each of the worker
processes enumerates the whole tree above it, and executes its share of what
lies below.
"""

import hashlib
import json
import mmap
import os
import pickle
import re
import resource
import select
import signal
import struct
import sys
import time
import traceback


MEMORY = 6 << 30         # address space of a worker


class Divergence(Exception):
    """A replayed prefix met another menu of choices: the harness is broken."""


class Violation(Exception):
    """The property is broken on this path."""


class Hang(BaseException):
    """The real code did not come back in time."""


class _Skip(BaseException):
    """Another worker's share."""


def _alarm(signum, frame):
    raise Hang()


class Run(object):
    """One execution of a scenario along one path of the choice tree."""

    def __init__(self, prefix, budget, tier, owner=None, limit=20.):
        self.prefix = prefix
        self.budget = budget
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.points = []          # (name, menu size, choice, is deviation)
        self.spent = 0
        self.calls = 0
        self.committed = None
        self.notes = []
        self.outcomes = []
        self.findings = []
        self._owner = owner
        self._limit = limit
        self.board = None

    # -- choices ---------------------------------------------------------
    def _choose(self, name, size, allowed, deviation):
        pos = len(self.points)
        if pos < len(self.prefix):
            choice = self.prefix[pos]
            if choice >= allowed:
                raise Divergence('%s: choice %d of %d' % (
                    name, choice, allowed))
        else:
            choice = 0
        self.points.append((name, allowed, choice, deviation))
        return choice

    def pick(self, name, options):
        """Branch over all the options."""
        if not isinstance(options, (list, tuple, range)):
            options = list(options)
        return options[self._choose(name, len(options), len(options), False)]

    def dev(self, name, options):
        """Branch over the options, all but the first one cost a deviation."""
        allowed = len(options) if self.spent < self.budget else 1
        choice = self._choose(name, len(options), allowed, True)
        if choice:
            self.spent += 1
        return options[choice]

    def subset(self, name, items):
        """Branch over the subsets of the items, the empty one first."""
        return [item for k, item in enumerate(items)
                if self.pick('%s%d' % (name, k), (False, True))]

    def permutation(self, name, items):
        """Branch over the orders of the items, the given one first."""
        left, out = list(items), []
        while left:
            k = self.pick('%s%d' % (name, len(out)), range(len(left)))
            out.append(left.pop(k))
        return out

    def commit(self):
        """From here on the path belongs to one worker."""
        if self.committed is None:
            self.committed = len(self.points)
            if self._owner is not None and not self._owner(self):
                raise _Skip()

    # -- driving the real code -------------------------------------------
    def call(self, function, *args, **kwargs):
        """Execute one real operation."""
        self.calls += 1
        if self.board:
            self.board.busy(self, True)
        signal.setitimer(signal.ITIMER_REAL, self._limit)
        try:
            return function(*args, **kwargs)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if self.board:
                self.board.busy(self, False)

    def attempt(self, function, *args, **kwargs):
        """Execute one real operation that may refuse: (result, exception)."""
        try:
            return self.call(function, *args, **kwargs), None
        except (Violation, Divergence):
            raise
        except Exception as error:
            return None, error

    # -- verdicts --------------------------------------------------------
    def note(self, **facts):
        """Facts that make the path readable."""
        self.notes.append(facts)

    def outcome(self, *key):
        """An observed outcome, to count the distinct ones."""
        self.outcomes.append(key)

    def fail(self, message, *args):
        """Report a violation."""
        raise Violation(message % args if args else message)

    def check(self, condition, message, *args):
        """Report a violation unless the condition holds."""
        if not condition:
            self.fail(message, *args)

    def finding(self, ident, message):
        """A violation that answers to the signature of a recorded finding."""
        self.findings.append((ident, message))

    def path(self):
        """The choices of this path."""
        return [p[2] for p in self.points]


class Board(object):
    """Memory shared by a worker and its parent: where the worker is.

    Lets the parent name the path on which the real code took the process
    down, or went into native code and never came back.
    """

    SIZE = 1 << 16
    STUCK = 60.        # seconds in one operation, alarms notwithstanding

    def __init__(self, flag):
        self.memory = mmap.mmap(-1, self.SIZE)
        self.flag = flag            # of all workers: a violation was found
        self.scenario = 0

    def path(self, scenario, prefix):
        """The path that is about to be executed."""
        self.scenario = scenario
        self._write(0., prefix)

    def busy(self, run, on):
        """Enter or leave an operation."""
        self._write(now() if on else 0., run.path() if on else None)

    def _write(self, since, path):
        if path is not None:
            path = path[:(self.SIZE - 20) // 4]
            struct.pack_into('=dII%dI' % len(path), self.memory, 0, since,
                             self.scenario, len(path), *path)
        else:
            struct.pack_into('=d', self.memory, 0, since)

    def read(self):
        """(busy since, scenario, path)"""
        since, scenario, size = struct.unpack_from('=dII', self.memory, 0)
        return since, scenario, list(struct.unpack_from(
            '=%dI' % size, self.memory, 16))


def _advance(points, budget):
    """The next path in depth first order, None when there is none."""
    for pos in range(len(points) - 1, -1, -1):
        if points[pos][2] + 1 < points[pos][1]:
            return [p[2] for p in points[:pos]] + [points[pos][2] + 1]
    return None


def _execute(scenario, run):
    """Run the scenario; returns the message of a violation or None."""
    try:
        scenario(run)
    except _Skip:
        raise
    except Divergence:
        raise
    except Violation as broken:
        return str(broken)
    except Hang:
        return 'the call did not return within %g s' % run._limit
    except RecursionError as error:
        return 'raised RecursionError: %s' % error
    except MemoryError as error:
        return 'raised MemoryError: %s' % error
    except SystemExit as error:
        return 'raised SystemExit: %s' % error
    except Exception as error:
        return 'raised %s: %s\n%s' % (
            type(error).__name__, error, traceback.format_exc())
    return None


def _digest(key):
    return hashlib.blake2b(
        repr(key).encode('utf-8', 'replace'), digest_size=8).digest()


def explore(scenario, budget, tier, worker, workers, known, board, number,
            start, stop=3):
    """Explore this worker's share of the tree of a scenario."""
    shared_nodes = own_nodes = calls = traces = groups = 0
    outcomes, samples, violations, findings = set(), [], [], {}
    state = {'group': -1, 'from': 0}

    def owner(run):
        if run.committed >= state['from']:
            # a choice above the commit point changed: another share
            state['group'] += 1
            return state['group'] % workers == worker
        return True

    prefix = []
    while prefix is not None:
        if board.flag[0] > 1 or (board.flag[0] and now() - start > 120.):
            break               # enough is known
        run = Run(prefix, budget, tier, owner)
        run.board = board
        board.path(number, prefix)
        # position of the choice that changed, plus one (0: first path)
        state['from'] = len(prefix)
        try:
            broken = _execute(scenario, run)
            skipped = False
        except _Skip:
            broken, skipped = None, True
        if run.committed is None and not skipped and worker != 0:
            # a path without shared part belongs to the first worker
            mine = False
        else:
            mine = not skipped
        top = run.committed if run.committed is not None else len(run.points)
        first = max(len(prefix) - 1, 0)
        if worker == 0:
            shared_nodes += max(0, top - first)
        if mine:
            own_nodes += len(run.points) - max(first, top)
            calls += run.calls
            if not broken:
                traces += 1
            for key in run.outcomes:
                outcomes.add(_digest(key))
            if len(samples) < 2 and run.notes:
                samples.append(_describe(run))
            for ident, message in run.findings:
                if ident in known:
                    findings.setdefault(ident, message)
                elif not broken:
                    broken = '%s (%s is not a listed finding)' % (
                        message, ident)
            if broken:
                again = Run(run.path(), budget, tier, limit=60.)
                same = _execute(scenario, again)
                if same is None and broken.startswith('the call did not ret'):
                    broken = None       # slow machine, not a hang
                else:
                    violations.append({
                        'path': run.path(),
                        'choices': [(p[0], p[2]) for p in run.points],
                        'case': _describe(run),
                        'message': broken,
                        'replayed': 'same failure' if same is not None
                        else 'passes when executed again in the same process'
                    })
                    hangs = broken.startswith('the call did not ret')
                    board.flag[0] = max(board.flag[0], 2 if hangs else 1)
                    if len(violations) >= stop:
                        break
        prefix = _advance(run.points, budget)
    return {'nodes': shared_nodes + own_nodes, 'calls': calls,
            'traces': traces, 'outcomes': outcomes, 'samples': samples,
            'violations': violations, 'findings': findings,
            'complete': prefix is None}


def _describe(run):
    out = {}
    for facts in run.notes:
        for key, value in facts.items():
            out[key] = _plain(value)
    return out


def _plain(value):
    try:
        import numpy as np
        if isinstance(value, np.ndarray):
            return value.tolist()
        if isinstance(value, np.generic):
            return value.item()
    except ImportError:
        pass
    if isinstance(value, dict):
        return {str(k): _plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [_plain(v) for v in value]
    if isinstance(value, (str, int, float, bool)) or value is None:
        return value
    return repr(value)


def explore_all(scenarios, tier, known, workers):
    """Explore the scenarios [(name, function, budget)] with forked workers."""
    start = now()
    flag = mmap.mmap(-1, 1)
    running = {}
    for worker in range(workers):
        board = Board(flag)
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            err = os.dup(2)
            try:
                os.close(rfd)
                _quiet()
                results = []
                for number, (_, function, budget) in enumerate(scenarios):
                    results.append(explore(
                        function, budget, tier, worker, workers, known,
                        board, number, start))
                with os.fdopen(wfd, 'wb') as out:
                    pickle.dump(results, out)
                code = 0
            except BaseException:
                os.write(err, traceback.format_exc().encode())
            finally:
                os._exit(code)
        os.close(wfd)
        running[rfd] = (pid, board, [])
    merged, failed = None, False
    lost, killed = [], set()
    while running:
        ready = select.select(list(running), [], [], 5.)[0]
        for rfd, (pid, board, _) in running.items():
            since = board.read()[0]
            if since and now() - since > Board.STUCK and pid not in killed:
                killed.add(pid)
                os.kill(pid, signal.SIGKILL)
                lost.append((board.read(), 'does not return'))
        for rfd in ready:
            pid, board, chunks = running[rfd]
            data = os.read(rfd, 1 << 20)
            if data:
                chunks.append(data)
                continue
            os.close(rfd)
            del running[rfd]
            status = os.waitpid(pid, 0)[1]
            if os.WIFSIGNALED(status):
                if pid not in killed:
                    lost.append((board.read(), 'ends the process by signal %d'
                                 % os.WTERMSIG(status)))
                flag[0] = 2
                continue
            if status or not chunks:
                failed = True
                continue
            results = pickle.loads(b''.join(chunks))
            merged = results if merged is None else _merge(merged, results)
    deaths = []
    for (since, number, path), what in lost:
        if since and not deaths and _dies(scenarios[number], tier, path):
            deaths.append((number, path, what))
        else:
            failed = True
    if deaths:
        if merged is None:
            merged = [_nothing() for _ in scenarios]
        for number, path, what in deaths:
            merged[number]['complete'] = False
            merged[number]['violations'].append({
                'path': path, 'choices': [], 'case': {},
                'message': 'the code under test %s' % what,
                'replayed': 'same failure'})
    elif failed and not (merged and any(r['violations'] for r in merged)):
        sys.stderr.write('a worker of the explorer failed\n')
        sys.exit(3)
    return merged


def _quiet():
    """In a worker: no output, an alarm that raises, bounded memory."""
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    signal.signal(signal.SIGALRM, _alarm)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


def _nothing():
    return {'nodes': 0, 'calls': 0, 'traces': 0, 'outcomes': set(),
            'samples': [], 'violations': [], 'findings': {},
            'complete': False}


def _merge(merged, results):
    for into, new in zip(merged, results):
        for key in ('nodes', 'calls', 'traces'):
            into[key] += new[key]
        into['outcomes'] |= new['outcomes']
        into['samples'] += new['samples']
        into['violations'] += new['violations']
        into['complete'] = into['complete'] and new['complete']
        for ident, message in new['findings'].items():
            into['findings'].setdefault(ident, message)
    return merged


def _dies(scenario, tier, path):
    """Does the path take a process of its own down as well?"""
    pid = os.fork()
    if pid == 0:
        _quiet()
        try:
            _execute(scenario[1], Run(path, scenario[2], tier))
        finally:
            os._exit(0)
    end = now() + Board.STUCK
    while now() < end:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            return os.WIFSIGNALED(status)
        time.sleep(0.1)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return True


def clip(text, size=300):
    """One line of the text."""
    text = re.sub(r'\s+', ' ', text).strip()
    return text if len(text) <= size else text[:size] + '...'


def write_json(path, value):
    """Write the value as JSON."""
    with open(path, 'w') as out:
        json.dump(value, out, indent=1, sort_keys=True, default=repr)
        out.write('\n')


def now():
    """Monotonic clock."""
    return time.monotonic()
