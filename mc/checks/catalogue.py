"""Reading and writing earthquake catalogues (C01..C05)."""

import csv
import datetime
import io
import os
import re

from mc import sut

from mtoolkit.eqcatalog import (EqEntryReader, EqEntryValidationError,
                                EqEntryWriter, MalformedCatalogError)

FIELDS = ['eventID', 'Agency', 'Identifier', 'year', 'month', 'day', 'hour',
          'minute', 'second', 'timeError', 'longitude', 'latitude',
          'SemiMajor90', 'SemiMinor90', 'ErrorStrike', 'depth', 'depthError',
          'Mw', 'sigmaMw', 'Ms', 'sigmaMs', 'mb', 'sigmamb', 'ML', 'sigmaML']
HEADER = ','.join(FIELDS)
INTS = {'eventID', 'Identifier', 'year', 'month', 'day', 'hour', 'minute'}
COMPULSORY = INTS | {'longitude', 'latitude', 'depth', 'Mw'}
THIS_YEAR = datetime.datetime.now().year

DEFAULT = {'eventID': '7', 'Agency': 'ISC', 'Identifier': '12',
           'year': '2003', 'month': '3', 'day': '14', 'hour': '10',
           'minute': '40', 'second': '30.5', 'timeError': '0.25',
           'longitude': '29.5', 'latitude': '-11.25', 'SemiMajor90': '12.5',
           'SemiMinor90': '8.5', 'ErrorStrike': '45.0', 'depth': '33.0',
           'depthError': '4.5', 'Mw': '5.5', 'sigmaMw': '0.2', 'Ms': '5.3',
           'sigmaMs': '0.1', 'mb': '5.1', 'sigmamb': '0.3', 'ML': '5.2',
           'sigmaML': '0.4'}

# Boundary values of every field, besides the default
VALUES = {
    'eventID': ['', '0', '1', '-1', '1.5', 'x', ' 9 ', '99999999999'],
    'Agency': ['', 'USGS', 'A B', '123', '-1'],
    'Identifier': ['', '0', '1', '-3', 'x'],
    'year': ['', '-10001', '-10000', '-1', '0', '1964', str(THIS_YEAR),
             str(THIS_YEAR + 1), '2003.0', 'x', '99999'],
    'month': ['', '0', '1', '2', '4', '11', '12', '13', '-1', 'Mar', '2.0'],
    'day': ['', '0', '1', '-1', '28', '29', '30', '31', '32', 'x'],
    'hour': ['', '-1', '0', '23', '24', 'x', '07'],
    'minute': ['', '-1', '0', '59', '60', 'x', '08'],
    'second': ['', '-0.5', '0', '0.0', '59', '59.5', '59.99',
               '59.9999999', '60', '60.0',
               '61', 'x', 'nan', 'inf', '1e-3'],
    'timeError': ['', '0', '-3.5', '1e3', 'x'],
    'longitude': ['', '-180', '180', '-180.5', '180.5', '-0.0', '0', 'x',
                  '181', 'nan', 'inf', '-inf', '180.00000001'],
    'latitude': ['', '-90', '90', '-90.5', '90.5', '0', 'x', '91',
                 'nan', 'inf', '-inf', '-90.00000001'],
    'SemiMajor90': ['', '-1', '0', '8.5', '8.4', '0.0', 'x', 'nan'],
    'SemiMinor90': ['', '-1', '0', '12.5', '12.6', 'x', 'nan'],
    'ErrorStrike': ['', '-0.5', '0', '360', '360.5', '180', 'x', 'nan'],
    'depth': ['', '0', '-1', '0.5', '700', '0.0', 'x', 'nan', '-inf',
              '1e-300'],
    'depthError': ['', '-1', '0', '0.0', 'x'],
    'Mw': ['', '0', '-1', '9.5', '5', 'x', '1e1'],
    'sigmaMw': ['', '-0.1', '0', '1', 'x'],
    'Ms': ['', '-1', '0', 'x'],
    'sigmaMs': ['', '-1', '0', 'x'],
    'mb': ['', '-1', '0', 'x'],
    'sigmamb': ['', '-1', '0', 'x'],
    'ML': ['', '-1', '0', 'x'],
    'sigmaML': ['', '-1', '0', 'x'],
}

# ways to write numbers, some of which are none
SPELLED = {'Agency': ['#5', "'x'", '=1+1', '\xc9tna', ' ', '0.0', 'nan']}
for _field in FIELDS:
    if _field in INTS:
        SPELLED[_field] = ['+7', '007', '1_0', '#5', '0x5', '1e1', '5.', '--5', '\t6']
    elif _field != 'Agency':
        SPELLED[_field] = [
            '+7.5', '.5', '6.', '1_0.5', '0x5', '#5', '5-', '007.25',
            ' 8.5\t', '1e-1', '1E1', '5d0', '1.2.3']


# -- reference model -----------------------------------------------------
def parse_int(text):
    """The integer written, None when it is none."""
    try:
        return int(text)
    except (ValueError, TypeError):
        return None


def parse_float(text):
    """The number written, None when it is none."""
    try:
        return float(text)
    except (ValueError, TypeError):
        return None


def valid(field, value, month):
    """Is the value of a compulsory field acceptable?"""
    if value is None:
        return False
    if field in ('eventID', 'Identifier', 'depth'):
        return value > 0
    if field == 'year':
        return -10000 <= value <= THIS_YEAR
    if field == 'month':
        return 1 <= value <= 12
    if field == 'day':
        return 1 <= value <= (29 if month == 2 else 31)
    if field == 'hour':
        return 0 <= value <= 23
    if field == 'minute':
        return 0 <= value <= 59
    if field == 'longitude':
        return -180 <= value <= 180
    if field == 'latitude':
        return -90 <= value <= 90
    return True                                         # Mw


def model(raw):
    """The entry a record gives, or the set of its invalid fields."""
    entry, invalid = {}, set()
    for field in FIELDS:
        text = raw.get(field)
        if field == 'Agency':
            entry[field] = text
        elif field in INTS:
            entry[field] = parse_int(text)
        else:
            entry[field] = parse_float(text)
    for field in COMPULSORY:
        if not valid(field, entry[field], entry['month']):
            invalid.add(field)
    if invalid:
        return None, invalid

    def keep(field, condition, otherwise=''):
        value = entry[field]
        if value is None or not condition(value):
            entry[field] = otherwise

    keep('second', lambda v: 0 <= v < 60)
    keep('sigmaMw', lambda v: v >= 0, 0.0)
    for field in ('SemiMajor90', 'SemiMinor90', 'depthError', 'sigmaMs',
                  'sigmamb', 'sigmaML'):
        keep(field, lambda v: v >= 0)
    for field in ('timeError', 'Ms', 'mb', 'ML'):
        keep(field, lambda v: True)
    keep('ErrorStrike', lambda v: 0 <= v <= 360)
    ellipse = [entry[f] for f in ('SemiMinor90', 'SemiMajor90',
                                  'ErrorStrike')]
    if '' in ellipse or ellipse[0] > ellipse[1]:
        for field in ('SemiMinor90', 'SemiMajor90', 'ErrorStrike'):
            entry[field] = ''
    return entry, invalid


def model_file(text):
    """What reading a text gives.

    ('malformed',) or (entries, None) or (entries before, (fields, line))
    or (entries before, 'any') where the record has too many fields.
    """
    lines = text.split('\n')
    if [f.strip() for f in lines[0].split(',')] != FIELDS:
        return ('malformed',)
    entries = []
    records = [(k, line.split(',') if line else [])
               for k, line in enumerate(lines[1:], start=2)]
    if '"' in text:
        # quoted parts, possibly over several lines
        reader = csv.reader(io.StringIO('\n'.join(lines[1:])))
        records = [(reader.line_num + 1, values) for values in reader]
    for number, values in records:
        if not values:
            continue
        if len(values) > len(FIELDS):
            return entries, 'any'
        entry, invalid = model(dict(zip(FIELDS, values)))
        if invalid:
            return entries, (invalid, number)
        entries.append(entry)
    return entries, None


# -- observation ---------------------------------------------------------
def same_value(got, expected):
    """Equal, and of the same type (numbers and text never mix)."""
    return type(got) is type(expected) and got == expected


def same_entry(got, expected):
    """Equal field by field; None when so, else what differs."""
    if set(k for k in got if k is not None) != set(expected):
        return 'fields %r' % sorted(map(str, got))
    for field in FIELDS:
        if not same_value(got[field], expected[field]):
            return '%s is %r, expected %r' % (
                field, got[field], expected[field])
    return None


def observe(run, text, entries=None):
    """Read a text one entry at a time: (entries delivered, exception)."""
    delivered = []

    def read():
        for entry in EqEntryReader(io.StringIO(text)).read():
            delivered.append(entry)
    _, error = run.attempt(read)
    return delivered, error


def record(**changes):
    """A csv record: the default one with changes, None cuts it there."""
    row = dict(DEFAULT, **changes)
    values = []
    for field in FIELDS:
        if row[field] is None:
            break
        values.append(row[field])
    return ','.join(values)


def check_error(run, error, invalid, line):
    """The error names an invalid field and the line."""
    run.check(isinstance(error, EqEntryValidationError),
              'invalid %s at line %d: got %r instead of a validation error',
              sorted(invalid), line, error)
    text = ' '.join(str(part) for part in error.args)
    named = error.args[0] if error.args else None
    run.check(named in invalid, 'the error names %r, but %s is invalid: %s',
              named, sorted(invalid), text)
    numbers = re.findall(r'-?\d+', text)
    run.check(numbers and int(numbers[-1]) == line,
              'the error does not name line %d: %s', line, text)
    run.check(all(named in str(a) for a in error.args[-1:]),
              'the message does not name %s: %s', named, text)


def only(scenario, values, errors):
    """The scenario judging the values or the refusals only."""
    def limited(run):
        run.values, run.errors = values, errors
        scenario(run)
    return limited


def judge(run, text, optional=False):
    """Compare reading a text with the model.

    `optional`: nothing but optional fields is off the default, so that the
    values are judged as well when only a refusal is observed.
    """
    values = getattr(run, 'values', True)
    errors = getattr(run, 'errors', True)
    expected = model_file(text)
    delivered, error = observe(run, text)
    if expected == ('malformed',):
        run.check(isinstance(error, MalformedCatalogError),
                  'a file without the header gave %r, %d entries',
                  error, len(delivered))
        run.check(not delivered, 'entries from a malformed file')
        run.outcome('malformed')
        return
    entries, refusal = expected
    if not errors and not optional and (error is None) != (refusal is None):
        return                          # decided by C01, not by C02
    if refusal == 'any':
        run.check(error is not None, 'a record with too many fields is taken')
        run.outcome('too long')
    elif refusal:
        run.check(error is not None,
                  'accepted although %s of line %d is invalid',
                  sorted(refusal[0]), refusal[1])
        if errors:
            check_error(run, error, *refusal)
        run.outcome('refused', sorted(refusal[0]), refusal[1])
    else:
        run.check(error is None, 'a valid file is refused: %r', error)
    run.check(len(delivered) == len(entries),
              '%d entries delivered, expected %d', len(delivered),
              len(entries))
    for number, (got, want) in enumerate(zip(delivered, entries)):
        if values:
            diff = same_entry(got, want)
            run.check(diff is None, 'entry %d: %s', number, diff)
        else:
            run.check(got['eventID'] == want['eventID'],
                      'entry %d is event %r, expected %r', number,
                      got['eventID'], want['eventID'])
    run.outcome('entries', repr(entries)[:2000])


# -- C01, C02 --------------------------------------------------------------
def deviate(run, menu):
    """A record that deviates from the default one within the budget."""
    changes = {}
    for field in FIELDS:
        options = [DEFAULT[field]] + menu[field]
        value = run.dev(field, options)
        if value != DEFAULT[field]:
            changes[field] = value
    return changes


def one_record(run):
    """Every record that deviates in at most the budgeted fields."""
    changes = deviate(run, VALUES)
    run.commit()
    run.note(changed=changes)
    judge(run, HEADER + '\n' + record(**changes) + '\n',
          not COMPULSORY & set(changes))


def spelled(run):
    """Every way to write the values of a record, in up to two fields."""
    changes = deviate(run, SPELLED)
    run.commit()
    run.note(changed=changes)
    judge(run, HEADER + '\n' + record(**changes) + '\n',
          not COMPULSORY & set(changes))


def month_day(run):
    """Every month with every day, of several years, at several hours."""
    month = run.pick('month', range(-1, 15))
    year = run.pick('year', (2003, -10000, -400, -1, 0, 1, 4, 99, 1582, 1800,
                             1900, 1972, 2000))
    time = run.pick('time', (('10', '40', '30.5'), ('0', '0', '0'),
                             ('23', '59', '59.99')))
    run.commit()
    for day in range(-2, 35):
        judge(run, '%s\n%s\n' % (HEADER, record(
            year=str(year), month=str(month), day=str(day), hour=time[0],
            minute=time[1], second=time[2])))
    run.note(year=year, month=month, time=time, days='-2..34')


def places(run):
    """Every pair of longitude and latitude around the bounds."""
    longitude = run.pick('longitude', ['-180.01', '-180', '-179.99', '-90',
                                       '-0.0', '0', '1e-9', '90', '179.99',
                                       '180', '180.01'])
    run.commit()
    for latitude in ('-90.01', '-90', '-89.99', '-45', '0', '-0.0', '89.99',
                     '90', '90.01'):
        for depth in ('0', '0.001', '5', '6371'):
            for mag in ('-1', '0', '5.5', '9.9', '10'):
                judge(run, '%s\n%s\n' % (HEADER, record(
                    longitude=longitude, latitude=latitude, depth=depth,
                    Mw=mag)))
    run.note(longitude=longitude)


def layouts(run):
    """Quoted fields and ends of lines, in a real file."""
    quoted = run.pick('quoted', ('none', 'all', 'texts', 'numbers', 'odd'))
    ends = run.pick('ends of lines', ('\n', '\r\n'))
    last = run.pick('last end', (True, False))
    agency = run.pick('agency', AGENCIES)
    bad = run.pick('bad', (None, ('day', '32'), ('Ms', 'x'),
                           ('eventID', '')))
    run.commit()
    if quoted in ('none', 'numbers') and re.search('[",\n]', agency):
        return
    rows = [dict(DEFAULT, eventID=str(k + 5), Agency=agency)
            for k in range(3)]
    if bad:
        rows[1][bad[0]] = bad[1]

    def shown(field, k):
        text = rows[k][field]
        if quoted == 'all' or quoted == 'odd' and (
                FIELDS.index(field) % 2) or (
                quoted == 'texts') == (field == 'Agency') and (
                    quoted in ('texts', 'numbers')):
            return '"%s"' % text.replace('"', '""')
        return text
    lines = [HEADER] + [','.join(shown(f, k) for f in FIELDS)
                        for k in range(3)]
    text = ends.join(lines) + (ends if last else '')
    path = os.path.join(sut.scratch(), 'layout.csv')
    with open(path, 'wb') as target:
        target.write(text.encode('utf-8'))
    run.note(quoted=quoted, ends=ends, agency=agency, bad=bad)
    got = []

    def load():
        with open(path) as source:
            for entry in EqEntryReader(source).read():
                got.append(entry)
    _, error = run.attempt(load)
    want = []
    for row in rows:
        entry, invalid = model(row)
        if invalid:
            run.check(isinstance(error, EqEntryValidationError) and
                      error.args[0] in invalid, 'invalid %r: %r', invalid,
                      error)
            break
        want.append(entry)
    else:
        run.check(error is None, 'refused: %r', error)
    run.check(len(got) == len(want), '%d entries, expected %d', len(got),
              len(want))
    for one, other in zip(got, want):
        diff = same_entry(one, other)
        run.check(diff is None, 'an entry differs: %s', diff)
    run.outcome(repr(want)[:300], len(want))
    os.remove(path)


def ellipse(run):
    """Every combination of the three fields of the error ellipse."""
    axis = ['', 'x', '-1', '0', '0.0', '5', '8.5', '12.5', '12.6']
    changes = {'SemiMajor90': run.pick('major', axis),
               'SemiMinor90': run.pick('minor', axis)}
    run.commit()
    for strike in ['', 'x', '-0.1', '-1', '0', '45', '360', '360.1', '400']:
        changes['ErrorStrike'] = strike
        judge(run, HEADER + '\n' + record(**changes) + '\n', True)
    run.note(**changes)


def numeric_sweep(run):
    """Every field swept over a fine grid of numbers around its bounds."""
    field = run.pick('field', [f for f in FIELDS if f != 'Agency'])
    run.commit()
    grid = {'year': list(range(-10010, -9990)) + [0] + list(
        range(THIS_YEAR - 3, THIS_YEAR + 4)),
        'longitude': [k / 4. for k in range(-730, 731)],
        'latitude': [k / 4. for k in range(-370, 371)],
        'ErrorStrike': [k / 2. for k in range(-10, 730)]}.get(
        field, [k / 2. for k in range(-10, 150)])
    for value in grid:
        if field in INTS:
            value = int(value)
        judge(run, HEADER + '\n' + record(**{field: repr(value)}) + '\n',
              field not in COMPULSORY)
    run.note(field=field, values=len(grid))


BAD = [('eventID', '0'), ('year', '99999'), ('month', '13'), ('day', 'x'),
       ('longitude', '181'), ('latitude', ''), ('depth', '-4.5'),
       ('Mw', 'x'), ('minute', '60'), ('hour', '1.5'), ('Identifier', '-2'),
       ('sigmaML', 'x'), ('second', '60'), ('Agency', '')]


def positions(run):
    """Files of several records, with blank lines, invalid ones anywhere."""
    size = run.pick('records', range(0, 5 if run.thorough else 4))
    lines = []
    for k in range(size):
        if run.dev('blank%d' % k, (False, True)):
            lines.append('')
        bad = run.dev('record%d' % k, [None] + BAD + ['cut'])
        changes = {'eventID': str(100 + k), 'Agency': 'A%d' % k,
                   'Mw': '%d.5' % (k + 4)}
        if bad == 'cut':
            changes['ML'] = None
        elif bad:
            changes[bad[0]] = bad[1]
        lines.append(record(**changes))
    end = run.pick('newline at the end', ('\n', ''))
    run.commit()
    text = '\n'.join([HEADER] + lines) + end
    run.note(lines=[line[:40] for line in lines])
    judge(run, text)
    # the list reader agrees with the iterator
    expected = model_file(text)
    whole, error = run.attempt(
        lambda: EqEntryReader(io.StringIO(text)).read_eq_catalog())
    if expected[1] is None:
        run.check(error is None and [g['eventID'] for g in whole] ==
                  [w['eventID'] for w in expected[0]],
                  'the list of entries differs: %r %r', error, whole)
    else:
        run.check(error is not None, 'the list reader accepts the file')


def short_records(run):
    """Records cut after every number of fields, at every position."""
    at = run.pick('position', range(3))
    keep = run.pick('fields', range(1, len(FIELDS) + 1))
    comma = run.pick('trailing comma', (False, True))
    run.commit()
    lines = [record(eventID=str(50 + k)) for k in range(3)]
    lines[at] = ','.join(lines[at].split(',')[:keep])
    if comma and keep < len(FIELDS):
        lines[at] += ','
    run.note(position=at, fields=keep)
    judge(run, '\n'.join([HEADER] + lines) + '\n')


LENGTHS = (9, 10, 11, 63, 64, 99, 100, 127, 128, 129, 255, 256, 257, 511,
           512, 999, 1000, 1001, 1023, 1024, 1025)


def many(number):
    """Many records, one after the other unlike."""
    return [record(eventID=str(k + 1), year=str(1900 + k % 100),
                   month=str(1 + k % 12), day=str(1 + k % 28),
                   longitude=repr(k % 360 - 179.5), second=(
                       '', '0.5', '61', '12.25')[k % 4],
                   Mw=repr(4 + k % 37 / 8.),
                   sigmaMw=('', '-1', '0.25')[k % 3],
                   SemiMinor90=('', '8.5', '13', '-1', '2')[k % 5])
            for k in range(number)]


def long_files(run):
    """Many records, the last ones may be invalid."""
    number = run.pick('records', LENGTHS + (
        (2048, 4097, 10001) if run.thorough else ()))
    bad = run.pick('bad', (None, 'last', 'half'))
    run.commit()
    lines = many(number)
    if bad:
        at = -1 if bad == 'last' else number // 2
        lines[at] = record(day='32')
    run.note(records=number, bad=bad)
    judge(run, '\n'.join([HEADER] + lines) + '\n')


# -- C03 -------------------------------------------------------------------
def headers(run):
    """Headers: swaps, omissions, doubles, additions, case and blanks."""
    kind = run.pick('kind', ('same', 'swap', 'drop', 'double', 'case',
                             'blanks', 'replace', 'add', 'none', 'empty'))
    names = list(FIELDS)
    if kind == 'swap':
        i = run.pick('i', range(len(FIELDS) - 1))
        j = run.pick('j', range(i + 1, len(FIELDS)))
        names[i], names[j] = names[j], names[i]
    elif kind in ('drop', 'double', 'case', 'blanks', 'replace'):
        i = run.pick('i', range(len(FIELDS)))
        if kind == 'drop':
            del names[i]
        elif kind == 'double':
            names.insert(i, names[i])
        elif kind == 'case':
            names[i] = run.pick('case', (names[i].upper(), names[i].lower(),
                                         names[i].swapcase()))
        elif kind == 'blanks':
            names[i] = run.pick('blank', (' %s', '%s ', '\t%s\t')) % names[i]
        else:
            names[i] = run.pick('name', ('', 'x', 'Mw', 'ID'))
    elif kind == 'add':
        names.append(run.pick('name', ('', 'x', 'Mw')))
    run.commit()
    text = ','.join(names) + '\n'
    if kind == 'none':
        text = ''
    if kind == 'empty':
        text = ''
    else:
        text += record() + '\n' + record(eventID='8') + '\n'
    run.note(kind=kind, header=text[:200])
    judge(run, text)


TORN = HEADER + '\n' + '\n'.join([
    record(), record(eventID='8', year='1990', sigmaMw='', Ms=''),
    record(eventID='9', month='2', day='28', ErrorStrike='', ML='',
           sigmaML='')]) + '\n'


def torn(run):
    """The file cut after every byte."""
    block = run.pick('block', range(0, len(TORN) + 1, 8))
    run.commit()
    for size in range(block, min(block + 8, len(TORN) + 1)):
        judge(run, TORN[:size])
    run.note(first_cut=block)


def corrupted(run):
    """One byte of the file replaced, removed or inserted, everywhere."""
    chars = ',x-\n9.e#" \t0+\'_/;\\%|I\xe9\u0663'
    if run.thorough:
        chars = ''.join(map(chr, range(32, 127))) + '\t\n\xe9\u0663\u2028'
    kind = run.pick('kind', ('replace', 'remove', 'insert'))
    pos = run.pick('position', range(len(TORN)))
    run.commit()
    if kind == 'remove':
        judge(run, TORN[:pos] + TORN[pos + 1:])
    for char in chars:
        tail = TORN[pos + (kind == 'replace'):]
        if kind != 'remove':
            judge(run, TORN[:pos] + char + tail)
    run.note(kind=kind, position=pos)


# -- C04 -------------------------------------------------------------------
ENTRIES = []
for _changes in (
        {}, {'eventID': '2', 'second': '', 'timeError': '', 'Agency': ''},
        {'eventID': '3', 'sigmaMw': '-1', 'Ms': '', 'sigmaMs': '', 'mb': '',
         'sigmamb': '', 'ML': '', 'sigmaML': ''},
        {'eventID': '4', 'longitude': '-179.123456789012',
         'latitude': '89.99999999', 'depth': '1e-3', 'year': '-9999'},
        {'eventID': '5', 'SemiMajor90': '', 'Mw': '6.333333333333333',
         'sigmaMw': '0.1'},
        {'eventID': '6', 'month': '2', 'day': '29', 'Mw': '-0.5',
         'depth': '123456789.25'}):
    ENTRIES.append(model(dict(DEFAULT, **_changes))[0])
AGENCIES = ['ISC', '', 'a,b', 'say "x"', ' padded ', "it's", 'a;b', 'x"y,z',
            '#no', '1', '-', 'two  blanks', '"', ',', 'two\nlines']


def write(path, entries):
    """Write a catalogue."""
    EqEntryWriter(path).write_rows(entries)


def read(path):
    """Read a catalogue."""
    with open(path) as source:
        return EqEntryReader(source).read_eq_catalog()


def check_read_back(run, path, entries):
    """The file gives the entries back."""
    got = run.call(read, path)
    run.check(len(got) == len(entries), '%d entries read back, %d written',
              len(got), len(entries))
    for number, (one, other) in enumerate(zip(got, entries)):
        diff = same_entry(one, other)
        run.check(diff is None, 'entry %d read back: %s', number, diff)


def round_trip(run):
    """Sequences of entries written and read back."""
    size = run.pick('size', range(0, 5 if run.thorough else 4))
    chosen = [run.pick('entry%d' % k, ENTRIES) for k in range(size)]
    run.commit()
    path = os.path.join(sut.scratch(), 'catalogue.csv')
    entries = [dict(e) for e in chosen]
    before = [dict(e) for e in entries]
    # a list, or any other sequence or iterator of entries
    run.call(write, path, iter(entries) if size % 2 else tuple(entries))
    run.check(entries == before, 'writing changed the entries')
    run.note(ids=[e['eventID'] for e in entries])
    with open(path) as source:
        header = source.readline()
    run.check([f.strip() for f in header.split(',')] == FIELDS,
              'the file starts with %r', header)
    check_read_back(run, path, entries)
    with open(path, 'rb') as source:
        first = source.read()
    run.call(write, path, run.call(read, path))
    with open(path, 'rb') as source:
        run.check(source.read() == first,
                  'reading and writing again changes the file')
    run.outcome(first)
    os.remove(path)


def agencies(run):
    """Texts that need quoting, in every pair of records."""
    texts = [run.pick('agency%d' % k, AGENCIES) for k in range(2)]
    run.commit()
    path = os.path.join(sut.scratch(), 'catalogue.csv')
    entries = [dict(e, Agency=t) for e, t in zip(ENTRIES, texts)]
    run.call(write, path, entries)
    run.note(agencies=texts)
    check_read_back(run, path, entries)
    os.remove(path)


def one_field(run):
    """Every accepted value of every field survives the round trip."""
    field = run.pick('field', FIELDS)
    value = run.pick('value', VALUES[field])
    second = run.pick('second field', FIELDS)
    run.commit()
    entries = []
    for other in VALUES[second]:
        entry, invalid = model(dict(DEFAULT, **{second: other,
                                                field: value}))
        if not invalid:
            entries.append(entry)
    path = os.path.join(sut.scratch(), 'catalogue.csv')
    run.call(write, path, entries)
    run.note(field=field, value=value, second=second, entries=len(entries))
    check_read_back(run, path, entries)
    os.remove(path)


def rewrite(run):
    """Histories of writes to two files: the last one of each counts."""
    steps = 4 if run.thorough else 3
    history = []
    for k in range(steps):
        history.append((run.pick('file%d' % k, ('a', 'b')),
                        run.pick('size%d' % k, (3, 0, 1, 2))))
    run.commit()
    run.note(history=history)
    files = {}
    writers = {}
    for number, (name, size) in enumerate(history):
        path = os.path.join(sut.scratch(), 'history-%s.csv' % name)
        entries = [dict(ENTRIES[(number + k) % len(ENTRIES)])
                   for k in range(size)]
        # the same writer object is used again for the same file
        writer = writers.get(path) or EqEntryWriter(path)
        writers[path] = writer
        run.call(writer.write_rows, entries)
        files[path] = entries
        for known, content in files.items():
            check_read_back(run, known, content)
    for path in files:
        os.remove(path)


def long_catalogues(run):
    """Many entries written and read back."""
    number = run.pick('entries', LENGTHS + (
        (2048, 4097, 10001) if run.thorough else ()))
    again = run.pick('written before', (None, 3, 1300))
    run.commit()
    run.note(entries=number, before=again)
    path = os.path.join(sut.scratch(), 'catalogue.csv')
    entries = [model(dict(zip(FIELDS, line.split(','))))[0]
               for line in many(max(number, again or 0))]
    if again:
        run.call(write, path, entries[:again])
    run.call(write, path, entries[:number])
    check_read_back(run, path, entries[:number])
    os.remove(path)


ASSUME = ['records have at most 25 fields except where one byte is corrupted',
          'NaN and infinite numbers only where they are out of the range '
          'of the field',
          'texts without carriage returns; quoted texts only in the round '
          'trip (C04)',
          'the clock does not pass a new year during a run']


def _c01(tier):
    deep = tier == 'thorough'
    return [(name, only(scenario, False, True), budget)
            for name, scenario, budget in (
                ('record', one_record, 3 if deep else 2),
                ('spelled', spelled, 2),
                ('dates', month_day, 0), ('places', places, 0),
                ('layouts', layouts, 0),
                ('numeric sweep', numeric_sweep, 0),
                ('positions', positions, 3 if deep else 2),
                ('long', long_files, 0),
                ('short records', short_records, 0))]


def _c02(tier):
    deep = tier == 'thorough'
    return [(name, only(scenario, True, False), budget)
            for name, scenario, budget in (
                ('spelled', spelled, 2),
                ('ellipse', ellipse, 0), ('layouts', layouts, 0),
                ('record', one_record, 3 if deep else 2),
                ('numeric sweep', numeric_sweep, 0),
                ('long', long_files, 0),
                ('short records', short_records, 0))]


CHECKS = {
    'C01': {
        'scenarios': _c01, 'assumptions': ASSUME,
        'bounds': {
            'quick': 'one record with up to 2 fields off the default (5..11 '
                     'boundary values each); every month x '
                     'day x 13 years x 3 times; quoted fields and both ends of '
                     'lines; files of up '
                     'to 3 records with up to 2 blank lines or bad records; '
                     'records cut after every field; 21 lengths up to 1025',
            'thorough': 'as quick, with up to 3 deviations and 4 records; '
                        'up to 10001 records'}},
    'C02': {
        'scenarios': _c02, 'assumptions': ASSUME,
        'bounds': {
            'quick': 'all 729 combinations of the error ellipse; one record '
                     'with up to 2 fields off the default; every field '
                     'swept; 21 lengths up to 1025',
            'thorough': 'as quick, with up to 3 fields off the default; up '
                        'to 10001 records'}},
    'C03': {
        'scenarios': lambda tier: [
            ('headers', headers, 0), ('torn', torn, 0),
            ('corrupted', corrupted, 0)],
        'assumptions': ASSUME,
        'bounds': {
            'quick': 'every swap, omission, doubling and renaming of header '
                     'fields; a 3 record file cut after every byte; one byte '
                     'replaced, removed or inserted at every position '
                     '(22 characters)',
            'thorough': 'as quick, all printable characters'}},
    'C04': {
        'scenarios': lambda tier: [
            ('round trip', round_trip, 0), ('agencies', agencies, 0),
            ('one field', one_field, 0), ('rewrite', rewrite, 0),
            ('long', long_catalogues, 0)],
        'assumptions': ASSUME,
        'bounds': {
            'quick': 'sequences of up to 3 of 6 entries; every pair of '
                     'accepted field values; histories of 3 writes to 2 '
                     'files; 21 lengths up to 1025',
            'thorough': 'sequences of up to 4 entries; histories of 4 '
                        'writes; up to 10001 entries'}},
}
