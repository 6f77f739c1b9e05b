"""Source models in NRML (N01, N02)."""

import os
import re
from xml.sax.saxutils import escape, quoteattr

import numpy as np
from lxml import etree

from mc import sut

from mtoolkit.jobs import NRML_SCHEMA_PATH
from mtoolkit.source_model import (AREA_BOUNDARY, MAGNITUDE, POINT,
                                   RUPTURE_DEPTH_DISTRIB, RUPTURE_RATE_MODEL,
                                   TRUNCATED_GUTEN_RICHTER, AreaSource)
from nrml.reader import NRMLReader
from nrml.writer import AreaSourceWriter

NRML = 'http://openquake.org/xmlns/nrml/0.3'
GML = 'http://www.opengis.net/gml'

REGIONS = ('Active Shallow Crust', 'Stable Shallow Crust',
           'Subduction Interface', 'Subduction IntraSlab', 'Volcanic')

BASE = {
    'id': 'src03', 'name': 'Quito', 'region': REGIONS[0],
    'srs': 'urn:ogc:def:crs:EPSG::4326',
    'pos': (-122.5, 37.5, -121.25, 37.5, -121.5, 38.5, -122.5, 38.75),
    'a': 5.0, 'b': 0.8, 'min': 4.75, 'max': 7.0, 'type': 'ML',
    'strike': 10.5, 'dip': 88.0, 'rake': -3.5,
    'mags': (6.0, 6.5, 7.25), 'mtype': 'Mw', 'depths': (5000.0, 3000.0, 0.5),
    'hypo': 5250.0}
OTHER = {
    'id': 'src04', 'name': 'Second', 'region': REGIONS[2],
    'srs': 'epsg:4326', 'pos': (10., 45., 11., 45., 10.5, 46.5),
    'a': -1.25, 'b': 1.1, 'min': 5.5, 'max': 8.25, 'type': 'Mw',
    'strike': 359., 'dip': 15.25, 'rake': 90., 'mags': (5.,), 'mtype': 'ML',
    'depths': (100.,), 'hypo': 0.}
THIRD = {
    'id': 'z-3', 'name': None, 'region': REGIONS[4], 'srs': None,
    'pos': (170., -45., 171., -45., 170.5, -46.5), 'a': 3.5, 'b': 0.65,
    'min': 4., 'max': 6.125, 'type': None, 'strike': 0., 'dip': 0.,
    'rake': 180., 'mags': (4., 9.), 'mtype': None, 'depths': (0., 1.),
    'hypo': 7.}

# the values each part may have
NUMBERS = (0., 1. / 3, 1e-12, 123456.789012345, 4, np.float64(0.1) + 0.2,
           1e22)
SIGNED = NUMBERS + (-1. / 3, -2e-9)
TEXTS = ('a < b & "c" \'d\'', '\xc9tna \u2014 \u0416', '', ' two  words ', 'x')
MENU = (
    ('id', ('src03', '_', 'a.b-c_9', '\xe9l\xe9ment')),
    ('name', ('Quito', None) + TEXTS),
    ('region', REGIONS),
    ('srs', ('urn:ogc:def:crs:EPSG::4326', None, 'epsg:4326',
             'http://x/?a=1&b=<2>')),
    ('pos', (BASE['pos'], OTHER['pos'], (1. / 3, -0.1, 180., 90., -180., -90.),
             (0, 0, 1, 0, 1, 1), tuple(k / 7. for k in range(60)),
             (10., 45., 11., 45., 10.5, 46.5, 10., 45.),
             (10., 45., 11., 45., 11., 46., 10.5, 46.5, 10., 46., 10., 45.),
             (10., 45., 10., 45., 11., 45., 11., 45., 10.5, 46.5))),
    ('a', (5.0,) + SIGNED), ('b', (0.8,) + NUMBERS),
    ('min', (4.75,) + SIGNED), ('max', (7.,) + SIGNED),
    ('type', ('ML', None, 'Mw')),
    ('strike', (10.5, 0., 360., 359.99999999999994, 1. / 3)),
    ('dip', (88., 0., 90., 1. / 3)),
    ('rake', (-3.5, -180., 180., 0., -1. / 3)),
    ('mags', (BASE['mags'], (5.,), (1. / 3, 0.1 + 0.2), (6, 7),
              tuple(k / 7. for k in range(20)), (6., 5.5, 5.5, 5.))),
    ('mtype', ('Mw', None, 'ML')),
    ('depths', (BASE['depths'], (0.,), (1. / 3, 1e5), tuple(range(20)),
                (9e3, 9e3, 4e3, 4e3))),
    ('hypo', (5250.,) + NUMBERS),
)


def build(values):
    """The value object of a source."""
    source = AreaSource()
    source.nrml_id = values.get('nrml', 'n1')
    source.source_model_id = values.get('model', 'sm1')
    source.area_source_id = values['id']
    source.name = values['name']
    source.tectonic_region = values['region']
    pos = values['pos']
    source.area_boundary = AREA_BOUNDARY(values['srs'], [
        POINT(pos[k], pos[k + 1]) for k in range(0, len(pos), 2)])
    source.rupture_rate_model = RUPTURE_RATE_MODEL(
        TRUNCATED_GUTEN_RICHTER(values['a'], values['b'], values['min'],
                                values['max'], values['type']),
        values['strike'], values['dip'], values['rake'])
    source.rupture_depth_dist = RUPTURE_DEPTH_DISTRIB(
        MAGNITUDE(values['mtype'], list(values['mags'])),
        list(values['depths']))
    source.hypocentral_depth = values['hypo']
    return source


def parts(source):
    """Everything in a value object, as plain values."""
    rate, depth = source.rupture_rate_model, source.rupture_depth_dist
    law = rate.truncated_gutenberg_richter
    return {
        'nrml': source.nrml_id, 'model': source.source_model_id,
        'id': source.area_source_id, 'name': source.name,
        'region': source.tectonic_region,
        'srs': source.area_boundary.srs_name,
        'pos': tuple(v for p in source.area_boundary.pos_list
                     for v in (p.lon, p.lat)),
        'a': law.a_value, 'b': law.b_value, 'min': law.min_magnitude,
        'max': law.max_magnitude, 'type': law.type_tgr,
        'strike': rate.strike, 'dip': rate.dip, 'rake': rate.rake,
        'mags': tuple(depth.magnitude.values),
        'mtype': depth.magnitude.type_mag, 'depths': tuple(depth.depth),
        'hypo': source.hypocentral_depth}


def same(run, got, values, where):
    """Does a source that was read have the values?"""
    want = dict({'nrml': 'n1', 'model': 'sm1'}, **values)
    have = parts(got)
    for key in sorted(want):
        run.check(have[key] == want[key], '%s: %s is %r, expected %r', where,
                  key, have[key], want[key])


def schema():
    """The NRML schema."""
    if not hasattr(schema, 'made'):
        schema.made = etree.XMLSchema(etree.parse(NRML_SCHEMA_PATH))
    return schema.made


def extract(path):
    """The values in a document, by paths: [(ids, values)]."""
    tree = etree.parse(path)
    names = {'n': NRML, 'g': GML}

    def texts(node, where):
        found = node.xpath(where, namespaces=names)
        return found[0] if found else None

    def numbers(node, where):
        return tuple(float(t) for t in texts(node, where).text.split())
    out = []
    root = tree.getroot()
    for node in root.xpath('/n:nrml/n:sourceModel/n:areaSource',
                           namespaces=names):
        name = texts(node, 'g:name')
        ring = texts(node, 'n:areaBoundary/g:Polygon/g:exterior/g:LinearRing')
        law = texts(node, 'n:ruptureRateModel/n:truncatedGutenbergRichter')
        rate = texts(node, 'n:ruptureRateModel')
        depth = texts(node, 'n:ruptureDepthDistribution')
        out.append({
            'nrml': root.get('{%s}id' % GML),
            'model': node.getparent().get('{%s}id' % GML),
            'id': node.get('{%s}id' % GML),
            'name': None if name is None else (name.text or ''),
            'region': texts(node, 'n:tectonicRegion').text,
            'srs': ring.get('srsName'), 'pos': numbers(ring, 'g:posList'),
            'a': numbers(law, 'n:aValueCumulative')[0],
            'b': numbers(law, 'n:bValue')[0],
            'min': numbers(law, 'n:minMagnitude')[0],
            'max': numbers(law, 'n:maxMagnitude')[0],
            'type': law.get('type'), 'strike': numbers(rate, 'n:strike')[0],
            'dip': numbers(rate, 'n:dip')[0],
            'rake': numbers(rate, 'n:rake')[0],
            'mags': numbers(depth, 'n:magnitude'),
            'mtype': texts(depth, 'n:magnitude').get('type'),
            'depths': numbers(depth, 'n:depth'),
            'hypo': numbers(node, 'n:hypocentralDepth')[0]})
    return out


def written(run, path, models, where):
    """Judge a written file: valid, complete, and read back alike."""
    run.check(schema().validate(etree.parse(path)), '%s: not valid NRML: %s',
              where, schema().error_log)
    found = extract(path)
    run.check(len(found) == len(models), '%s: %d sources written, expected '
              '%d', where, len(found), len(models))
    for k, (have, values) in enumerate(zip(found, models)):
        want = dict({'nrml': 'n1', 'model': 'sm1'}, **values)
        for key in sorted(want):
            run.check(have[key] == want[key], '%s: %s of source %d written '
                      'as %r, expected %r', where, key, k, have[key],
                      want[key])
    back = run.call(lambda: list(NRMLReader(path, NRML_SCHEMA_PATH).read()))
    run.check(len(back) == len(models), '%s: %d sources read, expected %d',
              where, len(back), len(models))
    for k, (got, values) in enumerate(zip(back, models)):
        same(run, got, values, '%s, source %d' % (where, k))


# -- N01 -------------------------------------------------------------------
def values(run):
    """A source with two parts other than the usual ones."""
    chosen = dict((name, run.dev(name, menu)) for name, menu in MENU)
    run.commit()
    run.note(changed={k: v for k, v in chosen.items() if v != BASE[k]})
    path = os.path.join(sut.scratch(), 'one.xml')
    source = build(chosen)
    run.call(AreaSourceWriter(path).serialize, [source])
    same(run, source, chosen, 'the source written')
    written(run, path, [chosen], 'one source')
    again = build(chosen)
    got = run.call(lambda: list(NRMLReader(path, NRML_SCHEMA_PATH).read()))[0]
    run.check(got == again and not got != again, 'the source read differs '
              'from the one written')
    run.outcome(sorted((k, str(v)) for k, v in chosen.items()))


def several(run):
    """Up to four sources in every order, in models of every name."""
    menu = (BASE, OTHER, THIRD, dict(BASE, id='again'))
    size = run.pick('size', (1, 2, 3, 4))
    models, left = [], list(menu)
    for k in range(size):
        models.append(left.pop(run.pick('s%d' % k, range(len(left)))))
    ids = run.pick('ids', (('n1', 'sm1'), ('root', 'M-1'), ('_', 'a.b')))
    run.commit()
    models = [dict(m, nrml=ids[0], model=ids[1]) for m in models]
    run.note(sources=[m['id'] for m in models], ids=ids)
    path = os.path.join(sut.scratch(), 'several.xml')
    run.call(AreaSourceWriter(path).serialize, [build(m) for m in models])
    written(run, path, models, 'several sources')
    run.outcome([m['id'] for m in models], ids)


def large(run):
    """Models of many sources, with long boundaries and lists."""
    number = run.pick('sources', (10, 33, 100, 257) + (
        (1000,) if run.thorough else ()))
    points = run.pick('points', (4, 100, 1500))
    lists = run.pick('lists', (1, 50, 700))
    title = run.pick('title', (8, 5000))
    run.commit()
    if number * (points + lists) > 100000:
        return
    run.note(sources=number, points=points, lists=lists, title=title)
    models = []
    for k in range(number):
        base = (BASE, OTHER, THIRD)[k % 3]
        models.append(dict(
            base, id='s%d' % k, name=('n%d ' % k * title)[:title] + '.',
            a=k / 7., b=0.5 + k / 1000., min=4. + k / 64., max=8. - k / 512.,
            pos=tuple((-1) ** j * (j * 7 + k) % 90 / 7.
                      for j in range(2 * points)),
            mags=tuple(4. + (j + k) / 97. for j in range(lists)),
            depths=tuple((j * k + 5) / 97. for j in range(lists))))
    path = os.path.join(sut.scratch(), 'large.xml')
    run.call(AreaSourceWriter(path).serialize, [build(m) for m in models])
    written(run, path, models, 'large model')
    os.remove(path)
    run.outcome(number, points, lists)


def histories(run):
    """The file has the last model written, whatever was there before."""
    steps = []
    for k in range(3 if run.thorough else 2):
        steps.append(run.pick('step%d' % k, (
            ('new', 1), ('new', 3), ('same', 1), ('same', 3), ('junk', 0),
            ('read', 0))))
    last = run.pick('last', (1, 2, 3))
    fresh = run.pick('writer', ('new', 'same'))
    where = run.pick('folder', ('absolute', 'relative', 'bare'))
    run.commit()
    run.note(steps=steps, last=last, writer=fresh, folder=where)
    folder = os.path.join(sut.scratch(), 'deep')
    os.makedirs(folder, exist_ok=True)
    home = os.getcwd()
    os.chdir(folder if where == 'bare' else sut.scratch())
    try:
        path = {'absolute': os.path.join(folder, 'h.xml'),
                'relative': os.path.join('deep', 'h.xml'),
                'bare': 'h.xml'}[where]
        if os.path.exists(path):
            os.remove(path)
        menu = [BASE, OTHER, THIRD]
        shared = run.call(AreaSourceWriter, path)
        for kind, size in steps:
            if kind == 'junk':
                with open(path, 'w') as out:
                    out.write('<nrml>' + 'junk ' * 4000)
            elif kind == 'read':
                try:
                    run.call(lambda: list(NRMLReader(
                        path, NRML_SCHEMA_PATH).read()))
                except Exception:
                    continue
            else:
                writer = shared if kind == 'same' else run.call(
                    AreaSourceWriter, path)
                run.call(writer.serialize, [build(m) for m in menu[:size]])
                written(run, path, menu[:size], 'after %d' % size)
        writer = shared if fresh == 'same' else AreaSourceWriter(path)
        run.call(writer.serialize, [build(m) for m in menu[::-1][:last]])
        written(run, path, menu[::-1][:last], 'after all')
    finally:
        os.chdir(home)
    run.outcome(steps, last)


# -- documents of our own --------------------------------------------------
POINT_SOURCE = """<pointSource gml:id="%s"><gml:name>p</gml:name>
<tectonicRegion>Volcanic</tectonicRegion><location>
<gml:Point srsName="epsg:4326"><gml:pos>-122.0 38.0</gml:pos></gml:Point>
</location><ruptureRateModel><truncatedGutenbergRichter type="ML">
<aValueCumulative>9.0</aValueCumulative><bValue>0.9</bValue>
<minMagnitude>3.0</minMagnitude><maxMagnitude>9.0</maxMagnitude>
</truncatedGutenbergRichter><strike>1.0</strike><dip>2.0</dip>
<rake>3.0</rake></ruptureRateModel><ruptureDepthDistribution>
<magnitude type="ML">6.0 7.0</magnitude><depth>5.0 0.0</depth>
</ruptureDepthDistribution><hypocentralDepth>5.0</hypocentralDepth>
</pointSource>"""
FAULT_SOURCE = """<simpleFaultSource gml:id="%s"><gml:name>f</gml:name>
<tectonicRegion>Volcanic</tectonicRegion><rake>9.0</rake>
<truncatedGutenbergRichter type="ML"><aValueCumulative>9.0</aValueCumulative>
<bValue>0.9</bValue><minMagnitude>3.0</minMagnitude>
<maxMagnitude>9.0</maxMagnitude></truncatedGutenbergRichter>
<simpleFaultGeometry gml:id="g%s"><faultTrace><gml:LineString>
<gml:posList>19.5 40.0 1.0 19.4 40.1 1.0</gml:posList></gml:LineString>
</faultTrace><dip>37.5</dip><upperSeismogenicDepth>1.0</upperSeismogenicDepth>
<lowerSeismogenicDepth>12.0</lowerSeismogenicDepth></simpleFaultGeometry>
</simpleFaultSource>"""


def render(models, space='', comment='', before=(), prefix='', split=' '):
    """A document of ours: how the writer lays it out does not matter."""
    models = tuple(models)
    n = prefix and prefix + ':'

    def tag(name, text, attrs=''):
        return '%s<%s%s%s>%s%s%s%s</%s%s>%s' % (
            comment, n if ':' not in name else '', name, attrs, space, text,
            comment, space, n if ':' not in name else '', name, space)

    def numbers(row):
        return split.join(
            repr(float(v)) + (comment if k == 1 else '')
            for k, v in enumerate(row))

    def attr(name, value):
        return '' if value is None else ' %s=%s' % (name, quoteattr(value))
    out = []
    for k, m in enumerate(models + (None,)):
        for kind in before:
            name = 'o%d%s' % (k, kind)
            out.append(POINT_SOURCE % name if kind == 'point' else
                       FAULT_SOURCE % (name, name))
        if m is None:
            break
        name = '' if m['name'] is None else '<gml:name>%s</gml:name>' % (
            escape(m['name']))
        law = ''.join((tag('aValueCumulative', repr(float(m['a']))),
                       tag('bValue', repr(float(m['b']))),
                       tag('minMagnitude', repr(float(m['min']))),
                       tag('maxMagnitude', repr(float(m['max'])))))
        body = ''.join((
            name, '<%stectonicRegion>%s</%stectonicRegion>' % (
                n, m['region'], n),
            tag('areaBoundary', tag('gml:Polygon', tag('gml:exterior', tag(
                'gml:LinearRing', tag('gml:posList', numbers(m['pos'])),
                attr('srsName', m['srs']))))),
            tag('ruptureRateModel', tag('truncatedGutenbergRichter', law,
                                        attr('type', m['type'])) +
                tag('strike', repr(float(m['strike']))) +
                tag('dip', repr(float(m['dip']))) +
                tag('rake', repr(float(m['rake'])))),
            tag('ruptureDepthDistribution',
                tag('magnitude', numbers(m['mags']),
                    attr('type', m['mtype'])) +
                tag('depth', numbers(m['depths']))),
            tag('hypocentralDepth', repr(float(m['hypo'])))))
        out.append(tag('areaSource', body, ' gml:id=%s' % quoteattr(m['id'])))
    text = ''.join(out)
    if prefix:
        # sources of other kinds are in the default namespace
        text = text.replace('<pointSource', '<pointSource xmlns="%s"' % NRML)
        text = text.replace('<simpleFaultSource',
                            '<simpleFaultSource xmlns="%s"' % NRML)
    return ('<?xml version="1.0" encoding="utf-8"?>\n'
            '<%snrml xmlns%s="%s" xmlns:gml="%s" gml:id="n1">'
            '<%ssourceModel gml:id="sm1">%s<%sconfig/>%s</%ssourceModel>'
            '</%snrml>\n' % (n, n and ':' + prefix, NRML, GML, n, space, n,
                             text, n, n))


def load(run, text, earlier=None):
    """Read a document: (sources, error).

    With an earlier text, the reader has read that from the same file.
    """
    # the name of the file is of no importance
    path = os.path.join(sut.scratch(), ('document.xml', 'document.nrml',
                                        'document', 'a model.XML')[
                                            len(text) % 4])
    reader = run.call(NRMLReader, path, NRML_SCHEMA_PATH)
    if earlier is not None:
        with open(path, 'wb') as out:
            out.write(earlier)
        run.call(lambda: list(reader.read()))
    with open(path, 'wb') as out:
        out.write(text if isinstance(text, bytes) else text.encode('utf-8'))
    got, error = run.attempt(lambda: list(reader.read()))
    # a reader that is used again does the same
    again, fault = run.attempt(lambda: list(reader.read()))
    run.check((error is None) == (fault is None), 'read again: %r, %r',
              error, fault)
    run.check(again == got, 'read again: %r, %r', again, got)
    return got, error


def documents(run):
    """Every layout of a valid document."""
    menu = (BASE, OTHER, THIRD)
    size = run.pick('size', (0, 1, 2, 3))
    space = run.pick('space', ('', '\n  ', ' \t\r\n '))
    comment = run.pick('comment', ('', '<!-- 9 -->', '<?pi 9?>'))
    before = run.pick('other sources', ((), ('point',), ('fault',),
                                        ('fault', 'point')))
    prefix = run.pick('prefix', ('', 'nrml'))
    split = run.pick('split', (' ', '\n', '\t  '))
    named = run.pick('named parts', (False, True))
    run.commit()
    if not size and not before:
        return              # a source model has sources
    run.note(size=size, space=space, comment=comment, before=before,
             prefix=prefix, split=split, named=named)
    models = menu[:size]
    text = render(models, space, comment, before, prefix, split)
    if named:
        # geometry may have names too, and all may have descriptions
        text = re.sub('(<gml:(Polygon|LinearRing)[^>]*>)',
                      r'\1<gml:description>7 7</gml:description>'
                      '<gml:name>not the zone</gml:name>', text)
        text = re.sub('(<[a-z:]*areaSource [^>]*>)',
                      r'\1<gml:description>8</gml:description>', text)
    if not schema().validate(etree.fromstring(text.encode('utf-8'))):
        raise AssertionError('the harness made an invalid document: %s %s' % (
            schema().error_log, text))
    got, error = load(run, text)
    run.check(error is None, 'valid document refused: %r', error)
    run.check(len(got) == len(models), '%d sources read, expected %d',
              len(got), len(models))
    for k, (source, m) in enumerate(zip(got, models)):
        same(run, source, m, 'source %d' % k)
    run.outcome(size, before)


def valid_values(run):
    """Every part at every one of its values in a document of ours."""
    which = run.pick('part', range(len(MENU)))
    name, menu = MENU[which]
    value = run.pick('value', menu)
    other = run.pick('another', (None, 'before', 'after'))
    run.commit()
    chosen = dict(BASE, **{name: value})
    run.note(part=name, value=value)
    models = {None: [chosen], 'before': [OTHER, chosen],
              'after': [chosen, THIRD]}[other]
    got, error = load(run, render(models))
    run.check(error is None, 'valid document refused: %r', error)
    run.check(len(got) == len(models), '%d sources read, expected %d',
              len(got), len(models))
    for k, (source, m) in enumerate(zip(got, models)):
        same(run, source, m, 'source %d' % k)
    run.outcome(name, str(value))


# -- N02 -------------------------------------------------------------------
PLAIN = render([BASE, OTHER]).encode('utf-8')
LIMITS = (('strike', ('-0.001', '360.001', 'x', '', '1 2')),
          ('dip', ('-0.001', '90.001', 'x', '', '1,5')),
          ('rake', ('-180.001', '180.001', 'x', '')),
          ('bValue', ('-0.001', 'x', '', '0.8.1')),
          ('aValueCumulative', ('x', '', '1 2', '5,0')),
          ('minMagnitude', ('x', '', '1 2')),
          ('maxMagnitude', ('x', '', '1 2')),
          ('hypocentralDepth', ('-0.001', 'x', '', '1 2')),
          ('depth', ('-0.001', 'x', '1 x', '1 -2')),
          ('magnitude', ('x', '1 x', '5,5')),
          ('tectonicRegion', ('x', '', 'active shallow crust', 'Volcanic ')))
COMPULSORY = ('tectonicRegion', 'areaBoundary', 'gml:Polygon',
              'gml:LinearRing', 'ruptureRateModel',
              'truncatedGutenbergRichter', 'aValueCumulative', 'bValue',
              'minMagnitude', 'maxMagnitude', 'strike', 'dip', 'rake',
              'ruptureDepthDistribution', 'magnitude', 'depth',
              'hypocentralDepth')
ONCE = tuple(n for n in COMPULSORY if n != 'ruptureRateModel')


def element(text, name, which):
    """Position of an element: (start, end) of all, (start, end) of text."""
    found = list(re.finditer('<%s(?=[ >/])[^>]*>' % name, text))
    start = found[which]
    if start.group().endswith('/>'):
        return start.start(), start.end(), start.end(), start.end()
    close = text.index('</%s>' % name, start.end())
    return (start.start(), close + len(name) + 3, start.end(), close)


def expect_refusal(run, text, what):
    """The document must not be accepted."""
    got, error = load(run, text)
    run.check(error is not None, '%s: accepted, %d sources', what,
              len(got or ()))
    got, error = load(run, text, PLAIN)
    run.check(error is not None, '%s: accepted after another document, %d '
              'sources', what, len(got or ()))
    run.outcome(what)


def edits(run):
    """Every edit that takes the document out of NRML."""
    kind = run.pick('kind', ('out of range', 'missing', 'twice', 'renamed',
                             'another namespace', 'attribute', 'order',
                             'unknown'))
    text = PLAIN.decode('utf-8')
    which = run.pick('source', (0, 1))
    if kind == 'out of range':
        name, bad = run.pick('element', LIMITS)
        value = run.pick('value', bad)
        run.commit()
        _, _, a, b = element(text, name, which)
        text = text[:a] + value + text[b:]
        what = '%s is %r' % (name, value)
    elif kind in ('missing', 'twice', 'renamed', 'another namespace'):
        name = run.pick('element', ONCE if kind == 'twice' else COMPULSORY)
        run.commit()
        a, b, c, d = element(text, name, which)
        whole = text[a:b]
        if kind == 'missing':
            text = text[:a] + text[b:]
        elif kind == 'twice':
            text = text[:b] + whole + text[b:]
        elif kind == 'renamed':
            text = text[:a] + re.sub(
                '(</?)%s(?=[ >/])' % name, r'\1%sx' % name, whole) + text[b:]
        else:
            start = whole.index(' ' if ' ' in whole[:whole.index('>')]
                                else '/' if whole.endswith('/>') else '>')
            if name.startswith('gml:'):
                whole = whole.replace('<' + name, '<' + name[4:], 1)
                whole = whole[::-1].replace(
                    ('</%s>' % name)[::-1], ('</%s>' % name[4:])[::-1],
                    1)[::-1]
            else:
                whole = whole[:start] + ' xmlns="http://x/"' + whole[start:]
            text = text[:a] + whole + text[b:]
        what = '%s %s' % (name, kind)
    elif kind == 'attribute':
        old, new = run.pick('attribute', (
            (' type="ML"', ' type="Mx"'), (' type="Mw"', ' type="mw"'),
            (' type="ML"', ' type=""'), ('gml:id="src03"', ''),
            ('gml:id="src03"', 'gml:id="1x"'),
            ('gml:id="src03"', 'gml:id="a b"'),
            ('gml:id="sm1"', ''),
            (' gml:id="n1"', ''), ('nrml/0.3', 'nrml/0.2'),
            ('opengis.net/gml', 'opengis.net/gmx'),
            ('gml:id="src03"', 'gml:id="src03" depth="1"')))
        run.commit()
        assert old in text, old
        text = text.replace(old, new, 1)
        what = '%s instead of %s' % (new, old)
    elif kind == 'order':
        one, two = run.pick('elements', (
            ('strike', 'dip'), ('dip', 'rake'), ('aValueCumulative', 'bValue'),
            ('minMagnitude', 'maxMagnitude'), ('magnitude', 'depth'),
            ('tectonicRegion', 'areaBoundary'),
            ('areaBoundary', 'ruptureRateModel'),
            ('ruptureDepthDistribution', 'hypocentralDepth')))
        run.commit()
        a, b, _, _ = element(text, one, which)
        c, d, _, _ = element(text, two, which)
        text = text[:a] + text[c:d] + text[b:c] + text[a:b] + text[d:]
        what = '%s after %s' % (one, two)
    else:
        name = run.pick('element', COMPULSORY)
        run.commit()
        a, b, _, _ = element(text, name, which)
        text = text[:b] + '<unknown/>' + text[b:]
        what = 'unknown element after %s' % name
    run.note(edit=what, source=which)
    expect_refusal(run, text, what)


def big_documents(run):
    """One error in a document of many sources, or of long lists."""
    number = run.pick('sources', (2, 40, 400, 1300))
    points = run.pick('points', (4, 2000))
    where = run.pick('where', ('first', 'middle', 'last'))
    name, value = run.pick('error', (
        ('strike', '360.5'), ('depth', '1 x'), ('bValue', ''),
        ('tectonicRegion', 'nowhere'), ('hypocentralDepth', None),
        ('dip', None)))
    run.commit()
    if number * points > 100000:
        return
    run.note(sources=number, points=points, where=where, error=name)
    models = [dict((BASE, OTHER, THIRD)[k % 3], id='s%d' % k, pos=tuple(
        (-1) ** j * (j * 7 + k) % 90 / 7. for j in range(2 * points)))
              for k in range(number)]
    text = render(models)
    got, error = load(run, text)
    run.check(error is None and len(got) == number, 'without the error: %r',
              error)
    a, b, c, d = element(text, name, {'first': 0, 'middle': number // 2,
                                      'last': number - 1}[where])
    text = text[:a] + text[b:] if value is None else (
        text[:c] + value + text[d:])
    expect_refusal(run, text, '%s of the %s of %d sources' % (
        name, where, number))


def truncated(run):
    """The document cut at every byte."""
    size = len(PLAIN.rstrip())
    block = run.pick('block', range(0, size, 100))
    run.commit()
    run.note(block=block)
    step = 1 if run.thorough else 4
    for cut in range(block, min(block + 100, size), step):
        expect_refusal(run, PLAIN[:cut], 'cut after %d bytes' % cut)


def damaged(run):
    """A byte taken away, or doubled, in the markup of the document."""
    kind = run.pick('kind', ('<', '>', '/', '"', 'quote gone'))
    where = [k for k, c in enumerate(PLAIN)
             if chr(c) == (kind if len(kind) == 1 else '"')]
    part = run.pick('part', range(8))
    run.commit()
    run.note(kind=kind, part=part)
    for k in where[part::8]:
        gone = PLAIN[:k] + PLAIN[k + 1:]
        if kind == '/' and PLAIN[k - 1:k] != b'<':
            continue            # inside a value, or of an empty element
        expect_refusal(run, gone, '%s missing at %d' % (kind, k))


CHECKS = {
    'N01': {
        'scenarios': lambda tier: [
            ('values', values, 3 if tier == 'thorough' else 2),
            ('several', several, 0), ('large', large, 0),
            ('histories', histories, 0),
            ('documents', documents, 0), ('valid values', valid_values, 0)],
        'assumptions': ['sources that NRML can hold: known regions and '
                        'types, ranges of the angles, one rupture rate '
                        'model, boundaries without holes'],
        'bounds': {
            'quick': 'every combination of 2 of 17 parts at any of their 3 '
                     'to 10 values; every order of 1..4 sources; every '
                     'history of 2 writes, reads and foreign files; 1728 '
                     'layouts of a document; every part at every value; '
                     'models of up to 257 sources and boundaries of up to '
                     '1500 points',
            'thorough': 'every combination of 3 parts; histories of 3'}},
    'N02': {
        'scenarios': lambda tier: [('edits', edits, 0),
                                   ('big documents', big_documents, 0),
                                   ('truncated', truncated, 0),
                                   ('damaged', damaged, 0)],
        'assumptions': ['a document is refused when reading it to the end '
                        'raises', 'that identifiers are unique is not '
                        'checked by libxml2, and not asked for here'],
        'bounds': {
            'quick': 'every listed edit of each element, attribute and order '
                     'in each of two sources, read twice; documents of up to '
                     '1300 sources with one error; cut at every fourth byte; '
                     'every bracket, slash and quote missing',
            'thorough': 'cut at every byte'}},
}
