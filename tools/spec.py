"""Writes properties.jsonl and MANIFEST.json from one list.

python3 tools/spec.py   (after any change to the list below)
"""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCI = 'mtoolkit/scientific/'

TECHNIQUE = ('bounded exhaustive exploration of the real code (stateless '
             'search of the choice tree), every path judged by an '
             'independent reference model')
NOTE = ('Every path of the choice tree within the bounds is executed on the '
        'code translated from the working tree and compared with the '
        'reference model; nothing is sampled. Trusted: the explorer, the '
        'reference model, 2to3 and the interpreter. ')

PROPERTIES = []


def prop(ident, title, statement, over, text, why, files, mechanism,
         note='', technique=TECHNIQUE, level='model_checking'):
    PROPERTIES.append({
        'line': {
            'id': ident, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [
                {'name': name, 'where': where} for name, where in mechanism]}},
        'check': {
            'property': ident,
            'quick_cmd': './check %s --tier quick' % ident,
            'thorough_cmd': './check %s --tier thorough' % ident,
            'technique': technique, 'level': level,
            'level_note': NOTE + note}})


# -- value objects ------------------------------------------------------------
prop('E01', 'Sources, regions and default sources compare by their values',
     'Two area sources are equal exactly if all of their parts (identifiers, '
     'name, region, boundary, rates, angles, depths) are, and two tectonic '
     'regions if identifier, scaling relations, moduli and ratios are, with '
     'weights; inequality is the opposite. Results noted on a source do not '
     'count, and its text shows all of its parts. Every default source is a '
     'new one, so changing one changes no other.',
     ['inputs'], 'all pairs of sources and of regions',
     'The tests compare a few objects, nearly all of them equal ones; an '
     'equality that overlooks a part makes other tests pass.',
     ['mtoolkit/source_model.py', 'mtoolkit/geo/tectonic_region.py'],
     [('sources', 'mtoolkit/source_model.py:AreaSource'),
      ('default', 'mtoolkit/source_model.py:default_area_source'),
      ('regions', 'mtoolkit/geo/tectonic_region.py:TectonicRegion')])


# -- catalogues ------------------------------------------------------------
prop('C01', 'A catalogue is accepted exactly when all its records are valid',
     'Reading a catalogue yields one entry per non-blank line, in order, if '
     'every record has its compulsory fields (both identifiers and the depth '
     'above 0, year from -10000 to the current one, month 1 to 12, day 1 to '
     '31, in February 29, hour and minute, longitude, latitude, moment '
     'magnitude), convertible and in range. Otherwise reading stops at the '
     'first invalid record with an error that names a field that is invalid '
     'in it, its value and its line, and every entry before it has been '
     'delivered.',
     ['inputs'], 'all catalogues: any values in any field, any number and '
     'order of records, blank lines, short records',
     'The tests read three sample files and a handful of bad values; the '
     'rules depend on pairs of fields (day, month and year) and on the place '
     'of a record in the file.',
     ['mtoolkit/eqcatalog.py'],
     [('reader with a conversion and a check per field',
       'mtoolkit/eqcatalog.py:EqEntryReader')],
     'Boundary values of each field; 2 (quick) or 3 fields at a time.')
prop('C02', 'Values read from a catalogue are the values in the file',
     'Every field of an accepted record arrives in its entry with the value '
     'written in the file, as a whole number, decimal number or text by '
     'field. Optional values that are blank, not numbers or out of range '
     '(negative uncertainties, seconds outside of [0, 60)) become blank, but '
     'a missing or negative uncertainty of the moment magnitude 0. The error '
     'ellipse is kept only whole: both semi-axes, the minor one not above '
     'the major one, and a strike of 0 to 360; otherwise all three are '
     'blank.',
     ['inputs'], 'all accepted records, each field and combination of the '
     'error fields',
     'The tests compare a few whole entries; a field that swaps, rounds or '
     'defaults only for some combination of blanks goes unseen.',
     ['mtoolkit/eqcatalog.py'],
     [('conversion of fields', 'mtoolkit/eqcatalog.py:convert_values'),
      ('error ellipse',
       'mtoolkit/eqcatalog.py:check_epicentre_error_location'),
      ('uncertainty of Mw', 'mtoolkit/eqcatalog.py:check_sigma_mw')])
prop('C03', 'A malformed or damaged catalogue is never read as something else',
     'A file whose header does not name exactly the fields of the format in '
     'their order is refused as malformed before any entry is delivered; a '
     'record with more fields than the header is refused as well. A '
     'file cut or damaged at any byte either is refused, or yields '
     'entries that are what the remaining bytes say; entries of records '
     'before the damage are unaffected.',
     ['inputs', 'crash_points'], 'all headers one edit away from the right '
     'one; every cut and every single byte edit of a small file',
     'The tests use one malformed header; torn files appear nowhere.',
     ['mtoolkit/eqcatalog.py'],
     [('header check', 'mtoolkit/eqcatalog.py:validate_csv_catalog'),
      ('reader', 'mtoolkit/eqcatalog.py:read')])
prop('C04', 'Stored catalogues read back as the same entries',
     'Entries that were read, written to a file and read again are the same, '
     'in the same order and with the same values, for any selection of '
     'entries and any accepted value. Writing replaces whatever the file had '
     'before and does not change the entries.',
     ['inputs', 'histories'], 'all sequences of entries, all accepted values '
     'of fields (text with commas, quotes and non-ASCII characters '
     'included), all short histories of writes to files',
     'The tests compare one written file with one expected file.',
     ['mtoolkit/eqcatalog.py'],
     [('writer', 'mtoolkit/eqcatalog.py:EqEntryWriter'),
      ('reader', 'mtoolkit/eqcatalog.py:EqEntryReader')])

# -- declustering ----------------------------------------------------------
prop('D01', 'Declustering partitions the catalogue around its main shocks',
     'With either algorithm, every cluster has two members or more and '
     'exactly one main shock, which no member exceeds in magnitude; clusters '
     'are numbered from 1 on without gaps and unclustered events have number '
     '0. Members marked -1 (foreshocks) are before the main shock, those '
     'marked 1 (aftershocks) not before it, and all other events are marked '
     '0. The returned catalogue is exactly the rows with mark 0, unchanged '
     'and in their order, and the input is not modified.',
     ['inputs'], 'all catalogues, with ties in time and magnitude and '
     'duplicates, all windows and parameters',
     'The tests check four catalogues against recorded vectors; the '
     'structure must hold whatever the chain of events.',
     [SCI + 'declustering.py'],
     [('Gardner and Knopoff',
       SCI + 'declustering.py:gardner_knopoff_decluster'),
      ('Afteran', SCI + 'declustering.py:afteran_decluster')])
prop('D02', 'Gardner-Knopoff clusters follow the published windows',
     'Taking events from the largest magnitude down, each event that is not '
     'in a cluster yet gathers all free events of no larger magnitude that '
     'are within the distance window of its magnitude and later by at most '
     'the time window, or earlier by at most the given proportion of it. '
     'If there is any, they form a cluster with it as the main shock; the '
     'outcome is exactly the one of this rule.',
     ['inputs', 'configurations'], 'all catalogues without ties that decide '
     'the order, the three windows, all foreshock proportions',
     'Recorded outcomes of a few catalogues; the order in which chains of '
     'overlapping windows are resolved needs particular constellations.',
     [SCI + 'declustering.py', SCI + 'catalogue_utilities.py'],
     [('cluster search', SCI + 'declustering.py:gardner_knopoff_decluster'),
      ('selection in time', SCI + 'declustering.py:_find_aftershocks, '
       '_find_foreshocks')])
prop('D03', 'Afteran clusters follow the moving window',
     'Taking events from the largest magnitude down, each free event '
     'considers the free events of no larger magnitude within its distance '
     'window: its aftershocks are the next ones in time as long as each '
     'follows the previous one (first the main shock) by at most the moving '
     'time window, and its foreshocks are found alike backwards in time. If '
     'there is any, they form a cluster with it as the main shock; the '
     'outcome is exactly the one of this rule.',
     ['inputs', 'configurations'], 'all catalogues without ties that decide '
     'the order, the three distance windows, all lengths of the moving '
     'window',
     'Recorded outcomes of a few catalogues; gaps in chains, and chains '
     'joined through another cluster need particular constellations.',
     [SCI + 'declustering.py'],
     [('moving window', SCI + 'declustering.py:afteran_decluster')])
prop('D04', 'Declustering windows are the published functions of magnitude',
     'The time and distance windows of Gardner and Knopoff, Gruenthal and '
     'Uhrhammer have, for every magnitude and in any vector of magnitudes, '
     'the values of the published formulas (van Stiphout et al.), with '
     'Gardner and Knopoff and Gruenthal switching their time formula at '
     'magnitude 6.5. No distance window shrinks as the magnitude grows.',
     ['inputs'], 'all magnitudes between 0 and 10, alone and in vectors',
     'The tests evaluate a few magnitudes on one side of the switch.',
     [SCI + 'declustering.py'],
     [('window classes', SCI + 'declustering.py:GardnerKnopoffWindow, '
       'GruenthalWindow, UhrhammerWindow')])
prop('D05', 'Dates and distances are those of the calendar and the sphere',
     'The decimal year of a date grows with the date, by one day of 1/365 '
     'year inside a month and between months of a common year, and is the '
     'year plus the elapsed part of it. Julian days of consecutive dates '
     'differ by one and are right at the known epochs; the distance of two '
     'locations is the great circle distance, symmetric, zero only for the '
     'same place and defined everywhere, antipodes included.',
     ['inputs'], 'all Gregorian dates and all pairs of locations, in degrees '
     'or radians, scalars and vectors',
     'The tests use a handful of dates and one or two distances.',
     [SCI + 'catalogue_utilities.py'],
     [('decimal year', SCI + 'catalogue_utilities.py:decimal_year'),
      ('distance', SCI + 'catalogue_utilities.py:haversine'),
      ('Julian day', SCI + 'catalogue_utilities.py:greg2julian')])
prop('D06', 'Declustering does not depend on record order or far away events',
     'Reordering the records of a catalogue without ties leaves each event '
     'with the same mark and in the same cluster (up to the number of the '
     'cluster) with either algorithm. Adding an event outside of '
     'every window changes nothing for the others.',
     ['inputs'], 'all orders of catalogues whose events differ in time and '
     'magnitude',
     'The tests use each catalogue in one order.',
     [SCI + 'declustering.py'],
     [('ordering of events', SCI + 'declustering.py')])

# -- completeness ----------------------------------------------------------
prop('S01', 'The completeness table is the one of Stepp\'s rule',
     'The table has one row per magnitude bin with the year from which that '
     'bin is complete: the last year of the catalogue minus the time window '
     'at which the logarithmic slope of the standard deviation of the rate, '
     'against the Poisson slope, last changes by more than the tolerance; a '
     'bin without such a change takes the window of the bin below (the '
     'lowest one the first window). With the increment lock years never grow '
     'with magnitude, and the order of the records does not matter.',
     ['inputs', 'configurations'], 'all catalogues spanning at least one '
     'time window, all steps, tolerances and both lock settings',
     'One recorded table of one catalogue with one setting.',
     [SCI + 'completeness.py'],
     [('analysis', SCI + 'completeness.py:stepp_analysis')])
prop('S02', 'Events before the completeness years are the ones marked',
     'The selection marks an event as not selected exactly if it was already '
     'marked by declustering, or if some row of the completeness table has '
     'both a later year and a larger magnitude than the event. Removing a row '
     'or moving its year back never deselects an event; inputs are not '
     'modified.',
     ['inputs'], 'all tables, all catalogues and all marks',
     'One recorded vector for one catalogue.',
     [SCI + 'completeness.py'],
     [('selection', SCI + 'completeness.py:selected_eq_flag_vector')])

# -- recurrence ------------------------------------------------------------
prop('R01', 'Recurrence tables count every event of the catalogue once',
     'The table of magnitudes has contiguous bins of the given width that '
     'cover all magnitudes, and the counts of events sum to the size of the '
     'catalogue. Cumulative counts are the sums from each bin up, and rates '
     'are counts over the duration of the catalogue.',
     ['inputs'], 'all catalogues and bin widths',
     'The tests look at one table of one catalogue.',
     [SCI + 'recurrence.py'],
     [('table', SCI + 'recurrence.py:recurrence_table')])
prop('R02', 'Maximum likelihood b values combine the completeness periods',
     'The maximum likelihood recurrence gives for each period of equal '
     'completeness the estimate of Aki and Bender with its uncertainty '
     'from the events of that period at or above its completeness '
     'magnitude, averages the periods with weights of their '
     'numbers of events, and the a value is the rate at the '
     'reference magnitude. Records in another order give the same values.',
     ['inputs', 'configurations', 'histories'],
     'all catalogues and completeness tables, bin widths and reference '
     'magnitudes; all sequences of calls',
     'One catalogue with recorded values.',
     [SCI + 'recurrence.py'],
     [('estimate', SCI + 'recurrence.py:b_max_likelihood'),
      ('periods', SCI + 'recurrence.py:b_maxlike_time')])
prop('R03', 'Weichert counts each complete event once, with its bin\'s period',
     'The counts handed to the estimation have each event that is inside the '
     'completeness period of its magnitude exactly once, in the bin of its '
     'magnitude, and none of the others. The period of a bin is the number '
     'of years from the completeness year of the last row of the table with '
     "a magnitude not above the bin's lower edge (without one, of the last "
     'row) to the last year of the catalogue, both included.',
     ['inputs'], 'all catalogues and completeness tables',
     'One catalogue with recorded values.',
     [SCI + 'recurrence.py'],
     [('preparation', SCI + 'recurrence.py:weichert_prep')])
prop('R04', 'Weichert estimates solve the likelihood equation, or refuse',
     'The b value returned solves Weichert\'s likelihood equation for the '
     'counts and periods, with the uncertainties and the '
     'rate of that solution, and scales as it should: more years '
     'of the same rates change nothing but uncertainties. Data that do not '
     'define the parameters are refused with an error instead of a number.',
     ['inputs'], 'all vectors of counts and periods',
     'One catalogue with recorded values; nothing without a solution.',
     [SCI + 'recurrence.py'],
     [('estimation', SCI + 'recurrence.py:weichert'),
      ('analysis', SCI + 'recurrence.py:recurrence_analysis')],
     'Where Newton iterations from the start value diverge a refusal is '
     'accepted too.')

# -- maximum magnitude -----------------------------------------------------
prop('M01', 'Kijko\'s maximum magnitude solves its fixed point equation',
     'The non-parametric estimate is, within the iteration tolerance or '
     'after the given number of iterations, the fixed point of observed '
     'maximum plus the integral of the smoothed distribution of the '
     'largest events, with the uncertainty that follows. It is never below '
     'the observed maximum and does not depend on the order of records.',
     ['inputs', 'configurations'], 'all catalogues, numbers of largest '
     'events, tolerances and numbers of iterations',
     'A few recorded values for one catalogue.',
     [SCI + 'maximum_magnitude.py'],
     [('estimate', SCI + 'maximum_magnitude.py:kijko_nonparametric_gauss')])
prop('M02', 'Cumulative moment bounds follow from the catalogue',
     'The cumulative moment estimate is the magnitude of the sum of the '
     'largest deviations above and below the line of the average release of '
     'the moment accumulated year by year, for any order of events within a '
     'year. Its bootstrap draws one normal perturbation per event and sample '
     'and returns the mean and the sample standard deviation (n - 1) of the '
     'estimates; without uncertainties all samples are the plain estimate.',
     ['inputs', 'schedules'], 'all catalogues, vectors of uncertainty, '
     'seeds and numbers of samples',
     'One catalogue with recorded values.',
     [SCI + 'maximum_magnitude.py'],
     [('estimate', SCI + 'maximum_magnitude.py:cumulative_moment'),
      ('bootstrap', SCI + 'maximum_magnitude.py:cum_mo_uncertainty')])
prop('M03', 'The building blocks of the smoothed distribution are right',
     "The bandwidth is the one of Silverman's rule rounded to two decimals, "
     'the normal distribution is between 0 and 1, grows with its argument '
     "and is within the accuracy of Hastings' approximation, and the "
     'integration points start and end at the limits, strictly increase and '
     'have equally spaced exponentials. The integral is the trapezoid sum '
     'over them of the power of the normalised mean of the distributions of '
     'the events.',
     ['inputs'], 'all samples, arguments and numbers of points',
     'Single recorded values.',
     [SCI + 'maximum_magnitude.py'],
     [('bandwidth', SCI + 'maximum_magnitude.py:h_smooth'),
      ('distribution', SCI + 'maximum_magnitude.py:gauss_cdf_hastings'),
      ('integrand', SCI + 'maximum_magnitude.py:kijko_npg_intfunc_simps'),
      ('points', SCI + 'maximum_magnitude.py:exp_spaced_points')])

# -- faults ----------------------------------------------------------------
prop('F01', 'Rates of a fault release its slip, in contiguous bins',
     'The rates of a fault are those of Anderson and Luco\'s first '
     'distribution for its seismic slip, region, width and b value, bin by '
     'bin from the smallest magnitude to the last bin centred below the '
     'largest one. Without a largest magnitude the scaling relation gives it '
     'from the area of the fault and the rake; a slip that is not positive or '
     'an aseismic share outside of [0, 1) is refused.',
     ['inputs', 'histories'], 'all faults, regions, slips, bins, rakes and '
     'moment scalings, all sequences of calls',
     'One fault with recorded rates.',
     [SCI + 'fault_calculator.py'],
     [('rates', SCI + 'fault_calculator.py:get_mfd')])
prop('G01', 'Fault geometry is consistent and invalid geometry is refused',
     'A fault is accepted exactly if it has two points or more, all on the '
     'globe, a top above its bottom that is not above the surface, and a '
     'dip above 0 and up to 90 degrees. The length is the '
     'great circle length of the trace (also across the date line, and for '
     'the reversed trace), the width follows from depths and dip, and the '
     'area is their product.',
     ['inputs'], 'all traces, depths and dips',
     'Three traces and the single invalid values.',
     ['mtoolkit/geo/simple_fault.py'],
     [('validation and measures',
       'mtoolkit/geo/simple_fault.py:SimpleFaultGeo')])
prop('G02', 'Tectonic regions have weights that sum to one for every value',
     'A region is accepted exactly if each of its parameters has one weight '
     'per value, weights sum to one but for rounding, and scaling '
     'relations, shear moduli and displacement ratios are '
     'valid. By name, the region has its documented defaults for every '
     'parameter not given and the given ones for the others, for '
     'each instance anew.',
     ['inputs', 'configurations'], 'all lists of values and weights, all '
     'names and subsets of given parameters',
     'Single invalid lists; no combinations.',
     ['mtoolkit/geo/tectonic_region.py'],
     [('validation', 'mtoolkit/geo/tectonic_region.py:TectonicRegion'),
      ('defaults', 'mtoolkit/geo/tectonic_region.py:TectonicRegionBuilder')])
prop('P01', 'A zone gets exactly the events inside its boundary',
     'For each source, in the order of the model, the events handed to the '
     'calculations are exactly the rows whose epicentre is strictly inside '
     'the boundary, unchanged and in catalogue order; without a source model '
     'all of them. A boundary that does not bound an area is refused, and '
     'the catalogue is not modified.',
     ['inputs'], 'all polygons (also concave, in both directions, open or '
     'closed) and all locations, vertices and edges included',
     'Two polygons with a few events.',
     ['mtoolkit/catalog_filter.py'],
     [('filter', 'mtoolkit/catalog_filter.py:SourceModelCatalogFilter'),
      ('driver', 'mtoolkit/catalog_filter.py:CatalogFilter')])

# -- NRML ------------------------------------------------------------------
prop('N01', 'Area sources survive the round trip through NRML',
     'A model of valid area sources is written as a document that validates '
     'against the NRML schema and has all of their values, and reading it '
     'gives the same sources in the same order, with every value. Any valid '
     'document is read alike, whatever its layout, comments, prefixes, order '
     'of optional parts and sources of other kinds in it.',
     ['inputs', 'histories'], 'all area sources and models, all layouts of '
     'a document, histories of writing and reading',
     'Two documents and two sources.',
     ['nrml/writer.py', 'nrml/reader.py', 'mtoolkit/source_model.py'],
     [('writer', 'nrml/writer.py:AreaSourceWriter'),
      ('reader', 'nrml/reader.py:NRMLReader')])
prop('N02', 'Documents that are not valid NRML are refused',
     'A source model that is not well formed, is cut anywhere, or violates '
     'the NRML schema in any element, attribute, value or order raises an '
     'error when it is read, rather than giving sources.',
     ['inputs', 'crash_points'], 'every edit of each element and attribute '
     'of a document, every cut and every byte of markup damaged',
     'One incorrect document.',
     ['nrml/reader.py'],
     [('validating parser', 'nrml/reader.py:NRMLReader.read')])

# -- composition -----------------------------------------------------------
prop('K01', 'A result depends on the arguments of its call only',
     'Every function of the toolkit (reading, declustering, completeness, '
     'recurrence, maximum magnitude, faults, filters, NRML) returns what the '
     'same call returns as the first one of a fresh process, whatever has '
     'been called before. No call changes its arguments, a result handed '
     'out earlier, or settings of the process, and changing a result in '
     'place changes no later result.',
     ['histories'], 'all histories of calls on shared arguments',
     'Each test calls one function once on data of its own; caches, shared '
     'defaults and results that alias arguments need a second call.',
     [SCI, 'mtoolkit/geo/', 'mtoolkit/eqcatalog.py', 'nrml/'],
     [('pure functions over arrays', SCI),
      ('shared defaults', 'mtoolkit/geo/tectonic_region.py:DEFAULT_MSR'),
      ('default source', 'mtoolkit/source_model.py:default_area_source')])
prop('W01', 'Exactly the configured jobs run, in their order, on their data',
     'A workflow reads the catalogue and the configured source model, or '
     'takes the default source without one, runs the preprocessing jobs in '
     'the order of the configuration, then the processing jobs for each '
     'source in order, each with the data left by the jobs before it and its '
     'own settings; before any job the catalogue counts as complete from its '
     'earliest year and smallest magnitude. Results are stored only if '
     'preprocessing jobs ran and a '
     'file is configured, and a stored completeness table is used only '
     'without preprocessing jobs. An unknown job is refused before anything '
     'runs, and neither the configuration nor the input files change.',
     ['configurations'], 'all configurations: lists of jobs, files given or '
     'not, processing on or off',
     'The tests build a few pipelines and compare lists of functions; what '
     'the jobs exchange is not tested.',
     ['mtoolkit/workflow.py', 'mtoolkit/jobs.py'],
     [('pipelines', 'mtoolkit/workflow.py:PreprocessingBuilder, '
       'ProcessingBuilder'),
      ('workflow', 'mtoolkit/workflow.py:Workflow.start'),
      ('jobs', 'mtoolkit/jobs.py')])
prop('W02', 'Each source gets its own results and keeps what was not computed',
     'After the processing jobs a source has the a and b values and the '
     'reference magnitude as its minimum if its recurrence was computed, the '
     'maximum magnitude if that was, with their uncertainties, and every '
     'other parameter as in the model. Where a calculation is not possible '
     '(no events, an error, no number) the parameters stay as they were and '
     'a warning names the source; other sources are not affected.',
     ['inputs', 'histories'], 'all outcomes of each calculation in each '
     'source, all orders of jobs',
     'The tests run each job once on one source, always with success.',
     ['mtoolkit/jobs.py'],
     [('update of sources', 'mtoolkit/jobs.py:recurrence, maximum_magnitude')])
prop('W03', 'A zone\'s results depend only on the events inside it',
     'The parameters computed for a zone are those of the calculations on '
     'the events inside of it, the completeness table and the settings, '
     'whatever other zones the model has, in whatever order, overlapping '
     'or without events. A zone whose events define no parameters keeps '
     'its own.',
     ['inputs', 'histories'], 'all models, all catalogues, both recurrence '
     'and both maximum magnitude algorithms',
     'The tests run a single zone.',
     ['mtoolkit/jobs.py', 'mtoolkit/workflow.py',
      'mtoolkit/catalog_filter.py'],
     [('loop over sources', 'mtoolkit/workflow.py:Workflow.start'),
      ('jobs', 'mtoolkit/jobs.py:recurrence, maximum_magnitude')])
prop('W04', 'The stored catalogue is the declustered, complete part',
     'The catalogue stored after preprocessing has exactly the entries that '
     'neither declustering removed nor the completeness table excludes, '
     'with all of their original fields, in the original order. Without a '
     'declustering or completeness job the respective step removes '
     'nothing.',
     ['inputs', 'configurations'], 'all catalogues, all lists of '
     'preprocessing jobs, all settings',
     'One stored file for one catalogue.',
     ['mtoolkit/jobs.py', SCI + 'completeness.py'],
     [('selection', 'mtoolkit/jobs.py:create_selected_eq_vector'),
      ('storing', 'mtoolkit/jobs.py:store_preprocessed_catalog')])
prop('W05', 'A stored completeness table is read back as it was',
     'A table that was stored is retrieved with the same rows in the same '
     'order, to five decimals, also with one row only. Tables written by '
     'hand with other spacing or number formats are read with their '
     'values.',
     ['inputs', 'histories'], 'all tables, all short histories of storing '
     'and retrieving',
     'One table with several rows.',
     ['mtoolkit/jobs.py'],
     [('storing', 'mtoolkit/jobs.py:store_completeness_table'),
      ('retrieving', 'mtoolkit/jobs.py:retrieve_completeness_table')])
prop('W06', 'A run of the program leaves exactly its configured results',
     'Running the program with a configuration file writes exactly the '
     'configured files, with the catalogue, table and valid source model of '
     'that configuration, replaces what they had before, and changes none of '
     'its inputs; detailed output adds only a log file. A run that '
     'cannot be done (unreadable input, invalid records, unknown job) ends '
     'with an error and leaves no result.',
     ['configurations', 'fault_sequences'], 'all configurations and options '
     'of the command line, each input missing or invalid',
     'The tests do not run the program.',
     ['main.py', 'mtoolkit/console.py', 'mtoolkit/workflow.py'],
     [('program', 'main.py'), ('command line', 'mtoolkit/console.py')])
prop('W07', 'Processing a stored preprocessing gives the run at once',
     'A run that declusters and processes at once gives the same source '
     'parameters as a run that stores the declustered catalogue and its '
     'completeness table, followed by one that processes what was stored. '
     'With a completeness analysis under the increment lock, this holds for '
     'the maximum likelihood recurrence, which looks at complete events '
     'only.',
     ['histories', 'inputs'], 'all catalogues, declustering and completeness '
     'settings and processing jobs',
     'No test feeds a stored result back.',
     ['mtoolkit/jobs.py', 'mtoolkit/workflow.py'],
     [('storing and retrieving', 'mtoolkit/jobs.py')])


prop('J01', 'Pipelines run their jobs once each, in order, until one fails',
     'A pipeline runs the jobs it was made of and those added since, once '
     'each, in order, with the context it was given, and a job that fails '
     'ends the run with its error. A workflow runs the preprocessing '
     'pipeline once and then, if processing is on, the processing pipeline '
     'once for each source with the events of that source. Pipelines are '
     'equal exactly if they have the same jobs in the same order, and '
     'building or extending one changes no other.',
     ['histories', 'fault_sequences'], 'all histories of making, extending, '
     'comparing and running pipelines, each step failing',
     'The tests run one pipeline of two jobs, which succeed.',
     ['mtoolkit/workflow.py'],
     [('pipeline', 'mtoolkit/workflow.py:PipeLine'),
      ('builders', 'mtoolkit/workflow.py:PipeLineBuilder'),
      ('workflow', 'mtoolkit/workflow.py:Workflow.start')])
prop('V01', 'The log of a run reports the figures of that run',
     'Each job is announced when it runs, and the detailed log has the '
     'numbers of events and sources read, of events left and removed and of '
     'clusters after declustering, of events analysed for completeness, '
     'stored and dropped, of events inside each zone, and the parameters '
     'computed for it, all as they are. They are on the console and in the '
     'log file with the detailed option, and without it there are no '
     'figures.',
     ['inputs', 'configurations'], 'all catalogues (also with all events or '
     'none in clusters), lists of jobs, zones and options',
     'No test looks at a log message.',
     ['mtoolkit/jobs.py', 'mtoolkit/catalog_filter.py',
      'mtoolkit/console.py'],
     [('messages', 'mtoolkit/jobs.py'),
      ('zones', 'mtoolkit/catalog_filter.py:SourceModelCatalogFilter'),
      ('handlers', 'mtoolkit/console.py:build_logger')])


# -- storage ---------------------------------------------------------------
prop('L01', 'A result that could not be stored completely is reported',
     'When a catalogue, completeness table or source model is stored, either '
     'the file has all of it, or an error is raised: a write that '
     'fails at any byte, because the device is full, a file may not '
     'grow or a folder is missing, never ends as a success.',
     ['fault_sequences', 'crash_points'], 'every number of bytes the disk '
     'takes and every write call that fails, with and without an earlier '
     'file',
     'No test injects a fault.',
     ['mtoolkit/eqcatalog.py', 'mtoolkit/jobs.py', 'nrml/writer.py'],
     [('catalogue writer', 'mtoolkit/eqcatalog.py:EqEntryWriter.write_rows'),
      ('table', 'mtoolkit/jobs.py:store_completeness_table'),
      ('source model', 'nrml/writer.py:AreaSourceWriter.serialize')],
     technique='exhaustive fault injection: every crash point and write '
     'fault within bounds on the real code, compared with the complete file')


def main():
    """Write both files."""
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as out:
        for item in PROPERTIES:
            out.write(json.dumps(item['line'], sort_keys=False) + '\n')
    manifest = {
        'version': 1, 'setup_cmd': 'true',
        'checks': [item['check'] for item in PROPERTIES],
        'not_applicable': [],
        'notes': 'No hooks: the checks drive the public functions of the '
                 'code translated from the working tree of /repo (see '
                 'DESIGN.md).'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as out:
        json.dump(manifest, out, indent=1)
        out.write('\n')
    for item in PROPERTIES:
        line = item['line']
        assert len(line['title']) <= 80, (line['id'], len(line['title']))
        assert line['statement'].count('. ') <= 2, line['id']


if __name__ == '__main__':
    main()
