"""Regenerates /verif/properties.jsonl (committed) from this table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
DS='timeseria/datastructures.py'; OPS='timeseria/operations.py'; TR='timeseria/transformations.py'
UT='timeseria/utilities.py'; UN='timeseria/units.py'; IT='timeseria/interpolators.py'; ST='timeseria/storages.py'
MB='timeseria/models/base.py'; MR='timeseria/models/reconstructors.py'; MF='timeseria/models/forecasters.py'; MA='timeseria/models/anomaly_detectors.py'

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

prop('C01', 'A series always stays ordered (points) or in succession (slots)',
 'After any history of appends, insertions, removals, pops and clears, accepted or refused, the items of a series are of one type with consistent data labels, strictly increasing in time if they are points, and contiguous and of one unit if they are slots. An operation that would break this is refused with an exception and leaves the items unchanged; one that would not break it (for instance appending a later point, also right after a removal) is accepted.',
 ['histories', 'inputs'], 'every sequence of series-editing calls with arbitrary timestamps, slot boundaries and positions',
 'Tests append/insert two or three fixed timestamps in one order; the guarantee is over every history and every relative order of the timestamps involved, including an insertion between two neighbours.',
 [DS], [('Series.append/insert/remove/pop/clear', DS), ('TimeSeries.append', DS), ('__succedes__ / __gt__', DS)],
 [('prev_t', 'timestamp the next appended point is compared with', DS)], ['items of the series after each call', 'exceptions raised'])
prop('C02', 'The reported resolution always reflects the actual spacing of the items',
 'The resolution of a point series is undefined for fewer than two points, equals the common spacing when all consecutive points are equally spaced, and is "variable" otherwise; that of a slot series is its slot unit. This stays true after any history of edits and after slicing, duplicating or filtering the series, or viewing two or more of its items.',
 ['histories', 'inputs'], 'every spacing of the points and every history of edits of the series',
 'Tests check the resolution of freshly built series with hard-coded spacings, never after an arbitrary edit history or for arbitrary spacings.',
 [DS, UT], [('TimeSeries.append resolution tracking', DS), ('resolution property', DS), ('_to_time_unit_string', UT)],
 [('_resolution', 'cached resolution', DS)], ['TimeSeries.resolution'])
prop('C03', 'Item access and slicing return exactly the requested items',
 'Getting by position, epoch or datetime returns the one item stored there and otherwise raises; slicing by position or by time returns exactly the items within [from, to) (for slots: starting at or after from and ending at or before to), in order, with unchanged timestamps, data and indexes. Selecting by value returns exactly the items carrying that value, filtering keeps every item with exactly the chosen labels, the head and the tail are the first and the last n items, and none of them changes the source series.',
 ['inputs'], 'every series content and every position, time or value asked for, in range or not, positive or negative',
 'Tests use a handful of indices on fixed series; off-by-one and boundary errors depend on the relation between the requested bound and every timestamp.',
 [DS, OPS], [('Get/Slice/Filter/Select', OPS), ('__getitem__', DS)], (), ['returned items'])
prop('C04', 'A series view is indistinguishable from the slice it denotes',
 'A view of a series from one position to another has the length, items (by position, negative position, iteration also nested or in reverse, membership and sub-slicing), labels and operation results (min, max, avg, sum, derivative and so on) of the materialised slice of the same bounds. Positions outside the view are refused even if the underlying series has items there, views are equal when the slices are, and reading a view never changes the underlying series.',
 ['inputs'], 'every series content, view bounds and positions',
 'Tests check one view on one series with in-range positions only.',
 [DS], [('TimeSeriesView', DS)], (), ['view items', 'operation results'])
prop('C05', 'Scalar operations return the exact min, max, sum and average',
 'For every data label, the minimum and maximum are attained by some item and bound all the items, the sum is the total, and the average is the (weighted, when the items are weighted) mean lying between the two. Asking for a single label gives the same number as asking for all, and the results do not depend on timestamps, gaps or other labels.',
 ['inputs'], 'every data content (any sign, magnitude, duplicates), label set and series length',
 'Tests use a few positive increasing values; wrong initialisation, label mix-ups or early exits show only for particular orders and signs.',
 [OPS], [('Min/Max/Avg/Sum', OPS)], (), ['returned scalars'])
prop('C06', 'Element-wise operations compute the exact value for every item and label',
 'Rescaling, offsetting, normalising and moving-averaging compute for every item and label exactly value*factor, value+offset, the linear map sending the source range onto the target range, and the mean of the window, at the right timestamps and on the time zone of the source, whether in-place or not. The out-of-place form leaves the source untouched and gives the same numbers as the in-place form.',
 ['inputs'], 'every data content, label set, factor/offset (scalar or per label), range, and window',
 'Tests check one or two concrete numbers per operation, mostly with one label and positive values.',
 [OPS], [('Rescale/Offset/Normalize/MAvg', OPS)], (), ['result items', 'source items'])
prop('C07', 'Differences, sums, derivatives and integrals satisfy their calculus relations',
 'Differences are the increments between neighbours and cumulative sums the running totals, so summing the differences from the first value gives back the series; derivative and integral are the same relations per unit of time, exact for affine signals at any spacing. Constants and offsets passed are honoured, timestamps and time zones are kept, and the in-place form gives the same numbers as the out-of-place one.',
 ['inputs'], 'every data content, regular or irregular spacing, constant and offset',
 'Tests use fixed arithmetic sequences with 1-second or 1-hour spacing where several wrong formulas coincide.',
 [OPS], [('Derivative/Integral/Diff/CSum', OPS)], (), ['result items'])
prop('C08', 'Merging keeps exactly the common time span and the right values',
 'Merging series of the same resolution gives one item per timestamp at which all of them have an item, carrying all labels, where a label present in more than one series gets the mean of its values, and likewise for data indexes. Series with a different or variable resolution are refused, the result does not depend on the order of the arguments, and the sources are left untouched.',
 ['inputs'], 'every pair or triple of series, offsets between their starts, lengths, labels, indexes',
 'Tests merge a few fixed overlaps; index-offset mistakes depend on the relative alignment of all the series.',
 [OPS], [('Merge', OPS)], (), ['merged items'])
prop('C09', 'Aggregation gives contiguous aligned slots with correct statistics',
 'Aggregating a point series by a unit gives contiguous slots aligned to the unit (also across calendar and DST changes) within the span of the data, exactly one for every whole unit covered. Each slot holding observations carries for each operation the statistic of the observations within it (sums, minima and maxima including one interpolated filler for each gap in it, the average being weighted by the time each observation, or filler of a gap, is valid for within the slot), and averages, minima and maxima never leave the range of the observations contributing. Slots whose data is entirely missing are filled in the requested way and carry a full data loss. Asked to start or to end at some point (on a slot boundary of the timezone of the series, or refused), the slots are the same from there on or up to there. Operations defined by the user are given the observations within the slot and the fillers, all on the timezone of the series.',
 ['inputs'], 'every placement of points, gaps and values relative to slot boundaries, and units',
 'Tests use regular synthetic signals and check a few slots; slot assignment errors depend on points exactly at, just before or after boundaries and on gaps spanning them.',
 [TR, UT], [('Transformation.process', TR), ('_compute_new', TR), ('Aggregator', TR)], (), ['slots of the aggregated series'])
prop('C10', 'Resampling gives a uniform grid and never invents values',
 'Resampling to a unit gives a point at every multiple of the unit whose interval lies within the span of the data, strictly uniform, with the requested resolution. Each value is a convex combination of neighbouring observations, so it stays within their range, constants stay constant, and an affine signal sampled regularly, at an interval dividing the unit, is reproduced. Asked to start or to end at some point, the points are the same from there on or up to there.',
 ['inputs'], 'every placement of points, gaps and values, and resampling units',
 'Tests check specific resampled values of regular signals; boundedness and grid uniformity must hold for every placement and value.',
 [TR, IT], [('Transformation.process', TR), ('_compute_new', TR), ('Resampler', TR)], (), ['points of the resampled series'])
prop('C11', 'The data loss index is exactly the fraction of missing coverage',
 'The data loss of a produced item is the fraction of its interval not covered by the validity of any observation: always between 0 and 1, 0 when fully covered, 1 when nothing falls in, and equal to one minus the covered time over the interval. Items of regularly sampled gap-free data get no loss, losing more observations never lowers it, and the data loss already carried by regularly sampled observations adds up in proportion to the time they are valid for.',
 ['inputs'], 'every placement of observations and gaps, sampling interval and interval boundaries',
 'Tests check a few fixed gap patterns with values rounded in advance.',
 [UT, TR], [('_compute_data_loss', UT), ('_compute_coverage', UT), ('_compute_validity_regions', UT)], (), ['data_loss index'])
prop('C12', 'Transformations leave their source untouched and keep its timezone',
 'Aggregating or resampling a series never changes the timestamps, data, indexes or number of items of the source, so doing it again gives the same result. The result is on the timezone of the source and carries its labels, and data indexes of the source are averaged into the result.',
 ['inputs', 'histories'], 'every series content and repeated transformation',
 'Tests look only at the produced series and run each transformation once.',
 [TR], [('Transformation.process', TR), ('_compute_new', TR)], (), ['source series after', 'result of repeated calls'])
prop('C13', 'Interpolators stay on the line between neighbours and refuse to extrapolate',
 'Between two neighbouring items the linear interpolator returns exactly the point of the straight line through them and the uniform one their mid value, for every label, with the neighbours given or looked up. A time outside the given neighbours, or outside the series, is refused instead of extrapolated.',
 ['inputs'], 'every series content and evaluation time',
 'Tests evaluate one or two instants with given neighbours.',
 [IT], [('LinearInterpolator', IT), ('UniformInterpolator', IT)], (), ['evaluate()'])
prop('C14', 'Time unit arithmetic is exact on physical and calendar time',
 'Adding a physical unit moves a point by exactly that many seconds; adding a calendar unit lands on the same local wall-clock time of the next day, week, month or year, also across DST changes, so consecutive slots share their boundary, and adding then subtracting a unit gives the start back where that is defined. Flooring gives the largest unit start not after the instant, ceiling the next, and the length of a slot equals the sum of its parts.',
 ['inputs'], 'every instant within the window considered, timezone regime and unit',
 'Tests use chosen instants around one DST change; every instant of every local time regime matters.',
 [UN, DS], [('TimeUnit.__radd__/__rsub__', UN), ('TimeUnit.shift/floor/ceil/round', UN), ('TimeSlot.__init__', DS)], (), ['slot end', 'unit results'])
prop('C15', 'Saving and loading a series gives back the same series',
 'Storing a time series as CSV and loading it back gives the same number of items with the same timestamps, labels, values, data indexes (a missing index and an index set to none being the same), item type, resolution and timezone. What a CSV cannot carry is refused, an existing file is not overwritten unless asked, and a row that cannot be parsed is reported rather than silently shifting or corrupting others. Files written by others give one item per row, at its time (in the formats and columns asked for) with the values of the other columns, with a header or without.',
 ['inputs', 'configurations'], 'every series content: points or slots, any label and index, any value and (sub-second) timestamp',
 'Tests store and reload one or two fixed series.',
 [ST, DS], [('CSVFileStorage.put/get', ST), ('TimeSeries.save/load', DS)], (), ['loaded series'])
prop('C16', 'Dictionary and JSON conversions are faithful',
 'Converting a time series to a dictionary or JSON and back gives the same timestamps and data for every item, whichever timezone it is on. Building from a dictionary accepts exactly the keys in increasing time order, and each item gets the data of its own key.',
 ['inputs'], 'every series content and key form (epoch int or float, string, datetime)',
 'Tests convert one fixed dictionary.',
 [DS], [('TimeSeries.from_dict/to_dict/from_json/to_json', DS)], (), ['converted series'])
prop('C17', 'Reconstruction alters only missing items, and flags exactly those',
 'Applying a reconstructor changes only items marked as fully missing, leaves timestamps, number of items and all other values untouched, and marks as reconstructed exactly the items whose value it produced. Linear reconstruction of a gap puts every value on the straight line between the surrounding observed items; periodic-average reconstruction of a periodic signal reproduces it. A gap with no observed item on one of its sides is refused.',
 ['inputs'], 'every position, length and number of gaps, values and data losses',
 'Tests cover one gap layout; gap-run bookkeeping errors show for adjacent, leading, trailing or multiple gaps.',
 [MR, MB], [('LinearInterpolationReconstructor', MR), ('PeriodicAverageReconstructor', MR), ('Reconstructor.apply', MR)], (), ['reconstructed series'])
prop('C18', 'Forecasts continue the series without touching the past',
 'Applying a forecaster appends exactly the requested number of items, contiguous with and at the resolution of the series, with the same labels and flagged as forecast; existing items, and the input series itself when not in-place, keep their timestamps, values and number. A forecast of a periodic signal by the periodic-average forecaster continues the signal from wherever the context ends.',
 ['inputs', 'histories'], 'every series content, number of steps, and phase at which the series ends',
 'Tests forecast from one fixed signal end and compare one error metric.',
 [MF, MB], [('Forecaster.apply/predict', MF), ('PeriodicAverageForecaster', MF)], (), ['forecasted series'])
prop('C19', 'Models refuse to be used in invalid states or on incompatible data',
 'A model that needs fitting refuses to predict, apply, evaluate or be saved before it is fitted, and a fitted model refuses series whose data labels or resolution differ from those it was fitted on. Refusals are exceptions, leave the series and the model unchanged, and compatible series are never refused.',
 ['histories', 'inputs'], 'every order of fit/predict/apply/evaluate/save calls and every label set and resolution',
 'Tests check a couple of misuse calls; the guarantee is over all call orders and all mismatches.',
 [MB, MF, MR, MA], [('Model.fit/predict/apply/evaluate/save wrappers', MB), ('_check_*', UT)], (), ['exceptions'])
prop('C20', 'A saved and reloaded model predicts exactly like the original',
 'Saving a fitted model and loading it back gives a model with the same parameters and the same predictions on every series. Saving does not change the model, and refuses an already existing path.',
 ['inputs'], 'every fitted content and every series predicted on',
 'Tests reload one model and check one error figure.',
 [MB, MF, MR, MA], [('Model.save/load', MB)], (), ['predictions of the loaded model'])
prop('C21', 'The anomaly index is a bounded monotone measure of the error',
 'The anomaly index of a label is always between 0 and 1 and depends on its prediction error alone: 0 for errors no larger in size than the lower bound, 1 at or above the upper one, and never decreasing with the size of the error in between, for any unimodal distribution of the errors. The index of an item combines those of its labels with the requested strategy, and with a threshold it is one from it on and zero below. Items that are missing or cannot be predicted are never turned into anomalies, and the input series is not modified.',
 ['inputs'], 'every error value, set of bounds, label combination strategy and model error distribution',
 'Tests check a few indices on one dataset.',
 [MA], [('AnomalyDetector index computation', MA)], (), ['anomaly index'])
prop('C22', 'Marked anomaly events are exactly the persistent runs of anomalies',
 'Marking events flags exactly the items of the maximal runs of items at or above the requested anomaly index that span at least the requested persistence, where runs separated by no more than the allowed gap count as one, and all the others as not in an event. Runs that begin at the first item or reach the last one are treated like any other, items without an anomaly index are not anomalous, and everything else in the series is left as it was.',
 ['inputs'], 'every sequence of anomaly indexes, thresholds and persistence',
 'Tests mark events on one series with one event in the middle.',
 [MA], [('AnomalyDetector.mark_events', MA)], (), ['list of events'])
prop('C23', 'Error metrics and evaluations compute what their name says',
 'Each error metric returns the mean, or maximum, of the absolute, squared, or percentage errors of the paired values, is zero exactly when the lists are equal, never negative, and refuses lists of different length. A model evaluation pairs each prediction with the observation at the same time and label, and averaged figures are the means of the per-label or per-round ones.',
 ['inputs'], 'every pair of lists and every evaluated series',
 'Tests check single concrete pairs.',
 [UT, MB, MF], [('mean_*/max_* error functions', UT), ('evaluate', MF)], (), ['returned metrics'])
prop('C24', 'The periodicity index advances by one per item and wraps',
 'The index of an item within the period is an integer in [0, periodicity), equal for items one full period apart and advancing by exactly one (modulo the period) between consecutive items, for points and slots and, with DST affecting the data, according to local time (which jumps at the changes). It depends only on the item time, the resolution, the periodicity and the timezone.',
 ['inputs'], 'every item time, resolution and periodicity',
 'Tests check the index of a few instants.',
 [UT], [('_get_periodicity_index', UT)], (), ['returned index'])
prop('C25', 'Changing timezone never moves an instant or a value',
 'Moving a point, slot or series to another timezone changes only the local representation: epoch timestamps, order, values, indexes and resolution stay the same, and every item is on the new timezone. The copy form leaves the original on its own timezone.',
 ['inputs', 'histories'], 'every instant and every sequence of timezone changes',
 'Tests change timezone of one fixed series once.',
 [DS], [('change_tz/as_tz', DS)], (), ['timestamps and timezone'])
prop('C26', 'Model windows line up each feature with the right timestep and target',
 'The windows handed to window-based models contain, for every target position, exactly the preceding items in order with each label in its own column, no look-ahead, and one window per target position that has a full window. Target and context vectors hold the values of the item right after the corresponding window, and scaling features and scaling back is the identity.',
 ['inputs'], 'every series content, window length, label set, and feature list',
 'Tests only look at aggregate model quality or one matrix.',
 [MB, MF], [('_KerasModel window/target/context matrix', MB)], (), ['matrices'])
prop('C27', 'Equality and ordering of points, slots and units are consistent',
 'Equality of points, slots and units is reflexive, symmetric and agrees with their coordinates, data and length; comparing with an unrelated object gives a plain "not equal" rather than an error. Ordering of points is strict and total on their timestamps, never holding both ways, and physical units of equal length are equal however they are written.',
 ['inputs'], 'every pair of points, slots, or units',
 'Tests compare a few chosen pairs.',
 [DS, UN], [('__eq__/__gt__', DS), ('Unit.__eq__', UN)], (), ['comparison results'])
prop('C28', 'Cross-validation never trains on the data it evaluates on',
 'In a cross-validation every item of the series is held out in exactly one round, and in each round the model is fitted only on items outside the held-out part (the larger of its two sides, and the other one as well for models which can be updated) and evaluated only on the held-out part. The reported figures are the mean and standard deviation of the per-round figures, and the series and the model state outside are left unchanged.',
 ['inputs', 'configurations'], 'every series length and number of rounds',
 'Tests check only the final figures for one configuration.',
 [MB], [('Model.cross_validate', MB)], (), ['fit and evaluate calls', 'returned figures'])
prop('C29', 'The guessed sampling interval is an interval that really occurs most often',
 'For a series of variable resolution the guessed sampling interval is the most frequent spacing, its confidence lies between 0 and 1, and guessing always terminates with a value or a clear error. Validity regions derived from it contain their point, never overlap, and never extend further than half the interval on each side.',
 ['inputs'], 'every placement of points',
 'Tests detect the interval of a few regular signals.',
 [UT, DS], [('detect_sampling_interval', UT), ('_compute_validity_regions', UT), ('guess_resolution', DS)], (), ['guess_resolution', 'validity regions'])
prop('C30', 'Periodicity detection finds the period of the strongest harmonic',
 'The detected periodicity of a signal is the period, rounded to a whole number of items, of the strongest peak of its spectrum, whatever the level, scale and phase of the signal. Only long-term peaks (less than ten repetitions over the whole series) are passed over, when the next strongest has a period more than ten times shorter and is nearly as strong (over three times closer to it than to the third one). A signal without peaks, with more than one data label, or which is not a time series is refused.',
 ['inputs'], 'every spectrum of peaks, number of items and values',
 'Tests detect the period of a couple of nearly sinusoidal signals.',
 [UT], [('detect_periodicity', UT)], (), ['detected period'])
prop('C31', 'Converting to a data frame and back keeps every time and value',
 'Converting a series to a data frame gives one row per item in order, at its time (the start, for slots), with each value in the column of its label and the data losses, if any, in one of their own. Building a series from a data frame gives one item per row at its time (UTC if naive) with the values of its own columns: slots for frequencies of days, months and years, or of any inferred frequency if asked, and points otherwise. There and back keeps times, values, labels, data losses, time zone and slot unit.',
 ['inputs'], 'every values, labels and data losses, on many spacings, units and time zones',
 'Tests convert two frames and two series and look at their first values; what must hold is that no value, time or loss is lost or moved for any content.',
 [DS], [('TimeSeries.from_df', DS), ('TimeSeries.to_df', DS)], (), ['data frame', 'series built from it'])

prop('C32', 'Editing labels and indexes in place touches exactly them',
 'Renaming a data label moves every value to the new label, removing one drops exactly its values, and removing an index drops exactly that index, on all the items: everything else is as it was, and so are duplicates of the series. Renaming what is not there, or to a label already there, is refused without effect. Items appended afterwards have to carry the labels as edited, whatever items came and went in the meanwhile.',
 ['histories', 'inputs'], 'every history of label and index edits, on every content',
 'Tests rename and remove one label of one fresh series; what must hold is that no history of edits loses a value or leaves the items with inconsistent labels.',
 [DS], [('rename_data_label/remove_data_label/remove_data_index/remove_data_loss', DS), ('Series._check_item_data', DS)], (), ['items of the series', 'exceptions raised'])

PL='timeseria/plots.py'
prop('C33', 'Plots show every item at its local time with its values',
 'A plot of a series has one entry per item at its local time, with the values of the labels and the indexes asked for (or all of them) in their own columns, rounded to two and four decimals or in full precision: indexes which are not there show as nothing. If aggregated, it has one entry per group of items, the last one of what is left, half-way through them, with their minimum, average and maximum, and the average of the indexes they have. Marks are at their local time, the vertical range covers all the values (or the range asked for), and plotting leaves the series as it was.',
 ['inputs'], 'every series content, labels and indexes asked for, aggregation, time zone and mark',
 'There are no tests of the plots; a value lost, shifted in time or out of range shows only for particular lengths, time zones and signs.',
 [PL], [('_to_dg_data', PL), ('_to_dg_time', PL), ('dygraphs_plot', PL)], (), ['HTML code of the plot'])

prop('C34', 'Models on external engines hand over the series and return the answers',
 'A forecaster or reconstructor based on Prophet fits it on every item of the series at its local time with its value, and asks it for exactly the times to be forecasted or reconstructed, on the same clock; ARIMA ones hand over the values in order with the options asked for, and refuse to forecast from anything but the end of the series they were fitted on (also if it goes on afterwards). What the engine answers is returned, and applied, in order and at the right times. Series with more labels are refused leaving the model as it was, and the series is never changed.',
 ['inputs'], 'every series content and engine answer, on many units and time zones around DST changes',
 'Tests check a few numbers of one fit on UTC data, where shifted or misplaced times do not show.',
 [MF, MR, MB], [('ProphetForecaster', MF), ('ProphetReconstructor', MR), ('ARIMAForecaster', MF), ('AARIMAForecaster', MF), ('_from_timeseria_to_prophet', MB)], (), ['data handed to the engine', 'predictions', 'series returned'])

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
