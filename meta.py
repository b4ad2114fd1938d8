"""Source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
PROPS = []


def P(**k):
    PROPS.append(k)


BOUNDED = ("Bounded: z3 decides every assertion for all values on every feasible path within the bounds in the evidence "
           "file; reals stand for floats, pandas/numpy are trusted, nilm_metadata is stubbed. ")

P(id='C01', title='Loading meter data returns each requested row once, in order',
  statement=('Loading a meter from an HDF5 store delivers exactly the rows that lie inside both the store window and the '
             'requested section (start included, end excluded unless the section includes its end), in time order, with the '
             'requested columns and unchanged values, for every chunk size: consecutive chunks share exactly one row, no chunk '
             'holds more than chunksize + 1 rows, each chunk carries a time frame that starts/ends at its rows or at the '
             'bounds of the section, and its look-ahead holds the rows of the table which follow it. A section without '
             'data yields exactly one empty frame, several sections are delivered one after the other, appended rows follow '
             'the rows already stored, and a missing key raises KeyError.'),
  over=['inputs', 'histories'],
  qtext='all tables, windows, sections (open, half-open, empty, end-inclusive, bounds coinciding with rows), chunk sizes, look-ahead lengths and column subsets within the bounds',
  why='test_hdfdatastore.py reads one fixed file with a few fixed sections (and does not run here); boundary coincidences of rows, sections, windows and chunks are never enumerated.',
  files=['nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/datastore.py', 'nilmtk/timeframe.py'],
  mechanism=[('chunk arithmetic', 'nilmtk/datastore/hdfdatastore.py:HDFDataStore.load'),
             ('window', 'nilmtk/datastore/datastore.py:DataStore.window'),
             ('get_timeframe', 'nilmtk/datastore/hdfdatastore.py:HDFDataStore.get_timeframe')],
  note=BOUNDED + 'Tables of 1..5 rows; PyTables itself is replaced by an in-memory table in symbolic runs, every path is replayed on a real HDF5 file.')

P(id='C02', title='Good sections are the maximal runs without over-long gaps',
  statement=('The good sections of a meter are exactly the maximal stretches, of at least two samples, in which consecutive '
             'valid samples are no further apart than the meter\'s maximum sample period; each starts and ends at a sample. '
             'A row counts as a sample only if none of its measurements is missing. The answer does not depend on how '
             'the rows were cut into chunks, on the order of rows handed over, or on how often the result is read; written out as a dictionary and read back it is the same.'),
  over=['inputs', 'histories'],
  qtext='all sequences of instants, all patterns of missing rows, all maximum sample periods, all chunkings within the bounds',
  why='The existing test (not runnable here) uses two fixed lists of gaps; chunk boundaries falling next to gaps or missing rows are not covered.',
  files=['nilmtk/stats/goodsections.py', 'nilmtk/stats/goodsectionsresults.py'],
  mechanism=[('run detection', 'nilmtk/stats/goodsections.py:get_good_sections'), ('stitching open sections', 'nilmtk/stats/goodsectionsresults.py:GoodSectionsResults.combined')],
  note=BOUNDED + 'Up to 6 rows, chunk sizes 1..3.')

P(id='C03', title='Total energy equals the integral of the readings',
  statement=('The energy of a power series is the sum, over consecutive valid samples, of the earlier reading times the time '
             'to the next sample, that time capped at the maximum sample period, converted to kWh; readings of cumulative '
             'energy give last minus first and interval energy gives the sum of the readings. Per AC type, cumulative energy is '
             'preferred to energy and energy to power, and only AC types that were measured are reported. The total does '
             'not depend on how the rows were cut into chunks, and the energies of two meters add up period by period.'),
  over=['inputs', 'histories'],
  qtext='all instants, readings, missing samples, maximum sample periods, column sets and chunkings within the bounds',
  why='The existing tests compare a few constant series; irregular sampling, gaps, mixed columns and chunk boundaries are not reached.',
  files=['nilmtk/stats/totalenergy.py', 'nilmtk/stats/totalenergyresults.py'],
  mechanism=[('integration', 'nilmtk/stats/totalenergy.py:_energy_for_power_series'), ('column preference', 'nilmtk/stats/totalenergy.py:get_total_energy'),
             ('node', 'nilmtk/stats/totalenergy.py:TotalEnergy.process')],
  note=BOUNDED + 'Up to 5 rows, 3 AC types.')

P(id='C04', title='Dropout rate is the missing fraction of the expected samples',
  statement=('The dropout rate of a stretch of data is 1 minus the number of samples over the number expected between its first '
             'and last sample at the sampling period, never below 0 or above 1, 0 for a complete regular series and NaN when '
             'there are too few samples to tell. The rate of a whole meter is the mean of the rates of its parts weighted by '
             'their number of samples; unifying two meters averages their rates and adds their sample counts without changing the other.'),
  over=['inputs'],
  qtext='all sequences of instants and sample periods within the bounds, all rates and sample counts',
  why='The existing test uses one sequence of timestamps.',
  files=['nilmtk/stats/dropoutrate.py', 'nilmtk/stats/dropoutrateresults.py'],
  mechanism=[('rate', 'nilmtk/stats/dropoutrate.py:get_dropout_rate'), ('weighted mean', 'nilmtk/stats/dropoutrateresults.py:DropoutRateResults.combined')],
  note=BOUNDED + 'Up to 7 samples per chunk, 3 periods.')

P(id='C05', title='TimeFrame operations agree with sets of instants',
  statement=('A time frame is a set of instants: its start is always before its end (violating assignments are rejected '
             'and change nothing), an absent bound is infinitely far away, and an empty frame contains nothing and is falsy. '
             'Intersection, union of bounded frames, adjacency within a gap, overlap detection, slicing of a table, '
             'equality/hash/order, and the dictionary round trip must all agree with that reading, including which frame '
             'decides whether the end instant itself is included.'),
  over=['inputs'],
  qtext='all pairs of frames (bounded, half-open, open, disabled, empty; end included or not), all orderings of their bounds, all probe instants, all gaps',
  why='test_timeframe.py samples a handful of calendar dates; coincident, open, empty and end-inclusive bounds and their combinations are not reached.',
  files=['nilmtk/timeframe.py'],
  mechanism=[('start/end setters', 'nilmtk/timeframe.py:TimeFrame.start'), ('intersection', 'nilmtk/timeframe.py:TimeFrame.intersection'),
             ('adjacent/union', 'nilmtk/timeframe.py:TimeFrame.adjacent'), ('slice', 'nilmtk/timeframe.py:TimeFrame.slice')],
  note=BOUNDED + 'Two frames with arbitrary bounds per operation.')

P(id='C06', title='Splitting and merging time frames preserve coverage',
  statement=('Splitting a bounded time frame yields consecutive adjacent frames, none longer than the threshold, that together '
             'cover exactly the original frame (including its end instant if it had one); frames without both bounds are rejected. '
             'Merging sorted disjoint frames joins exactly those runs whose separation is at most the gap, loses no frame, and '
             'undoes a split; serialising a list of frames to dictionaries and back loses nothing.'),
  over=['inputs'],
  qtext='all bounded frames, all positive duration thresholds, all sorted disjoint lists, all gaps >= 0 within the stated sizes',
  why='The only existing test merges two fixed lists of dates and never splits.',
  files=['nilmtk/timeframe.py'],
  mechanism=[('split loop', 'nilmtk/timeframe.py:TimeFrame.split'), ('merge fold', 'nilmtk/timeframe.py:merge_timeframes')],
  note=BOUNDED + 'Up to 4 pieces per split, up to 4 merged frames (quick).')

P(id='C07', title='Groups of time frames behave as sets of instants',
  statement=('Masking one group of time frames by another keeps exactly the instants that lie in both, in order and without empty '
             'frames, and leaves its operands unchanged. The uptime of a group is the sum of the durations of its frames, and '
             'removing short frames keeps, in order, exactly the frames at least as long as the threshold.'),
  over=['inputs'],
  qtext='all groups of sorted disjoint frames within the stated sizes, all probe instants, all thresholds',
  why='No existing test touches TimeFrameGroup.',
  files=['nilmtk/timeframegroup.py', 'nilmtk/timeframe.py'],
  mechanism=[('pairwise intersection', 'nilmtk/timeframegroup.py:TimeFrameGroup.intersection'), ('uptime fold', 'nilmtk/timeframegroup.py:TimeFrameGroup.uptime')],
  note=BOUNDED + 'Groups of up to 3 x 1 / 2 x 2 frames (quick).')

P(id='C08', title='Per-period result tables keep every period exactly once',
  statement=('A table of statistics per period stores each appended or merged period exactly once with its values, sorted by '
             'start, whatever the order in which they arrive; a period that overlaps a stored one is refused (touching is '
             'allowed), wrong types are refused, and a refused append changes nothing. Unifying the tables of two meters is '
             'only possible for the same periods, combines them period by period (energies and counts add, dropout rates '
             'average, good sections intersect) and leaves the other table alone. Reading a table never changes it.'),
  over=['inputs', 'histories'],
  qtext='all periods in every order of arrival, all values, all pairs of overlapping/touching/disjoint periods within the bounds',
  why='No existing test touches Results directly.',
  files=['nilmtk/results.py', 'nilmtk/stats/totalenergyresults.py', 'nilmtk/stats/dropoutrateresults.py', 'nilmtk/stats/goodsectionsresults.py'],
  mechanism=[('overlap check', 'nilmtk/results.py:Results.check_for_overlap'), ('append/update', 'nilmtk/results.py:Results.append'), ('unify', 'nilmtk/results.py:Results.unify')],
  note=BOUNDED + 'Up to 4 periods, 2 tables.')

P(id='C09', title='Cached statistics equal freshly computed ones',
  statement=('Total energy, good sections and dropout rate of a meter are cached per period. For any request (sections, columns, '
             'chunk size) the answer given after any earlier requests, for this meter or for a meter of the same number in '
             'another dataset, and whatever the window was then, equals the answer a cleared cache would give. Sections are identified by their bounds.'),
  over=['histories', 'inputs'],
  qtext='all histories of two (thorough: three) requests from the listed shapes, all row instants, section bounds and readings within the bounds',
  why='The existing tests never request the same statistic twice with different arguments.',
  files=['nilmtk/elecmeter.py', 'nilmtk/results.py', 'nilmtk/stats/goodsectionsresults.py', 'nilmtk/stats/totalenergyresults.py'],
  mechanism=[('cache lookup', 'nilmtk/elecmeter.py:ElecMeter._get_stat_from_cache_or_compute'), ('cache key', 'nilmtk/elecmeter.py:ElecMeter.key_for_cached_stat'),
             ('import', 'nilmtk/results.py:Results.import_from_cache'), ('export', 'nilmtk/results.py:Results.export_to_cache')],
  note=BOUNDED + '3..4 rows, 2 requests (quick).')

P(id='C10', title='CO picks the nearest state combination; Mean predicts the mean',
  statement=('Combinatorial optimisation assigns to every mains reading one state per appliance such that no combination of the '
             'learnt states has a sum closer to the reading; predictions carry the timestamps of the mains, one column per '
             'learnt appliance, one frame per test chunk, and appliances learnt later take part. The Mean baseline predicts '
             'for every appliance the mean of all its valid training samples over all training calls (up to the rounding of each '
             'call\'s sum to whole watts). find_nearest returns, for every value, a known value at least as close as any other, and the residual.'),
  over=['inputs', 'histories'],
  qtext='all learnt states, mains readings, training samples (some missing) within the bounds',
  why='The existing tests only run the algorithms on example files and look for crashes.',
  files=['nilmtk/disaggregate/combinatorial_optimisation.py', 'nilmtk/disaggregate/mean.py', 'nilmtk/utils.py'],
  mechanism=[('nearest sum', 'nilmtk/utils.py:find_nearest'), ('state combinations', 'nilmtk/disaggregate/combinatorial_optimisation.py:CO._set_state_combinations_if_necessary'),
             ('prediction', 'nilmtk/disaggregate/combinatorial_optimisation.py:CO.disaggregate_chunk'), ('mean', 'nilmtk/disaggregate/mean.py:Mean.partial_fit')],
  note=BOUNDED + 'Up to 3 appliances of 2..3 states; k-means training is outside.')

P(id='C11', title='Factorial HMM combines and decodes appliance models without loss',
  statement=('Sorting the states of a learnt model by mean is a pure relabelling: start, transition and variance parameters '
             'still describe the same states. The combined model has one state per combination of appliance states, its mean and '
             'variance the sums and its start and transition probabilities the products of the individual ones, and decoding a '
             'combined state gives back exactly the individual states. Predictions carry the timestamps of the mains and, per '
             'appliance, the mean of the decoded state; every appliance seen in training is modelled.'),
  over=['inputs'],
  qtext='all learnt means, variances, start and transition probabilities (equal means included), all decoded state sequences within the bounds',
  why='The existing tests only run FHMM on an example file and look for crashes.',
  files=['nilmtk/disaggregate/fhmm_exact.py'],
  mechanism=[('relabelling', 'nilmtk/disaggregate/fhmm_exact.py:sort_learnt_parameters'), ('combination', 'nilmtk/disaggregate/fhmm_exact.py:create_combined_hmm'),
             ('decoding', 'nilmtk/disaggregate/fhmm_exact.py:decode_hmm'), ('prediction', 'nilmtk/disaggregate/fhmm_exact.py:FHMMExact.disaggregate_chunk')],
  note=BOUNDED + '1..3 appliances with 2..3 states; hmmlearn fit and Viterbi are replaced by arbitrary results.')

P(id='C12', title='Hart85 finds edges, pairs them, and predicts the latest state',
  statement=('An edge is reported exactly where consecutive steady levels of the signal differ by more than the noise level, with '
             'the size of that difference, and steady levels are the means of runs whose samples stay within the state '
             'threshold. A rising edge is paired with a later falling edge that matches it within the tolerance, each edge in at '
             'most one pair. Between events a prediction is the power of the matching centroid after the latest on event and 0 '
             'after an off event, every test chunk is disaggregated by its own edges, and appliances are matched to '
             'the centroid with the least error.'),
  over=['inputs', 'histories'],
  qtext='all signals, thresholds, transition lists, buffer sizes, tolerances, centroids and state matrices within the bounds',
  why='The existing tests run Hart85 on one file and look for crashes.',
  files=['nilmtk/feature_detectors/steady_states.py', 'nilmtk/disaggregate/hart_85.py'],
  mechanism=[('edge detection', 'nilmtk/feature_detectors/steady_states.py:find_steady_states'), ('pairing', 'nilmtk/disaggregate/hart_85.py:PairBuffer.pair_transitions'),
             ('assignment', 'nilmtk/disaggregate/hart_85.py:Hart85.assign_power_from_states')],
  note=BOUNDED + '1..5 samples, 2..4 transitions, 1..2 centroids; mean-shift clustering is outside; event samples and the last sample of a chunk are outside the prediction claim.')

P(id='C13', title='Activations are exactly the runs above the on-power threshold',
  statement=('An activation is a run of rows at or above the threshold that starts and ends inside the data; runs separated by '
             'less than the minimum off duration are one activation, activations shorter than the minimum on duration are dropped, '
             'and so are those touching missing samples. Each is reported with the border rows around it (one more before), '
             'readings unchanged, in order, chunk by chunk. Defaults come from the connected appliances (lowest threshold, 10 W '
             'if unknown, longest durations), and when_on marks exactly the rows at or above the threshold. The old names (activation_series) answer alike.'),
  over=['inputs'],
  qtext='all power series (irregular instants, missing samples), thresholds, durations, borders and appliance metadata within the bounds',
  why='The existing test checks one fixed series of readings.',
  files=['nilmtk/electric.py', 'nilmtk/appliance.py'],
  mechanism=[('runs', 'nilmtk/electric.py:get_activations'), ('defaults', 'nilmtk/electric.py:Electric.on_power_threshold'),
             ('appliance threshold', 'nilmtk/appliance.py:Appliance.on_power_threshold')],
  note=BOUNDED + 'Up to 6 rows, border 0..2, 1..2 chunks.')

P(id='C14', title='Disaggregation error metrics equal their definitions',
  statement=('Each error metric offered for experiments (mae, rmse, relative_error, nde, nep, f1score, r2score) equals its '
             'definition on the given truth and prediction: mean of |g-p|; root of the mean of (g-p)^2; mean of |g-p|/(1+p); root of '
             'sum (g-p)^2 / sum g^2; sum |g-p| / sum g; f1 of being at or above 10 W; coefficient of determination. The value '
             'does not depend on whether the data come as pandas Series or numpy arrays.'),
  over=['inputs'],
  qtext='all non-negative ground truths and predictions within the bounds (denominators not zero)',
  why='No existing test touches nilmtk.losses.',
  files=['nilmtk/losses.py'],
  mechanism=[('metrics', 'nilmtk/losses.py')],
  note=BOUNDED + '1..3 samples (nde 1..2); sklearn metrics are replaced by their definitions in symbolic runs.')

P(id='C21', title='Experiments feed consistent data and report errors of aligned rows',
  statement=('Running an experiment trains every model on the mains and appliance readings of the requested windows, restricted to '
             'the rows which all of them have, with the artificial aggregate (if asked for) being the sum of the appliances. Testing hands '
             'every model the same mains and compares its predictions, padding cut off, with the truth at the same rows; every '
             'reported error is the metric of exactly those rows. Joint and chunk-wise training and testing deliver the same '
             'rows to the models, over all the data sets and buildings asked for and once per epoch.'),
  over=['inputs', 'configurations'],
  qtext='all readings and patterns of missing or absent rows, all predictions, within the listed experiment shapes',
  why='No existing test runs nilmtk.api; the rows which reach models and metrics depend on the pattern of missing data.',
  files=['nilmtk/api.py'],
  mechanism=[('training data', 'nilmtk/api.py:API.train_jointly'), ('chunk-wise', 'nilmtk/api.py:API.train_chunk_wise'),
             ('testing', 'nilmtk/api.py:API.test_jointly'), ('errors', 'nilmtk/api.py:API.compute_loss')],
  note=BOUNDED + '2..3 rows per meter, 2 appliances, 1..2 buildings, models and chunks; DataSet and models are stand-ins.')

P(id='C15', title='Loading a group of meters yields the aggregate of its members',
  statement=('Loading a MeterGroup gives, for every instant of the regular grid of the requested section (end excluded), the sum of the '
             'readings which its members (nested groups included) have at that instant; voltage, frequency, power factor and phase angle '
             'are averaged over the members that have a reading, and a cell is missing only if no member has one. Sections are '
             'delivered in order, cut into pieces of at most chunksize periods, with the union of the columns and of the time '
             'frames of the members. dataframe_of_meters holds one column per meter with its own readings, missing where '
             'the meter has none, and every row once.'),
  over=['inputs'],
  qtext='all readings and patterns of missing readings and absent rows, for the listed groups, sections and chunk sizes',
  why='The existing tests (not runnable here) load one file with complete, equal data in all meters.',
  files=['nilmtk/metergroup.py'],
  mechanism=[('aggregation', 'nilmtk/metergroup.py:combine_chunks_from_generators'), ('sections and chunks', 'nilmtk/metergroup.py:MeterGroup.load'),
             ('one column per meter', 'nilmtk/metergroup.py:MeterGroup.dataframe_of_meters')],
  note=BOUNDED + '1..4 members, 2..4 instants; members are stand-ins delivering resampled rows; sections cut into several pieces start on the grid.')

P(id='C16', title='Energy accounting of meter groups adds up',
  statement=('The total energy of a group is the sum of its meters\' energies over the same sections, and its dropout rate their mean. '
             'energy_per_meter and fraction_per_meter report every meter exactly once with its own energy (share), the remainder is mains '
             'minus the meters in the AC type most meters use, select_top_k picks k meters none of which uses less than a meter left out and '
             'groups the rest losslessly, and the proportion submetered counts only meters directly below mains. The group\'s time '
             'frame is the smallest which covers every meter with data, and train_test_split puts the requested fraction of mains\' '
             'good samples before the split. The sample period of a group is the longest of its meters, simultaneous switches are the instants in which two '
             'or more submeters switch, with their number, and pairwise statistics name every two meters.'),
  over=['inputs', 'configurations'],
  qtext='all energies, dropout rates, time frames, good sections and switch times for the listed group shapes',
  why='The existing tests (not runnable here) compare constants of one example file.',
  files=['nilmtk/metergroup.py', 'nilmtk/utils.py'],
  mechanism=[('totals', 'nilmtk/metergroup.py:MeterGroup.total_energy'), ('per meter', 'nilmtk/metergroup.py:MeterGroup.energy_per_meter'),
             ('top k', 'nilmtk/metergroup.py:MeterGroup.select_top_k'), ('time frame', 'nilmtk/metergroup.py:MeterGroup.get_timeframe'),
             ('split', 'nilmtk/metergroup.py:MeterGroup.train_test_split')],
  note=BOUNDED + '1..4 meters of the same AC types for totals, 1..4 good sections, train fractions 1/4, 1/2, 4/5.')

P(id='C18', title='Quantities derived from a power series equal their definitions',
  statement=('However the data are cut into chunks, power_series_all_data holds every row once in order, switch_times are the rows whose '
             'power moved by more than the threshold, vampire_power is the lowest reading, and correlation is Pearson\'s coefficient of the '
             'aligned readings; load_series adds the AC types row by row, keeping time frame and look-ahead. proportion_of_energy and '
             'proportion_of_upstream divide the energies of the same sections (mean over shared AC types, best type otherwise), '
             'average_energy_per_period scales by the uptime or the time frame, and activity_histogram counts the active bins per '
             'position in the period.'),
  over=['inputs'],
  qtext='all instants, readings, missing samples, thresholds, energies, durations and chunkings within the bounds',
  why='No existing test that runs here touches these; the others compare constants of one example file.',
  files=['nilmtk/electric.py', 'nilmtk/utils.py', 'nilmtk/elecmeter.py'],
  mechanism=[('series', 'nilmtk/electric.py:Electric.load_series'), ('all data', 'nilmtk/electric.py:Electric.power_series_all_data'),
             ('correlation', 'nilmtk/electric.py:Electric.correlation'), ('proportion', 'nilmtk/electric.py:Electric.proportion_of_energy'),
             ('histogram', 'nilmtk/electric.py:Electric.activity_histogram')],
  note=BOUNDED + 'Up to 5 rows and 3 chunks (histogram up to 10 bins; it ignores chunks shorter than 5 bins); correlation for complete aligned chunks.')

P(id='C17', title='Meters are found, selected and combined by exactly what was asked for',
  statement=('Looking up a meter by identifier, instance, appliance or group of identifiers returns exactly the meter (or existing group) '
             'that fits, raises KeyError if there is none and refuses ambiguous requests; select and select_using_appliances return all '
             'meters that match every criterion (any of the values of a list), each once, and no other. Mains, submeters, alternative '
             'mains, upstream meters, wiring, union and groupby partition or combine meters without losing or repeating one, and equal groups '
             'or meters have equal hashes. Importing metadata yields every meter once, every appliance on its meters, '
             'one group per appliance with several meters, and disabled meters set aside.'),
  over=['inputs', 'configurations'],
  qtext='all identifiers, rooms, appliance types, categories, roles, wirings and requests within the bounds',
  why='The existing tests (not runnable here) look up a handful of meters of example files.',
  files=['nilmtk/metergroup.py', 'nilmtk/elecmeter.py', 'nilmtk/appliance.py', 'nilmtk/hashable.py', 'nilmtk/dataset.py', 'nilmtk/building.py'],
  mechanism=[('lookup', 'nilmtk/metergroup.py:MeterGroup.__getitem__'), ('selection', 'nilmtk/metergroup.py:MeterGroup.select'),
             ('matching', 'nilmtk/appliance.py:Appliance.matches'), ('wiring', 'nilmtk/metergroup.py:MeterGroup.wiring_graph'),
             ('upstream', 'nilmtk/elecmeter.py:ElecMeter.upstream_meter'), ('metadata', 'nilmtk/metergroup.py:MeterGroup.import_metadata')],
  note=BOUNDED + '1..4 meters, 1..2 appliances per meter, 3 appliance types; strings are symbolic over finite vocabularies; groupby for one appliance per meter.')

P(id='C19', title='A request for measurements selects exactly the matching columns',
  statement=('Loading with physical_quantity and ac_type hands the store exactly the columns of the meter that match both (all of them '
             'if neither is given), each once; ac_type best picks, per physical quantity, the first of active, apparent, reactive that is '
             'measured. A request that matches nothing, or uses names outside the vocabulary, raises MeasurementError, and explicit columns '
             'must all be measured and exclude other selections. A group offers the union of the columns of its meters, and the best AC type is one shared with mains '
             'whenever there is one.'),
  over=['inputs', 'configurations'],
  qtext='all devices (subsets of the vocabulary) and all requests, valid or not, within the bounds',
  why='The existing tests (not runnable here) make about ten requests to one device.',
  files=['nilmtk/elecmeter.py', 'nilmtk/measurement.py', 'nilmtk/metergroup.py'],
  mechanism=[('selection', 'nilmtk/elecmeter.py:ElecMeter._convert_physical_quantity_and_ac_type_to_cols'), ('best', 'nilmtk/measurement.py:select_best_ac_type'),
             ('available', 'nilmtk/elecmeter.py:ElecMeter.available_ac_types'), ('vocabulary', 'nilmtk/measurement.py:measurement_columns')],
  note=BOUNDED + '6 columns over 4 physical quantities, requests of up to 3 names; a list request is served if any of its names is measured.')

P(id='C20', title='Resampling and preprocessing while loading follow the request',
  statement=('Asked to resample, a meter delivers every chunk on the regular grid (multiples of the period since midnight) from the period of its '
             'first row to that of its last: a period holds the requested aggregate (mean by default) of its non-missing readings, a timestamp '
             'that occurs twice counting once, and an empty period the preceding value for at most ceil(max_sample_period / period) periods. '
             'Otherwise rows are unchanged. Preprocessing nodes run in the given order before resampling, keep time frame and look-ahead, and Clip '
             'keeps every value within the limits of its measurement or of the node; the arguments of the caller are left alone, and a node whose '
             'requirements its upstream does not meet refuses to run.'),
  over=['inputs', 'configurations'],
  qtext='all instants (any distribution over the periods), readings, missing and duplicated rows, limits and maximum sample periods within the bounds',
  why='No existing test that runs here loads data; the others resample one regular example file.',
  files=['nilmtk/elecmeter.py', 'nilmtk/electric.py', 'nilmtk/utils.py', 'nilmtk/preprocessing/apply.py', 'nilmtk/preprocessing/clip.py', 'nilmtk/node.py'],
  mechanism=[('defaults', 'nilmtk/elecmeter.py:ElecMeter.load'), ('pipeline', 'nilmtk/electric.py:Electric._prep_kwargs_for_sample_period_and_resample'),
             ('resampling', 'nilmtk/utils.py:safe_resample'), ('clipping', 'nilmtk/preprocessing/clip.py:Clip.process'),
             ('requirements', 'nilmtk/node.py:find_unsatisfied_requirements')],
  note=BOUNDED + 'Up to 5 rows in 5 periods; each chunk is resampled on its own.')

P(id='C22', title='Group metrics compare exactly the periods measured by both meters',
  statement=('For every predicted submeter and the true meter of the same identifier, mean_normalized_error_power is the sum of |y - p| over the '
             'sum of y, rms_error_power the root of the mean squared error, and f1_score the sample-weighted mean of the F1 scores of being on per '
             'chunk, over all periods which both meters measured, each counted once, however the prediction is cut into sections and chunks. '
             'error_in_assigned_energy is the absolute difference of the energies over the good sections of the prediction, per AC type, and '
             'fraction_energy_assigned_correctly the sum over the submeters (groups included) of the smaller of predicted and true share. compute_rmse reports '
             'every appliance with the RMS error of the rows which both tables have.'),
  over=['inputs'],
  qtext='all readings, instants of the truth, absent and missing true readings, thresholds and energies within the bounds',
  why='The only existing test of the module is an empty function.',
  files=['nilmtk/metrics.py', 'nilmtk/electric.py', 'nilmtk/metergroup.py', 'nilmtk/utils.py'],
  mechanism=[('alignment', 'nilmtk/electric.py:align_two_meters'), ('pairs of meters', 'nilmtk/metergroup.py:iterate_through_submeters_of_two_metergroups'),
             ('metrics', 'nilmtk/metrics.py:mean_normalized_error_power'), ('fractions', 'nilmtk/metrics.py:fraction_energy_assigned_correctly'),
             ('rmse', 'nilmtk/utils.py:compute_rmse')],
  note=BOUNDED + 'Up to 4 predictions in 1..3 sections/chunks; predictions regular and complete within a section; the truth of a chunk is delivered in one piece.')

P(id='C23', title='CSV stores, keys and conversion preserve data and metadata',
  statement=('For every table put or appended in parts to a CSVDataStore, load delivers for each section exactly the rows inside section and window, '
             'once, in order, with the requested columns, in chunks of at most chunksize rows whose time frames span the section and whose look_ahead '
             'holds the rows that follow (one empty frame when there are none); [] and get_timeframe agree with it, also for columns without AC type, '
             'missing values and across DST transitions, and missing keys raise KeyError. '
             'convert_datastore copies every table and all metadata of the dataset and its buildings between CSV and HDF5 stores in both directions. '
             'Key, join_key, elements_below_key and remove address exactly the building or meter with the given number, with or without '
             'slashes at the ends, and get_datastore chooses the store by format or file ending.'),
  over=['inputs', 'histories'],
  qtext='all instants, values, windows, sections and building and meter numbers within the bounds',
  why='The tests of the CSV store read one prepared file; appending, look-ahead, chunk borders, metadata and conversion to HDF5 are never run.',
  files=['nilmtk/datastore/csvdatastore.py', 'nilmtk/datastore/datastore.py', 'nilmtk/datastore/key.py', 'nilmtk/datastore/hdfdatastore.py', 'nilmtk/utils.py'],
  mechanism=[('reading', 'nilmtk/datastore/csvdatastore.py:load'), ('writing', 'nilmtk/datastore/csvdatastore.py:append'),
             ('metadata', 'nilmtk/datastore/csvdatastore.py:load_metadata'), ('conversion', 'nilmtk/datastore/datastore.py:convert_datastore'),
             ('keys', 'nilmtk/datastore/key.py:Key')],
  note=BOUNDED + 'Up to 4 rows (6 thorough) in up to 3 parts, 3 meters in 2 buildings; the metadata have one concrete shape.')

P(id='C24', title='Learnt states, histograms and exported models describe the training data',
  statement=('The states learnt for an appliance are sorted, distinct whole watts which contain off (0) and exactly the cluster centres k-means finds in '
             'the readings above 10 W (none if there are fewer than 20, a sample of 2000 if there are more), for the number of clusters asked for or the one with '
             'the best silhouette, at most max_num_clusters states. CO learns each appliance once, from all its frames, and estimates every appliance trained so far. '
             'Hart85 feeds the mean size of each pair of edges to mean shift, matches each appliance with the centroid of the smallest RMS error, '
             'best_matched_appliance returns the nearest meter per prediction, and an exported model (or a saved Mean model) predicts, and learns on, the same after import. '
             'histogram_from_generator equals the histogram of all readings of all chunks over the bins of the first, '
             'and clear_model_checkpoints removes exactly the .h5 files with the prefix of the model.'),
  over=['inputs', 'histories'],
  qtext='all readings, answers of k-means, mean shift and silhouette, instants of missing readings, ranges and file names within the bounds',
  why='No existing test that runs here trains a model; those in the repository run training on one example file and check nothing about the model.',
  files=['nilmtk/feature_detectors/cluster.py', 'nilmtk/feature_detectors/steady_states.py', 'nilmtk/disaggregate/combinatorial_optimisation.py',
         'nilmtk/disaggregate/hart_85.py', 'nilmtk/disaggregate/disaggregator.py', 'nilmtk/disaggregate/mean.py', 'nilmtk/stats/histogram.py'],
  mechanism=[('states', 'nilmtk/feature_detectors/cluster.py:cluster'), ('CO training', 'nilmtk/disaggregate/combinatorial_optimisation.py:CO.partial_fit'),
             ('Hart training', 'nilmtk/disaggregate/hart_85.py:Hart85.partial_fit'), ('export', 'nilmtk/disaggregate/hart_85.py:Hart85.import_model'),
             ('histogram', 'nilmtk/stats/histogram.py:histogram_from_generator')],
  note=BOUNDED + 'k-means, mean shift and silhouette_score are oracles with arbitrary answers; 18..23 readings (1..4 of them arbitrary) and one run of 2002.')

P(id='C25', title='Data-set windows, per-meter tables, labels and scripts follow the data set',
  statement=('DataSet.set_window restricts every later load of every meter of every building to the rows in [start, end), naive bounds and strings taken as '
             'local time of the data set\'s time zone; without bounds the restriction ends, and without store or time zone it raises RuntimeError. '
             'get_activity_script writes one table per submeter, True at the start and False at the end of each activation in order of time; clear_cache reaches every meter once. '
             'proportion_of_upstream_total_per_meter, correlation_of_sum_of_submeters_with_mains, good_sections and describe report, meter by meter, exactly the '
             'quantities they name. The dominant appliance is the one marked so, else the first; labels, on-power thresholds (own, nominal, type, 10 W; the lowest '
             'counts) and minimum durations (the longest counts) derive from the appliances of the meter; helpers treat naive instants as UTC and keep aware ones.'),
  over=['inputs', 'configurations', 'histories'],
  qtext='all instants of rows and bounds, energies, appliance types and markings, instances, thresholds and activations within the bounds',
  why='No test that runs here uses a data set; windows across time zones, labels and scripts have no test at all.',
  files=['nilmtk/dataset.py', 'nilmtk/building.py', 'nilmtk/metergroup.py', 'nilmtk/elecmeter.py', 'nilmtk/electric.py', 'nilmtk/appliance.py', 'nilmtk/timeframe.py', 'nilmtk/utils.py',
         'nilmtk/datastore/datastore.py'],
  mechanism=[('window', 'nilmtk/dataset.py:DataSet.set_window'), ('scripts', 'nilmtk/dataset.py:DataSet.get_activity_script'),
             ('shares', 'nilmtk/metergroup.py:MeterGroup.proportion_of_upstream_total_per_meter'), ('summary', 'nilmtk/metergroup.py:MeterGroup.describe'),
             ('labels', 'nilmtk/elecmeter.py:ElecMeter.label'), ('thresholds', 'nilmtk/appliance.py:Appliance.on_power_threshold'),
             ('instants', 'nilmtk/utils.py:tz_localize_naive')],
  note=BOUNDED + 'Up to 3 rows per meter in 2 buildings, 3 meters, 2 appliances per meter; zones with a fixed offset symbolically, Europe/London with wall-clock strings.')

P(id='C26', title='Data-set converters store every raw reading once, for the right meter',
  statement=('Converting raw REDD, UK-DALE, REFIT, HIPE, DRED, IDEAL, SMART*, AMPds, iAWE, COMBED, CAXE, GREEND, ECO or Dataport (CSV) files writes exactly one table per '
             'meter of the data set, under the building and meter number its file or column stands for (REFIT houses numbered without the missing 14th, IDEAL homes '
             'only with mains and appliances, AMPds with the whole home first, GREEND and SMART* in order of columns, Dataport homes by id), labelled with what the meter '
             'measures, holding every complete reading exactly once with its value (W where HIPE and Dataport give kW, HIPE without sign) at its instant in time-zone-aware '
             'order of time (UK-DALE in order of the file). Repeated instants keep the first reading in UK-DALE, GREEND and iAWE; iAWE and CAXE store means per minute, iAWE filling empty '
             'minutes with 0 (power) or the median. The use of a Dataport home is its grid plus its solar power, and its metadata name its mains and every appliance once. ECO readings of -1 are missing, and its reactive power follows from active power and phase angle. Other files are left alone, and the metadata of the data set are converted too.'),
  over=['inputs', 'configurations'],
  qtext='all instants, orders of rows, values, repeated instants and missing readings within the bounds',
  why='No existing test runs any converter.',
  files=['nilmtk/dataset_converters/' + x for x in ('redd/convert_redd.py', 'ukdale/convert_ukdale.py', 'refit/convert_refit.py', 'hipe/convert_hipe.py', 'dred/convert_dred.py',
         'ideal/convert_ideal.py', 'smart/convert_smart.py', 'ampds/convert_ampds.py', 'iawe/convert_iawe.py', 'combed/convert_combed.py', 'caxe/convert_caxe.py',
         'greend/convert_greend.py', 'dataport/csv_converter.py')],
  mechanism=[('REDD', 'nilmtk/dataset_converters/redd/convert_redd.py:_convert'), ('UK-DALE', 'nilmtk/dataset_converters/ukdale/convert_ukdale.py:convert_ukdale'),
             ('REFIT', 'nilmtk/dataset_converters/refit/convert_refit.py:_convert'), ('iAWE', 'nilmtk/dataset_converters/iawe/convert_iawe.py:convert_iawe'),
             ('Dataport', 'nilmtk/dataset_converters/dataport/csv_converter.py:convert_dataport')],
  note=BOUNDED + 'Up to 3 rows in the file of interest (4 thorough); the raw files are real files in which digits stand for symbolic cells; ECO, HES, DEDDIAG and the Dataport '
       'database downloader are outside.')

P(id='C27', title='Classic disaggregators write the estimates of their model to the output store',
  statement=('The classic disaggregators (nilmtk.legacy.disaggregate: CombinatorialOptimisation, FHMM, Hart85) learn one model per submeter from the valid readings of its first '
             'chunk, with as many states as asked for (else at most three, two if there are more than 12 meters), refuse to disaggregate before training, and CO refuses to be trained '
             'twice. Disaggregating mains into a store loads them as asked (60 s samples of the good sections by default) and writes, for the chunks which are long enough and in order, '
             'one row per (for FHMM: valid) mains reading into meter 1 (the readings) and into one table per trained meter under its instance: for CO the combination of states nearest to '
             'the reading, for FHMM the means of the decoded states in whole watts, for Hart85 the centroid of the latest edge nearest to it (meters 2, 3, ... per centroid). The metadata '
             'name the model, its sample period and measurement, the span of the chunks used, meter 1 as site meter and every estimate as its submeter, with the name and appliances of the '
             'trained meter. Nothing is written when every chunk is too short. FHMM means are sorted by renaming states only, the combined model holds their sums and products. Exporting a '
             'model of CO or FHMM leaves it usable; importing gives the same parameters with each meter on its own file.'),
  over=['inputs', 'configurations', 'histories'],
  qtext='all mains readings, chunk lengths and time frames, learnt states, model parameters, decoded states and missing readings within the bounds',
  why='No test which runs here trains or disaggregates with these classes; ties, short chunks, chunks without an edge and equal means are not sampled.',
  files=['nilmtk/legacy/disaggregate/' + x for x in ('disaggregator.py', 'combinatorial_optimisation.py', 'fhmm_exact.py', 'hart_85.py')] +
        ['nilmtk/feature_detectors/steady_states.py', 'nilmtk/feature_detectors/cluster.py', 'nilmtk/utils.py', 'nilmtk/timeframe.py'],
  mechanism=[('CO', 'nilmtk/legacy/disaggregate/combinatorial_optimisation.py:CombinatorialOptimisation.disaggregate'),
             ('FHMM', 'nilmtk/legacy/disaggregate/fhmm_exact.py:FHMM.train'), ('Hart85', 'nilmtk/legacy/disaggregate/hart_85.py:Hart85.disaggregate'),
             ('metadata', 'nilmtk/legacy/disaggregate/disaggregator.py:Disaggregator._save_metadata_for_disaggregation')],
  note=BOUNDED + 'Up to 3 mains chunks of up to 3 readings, 2 submeters (12 in training), 3 states; meters are stand-ins; k-means, silhouette and hmmlearn answer arbitrarily; the '
       'legacy MLE model (removed library calls), train_across_buildings and two-dimensional Hart85 are outside.')
