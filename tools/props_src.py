"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props_src.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None,
         observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, state=state,
                  observe=observe))


N, F, D, S, A, C, PL, AG, CT, U = ('rdtools/normalization.py', 'rdtools/filtering.py',
                                   'rdtools/degradation.py', 'rdtools/soiling.py',
                                   'rdtools/availability.py', 'rdtools/analysis_chains.py',
                                   'rdtools/plotting.py', 'rdtools/aggregation.py',
                                   'rdtools/clearsky_temperature.py', 'rdtools/utilities.py')

prop('C01', 'Energy from power is the exact, gap-aware time integral',
     'For any power series, the returned energy of every output interval equals the time integral '
     'of power over that interval (trapezoidal with linear interpolation for instantaneous data, '
     'interval value times duration for right-labelled data), at every target frequency. Stretches '
     'between valid samples further apart than the allowed step contribute nothing and are never '
     'extrapolated or filled, and an interval without any covered part, or that ends inside such a '
     'stretch without samples, is missing. Energy is conserved '
     'when covered intervals are split or merged, and does not depend on the time zone.',
     ['inputs', 'configurations'],
     'all power series (regular, irregular, NaN runs, gaps, single element, DST zones), target '
     'frequencies finer/equal/coarser incl. month starts, max_timedelta, both power types',
     'The tests use a dozen hand-made series on one or two frequencies; which intervals '
     'are voided depends on the alignment of gaps, NaN and bin edges.',
     [N], [('energy_from_power / _aggregate / _interpolate_series / _t_step_nanoseconds', N)],
     'generated power series vs an exact segment-by-segment integration model; conservation and '
     'time-zone metamorphic relations',
     'Generated-input search; trusts the reference integrator (float64, 1e-9 relative) and pandas '
     'date offsets for bin edges.')
prop('C02', 'Interpolation is linear between neighbours and never crosses a long gap',
     'Every interpolated value equals the straight line between the two valid samples that surround '
     'the target time, and an exact sample time returns that sample. It is missing when no '
     'valid sample lies on one side or when the surrounding samples are further apart than the allowed '
     'step (given, or twice the median sampling step), and never otherwise. Mixing series and targets with '
     'and without time zone is rejected, and columns of a table are treated independently.',
     ['inputs', 'configurations'],
     'all series and tables of series, target indexes and target frequencies, max_timedelta, time zones',
     'Tests cover a few fixed series; the gap rule is a relation between every target and its '
     'neighbours.', [N], [('interpolate / _interpolate_series', N)],
     'generated series and targets vs a point-by-point neighbour model',
     'Generated-input search against an independent model, 1e-9 relative tolerance.')
prop('C03', 'Normalized energy is measured over modelled energy, with matching insolation',
     'Normalized energy equals measured energy divided by the energy the supplied model '
     'power produces over exactly the same interval, and the insolation returned with it is the plane-of-array '
     'irradiance integrated over that interval; both are missing or present together with '
     'measurement and model. The PVWatts model power is rated power times irradiance over the reference '
     'irradiance times the linear temperature coefficient, with no temperature effect if no '
     'cell temperature is given.',
     ['inputs', 'configurations'],
     'measured power or energy at any regular step; model and irradiance series finer, equal or coarser, '
     'with NaN and missing stamps; any PVWatts parameters',
     'Tests compare a handful of aligned series; the alignment of three sampling rates with gaps '
     'is a large input space.', [N],
     [('normalize_with_expected_power, normalize_with_pvwatts, pvwatts_dc_power', N)],
     'generated measured/model series vs composition of the C01 and C02 models',
     'Generated-input search against independent models; regular measured series as documented.')
prop('C04', 'Aggregation is the insolation-weighted mean of each calendar bin',
     'Every aggregated value is the mean of the normalized energies in its calendar bin weighted '
     'by their insolation, bins follow the local wall clock, every bin between the first and '
     'last point is present, and a bin without insolation is missing. The value therefore lies within the range of the '
     'points of the bin and does not depend on the unit of insolation.',
     ['inputs', 'configurations'], 'all energy/insolation pairs, frequencies from hours to years, time zones',
     'One fixed example in the tests.', [AG], [('aggregation_insol', AG)],
     'generated series vs a bin-by-bin weighted mean from wall-clock arithmetic',
     'Generated-input search; energy and insolation missing together, as in all callers.')
prop('C05', 'Rescaled modelled irradiance is a fixed point of the clear-period fit',
     'The rescaled modelled irradiance is a single positive factor times the model, and that factor '
     'is the least-squares factor over the points it itself classifies as clear; multiplying '
     'the measurement by a constant multiplies the result by it. If the iteration does not '
     'converge a convergence error is raised instead of returning a number.',
     ['inputs', 'configurations'], 'measured/modelled irradiance with clouds, noise, NaN; both methods; iteration limits',
     'Tests use exact multiples on one sine day.', [N], [('irradiance_rescale', N)],
     'generated irradiance pairs; fixed-point oracle recomputed from the returned series; scaling relation',
     'Generated-input search; judged with a tolerance for the optimiser, cases with edge points are skipped.')
prop('C06', 'Year-on-year rate is the median of all one-year slopes, with a faithful trail',
     'The year-on-year rate is the median of the slopes between each point and the latest '
     'point at least one calendar year and at most one year and eight days older, in percent per '
     'year of the first-year median (or of the raw series without recentring). The returned slopes, usage '
     'counts and renormalizing factor are exactly those that produce the rate. The rate is '
     'unchanged by unit scaling and time zone, recovers an exactly linear decline, and less than '
     'two years of data is refused.',
     ['inputs', 'configurations'], 'all normalized-energy series of any spacing with NaN, missing rows, zeros; recentring on/off',
     'Tests check a fixed linear or noisy series at a few frequencies.', [D],
     [('degradation_year_on_year', D)],
     'generated multi-year series vs an O(n^2) pairing model',
     'Generated-input search; leap-day ties accept either neighbour.')
prop('C07', 'Year-on-year uncertainty is a correct, reproducible bootstrap interval',
     'The confidence interval of the year-on-year rate holds the requested central probability of the bootstrap '
     'distribution of the median slope, and the exceedance level is its requested '
     'upper quantile; interval widths nest with confidence level. The circular block '
     'method returns the interval of re-simulated series around the fitted trend, and its '
     'inapplicable settings or data are refused. Without uncertainty requested only the rate is returned.',
     ['inputs', 'configurations'], 'all series, confidence and exceedance levels, both bootstrap methods, block lengths, models',
     'Tests compare one seed-specific interval at loose tolerance.', [D, 'rdtools/bootstrap.py'],
     [('degradation_year_on_year', D), ('_make_time_series_bootstrap_samples / _construct_confidence_intervals', 'rdtools/bootstrap.py')],
     'generated series; exact distribution of the bootstrap median / independent block bootstrap, bands above 6 sigma',
     'Statistical oracle: deviations smaller than about 3 % of probability mass are not seen.')
prop('C08', 'Regression degradation is the OLS slope with its ratio confidence interval',
     'The regression-based rate is the ordinary least-squares slope over elapsed years divided by the '
     'intercept at the first time stamp, in percent per year, ignoring missing values; reported slope, intercept, their '
     'standard errors, RMSE and fit agree with that regression. The confidence '
     'interval holds the requested probability of the slope/intercept ratio. The rate is unit and time-zone independent.',
     ['inputs', 'configurations'], 'all series of any spacing incl. constant, with NaN; confidence levels',
     'One fixed example per frequency in the tests.', [D], [('degradation_ols / _degradation_CI', D)],
     'generated series vs closed-form regression; ratio-of-normals probability check',
     'Statistical band 3 % for the Monte Carlo interval.')
prop('C09', 'Classical decomposition regresses full-year averages and tests trend correctly',
     'Each moving-average value is the average over one full centred year and exists only '
     'where the data cover that year; the rate and interval are those of the regression on these '
     'averages. The Mann-Kendall verdict equals the textbook test with tie correction. '
     'Irregular or too short data are refused.',
     ['inputs', 'configurations'], 'regular series of 1-5 years, ties, NaN, daily to monthly steps',
     'One example per frequency in the tests; ties are never tested.', [D],
     [('degradation_classical_decomposition / _mk_test / _degradation_CI', D)],
     'generated series vs direct summation and definitional Mann-Kendall',
     'Generated-input search.')
prop('C10', 'Threshold filters keep exactly the points inside their bounds',
     'The normalized-energy, irradiance and cell-temperature filters keep exactly the '
     'points strictly between their bounds (none when the value is missing, unbounded sides '
     'unbounded), and the quantile-based clipping and insolation filters keep exactly the points '
     'below 99 % of, respectively at or above, the requested quantile. The mask has the index '
     'of the input.',
     ['inputs', 'configurations'], 'all values incl. exactly at bounds, NaN, infinities; all bounds and quantiles',
     'Tests check 3-6 fixed values per filter.', [F],
     [('normalized_filter, poa_filter, tcell_filter, quantile_clip_filter, insolation_filter', F)],
     'generated values biased to the bounds vs a pointwise model', 'Generated-input search.')
prop('C11', 'Outlier filters judge each point only by its own rolling window',
     'The two-way window, Hampel and directional Tukey filters keep a point exactly when it is '
     'within the stated distance of the statistics of its own rolling window (median '
     'change; median and scaled median deviation; quartile fences forwards and backwards), '
     'for every window length and threshold parameter.',
     ['inputs', 'configurations'], 'all series with spikes, shifts, gaps, NaN, constants; windows and thresholds',
     'Tests use one constant series with one outlier.', [F],
     [('two_way_window_filter, hampel_filter, directional_tukey_filter, _tukey_fence', F)],
     'generated series vs window-by-window reference', 'Verdicts within 1e-9 of a threshold are not judged.')
prop('C12', 'Logic clipping filter flags exactly the plateau bands it detects',
     'A point is flagged as clipped exactly when it lies within the clipping band of its own local '
     'calendar day, as established by flat stretches (relative range over the rolling window below the cutoff) '
     'of sufficiently high, non-frozen power, or above the overall clipping level when clipping is frequent; '
     'all other points, including missing ones, are kept on the original time stamps. This holds for every '
     'sampling rate, mounting type, cutoff and window length, does not depend on the unit of power, and '
     'unusable input (no time index, unsorted, ten or fewer readings, unknown mounting) is refused.',
     ['inputs', 'configurations'], 'multi-day power series of any step 1-60 min with clipped, clear, cloudy, frozen, missing days; all parameters',
     'Tests compare a few counts of flagged points on synthetic days.', [F],
     [('logic_clip_filter, clip_filter, _calculate_max_rolling_range, _apply_overall_clipping_threshold', F)],
     'generated plants vs an independent loop implementation of the published algorithm; unit metamorphic relation',
     'Cases in which a comparison is decided by under 1e-10 relative are skipped and counted.')
prop('C13', 'Model-based clipping filter applies the shipped classifier day by day',
     'The classifier-based clipping filter flags a point exactly when it lies in the band, near '
     'the top of its day, spanned by the points of that same day that the shipped classifier marks '
     'as clipping, the classifier being fed the documented features of the series; days without a '
     'marked point are left unflagged. The verdict is independent of the unit of power and of names.',
     ['inputs', 'configurations'], 'multi-day power series of any step 1-60 min; both mounting types',
     'Tests check counts on one synthetic series.', [F],
     [('xgboost_clip_filter, _calculate_xgboost_model_features', F)],
     'generated plants vs independently computed features fed to the same classifier file',
     'Trusts xgboost and the model file; days whose predictions flip under 1e-9 perturbation are not judged.')
prop('C14', 'Hour-angle filter selects by true solar time, independent of time zone',
     'The hour-angle filter keeps exactly the time stamps whose solar hour angle at the given '
     'longitude lies within the bounds, whatever the time zone or daylight-saving rules of the index.',
     ['inputs', 'configurations'], 'all instants, longitudes, zones, bounds',
     'The tests use a single day and location.', [F], [('hour_angle_filter', F)],
     'generated instants and zones vs an astronomical formula; ambiguity band 0.03 degrees',
     'Low-precision equation of time; verdicts close to a bound are not judged.')
prop('C15', 'Clear-sky filters pass exactly the clear points under the chosen criterion',
     'The clear-sky-index filter keeps a point exactly when measured over modelled irradiance '
     'deviates from one by at most the threshold; the detection-based filter passes '
     'the parameters given (or those looked up for the data frequency) unchanged to the detection algorithm and returns its verdict. '
     'The selector dispatches by name and refuses unknown names.',
     ['inputs', 'configurations'], 'all irradiance pairs, thresholds, detection parameters, frequencies 1-60 min',
     'Tests use a constant series.', [F],
     [('clearsky_filter, csi_filter, pvlib_clearsky_filter', F)],
     'generated irradiance vs pointwise model / direct call of the trusted detector',
     "pvlib's detect_clearsky is trusted.")
prop('C16', 'Robust statistics ignore only small values relative to the quantile',
     'The robust quantile, median and mean equal the plain statistic over exactly those values above '
     'one thousandth of the raw quantile (missing values counted as zero there and ignored afterwards), for every input.',
     ['inputs'], 'all non-negative series with zeros and NaN; all quantiles', 'Tests use one fixed series.', [U],
     [('robust_quantile, robust_median, robust_mean', U)], 'generated series vs sorted-list model',
     'Generated-input search.')

prop('C17', 'Clear-sky temperature is the local climatology with a solar-time daily wave',
     'For every instant and place the modelled ambient temperature is the smoothed monthly day/night '
     'climatology of the nearest pixel (wrapping at the date line, covering the poles), linearly '
     'interpolated in time, with a daily wave that peaks four hours after local solar noon; it does '
     'not depend on how densely the times are sampled or on the time zone rules. Places without data '
     'give missing values and a warning.',
     ['inputs', 'configurations'], 'all coordinates, zones incl. midnight clock changes, frequencies, window settings',
     'The tests need a data file the commit does not ship and check three places.', [CT],
     [('get_clearsky_tamb', CT)], 'generated times and places vs a climatology model on a synthetic grid',
     'The climatology file is replaced by an in-memory synthetic one of the same layout.')
prop('C18', 'Partial-outage loss follows the peer comparison at every instant',
     'At every instant the lost power from partial outages equals what the online subsystems, scaled by '
     'their relative sizes, imply is missing from the system power; it is zero when all subsystems are online, when none '
     'is, when the shortfall is too small to be explained by an offline subsystem, or when data '
     'are missing, and is never negative nor lifts the system above the given power limit.',
     ['inputs', 'configurations'], 'all plants of 1-5 subsystems, outage patterns, NaN, thresholds, sizes, limits',
     'Tests simulate a handful of parametrized outages.', [A],
     [('AvailabilityAnalysis._calc_loss_subsystem', A)],
     'generated plants vs an instant-by-instant model, plus ground truth on noiseless plants',
     'Instants decided by less than 1e-9 are not judged.')
prop('C19', 'Every system outage is found, classified and its energy accounted for',
     'A system outage is reported exactly for each maximal period, spanning adjacent nights, in which no subsystem reports '
     'during expected production; its interval counts, expected energy, metered energy and error bounds are '
     'those of the data, and it is a real outage exactly when the metered energy is below the lower '
     'bound (unknown if the meter is missing or lost count). The loss and corrected-production '
     'time series integrate to the reported loss and production of each outage.',
     ['inputs', 'histories', 'configurations'], 'all histories of real, communication and mixed outages incl. at the data ends; error quantiles',
     'Tests use single outages at fixed places.', [A],
     [('AvailabilityAnalysis._calc_error_distributions, _calc_loss_system', A)],
     'generated outage histories vs a loop model of detection, bounds and accounting',
     'Verdicts within 1e-9 of a bound are not judged.')
prop('C20', 'Availability roll-up conserves energy and is independent of units and zone',
     'For every roll-up period, lost production is the integral of total lost power and actual '
     'production the rise of the corrected cumulative energy since the end of the previous period, so periods add up to '
     'the totals of the data; availability is actual over actual plus lost. Scaling all power '
     'and energy inputs scales losses and leaves availability and outage types unchanged, and '
     'expressing the index in another time zone changes no loss.',
     ['inputs', 'configurations'], 'all plants, roll-up periods from hours to months, unit factors, zones',
     'Tests check one monthly roll-up.', [A], [('AvailabilityAnalysis._combine_losses, run', A)],
     'generated plants; calendar-bin model and unit/zone metamorphic relations', 'Generated-input search.')

S = 'rdtools/soiling.py'
prop('C21', 'SRR soiling intervals, rates and validity follow the documented rules',
     'For every daily history, intervals are split exactly at the detected cleaning events (median '
     'shift, precipitation, or their documented combinations) and at outages longer than the day '
     'scale; each rate is the Theil-Sen slope of its interval with its confidence limits, and an '
     'interval is valid exactly when it is long enough, not rising, precise enough and free of '
     'large negative steps. With no valid interval a dedicated error is raised. With recentering '
     'the results do not depend on the unit of performance or insolation.',
     ['inputs', 'configurations'], 'all daily histories with gaps, steps and rain, time zones, all options',
     'Tests use one synthetic year and a few options.', [S],
     [('SRRAnalysis._calc_daily_df', S), ('SRRAnalysis._calc_result_df', S), ('SRRAnalysis.run', S)],
     'generated daily histories; day-by-day reference model and unit metamorphic relation', 'Generated-input search.')
prop('C22', 'SRR random profiles and soiling ratios follow the chosen cleaning assumption',
     'In every random profile each valid interval declines linearly at a rate drawn uniformly '
     'within its limits, restarts at the level the cleaning method prescribes, and invalid '
     'intervals stay constant between their neighbours. The reported ratio, confidence interval '
     'and exceedance level are quantiles of the insolation-weighted means of exactly those '
     'profiles, and too many invalid days raise a warning when the method relies on valid ones.',
     ['inputs', 'configurations', 'random draws'], 'all daily histories, cleaning methods, repetition counts and levels',
     'Tests compare one seeded number.', [S], [('SRRAnalysis._calc_monte', S), ('SRRAnalysis.run', S)],
     'generated daily histories; per-profile decomposition, distribution tests and recomputed quantiles', 'Generated-input search.')
prop('C23', 'Annual soiling ratios and monthly soiling rates summarise exactly their inputs',
     'Annual ratios are, for each calendar year, quantiles over profiles of the insolation-weighted '
     'mean on days all profiles cover, with a warning when insolation is missing. Monthly rates are '
     'quantiles of the uniform rate ranges of the intervals that are valid, long and precise enough, '
     'weighted by their days in that month; months without intervals are NaN, and counts are exact.',
     ['inputs'], 'all profile sets, insolation extents and interval tables',
     'Tests fix one profile set and one table.', [S],
     [('annual_soiling_ratios', S), ('monthly_soiling_rates', S)],
     'generated profiles and interval tables; direct recomputation and exact mixture quantiles', 'Generated-input search.')

prop('C24', 'CODS components multiply to the model and bootstrap results summarise its fits',
     'For every decomposition the model is the product of soiling ratio, season, trend and residual '
     'shift, and residuals, RMSE, soiling loss, trend, stationarity test and small-signal flag agree with it; known '
     'signals are recovered within wide limits. The bootstrap tries all combinations of model '
     'alternatives, starts from the best fit and reports weighted means and quantiles over exactly '
     'the usable bootstrap fits, tolerates fits that fail, falls back to year-on-year degradation when soiling is small and rejects '
     'data that is not decomposable.',
     ['inputs', 'configurations', 'injected fit failures'], 'all daily histories of two or more years, options, sets of component fits',
     'Tests pin numbers for one data set.', [S],
     [('CODSAnalysis.iterative_signal_decomposition', S), ('CODSAnalysis.run_bootstrap', S), ('soiling_cods', S)],
     'generated histories and generated component fits; algebraic identities, recovery of known signals and recomputed aggregation', 'Generated-input search; the Kalman filter itself is judged by identities and recovery only.')

T = 'rdtools/analysis_chains.py'
prop('C25', 'Sensor analysis is exactly the documented chain of steps on the given data',
     'For every combination of inputs, interpolation, models and filter settings, the sensor analysis '
     'interpolates, computes cell temperature, normalizes, applies exactly the configured filters and their '
     'conjunction, aggregates weighted by insolation, filters the aggregate and runs the requested analyses '
     'with the given options. Every filter component and aggregated result equals the steps applied one by one, '
     'a missing ad hoc value excludes and an unmentioned stamp keeps (each with a warning), the unit of '
     'the PV data cancels, and missing inputs are refused.',
     ['inputs', 'configurations'], 'all plants, input types, temperature and power models, filter settings and aggregation frequencies',
     'Tests exercise each option once on one file.', [T],
     [('TrendAnalysis._sensor_preprocess', T), ('TrendAnalysis._filter', T), ('TrendAnalysis._aggregate', T), ('TrendAnalysis.sensor_analysis', T)],
     'generated plants and configurations; written-out workflow as reference model, unit metamorphic relation', 'Generated-input search; the single steps are judged by the other properties.')
prop('C26', 'Clear-sky analysis is exactly the documented chain on modelled irradiance',
     'For every combination of inputs the clear-sky analysis uses the given or modelled clear-sky irradiance '
     'and temperatures (rescaled to the sensor where a sensor exists), then normalizes, filters, '
     'aggregates and analyses like the sensor chain with that irradiance and temperature. '
     'A constant series of tilt, azimuth or albedo means the same as the number, and which analyses were run '
     'before on the same object does not change the result.',
     ['inputs', 'configurations', 'operation sequences'], 'all plants, sites, clear-sky inputs, filter settings and orders of analyses',
     'Tests exercise one plant and site.', [T],
     [('TrendAnalysis._clearsky_preprocess', T), ('TrendAnalysis._calc_clearsky_poa', T), ('TrendAnalysis._calc_clearsky_tamb', T), ('TrendAnalysis.clearsky_analysis', T)],
     'generated plants and configurations; written-out workflow as reference model, metamorphic relations', 'Generated-input search; the single steps are judged by the other properties.')

prop('C27', 'Filter settings accept exactly the documented filters and apply exactly those',
     'After any sequence of assignments and dictionary operations on the filter settings of any number of '
     'analysis objects, each object holds what a plain dictionary restricted to the documented filter '
     'names would hold: unknown names are refused with KeyError and things that are no dictionary '
     'with ValueError, a refused operation changes nothing, and copies, pickles, other objects and the '
     'dictionary the caller assigned stay independent. An analysis applies exactly the configured filters (the '
     'clear-sky and sensor-clear-sky filters only in their own analysis) and keeps what all of them keep.',
     ['operation sequences'], 'all sequences of operations with valid and invalid names on all forms of input',
     'Tests try single operations with one name.', [T],
     [('TrendAnalysis.filter_params', T), ('ValidatedFilterDict', T), ('TrendAnalysis._filter', T), ('TrendAnalysis._aggregated_filter', T)],
     'stateful model-based generation against plain dictionaries', 'Generated-history search.')

ALL = ['rdtools/normalization.py', 'rdtools/filtering.py', 'rdtools/aggregation.py', 'rdtools/degradation.py',
       'rdtools/soiling.py', 'rdtools/availability.py', 'rdtools/clearsky_temperature.py', 'rdtools/utilities.py',
       'rdtools/plotting.py', T]
prop('C28', 'No call modifies the data, options or index objects the caller passed in',
     'Whatever public function, analysis object or plot is called, and whether it succeeds or raises, all series, '
     'frames, indexes, dictionaries and other arguments are afterwards bit for bit what they were: values, '
     'dtypes, names, index frequency and attributes.',
     ['inputs', 'configurations'], 'all public functions, analysis objects and plots on all data',
     'Tests look at results, not at what happened to the arguments.', ALL,
     [('every public function', 'rdtools'), ('TrendAnalysis', T), ('AvailabilityAnalysis', 'rdtools/availability.py'), ('SRRAnalysis, CODSAnalysis', S)],
     'generated calls of every public function; bit-exact snapshots of all arguments as oracle', 'Generated-input search.')
prop('C29', 'Results depend only on the arguments and the random seed, never on history',
     'A call gives bit for bit the same result in a new process as after any sequence of other calls, on a new '
     'analysis object as on one that was run before with other options, and under any time zone, hash seed and '
     'working directory of the machine; random methods are reproduced by setting the seed. Calls change neither '
     'global settings (warnings filters, pandas, numpy and plot settings, environment) nor, when they are deterministic, the '
     'global random state.',
     ['operation sequences', 'environments'], 'all sequences of calls, analysis-object histories and process environments',
     'Tests call each function once in a fixed order.', ALL,
     [('every public function', 'rdtools'), ('TrendAnalysis', T), ('AvailabilityAnalysis.run', 'rdtools/availability.py'), ('SRRAnalysis.run', S), ('CODSAnalysis', S)],
     'generated call and object histories; differential against a pristine process or new object', 'Generated-history search.')

PL = 'rdtools/plotting.py'
prop('C30', 'Figures show exactly the data and results they are given',
     'Every plot draws each given point, line, profile, histogram count, rate, interval and outage at its true place '
     'with the given display options: the trend line starts at 1 and has the reported slope, counts add up to the '
     'slopes or valid intervals, rolling medians and their 95 % band belong to the stated window, points '
     'are coloured by their mask or usage, and outage curves and error bars match the outage table. '
     'The plot methods of the analysis object show the results of the analysis asked for and refuse any other.',
     ['inputs', 'configurations'], 'all results, data and display options',
     'Tests only check that a figure comes back.', [PL, T, 'rdtools/availability.py'],
     [('degradation_summary_plots', PL), ('degradation_timeseries_plot', PL), ('soiling_monte_carlo_plot', PL), ('soiling_rate_histogram', PL), ('tune_filter_plot', PL), ('availability_summary_plots', PL), ('TrendAnalysis.plot_*', T)],
     'generated results and options; artists read back and compared with the data', 'Generated-input search; rendering itself is trusted.')

prop('C31', 'Malformed requests are refused and well-formed ones are answered',
     'Options with a fixed set of values accept exactly those, and inputs that a method cannot use are refused '
     'with an error of the documented kind wherever the flaw lies: mismatched indexes or time zones, missing, '
     'unsorted or irregular stamps where regular data is required, too little data, wrong index types, unknown cases and '
     'analyses that have not been run. The same call without the flaw is answered.',
     ['inputs', 'injected faults'], 'all well-formed calls and all single corruptions of them',
     'Tests corrupt one place per check.', ALL,
     [('interpolate', 'rdtools/normalization.py'), ('energy_from_power', 'rdtools/normalization.py'), ('_format_clipping_time_series', 'rdtools/filtering.py'), ('degradation_year_on_year', 'rdtools/degradation.py'), ('SRRAnalysis', S), ('AvailabilityAnalysis', 'rdtools/availability.py')],
     'generated calls and injected faults; error kind as oracle, with the flawless twin', 'Generated-input search.')

prop('C32', 'Data-quality warnings come exactly when their condition holds',
     'Each advisory warning appears in every case where its documented condition holds and in no other: irregular '
     'sampling and naive time stamps in the clipping filters, the excluded share of an interpolation, a missing temperature '
     'coefficient, incomplete ad hoc filters or a given model power in a trend analysis, an even day scale, a large share of '
     'invalid days or days without insolation in the soiling analysis, and irregular times or missing values in the '
     'clear-sky temperature. A user can trust silence as well as a warning.',
     ['inputs', 'configurations'], 'all inputs on either side of each limit',
     'Tests look for one warning in one case, and none looks for its absence.', ALL,
     [('_format_clipping_time_series', 'rdtools/filtering.py'), ('interpolate', 'rdtools/normalization.py'), ('TrendAnalysis', 'rdtools/analysis_chains.py'), ('SRRAnalysis', S), ('get_clearsky_tamb', 'rdtools/clearsky_temperature.py')],
     'generated inputs on both sides of each limit; the stated condition as oracle for presence and absence', 'Generated-input search.')

prop('C33', 'Equal data give equal results, however they are represented',
     'The result of every function and analysis depends on the data it is given and not on how they are stored: the '
     'resolution of the time stamps (seconds to nanoseconds), the names of series and indexes, the library the time '
     'zone object comes from, integers or floats of the same value, and writable or read-only memory change neither '
     'the numbers and time stamps that are returned nor whether the call is answered.',
     ['inputs', 'configurations'], 'all calls and all representations of their data',
     'Tests build their data in one way: nanosecond stamps, floats, no special names.', ALL,
     [('energy_from_power', 'rdtools/normalization.py'), ('interpolate', 'rdtools/normalization.py'), ('logic_clip_filter', 'rdtools/filtering.py'), ('degradation_year_on_year', 'rdtools/degradation.py'), ('TrendAnalysis', 'rdtools/analysis_chains.py')],
     'generated calls; metamorphic relation between representations of the same data', 'Generated-input search.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            anchors = dict(files=p['files'],
                           mechanism=[dict(name=a, where=b) for a, b in p['mech']])
            if p['state']:
                anchors['state'] = p['state']
            if p['observe']:
                anchors['observe_at'] = p['observe']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['why'], anchors=anchors)) + '\n')
    m = dict(version=1, setup_cmd='bash setup.sh', checks=[dict(
        property=p['id'], quick_cmd=f"bash check.sh {p['id']}",
        thorough_cmd=f"bash check.sh {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json", technique='property-based testing: ' + p['technique'],
        level='exploration', level_note=p['note']) for p in P], not_applicable=NA)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


NA = []
if __name__ == '__main__':
    main()
