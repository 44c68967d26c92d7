"""Source of properties.jsonl (python3 meta/gen.py writes it)."""
P = []


def prop(id, title, statement, over, text, why, files, state, mechanism, observe):
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over.split(), 'text': ' '.join(text.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': files.split(), 'state': state, 'mechanism': mechanism,
                          'observe_at': observe, 'hook_needed': False}})


prop('C01', 'A deck hands out each report exactly once, under its own identifier',
     '''Whatever additions, sorts, removals, flag changes, filter changes and splits were applied to a collection of reports, asking it for its platforms
     yields every report that it currently holds and that passes the current filter exactly once, in the group of its own identifier and in collection
     order, and nothing else. Sorting only permutes the reports, by identifier and, for those with a time, then by time; removing takes out exactly the
     report asked for. Splitting by a filter divides all reports into those that meet every condition of the filter and those that do not, in their
     original order, and empties the collection.''',
     'histories inputs', '''Every finite sequence of add, sort, remove, set flag, set flag on all, set filter and split on a
     collection, with any identifiers (also repeated, empty, interleaved) and any known or unknown times.''',
     '''Tests build one collection by additions and look once; they never sort or remove and then ask for the platforms, which
     is where the index from identifiers to positions can go stale.''',
     'Extended_IMMA.py', ['reports held, in order', 'identifier index', 'filter', 'flags of each report'],
     ['Deck.append/sort/pop/index_by_id/get_one_platform_at_a_time', 'QC_filter.split_reports'],
     ['platforms yielded', 'order of the reports', 'results of split'])

prop('C02', 'Quality flags read back what was last set, and filters test exactly that',
     '''A flag that was never set reads as 9, and otherwise reads as the last value set for exactly that type and name on exactly
     that report, whichever way it was set (on the report, through its voyage or for a whole collection). A value outside 0 to 9 or a type that is
     not a known variable or check area is refused and changes nothing. A report passes a filter exactly
     when each of its conditions equals the current flag value (an empty filter passes everything).''',
     'histories inputs', 'Every sequence of set, bulk set, rejected set and read operations over several reports, types and names.',
     '''Tests set single flags on single reports and never mix rejected sets, several reports, bulk sets and multi-condition filters.''',
     'Extended_IMMA.py', ['flag store of each report', 'filter conditions'],
     ['MarineReport.set_qc/get_qc', 'Voyage.set_qc/get_qc', 'Deck.set_qc', 'QC_filter.add_qc_filter/test_report'],
     ['value read', 'exception on a bad set', 'filter result'])

prop('C03', 'A report always knows its current time, and reports order by it',
     '''After any sequence of changes to the year, month, day and hour of a report, its date-time is exactly the one those fields give, to the minute (rounded
     down), and it has none when any of them is missing or they name no real date or time of day. Reports compare by identifier first and then by time
     (those without one coming first); two are equal exactly when identifier and date-time are, and a later report of the same identifier is the greater.
     Building a report from a record with an impossible month, day or hour never fails.''',
     'histories inputs', 'Every sequence of field updates with present, missing and impossible values, and every pair of resulting reports.',
     '''Tests change the hour or day of one valid report; month changes, impossible values and mixed orders are never reached.''',
     'Extended_IMMA.py', ['year, month, day, hour and derived date-time of a report'],
     ['MarineReport.setvar/calculate_dt', 'MarineReport comparison operators', 'do_fix_missing_hour'],
     ['dt', 'comparison results'])

prop('C04', 'Voyage speeds, distances and intervals always describe neighbouring reports',
     '''At every moment, after any sequence of additions and sorts, each report of a voyage but the first carries the distance, elapsed hours, initial course
     and speed from the report just before it in the voyage, and the first carries none. The speed is distance over elapsed hours, and equals the distance
     (with zero elapsed) when no time elapsed or either report has no real date and time. The alternate values of an inner report are those from its
     predecessor to its successor, endpoints have none, and the mean speed is the mean over all reports but the first.''',
     'histories inputs', 'Every sequence of additions, sorts and recalculations with reports in any time order, including equal times and stationary platforms.',
     '''Tests add reports in time order and never look at derived values after a sort that moves the first report.''',
     'Extended_IMMA.py', ['ordered reports', 'derived speed, distance, course and interval'],
     ['Voyage.add_report/sort/calc_alternate_speeds/meansp', 'MarineReport.__sub__'],
     ['derived values of each report'])

prop('C05', 'Position, date and time checks flag exactly the impossible',
     '''A position is flagged exactly when latitude is outside -90 to 90 or longitude outside -180 to 360; a date exactly when the day is missing, the year is
     outside 1850 to 2024, or month and day name no day of that year; a time exactly when the hour is missing or not in [0, 24). No value of these fields
     (position, year and month being present) makes the checks, or the day check that depends on them, fail. The day flag is raised whenever one of the
     three is.''',
     'inputs', 'All latitudes, longitudes, years, months, days and hours, missing, in range, on every border and far outside.',
     'Tests sample a few values of each check and no month above 12.',
     'qc.py Extended_IMMA.py', ['position, date, hour of a report', 'POS flags'],
     ['qc.position_check', 'qc.date_check', 'qc.time_check', 'MarineReportQC.do_*_check'], ['flags'])

prop('C06', 'Source blacklists exclude exactly the documented reports',
     '''A report is blacklisted exactly when it is at 0N 0E, from a C-MAN station, named SUPERIGORINA, from a listed drifter in its listed months, from deck 874, or from deck 732 in one of
     the listed region-years, whichever of the two longitude conventions it uses. The wind, humidity and air-temperature exclusion flags and the
     buoy, drifter, ship and deck-780 markers depend in the documented way on deck, platform type, year and region only.''',
     'inputs', 'Every combination of identifier, deck, platform type, year, month and position (both longitude conventions), with missing values.',
     'Tests sample a few rows of the region-year table and no borders.',
     'qc.py Extended_IMMA.py', ['identifier, deck, platform type, date and position of a report'],
     ['qc.blacklist', 'MarineReportQC.wind_blacklist/humidity_blacklist/mat_blacklist/is_buoy/is_ship/is_deck_780'], ['flags'])

prop('C07', 'Single-value checks flag exactly what their limits say, and missing fails',
     '''A hard-limit check passes exactly values within the limits inclusive; a climatology check fails exactly when the absolute anomaly exceeds the limit (for the
     standardised forms, the anomaly over the standard deviation, clamped to its limits, or both that and the low bar); a missing value, norm or deviation fails. Supersaturation fails
     when the dew point exceeds the air temperature or either is missing, freezing only when the value is below freezing by more than n uncertainties, and wind consistency only for calm with speed or variable direction with
     speed over the limit.''',
     'inputs', 'All values, norms, deviations and limits on a 0.01 lattice, at and around each threshold, and missing in each place.',
     'Tests sample each check at a handful of points, mostly away from the thresholds.',
     'qc.py', ['value, norm, standard deviation, limits'], ['qc.value_check', 'qc.climatology_check', 'qc.climatology_plus_stdev_check',
     'qc.climatology_plus_stdev_with_lowbar', 'qc.hard_limit', 'qc.supersat_check', 'qc.sst_freeze_check', 'qc.no_normal_check', 'qc.wind_consistency'], ['returned flag'])

prop('C08', 'Base quality control sets every flag of a report from that report alone',
     '''Running the base quality control on a report, alone or for a single variable, sets each of its flags to the result of the corresponding single check on the matching
     value, norm, deviation and limits of that report, and raises the dew-point hard-limit flag when any humidity-related value is missing or outside its limits. Repeating it changes nothing, and no
     other field changes, except that a missing hour of deck 701 before 1860 becomes 0.''',
     'inputs', 'All reports, with any fields missing or out of range, any norms attached, and any parameter set.',
     'No test runs the base quality control of a report as a whole.',
     'Extended_IMMA.py qc.py', ['fields, norms and flags of a report', 'parameters'],
     ['MarineReportQC.perform_base_qc and the per-variable variants', 'do_base_*', 'do_kate_mat_qc', 'do_fix_missing_hour'], ['flags after the run'])

prop('C09', 'Calendar arithmetic is exact and consistent',
     '''Day-of-year, pentad, season, month length, previous day, neighbouring months and iteration over an interval of months agree with the Gregorian
     calendar (29 February sharing the pentad and climatological day of 1 March), mapping a pentad to its first day and back is the identity, and every day
     belongs to exactly one of 73 pentads; an interval of months that ends before it starts has none and does not go on for ever. The time between two reports is the exact difference in hours, antisymmetric and additive, also across month,
     year, leap-day and century borders, and is unknown exactly when an hour is.''',
     'inputs', 'Every calendar day 1850 to 2024 (and century years), every pair of dates in boundary sets, every month interval.',
     'Tests sample a few dates of one leap and one ordinary year.',
     'qc.py', ['dates'], ['qc.month_match', 'qc.yesterday', 'qc.season', 'qc.pentad_to_month_day', 'qc.which_pentad', 'qc.day_in_year', 'qc.dayinyear', 'qc.jul_day',
     'qc.time_difference', 'qc.last_month_was', 'qc.next_month_is', 'qc.year_month_gen', 'qc.get_month_lengths'], ['returned values'])

prop('C10', 'Every position falls in exactly one grid cell, the one that contains it',
     '''For every latitude and longitude, and for every resolution, the grid indices are within the grid and the cell they name contains the position,
     positions on a border going to the documented side; an index maps to the centre of its cell and back to itself. Both row conventions (north-first, and
     the south-first one for longitudes -180 to 180) obey this, and longitudes that differ by a full turn name the same cell. The four grid points
     surrounding a position are the corners of the centre-to-centre box that contains it, across the dateline and up to the poles.''',
     'inputs', 'All positions on a fine lattice including every border, centre, pole and dateline point, longitudes -180 to 360, several resolutions.',
     'Tests sample some positions at one resolution.',
     'qc.py', ['position', 'resolution'], ['qc.lat_to_yindex', 'qc.mds_lat_to_yindex', 'qc.lon_to_xindex', 'qc.mds_lon_to_xindex', 'qc.yindex_to_lat', 'qc.xindex_to_lon', 'qc.get_four_surrounding_points'],
     ['indices', 'corner points'])

prop('C11', 'Climatology lookup returns the value of the right cell and day, or nothing',
     '''A climatology gives, for any position and date, the value stored for the cell that contains the position and for the time slice (annual, pentad or day
     of year) that contains the date; it gives no value for a masked cell or an impossible date. The same holds whatever the latitude order, longitude
     origin (up to one degree) and level dimension of the file it was read from, and for single one-degree fields whatever the order of latitude and
     longitude. Retrieving a field from a library of climatologies gives the field stored last under that variable and statistic.''',
     'inputs configurations', 'All cells and time slices of small and full-size climatologies in every file layout, with any mask.',
     'Tests that read files need data that is not there; the others use one constant field.',
     'Climatology.py Extended_IMMA.py qc.py', ['field, mask, number of time slices'], ['Climatology.from_filename/get_value/get_tindex', 'ClimatologyLibrary'], ['returned value'])

prop('C12', 'Interpolation stays between its corners and meets them exactly',
     '''Interpolating inside a box gives the corner value at each corner, a value between the smallest and largest corner everywhere else, and the exact value for any field linear in
     each coordinate. Missing corners are filled only from present corners, by their averages in the documented order, and the result is missing exactly when all corners are.
     Interpolated climatology lookups use the four points around the position.''',
     'inputs', 'All corner values and missing patterns and all interior points on a lattice.',
     'Tests sample a few constant or simple fields and three of the sixteen missing patterns.',
     'qc.py Climatology.py', ['corner values', 'position in the box'], ['qc.bilinear_interp', 'qc.missing_mean', 'qc.fill_missing_vals', 'Climatology.get_interpolated_value', 'qc.get_clim_interpolated'], ['interpolated value'])

prop('C13', 'Buddy comparison uses exactly the neighbours within the search box',
     '''Adding reports to the comparison grid puts each in the cell of its position and pentad, a cell holds the mean anomaly and the number of its reports,
     and the neighbours of a cell are the other occupied cells within the given number of rows, (latitude-widened) columns and pentads, wrapping at the
     dateline and the turn of the year but not over the poles, each once. The buddy mean is the mean of neighbour values of the first search box of the
     list that holds any, and the buddy limit is the local standard deviation times the multiplier for the number of observations found; with none it is
     the fall-back of no rejection.''',
     'inputs histories', 'All placements of reports in the grid, including around the dateline, near the poles and at the turn of the year, all multiplier tables.',
     'Tests use a few reports in neighbouring cells near the equator.',
     'Extended_IMMA.py', ['grid of sums, counts, buddy means and limits'], ['Np_Super_Ob.add_rep/take_average/get_neighbour_anomalies/get_buddy_limits_with_parameters/get_buddy_limits', 'get_threshold_multiplier'],
     ['neighbour lists', 'buddy mean and limit'])

prop('C14', 'The buddy check rejects exactly the outliers among eligible reports',
     '''Exactly the reports that pass the filter (and have an anomaly) take part in the buddy check: such a report is flagged when its anomaly differs from
     the mean of its neighbours by at least the buddy limit, and is otherwise cleared, and a report that does not pass the filter is always cleared and
     never influences another. The outcome does not depend on the order of the reports.''',
     'inputs histories', 'All small sets of reports, filters, orders and standard-deviation fields.',
     'Tests run one report cluster with no filter.',
     'Extended_IMMA.py', ['reports, filter, limits'], ['Deck.mds_buddy_check'], ['buddy flag of each report'])

prop('C15', 'The Bayesian buddy flag is the decile of a valid posterior probability',
     '''For priors above 0, the posterior probability of gross error lies in [0, 1], grows with the distance of a report from its neighbours, does not shrink
     when the prior grows, and follows Bayes' rule on the given prior and likelihoods. The Bayesian buddy flag of an eligible report is that probability in
     tenths, rounded down and at most 9, using the mean and combined uncertainty of its neighbours; a report that does not pass the filter has flag 0 and
     never influences another.''',
     'inputs', 'All priors, quantisation steps, limits, values and neighbour means on a lattice; small sets of reports.',
     'Tests sample a few probabilities and one deck.',
     'qc.py Extended_IMMA.py', ['prior, likelihoods', 'grid'], ['qc.p_gross', 'qc.p_data_given_good', 'qc.p_data_given_gross', 'Np_Super_Ob.get_new_buddy_limits', 'Deck.bayesian_buddy_check'], ['probability', 'flag'])

prop('C16', 'The IQUAM track check removes the fewest-compatible reports until all agree',
     '''For a ship or buoy track the IQUAM check counts for each report the others within the neighbour window with which it is incompatible (excess distance
     over time plus tolerances above the platform speed limit), repeatedly removes the report with the most (the first of equals), and flags exactly the
     removed ones. Afterwards no two unflagged reports in a window are incompatible. Generic identifiers are never flagged, and the platform type of the
     first report decides between the ship and the buoy limit.''',
     'inputs histories', 'All tracks of up to a few dozen reports with any positions, times and platform types.',
     'Tests use one straight track with one or two outliers.',
     'Extended_IMMA.py', ['positions, times, platform type'], ['Voyage.iquam_track_check'], ['iquam_track flags'])

prop('C17', 'The spike check removes the steepest outliers until none is left',
     '''The spike check flags exactly the reports removed by repeatedly taking the report with the most neighbours, within the window, whose value differs by
     more than the largest of the fixed, distance and time allowances (the first of equals). Afterwards no two unflagged reports in a window differ by more
     than their allowance. Reports without a value are never flagged and never make another one flagged.''',
     'inputs histories', 'All tracks of up to a few dozen reports with any values, positions, times and platform types.',
     'Tests use one track with one spike.',
     'Extended_IMMA.py', ['values, positions, times'], ['Voyage.spike_check'], ['spike flags'])

prop('C18', 'The ship track check flags exactly the reports that break its rules',
     '''The track check of a ship whose reports are in time order flags an inner report exactly when it fails the documented combination of speed, direction,
     distance-from-estimate and position tests against its neighbours; the two end reports are never flagged. Tracks with fewer than three reports are
     marked as too few (with the documented exception), and generic identifiers and buoys pass freely. The ship speed limits follow from the modal speed of
     the track.''',
     'inputs histories', 'All tracks with positions on a meridian or parallel, any times, courses and speeds.',
     'Tests use one straight track with one displaced report.',
     'Extended_IMMA.py track_check.py', ['positions, times, reported courses and speeds'], ['Voyage.track_check', 'track_check.*', 'Voyage.distr1/distr2/midpt'], ['trk and few flags'])

prop('C19', 'Repeated, rounded and saturated value checks flag exactly the excess',
     '''Repeated-value flags are raised for exactly the reports of each value whose share, among more than the minimum number of values, exceeds its
     threshold, rounding flags for exactly the whole-number values when their share reaches it, and saturation flags for exactly the reports in unbroken
     runs of saturated air longer than the shortest allowed run and lasting at least the minimum time. Every other report is cleared, and missing values
     neither count nor are flagged.''',
     'inputs histories', 'All sequences of present, missing, repeated, rounded and saturated values of any length with any thresholds.',
     'Tests use a few sequences; runs at the end of a voyage and shares exactly at a threshold are not reached.',
     'Extended_IMMA.py', ['values in voyage order'], ['Voyage.find_repeated_values/find_multiple_rounded_values/find_saturated_runs'], ['rep, round, repsat flags'])

prop('C20', 'Day or night is decided by where the sun was the given time ago',
     '''The day test says day exactly when the sun was above the given elevation at the place of the report the stated number of hours (0 to 24) before its
     time, across midnight, month, year and leap-day borders and at every longitude. The sun elevation and, away from the poles, azimuth follow the
     calendar date, time and position (to a twentieth of a degree): highest near local noon, polar day and night beyond the polar circles in the proper
     season, and independent of longitude convention. Missing or impossible dates, times and positions are refused.''',
     'inputs', 'Every date, hour and position on a coarse lattice, all border instants.',
     'Tests sample a few places and dates.',
     'qc.py', ['date, time, position'], ['qc.day_test', 'qc.sunangle', 'qc.dayinyear'], ['day flag', 'sun angles'])

prop('C21', 'Aground checks flag exactly the final stretch in which a drifter did not move',
     '''The drifter aground checks flag exactly the last unbroken run of still positions that reaches the last position that can be assessed - positions being
     smoothed, and still when they stay within the tolerance circle for at least the minimum (and, in the older form, at most the maximum) window - and
     clear all others. A drifter still moving at its end, or too short, is not flagged at all, and times that do not increase or bad windows are refused.''',
     'inputs histories', 'All drifter tracks on a lattice of positions and times of up to a few dozen reports, all window settings.',
     'Tests use about a dozen tracks with one parameter set.',
     'trackqc.py', ['positions and times in order'], ['trackqc.aground_check', 'trackqc.new_aground_check'], ['drf_agr flags'])

prop('C22', 'Drifter speed checks flag exactly the windows of excessive speed',
     '''The drifter speed check flags exactly the reports inside a stretch whose end-to-end speed is above the limit, where the stretch from a report goes to
     the last report within the maximum window if that is at least the minimum window later (older form) or to the first report at least the minimum window
     later (newer form), and clears all others. The newer form sets aside reports that fail the track consistency check before and leaves earlier track
     flags as they were. Positions or times that are missing or out of order are refused.''',
     'inputs histories', 'All drifter tracks on a lattice of positions and times of up to a few dozen reports, all window settings.',
     'Tests use about a dozen tracks with one parameter set.',
     'trackqc.py', ['positions and times in order'], ['trackqc.speed_check', 'trackqc.new_speed_check'], ['drf_spd flags'])

prop('C23', 'The sea-temperature tail check flags only consistent bad starts and ends',
     '''The tail check flags only reports in an unbroken bad stretch at the start or at the end of a drifter record, found by the long window and then
     extended by the short window against a matched background, and never flags a report between good stretches. Reports that cannot be assessed (daytime,
     ice, no background) are left out of the evaluation, and an unreliable background value stops the check. Every other report is cleared.''',
     'inputs histories', 'All drifter records of anomalies, background errors and eligibility on a lattice, all window settings.',
     'Tests use about twenty records with one parameter set.',
     'trackqc.py', ['anomaly and error series'], ['trackqc.sst_tail_check'], ['drf_tail1 and drf_tail2 flags'])

prop('C24', 'Biased, noisy and short drifter records are flagged as a whole, and correctly',
     '''A drifter record that is long enough is flagged biased exactly when its mean background difference exceeds the limit and noisy exactly when its
     scatter exceeds the limit implied by the background errors; a record that is too short is flagged short exactly when it holds at least the allowed
     number of gross outliers and none of its background values was unreliable. All reports of the record get the same flags, and a record without usable
     reports gets none.''',
     'inputs histories', 'All drifter records of anomalies, background errors and eligibility on a lattice, all limits.',
     'Tests use about fifteen records with one parameter set.',
     'trackqc.py', ['anomaly and error series'], ['trackqc.sst_biased_noisy_check'], ['drf_bias, drf_noise, drf_short flags'])

prop('C25', 'Drifter records are cut into chunks that cover every month once',
     '''For any history of months with and without reports, the chunks cover every month that has reports in exactly one chunk, break exactly at silences of
     at least the given gap (of one month or more), and start and end at months with reports. A chunk is classed as touching the start or end of the
     record, as new, or as regular by its position only.''',
     'histories inputs', 'All month-count histories of up to a few years with gaps of any length, all allowed gaps.',
     'Tests use a few histories with one gap.',
     'YMCounter.py', ['count per month'], ['YMCounter.setym/get_chunks/yield_start_and_end_dates'], ['chunks and their classes'])

prop('C26', 'The tracking job driver submits each drifter chunk exactly once',
     '''From the monthly identifier lists, in whatever order their identifiers come, the tracking driver submits exactly one job per chunk of each drifter
     selected by the chosen mode (all, standard, new or noend), with the first and last month of that chunk and its classes. It submits nothing else, and
     nothing while more than 250 jobs are queued, and loses none when the queue is full.''',
     'histories configurations fault_sequences', 'All small sets of monthly identifier lists, all modes and queue states.',
     'No test runs the driver.',
     'Tracking_QC_wrapper.py YMCounter.py', ['monthly identifier lists', 'submitted jobs'], ['Tracking_QC_wrapper main and write_submission'], ['submitted jobs'])

prop('C27', 'IMMA records survive decoding and encoding field by field',
     '''Decoding an IMMA line gives each field of the core and of each attachment the value in its documented columns, scaled as documented, with blank fields
     missing; a malformed numeric field or unknown attachment header makes the record refused and never shifts or corrupts another field. Encoding a
     record, with any subset of the attachments that do not share field names, each at most once and in any order, and decoding the result gives the same
     values for every field whose value fits its width.''',
     'inputs', 'All records over the documented field tables, with any fields missing, any order and subset of attachments, negative and extreme values.',
     'No test covers reading or writing of records.',
     'IMMA1.py', ['fields and attachments of a record'], ['IMMA.readstr/read/decode/encode/write'], ['field values', 'encoded text'])

prop('C28', 'Each output file holds every report of its month once, with its own flags',
     '''Writing out a collection or voyage for a month writes to every output file one line per report of that month, in order, under a header naming its
     columns, each with the unique identifier, values and current flags of that report; missing values are written as missing. No report of another month
     is written, all files line up line by line, and file names never contain path separators or wildcards from an identifier.''',
     'inputs histories', 'All collections of reports over several months with any values, flags and identifiers.',
     'No test reads an output file back.',
     'Extended_IMMA.py', ['reports, flags, requested month'], ['Deck.write_output/write_qc/write_min_output', 'Voyage.write_output/write_tracking_output', 'MarineReport.print_*', 'safe_filename'], ['files written'])

prop('C29', 'Input files are found by date template, and bad-identifier lists read exactly',
     '''A background field is looked up under each directory and name template in order with year, month and day filled in, packed ones being unpacked into
     the scratch space; the first template that has a (non-empty) file wins, and nothing is returned when none has. A packed field is unpacked whole or not
     at all, whatever other programs, failures or kills come in between, and fields of the same name from different directories are kept apart. Input file
     names follow the documented release by period, and an identifier is excluded exactly when its nine-character form is on the list.''',
     'configurations inputs', 'All dates, template lists and sets of existing files.',
     'Tests cover template filling and one missing file.',
     'BackgroundField.py', ['files present', 'templates'], ['BackgroundField.get_background_filename/process_string/icoads_filename/icoads_filename_from_stub/process_bad_id_file'], ['file name returned', 'scratch files'])

prop('C30', 'Great-circle geometry obeys its laws',
     '''Distances are non-negative, symmetric, zero exactly for equal places, at most half the circumference, additive along a great circle and independent of
     the longitude convention, and match arc length along meridians and the equator. Going from a point (not a pole) by a distance on a bearing arrives at
     that distance, at a longitude between -180 and 180, and reverses; the course from one point to another is between 0 and 360 and along a meridian or
     the equator is the compass direction. An intermediate point divides the path in the given fraction.''',
     'inputs', 'All point pairs on a lattice of meridians, equator, poles and dateline, and random pairs.',
     'Tests sample some pairs.',
     'spherical_geometry.py', ['pairs of points'], ['spherical_geometry.*'], ['distances, courses, points'])

prop('C31', 'Humidity variables are present together, ordered and consistent',
     '''The derived humidity quantities of a report are all missing when air temperature, dew point or the pressure norm is, or when relative humidity is
     below 0 or over 150, and otherwise all present. Saturated air has 100 percent relative humidity and no dew point depression; over water and over ice
     (chosen by a pseudo wet bulb at or below 0) vapour pressure and specific humidity grow with dew point and relative humidity falls with temperature.
     The inverse conversions undo the forward ones within the same phase.''',
     'inputs', 'All temperatures, dew points and pressures on a 0.1 lattice, missing in each place.',
     'Tests compare single points.',
     'CalcHums.py Extended_IMMA.py', ['temperature, dew point, pressure'], ['CalcHums.*', 'MarineReport.calculate_humidity_variables'], ['derived values'])

prop('C32', 'A monthly run outputs each report of the month once, checked with its neighbours',
     '''A monthly quality-control run (full, high-resolution or track-only) reads the month and its two neighbours, passing over missing files, unreadable
     lines, records of other months and excluded identifiers, runs base checks on each report with its own norms, track checks per platform over all three
     months on the reports with good date, time and position, and buddy checks on the reports that pass the filters. It writes exactly the reports of the
     requested month, each once, in order of reading, with their values and flags, and when tracking also lists the drifters of the month and writes the
     reports of each to its own files with matched background. Running several months in one go gives the same as running each alone.''',
     'histories configurations', 'Small three-month archives with any reports, lists and settings.',
     'No test runs the monthly programs.',
     'marine_qc.py marine_qc_hires.py marine_qc_track_only.py Extended_IMMA.py qc.py BackgroundField.py', ['archive of records', 'output files'], ['marine_qc.main', 'marine_qc_hires.main', 'marine_qc_track_only.main'], ['output files'])

prop('C33', 'Robust averages ignore outliers as documented and never leave the data range',
     '''The winsorised and trimmed means of a sample lie between its smallest and largest value, do not depend on the order of the sample, equal the plain
     mean when nothing is to be trimmed, and are unchanged by moving an extreme value further out once it is within the trimmed or winsorised (quarter)
     part. The neighbour-count multiplier is that of the highest limit exceeded, and 4 when there are no neighbours; impossible tables are refused.''',
     'inputs', 'All small samples of lattice values and all trim fractions.',
     'Tests sample a few lists.',
     'qc.py trackqc.py Extended_IMMA.py', ['samples'], ['qc.winsorised_mean', 'qc.trimmed_mean', 'trackqc.trim_mean', 'trackqc.trim_std', 'get_threshold_multiplier'], ['averages'])

prop('C34', 'A tracking run writes one complete, aligned record per drifter',
     '''A tracking run assembles the monthly files of a drifter over the given months into one record in time order, applies the aground, speed, tail and bias
     checks one after the other, each to exactly the reports that passed the base checks and the drifter checks before it, and writes every report of the
     record once with its values, base flags and drifter flags (9 where it was not given to a check). The record goes to the directory of its last month,
     or of its edge class, under the safe form of the identifier. A drifter without reports, or with files of a month missing, empty or not belonging
     together, is refused and nothing is written.''',
     'histories configurations', 'Small sets of monthly drifter files with any reports and flags.',
     'No test runs the tracking program.',
     'tracking_qc.py Extended_IMMA.py', ['monthly files of a drifter'], ['tracking_qc.main', 'Voyage.write_tracking_output'], ['output file'])

prop('C35', 'A report returns exactly the values, norms and anomalies last given to it',
     '''Whatever was set before, on this or on other reports, a variable of a report reads as the value last set for it (directly or through its voyage),
     an extra value as last set, a norm or deviation as last given, and all of them as missing (an extra value asked for as such: refused) when nothing
     was given. The anomaly is the value less its norm, the normalised anomaly that over the deviation, each missing when a part of it is; unknown
     variables and unknown kinds of norm are refused and change nothing. Course and speed in degrees and knots follow the codes (in whole 45 degrees;
     5 knots a step from 1968, 3 before, less 2 or 1, none for code 0) at construction and at every reset of the extra values, the longitude
     is given as -180 to 180, and air is saturated exactly when dew point and air temperature are present and equal.''',
     'histories inputs', '''Every finite sequence of settings of variables, extra values and norms, of whole norms or one half of them, and of resets,
     on any number of reports made from any records, also from the same record.''',
     '''Tests set one value and read it back; they do not look at what else changed, nor at orders in which a value is set, given a norm, reset and set again.''',
     'Extended_IMMA.py', ['variables', 'extra values', 'norms of each report'],
     ['MarineReport.setvar/getvar/setext/getext/reset_ext/calculate_dsi_vsi', 'add_climate_variable/getnorm/getanom/get_normalised_anom', 'ClimVariable', 'Voyage.setvar/getvar/last_rep'],
     ['values read from every report after every operation'])

prop('C36', 'Near-real-time and list records are read field by field, line by line',
     '''A reader of near-real-time lines or of rows of values gives, after any sequence of lines, each field the value of its own column of the last line
     read, whatever the spelling of numbers and dates: hours include the minutes, a missing sea temperature or hour is missing, near-real-time positions far off
     the globe are capped at 200 and 400 (so that they stay recognisably bad), and fields that the source does not have are missing. A near-real-time line
     with too few or too many columns, an unreadable number or no real date is refused and leaves the reader as it was. A report made from the record has
     the same fields.''',
     'histories inputs', '''Every sequence of lines given to one reader, well-formed, malformed or empty, in any spelling of numbers and ISO dates.''',
     '''No test reads such a line at all.''',
     'NRT.py TestIMMA.py Extended_IMMA.py', ['fields of the record'], ['NRT.NRT.readstr', 'TestIMMA.IMMA.readstr'], ['fields of the record and of a report made of it'])

prop('C37', 'The predicted next point continues the last leg',
     '''The position predicted for a voyage some time ahead lies straight on along the great circle from the last report but one (not at a pole) through the last report, as far
     beyond the last report as the speed between the two carries in that time, across the dateline and over the poles; a ship that keeps course and speed
     is thus found where it was predicted. With a single report, with no time between the last two (or no time known), or without movement, the platform
     is predicted to stay where it last was. A prediction into the past is refused.''',
     'histories inputs', '''Every voyage of one or more reports in time order, at any positions, and every time ahead.''',
     '''Tests sample a few tracks near the equator; direction, distance and place must agree at every position and for every pair of legs and intervals.''',
     'Extended_IMMA.py spherical_geometry.py', ['reports of the voyage with their derived legs'], ['Voyage.predict_next_point', 'Voyage.add_report/sort', 'lat_lon_from_course_and_distance'],
     ['predicted position'])
