"""What each check runs.  mc: models TLC explores exhaustively; trace: the trace
specification (by record kind, or one for all) that gives the verdicts."""


def M(module, **k):
    k.setdefault('cfg', module)
    k['module'] = module
    return k


CHECKS = {
    'C01': {'mc': [M('MC_Deck', cfg_thorough='MC_Deck_thorough')], 'trace': 'T_Deck', 'shards': 6,
            'note': 'Exhaustive for all histories of 5 (thorough: 6) operations on 3 reports, all replayed into the code; seeded random histories of up to 30 operations beyond that.'},
    'C02': {'mc': [M('MC_Flags', cfg_thorough='MC_Flags_thorough')], 'trace': 'T_Flags',
            'note': 'Exhaustive for two-operation (thorough: three) write histories on two reports through all three interfaces, all replayed; seeded random histories of up to 40 writes over all types.'},
    'C03': {'mc': [M('MC_ReportTime', cfg_thorough='MC_ReportTime_thorough')], 'trace': 'T_ReportTime',
            'note': 'Exhaustive for two (thorough: three) field updates over boundary values, all replayed; seeded random update sequences on pairs of reports. The hour is on a lattice of half minutes.'},
    'C04': {'mc': [M('MC_Voyage', cfg_thorough='MC_Voyage_thorough')], 'trace': 'T_Voyage',
            'note': 'Exhaustive for 5 (thorough: 7) operations on 4 reports, all replayed; seeded random voyages of up to 9 reports on the equator or a meridian, where distances and courses are exact on the lattice.'},
    'C05': {'mc': [M('MC_BasicChecks')], 'trace': 'T_BasicChecks',
            'note': 'Exhaustive over combinations of boundary values and over all month-day pairs in and around the calendar of sixteen years; seeded random beyond. Positions on a 0.01 degree lattice, hours on a half-minute lattice.'},
    'C09': {'mc': [M('MC_Calendar', cfg_thorough='MC_Calendar_thorough')], 'trace': 'T_Calendar',
            'note': 'The calendar is a TLA+ clock stepping day by day; every day 1850-2024 and century years is compared exhaustively, time differences over boundary pairs and seeded random pairs to the minute.'},
    'C06': {'mc': [M('MC_Blacklist')], 'trace': 'T_Blacklist',
            'note': 'Every year-region pair of the tables at, inside and just outside each border, in both longitude conventions, generated by TLC and replayed; all listed and near-miss identifiers, decks and platform types; seeded random beyond. 0.01 degree lattice.'},
    'C07': {'mc': [M('MC_ValueChecks')], 'trace': 'T_ValueChecks',
            'note': 'All combinations of small values, norms, deviations and limits on a lattice of eighths (on which the arithmetic is exact), with missing in each place; seeded random values at and next to each threshold.'},
    'C08': {'mc': [M('MC_BaseQC', cfg_thorough='MC_BaseQC_thorough')], 'trace': 'T_BaseQC',
            'note': 'Exhaustive for 3 (thorough: 4) runs and field changes of one report over all five kinds of run, all replayed; seeded random reports, norms and parameter sets around every threshold. The day flag is compared with the single day test (which C20 decides).'},
    'C10': {'mc': [M('MC_Grid', cfg_thorough='MC_Grid_thorough')], 'trace': 'T_Grid',
            'note': 'The specification is proved to be a partition on all small worlds by TLC; the code is compared at every half degree and its neighbours, at all cell centres of six resolutions, at the poles and the dateline, and at seeded random positions (1/1000 degree lattice). On borders of the 0.05 degree grid, which have no exact binary form, either adjacent cell is accepted.'},
    'C11': {'mc': [M('MC_ClimField')], 'trace': 'T_ClimField',
            'note': 'Every day of the year and impossible days for annual, pentad and daily fields; all border positions and seeded random ones at 5, 1, 0.25 and 0.05 degrees; files written in every combination of latitude order, longitude origin, level dimension, axis order (single 1 degree fields) and coordinate names; library histories of 3 operations exhaustively.'},
    'C12': {'mc': [M('MC_Interp')], 'trace': 'T_Interp',
            'note': 'All missing patterns with all combinations of small corner values, all replayed; interpolation laws as invariants; the code compared exactly on a lattice of eighths for random boxes and for irregularly masked 1 degree annual and pentad fields at random, border, dateline and polar positions.'},
    'C13': {'mc': [M('MC_Buddy', cfg_thorough='MC_Buddy_thorough', workers=4), M('MC_BuddyPlace')], 'trace': 'T_Buddy', 'shards': 6,
            'note': 'All histories of three reports in a small round world with its laws as invariants; all pairs of reports in cells at the poles, dateline, equator and turn of the year (TLC, replayed; every third in quick runs); seeded random clusters of up to 14 reports with random parameter sets.'},
    'C14': {'mc': [M('MC_BuddyCheck', cfg_thorough='MC_BuddyCheck_thorough')], 'trace': 'T_BuddyCheck', 'shards': 6,
            'note': 'All collections of three (thorough: four) reports from neighbouring, near and far cells with and without passing the filter (TLC; replayed, one third in quick runs); seeded random clusters with random filters, parameter sets, missing values and earlier flags, each also in a permuted order. Where the decision is a tie that rounding of a mean decides, either is accepted.'},
    'C15': {'mc': [M('MC_BuddyCheck', cfg_thorough='MC_BuddyCheck_thorough')], 'trace': 'T_BuddyCheck', 'shards': 6,
            'note': 'The posterior is computed in the specification in fixed point from a table of the normal distribution (0.6 percent); monotonicity and range as invariants; probabilities compared at random points; flags of random clusters compared to the tenth, either tenth accepted within 1.2 percent of a border.'},
    'C16': {'mc': [M('MC_Removal', cfg_thorough='MC_Removal_thorough'), M('MC_RemovalTracks')], 'trace': 'T_Removal',
            'note': 'The laws of removing the worst on every relation between 5 (thorough: 6) reports, including termination; all short tracks over the dateline on a lattice (TLC, replayed; one in four in quick runs); seeded random tracks of up to 20 reports on the equator (distances from the specification) and anywhere (distances as the code reports them, which C04 and C30 decide), with jumps, wrong times, all limits.'},
    'C17': {'mc': [M('MC_Removal', cfg_thorough='MC_Removal_thorough'), M('MC_RemovalTracks')], 'trace': 'T_Removal',
            'note': 'As C16, with values on a lattice of eighths of a kelvin and missing values.'},
    'C18': {'mc': [M('MC_Track', cfg_thorough='MC_Track_thorough')], 'trace': 'T_Track', 'shards': 6,
            'note': 'All tracks of four reports on a lattice of steps, reported speeds and headings on the equator across the dateline (TLC; replayed, one in four in quick runs); seeded random tracks of up to 12 reports on the equator, where the specification computes every speed, estimate and midpoint itself, and anywhere, where it decides from those the code reports. Where a comparison is within 0.03 percent of its limit, either outcome is accepted.'},
    'C19': {'mc': [M('MC_Repeats', cfg_thorough='MC_Repeats_thorough')], 'trace': 'T_Repeats',
            'note': 'All voyages of 6 (thorough: 9) saturated or unsaturated reports with three rhythms, all lists of 5 values, all replayed; the walk along a voyage is proved equal to the definition by maximal runs; seeded random voyages with shares at and next to the threshold.'},
    'C20': {'mc': [M('MC_Sun', cfg_thorough='MC_Sun_thorough', workers=4)], 'trace': 'T_Sun', 'shards': 6,
            'note': 'The sun is computed in the specification in integers from the almanac formulae (a twentieth of a degree); laws of the sun over a day as invariants of a clock. The code is compared at seeded random and border instants and places from pole to pole, day tests mostly at longitudes searched so that the sun is at the horizon, where the instant is shifted by the specification and the elevation there decides (either outcome within 0.002 degree of the horizon).'},
    'C21': {'mc': [M('MC_Drifter', cfg_thorough='MC_Drifter_thorough', workers=4)], 'trace': 'T_Drifter', 'shards': 6,
            'note': 'All drifter records of 5 (thorough: 6) reports on a lattice of steps across the dateline with all small windows (TLC; replayed, one in six in quick runs), where the walk of the check is proved equal to the definition; seeded random records of up to 30 reports with jitter, stops and restarts anywhere between 69S and 69N, both forms of the check, through the voyage (sorted and unsorted) and directly. Where a distance is within 0.15 percent of the tolerance, either outcome is accepted.'},
    'C22': {'mc': [M('MC_Drifter', cfg_thorough='MC_Drifter_thorough', workers=4)], 'trace': 'T_Drifter', 'shards': 6,
            'note': 'As C21; speeds of records on the equator and on meridians from the specification, elsewhere from the distances that the code reports (which C04 and C30 decide). The reports set aside by the newer form are those which the Removal specification of C16 removes.'},
    'C23': {'mc': [M('MC_Background', cfg_thorough='MC_Background_thorough', workers=4)], 'trace': 'T_Background', 'shards': 6,
            'note': 'All records of 4 (thorough: 6) reports of five kinds with twelve pairs of windows (TLC; replayed, one in seven in quick runs), where the walk of the two windows from both ends is proved equal to the definition; seeded random records of up to 36 reports, and of up to 130 with windows long enough to trim, on lattices of eighths of a kelvin, with ice, missing background, daylight and twilight, invalid matches and parameters. Where rounding of a mean decides, either outcome is accepted.'},
    'C24': {'mc': [M('MC_Background', cfg_thorough='MC_Background_thorough', workers=4)], 'trace': 'T_Background', 'shards': 6,
            'note': 'As C23, records of up to 60 reports.'},
    'C25': {'mc': [M('MC_Chunks', cfg_thorough='MC_Chunks_thorough')], 'trace': 'T_Chunks',
            'note': 'All histories of 8 (thorough: 11) months with gaps from one month to longer than the history, all replayed; the counter is proved equal to the definition, and running the "new" mode month by month to submit each chunk exactly once; seeded random histories of up to 60 months with silences at and next to the gap, gaps of up to 24 months, months set in any order, twice, or unset.'},
    'C26': {'mc': [M('MC_TrackDriver', cfg_thorough='MC_TrackDriver_thorough')], 'trace': 'T_Chunks',
            'note': 'The driver as a transition system with a queue that fills and drains: no chunk lost or repeated, none into a full queue, and it finishes (liveness) for all lists of 4 (thorough: 5) months of two drifters in all modes; a share of these and seeded random lists of up to 24 months and 4 drifters run through the real program with stand-ins for sbatch and squeue that record, under scripted queue lengths around the limit.'},
    'C27': {'mc': [M('MC_Imma', cfg_thorough='MC_Imma_thorough', workers=4)], 'trace': 'T_Imma', 'shards': 6,
            'note': 'The field tables of the format are part of the specification. Small tables of every kind of field with all fillings and orders of attachments are written and read back exhaustively; their patterns and seeded random records over all real attachments (any subset and order, missing, extreme, negative and off-lattice values) go through the real writer and reader; seeded random lines, with attachments shorter or longer than announced by the table, cut short, or with one character out of place, through the reader. Attachments that share field names (2 with 5, 3 with 6, 4 with 7) are not combined.'},
    'C33': {'mc': [M('MC_Averages', cfg_thorough='MC_Averages_thorough')], 'trace': 'T_Averages',
            'note': 'All samples of up to 5 (thorough: 7) values of four, with the laws of the averages as invariants (range, order, nothing to trim, resistance to outliers), all replayed; seeded random samples of up to 120 values with outliers around the sizes at which another value is trimmed; multipliers at and next to each limit, impossible tables refused.'},
    'C31': {'mc': [M('MC_Humidity', cfg_thorough='MC_Humidity_thorough', workers=4)], 'trace': 'T_Humidity', 'shards': 6,
            'note': 'Saturation vapour pressure over water and ice is a table of the specification (Buck 1981, tenths of a degree from -80 to 65); the other quantities are derived from it in integers. Air warmed and moistened step by step over the whole range with the laws of humidity as invariants and action properties (TLC); the places where it thaws and a grid replayed, seeded random air around them. Within a hundredth of a degree of freezing either phase is accepted; the dew point is not recovered from the vapour pressure of air above freezing over ice, where it has none.'},
    'C30': {'mc': [M('MC_Sphere', cfg_thorough='MC_Sphere_thorough', workers=4)], 'trace': 'T_Sphere', 'shards': 6,
            'note': 'Exact geometry on meridians, over the poles and on the equator as a traveller that goes straight on (TLC: all legs and pairs of a 30 degree, thorough 15 degree, lattice; replayed); everywhere else the laws of the sphere in integer sines, and to the metre by consistency (triangle, arrival after following a course, return, division of the way). Seeded random places with poles, dateline, antipodes and neighbours of centimetres. Courses within half a degree of a pole, or between places closer than 0.3 degree to each other or to their antipodes, are only required to be compass directions.'},
    'C28': {'mc': [M('MC_Outputs', cfg_thorough='MC_Outputs_thorough')], 'trace': 'T_Outputs', 'shards': 6,
            'note': 'All histories of 5 (thorough: 6) additions, flags and writes of two months, with completeness, order, alignment of the files and no file of another month touched as properties, replayed; seeded random histories over all kinds of output (deck, minimal, flags only, test, voyage, tracking), months around year ends, identifiers with slash, asterisk or space, missing values in each place; every file found at the end is read back and compared cell by cell by column name. Also the two fixed-width report lines. Values on a 0.1 lattice.'},
    'C29': {'mc': [M('MC_Unpack', cfg_thorough='MC_Unpack_thorough'), M('MC_Files', cfg_thorough='MC_Files_thorough')], 'trace': 'T_Files', 'shards': 6,
            'note': 'Programs that share the scratch directory, fail or are killed while unpacking: all schedules of 5 (thorough: 6) steps of two (three) programs, with no program ever given a part of a field as invariant, replayed with real processes held, failed and killed at half a field by a stand-in for bunzip2; an archive into which plain, packed and empty fields arrive under two templates while fields are asked for (all histories of 4, thorough 5, steps; a share replayed); seeded random archives with failures and corrupt fields; seeded random templates, lists of identifiers, directories; every month of every release since 1850 in thorough runs.'},
    'C32': {'mc': [M('MC_Monthly', cfg_thorough='MC_Monthly_thorough', workers=4)], 'trace': 'T_Monthly', 'shards': 6,
            'note': 'A run as a transition system that reads three months, checks voyages and writes one month at a time: all archives of two months with a line each (thorough: one month with two lines each) of every kind, with completeness, order, no duplicates, whole voyages and independence of the months run before as invariants. Seeded random archives of up to six months of lines (readable, blank, malformed in various places, filed under the wrong month, excluded, unnamed), missing files, all three programs with and without tracking and all parameters through the real programs; every output cell is computed by the specification from the archive, norms, parameters and matched fields, apart from day and track flags, which are taken as they are (C18, C20 decide them). Comparisons with neighbours are run with deviations that flag either all reports compared or none.'},
    'C34': {'mc': [M('MC_Tracking', cfg_thorough='MC_Tracking_thorough', workers=4)], 'trace': 'T_Tracking', 'shards': 6,
            'note': 'The four checks of a tracking run as transitions that may find anything about the reports they are given: every combination of earlier flags for one report (thorough: two), with the order of the filters and the meaning of flag 9 as invariants. Seeded random monthly files of drifters (several months, months without files, files missing, empty, too long, too short or of other reports, other drifters and months beside them, reports out of order and without times, all edge classes, identifiers with special characters) through the real program, checks wrapped to record what they were given; the specification computes from the files what each check has to be given, what has to be written, and where.'},
    'C35': {'mc': [M('MC_ReportStore', cfg_thorough='MC_ReportStore_thorough')], 'trace': 'T_ReportStore',
            'note': 'Every history of two (thorough: three) operations on two reports, all replayed; seeded random histories of up to 16 operations on three reports over all variable names, also made from one and the same record.'},
    'C36': {'mc': [M('MC_Readers', cfg_thorough='MC_Readers_thorough')], 'trace': 'T_Readers',
            'note': 'Every sequence of three (thorough: four) of nine kinds of line through one reader, all replayed; seeded random sequences of lines in many spellings of numbers and dates through both readers.'},
    'C37': {'mc': [M('MC_Prediction', cfg_thorough='MC_Prediction_thorough')], 'trace': 'T_Prediction',
            'note': 'Ships that keep course and speed along meridians (over both poles) and the equator (across the dateline), reporting at any of three intervals over two (thorough: four) legs, all replayed; seeded random tracks anywhere, with stops, equal and missing times, checked by distances.'},
}

NA = {}
