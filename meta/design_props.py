"""What is specified for each property, and against what the code is held (for DESIGN.md)."""
D = {
'C01': 'Deck.tla: the collection as a sequence of reports with flags, filter and an answer to "which platforms"; sort is any permutation in order. Reaches stale-index histories (sort or pop between two questions) that tests do not build.',
'C02': 'Flags.tla: the store of flags of two reports written through report, voyage and deck; a refused write is a stuttering step.',
'C03': 'ReportTime.tla: the date-time as a function of four fields under any updates, and the order of reports as a strict total order on (identifier, time).',
'C04': 'Voyage.tla: reports on one great circle, with the derived legs as part of the state; add and sort are transitions; the invariant is that the legs describe the neighbours.',
'C05': 'BasicChecks.tla: exact definitions on lattices with all borders.',
'C06': 'Blacklist.tla: the table of regions and years, identifiers and decks as data of the specification.',
'C07': 'ValueChecks.tla: definitions in integers of eighths.',
'C08': 'BaseQC.tla: every flag of a report as a function of its fields, norms and parameters; runs and field changes as transitions, idempotence and frame as action properties.',
'C09': 'Calendar.tla: the calendar as a clock that steps day by day; day numbers, pentads and month arithmetic are proved against the clock.',
'C10': 'Grid.tla: cells as intervals; partition, centre and round trip as invariants on small worlds, then the code on the real one.',
'C11': 'ClimField.tla: lookup by cell and slice, file layouts as permutations of the same field, the library as a map under add operations. One climatology is also asked a whole sequence of questions (neighbouring days, leap days), so that nothing may be remembered from one to the next.',
'C12': 'Interp.tla: bilinear interpolation in exact rationals and the order of filling.',
'C13': 'Buddy.tla: the comparison grid under additions of reports; neighbours as a set (so each once) on a world that is round in longitude and in the year.',
'C14': 'BuddyCheck.tla: who takes part, limits and flags from Buddy.tla; independence of order by running each collection in two orders. Part of the collections had the check run on them once before, with other values, flags or filter: only the present ones may count.',
'C15': 'BuddyCheck.tla with a fixed-point normal distribution table: Bayes\' rule in integers.',
'C16': 'Removal.tla: removing the worst until all agree as a transition system on any relation (confluence of the result with first-of-equals, termination), then with the relation that tracks give. Part of the collections had the check run on them once before, with other values, flags or filter: only the present ones may count.',
'C17': 'Removal.tla with the relation that values, distances and times give.',
'C18': 'Track.tla: speeds, estimates, midpoints on the equator in integers; all tests of the check and its passes. Part of the collections had the check run on them once before, with other values, flags or filter: only the present ones may count.',
'C19': 'Repeats.tla: the walk along a voyage proved equal to the definition by maximal runs; shares by counting. Part of the collections had the check run on them once before, with other values, flags or filter: only the present ones may count.',
'C20': 'Sun.tla: declination, equation of time and elevation from the almanac formulae in integers with the table of Trig.tla; a clock gives the laws over a day.',
'C21': 'Drifter.tla: smoothing, still stretches and the walk from the end; walk proved equal to the definition.',
'C22': 'Drifter.tla, with the set-aside reports from Removal.tla.',
'C23': 'Background.tla: long and short windows from both ends; walk proved equal to the definition.',
'C24': 'Background.tla: bias, noise and short-record tests of the whole record.',
'C25': 'Chunks.tla: the months counter as a walk, proved equal to the partition by silences. The counter is asked for its chunks again and again while months are being entered.',
'C26': 'MC_TrackDriver.tla: the driver, the queue and its draining as a transition system with liveness; what is submitted from Chunks.tla.',
'C27': 'Imma.tla: field tables as data; writing and reading as inverse functions on character sequences, attachments in any order, cut and stretched.',
'C28': 'Outputs.tla: a directory as a map from file names to sequences of lines, under additions, flags and writes.',
'C29': 'Unpack.tla: programs that look, unpack to a name of their own, and publish, with kills and failures at every step; Files.tla: which file is found as fields arrive.',
'C30': 'Sphere.tla: a traveller on a lattice of meridians and the equator; laws in integer sines elsewhere.',
'C31': 'Humidity.tla: vapour pressure tables and everything derived from them in integers; warming and moistening as transitions with monotonicity as action properties.',
'C32': 'Monthly.tla: reading, holding, checking and writing as transitions; T_Monthly.tla computes every cell of every output file from the archive by BaseQC.tla, Repeats.tla, Calendar.tla and Grid.tla.',
'C33': 'Averages.tla: the averages on sorted samples as rationals, with resistance to outliers as a law.',
'C34': 'Tracking.tla: the four checks as transitions that may find anything about the reports they are given; what each is given follows from the flags so far.',
'C35': 'ReportStore.tla: variables, extra values and norms of reports as maps; every write is a transition that touches one map of one report, a refused one stutters.',
'C36': 'Readers.tla: a reader as an object that shows the last line it accepted; refused lines and the end of the file stutter.',
'C37': 'Prediction.tla: a ship that keeps course and speed on Sphere.tla, reporting now and then; that predictions come true is an invariant and an action property.',
}
COST = {'C01': '17', 'C02': '7', 'C03': '6', 'C04': '6', 'C05': '5', 'C06': '8', 'C07': '6', 'C08': '9', 'C09': '5', 'C10': '9', 'C11': '5', 'C12': '8', 'C13': '60', 'C14': '23', 'C15': '30', 'C16': '12', 'C17': '14', 'C18': '28', 'C19': '15', 'C20': '25', 'C21': '33', 'C22': '32', 'C23': '24', 'C24': '22', 'C25': '19', 'C26': '12', 'C27': '13', 'C28': '10', 'C29': '13', 'C30': '8', 'C31': '41', 'C32': '20', 'C33': '8', 'C34': '10', 'C35': '7', 'C36': '5', 'C37': '7'}
CAUGHT = {
 'c24-day-hides-unreliable': 'Missed by C24 at first, which then got short records whose only doubtful background is by day; caught since.',
 'c37-short-leg': 'Missed by C37 at first, which then got reports minutes apart; caught since.',
}
