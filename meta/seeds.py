"""Planted bugs (see seed.py)."""
SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


X = 'Extended_IMMA.py'
S('c04-stale-course', 'C04', [(X, """                shpspd, shpdis, shpdir, tdiff = self.reps[i] - self.reps[i - 1]
                self.reps[i].setext('speed', shpspd)
                self.reps[i].setext('course', shpdir)
""", """                shpspd, shpdis, shpdir, tdiff = self.reps[i] - self.reps[i - 1]
                self.reps[i].setext('speed', shpspd)
                if shpdis > 0.0:
                    self.reps[i].setext('course', shpdir)
""")], 'reports added out of time order, then sorted, so that one of them comes to stand next to a report at the same place',
  'after a sort, a report that did not move from its predecessor keeps the course it had from another report', '''
import Extended_IMMA as ex
v = ex.Voyage()
for hr, lat, lon in ((0, 0., 0.), (12, 0., 5.), (6, 0., 0.)):
    v.add_report(ex.MarineReport(Rec(HR=hr, LAT=lat, LON=lon)))
v.sort()
w = ex.Voyage()
for hr, lat, lon in ((0, 0., 0.), (6, 0., 0.), (12, 0., 5.)):
    w.add_report(ex.MarineReport(Rec(HR=hr, LAT=lat, LON=lon)))
for i in range(3):
    for n in ('speed', 'course', 'distance', 'time_diff'):
        assert v.reps[i].getext(n) == w.reps[i].getext(n), (i, n)
''')



S('c19-run-too-long', 'C19', [(X, """            elif not (rep.saturated()) and len(satcount) > shortest_run:

                shpspd, shpdis, shpdir, tdiff = \\
                    self.reps[satcount[len(satcount) - 1]] - self.reps[satcount[0]]
""", """            elif not (rep.saturated()) and len(satcount) > shortest_run:

                shpspd, shpdis, shpdir, tdiff = \\
                    rep - self.reps[satcount[0]]
""")], 'a run of saturated reports that reaches the minimum time only when counted to the first unsaturated report',
  'a saturated run is timed up to the report that ends it, so runs that are too brief are flagged', '''
import Extended_IMMA as ex
v = ex.Voyage()
for k in range(8):
    r = ex.MarineReport(Rec(DY=1 + k // 2, HR=12. * (k % 2), AT=10., DPT=10. if k < 4 else 5.))
    v.add_report(r)
v.find_saturated_runs({'min_time_threshold': 48.0, 'shortest_run': 2})
assert [v.get_qc(k, 'DPT', 'repsat') for k in range(8)] == [0] * 8
''')

S('c17-signed-time', 'C17', [(X, "                                           abs(time_diff) * max_gradient_time])",
   "                                           time_diff * max_gradient_time])")],
  'two reports far enough apart in time that the time allowance decides, and another report to break the balance',
  'a report counts earlier reports as neighbours in conflict although they are long enough ago', '''
import Extended_IMMA as ex
P = {'max_gradient_space': 0.5, 'max_gradient_time': 1.0, 'ship_delta_t': 2.0, 'buoy_delta_t': 1.0, 'number_of_neighbours': 5}
v = ex.Voyage()
for d, s in ((1, 10.), (2, 20.), (3, 30.)):
    v.add_report(ex.MarineReport(Rec(DY=d, SST=s, PT=5)))
v.spike_check(P)
assert [v.get_qc(i, 'SST', 'spike') for i in range(3)] == [0, 0, 0]
''')

S('c12-fill-from-filled', 'C12', [('qc.py', """    if outq12 is None:
        outq12 = missing_mean([q11, q22])
""", """    if outq12 is None:
        outq12 = missing_mean([outq11, outq22])
""")], 'two neighbouring corners of the box missing and the other two different',
  'a missing corner is filled from a corner that was itself filled', '''
import qc
assert qc.fill_missing_vals(None, None, 1.0, 3.0) == (1.0, 3.0, 1.0, 3.0), qc.fill_missing_vals(None, None, 1.0, 3.0)
''')

S('c11-leap-day', 'C11', [('Climatology.py', """        ml = qc.get_month_lengths(2004)
        if day < 1 or day > ml[month - 1]:
            return None

        yindex = qc.lat_to_yindex(lat, self.res)
        xindex = qc.lon_to_xindex(lon, self.res)
        tindex = self.get_tindex(month, day)
""", """        ml = qc.get_month_lengths(2003)
        if day < 1 or day > ml[month - 1]:
            return None

        yindex = qc.lat_to_yindex(lat, self.res)
        xindex = qc.lon_to_xindex(lon, self.res)
        tindex = self.get_tindex(month, day)
""")], 'a lookup on 29 February', 'there is no climatology on 29 February', '''
import numpy as np
import Climatology
c = Climatology.Climatology(np.ma.array(np.full((365, 36, 72), 4.0), mask=False))
assert c.get_value(2.0, 3.0, 2, 29) == 4.0
''')

S('c20-year-before', 'C20', [('qc.py', "                day2 = dayinyear(year2, 12, 31)", "                day2 = 365")],
  'a report just after midnight of 1 January that follows a leap year, the sun near the horizon an hour earlier',
  'the evening before 1 January 2005 is taken for 30 December', '''
import qc
n = 0
for k in range(-1800, 1800):
    lat, lon = 55.0, k / 10.
    el = qc.sunangle(2004, 366, 23, 0, 0, 0, 0, lat, lon)[1]
    if abs(el) > 0.001:
        n += 1
        assert qc.day_test(2005, 1, 1, 0.0, lat, lon) == (1 if el > 0 else 0), lon
''')

S('c01-trim-id', 'C01', [(X, '''        for i, rep in enumerate(self.reps):
            if rep.getvar('ID') in self.idtracker:
                self.idtracker[rep.getvar('ID')].append(i)
            else:
                self.idtracker[rep.getvar('ID')] = [i]
''', '''        for i, rep in enumerate(self.reps):
            thisid = rep.getvar('ID')
            if thisid is not None:
                thisid = thisid.strip()
            if thisid in self.idtracker:
                self.idtracker[thisid].append(i)
            else:
                self.idtracker[thisid] = [i]
''')], 'two identifiers that differ in blanks only, one of them blank in front',
  'reports of two platforms are put in one voyage', '''
import Extended_IMMA as ex
d = ex.Deck()
for k in ('AB       ', ' AB      ', 'AB       '):
    d.append(ex.MarineReport(Rec(ID=k)))
d.add_filter(ex.QC_filter())
got = sorted([r.getvar('ID') for r in v.rep_feed()] for v in d.get_one_platform_at_a_time())
assert got == [[' AB      '], ['AB       '] * 2], got
''')



S('c02-unset-passes', 'C02', [(X, """            if rep.get_qc(filt[0], filt[1]) != filt[2]:
                result = 1  # fail
        return result
""", """            if rep.get_qc(filt[0], filt[1]) not in (filt[2], 9):
                result = 1  # fail
        return result
""")], 'a filter on a flag that was never set for a report', 'a report of which a condition is not known passes the filter', '''
import Extended_IMMA as ex
f = ex.QC_filter()
f.add_qc_filter('POS', 'trk', 0)
r = ex.MarineReport(Rec())
assert f.test_report(r) == 1
r.set_qc('POS', 'trk', 0)
assert f.test_report(r) == 0
''')

S('c03-minute', 'C03', [(X, """                rounded_minute = int(math.floor(60 *
                                                (self.getvar('HR') - rounded_hour)))
""", """                rounded_minute = int(round(60 * (self.getvar('HR') - rounded_hour))) % 60
""")], 'an hour less than half a minute before the next full hour', 'a report at 11.995 hours gets the time 11:00', '''
import Extended_IMMA as ex
a = ex.MarineReport(Rec(HR=11.5))
b = ex.MarineReport(Rec(HR=11.995))
assert b.dt > a.dt, (a.dt, b.dt)
v = ex.Voyage()
v.add_report(b)
v.add_report(a)
v.sort()
assert [r.getvar('HR') for r in v.rep_feed()] == [11.5, 11.995]
''')

S('c08-lon-convention', 'C08', [(X, """        lon = self.lon()
        lat = self.lat()
        # North Atlantic""", """        lon = self.getvar('LON')
        lat = self.lat()
        # North Atlantic""")], 'a report of deck 193 between 1880 and 1892 in the North Atlantic, its longitude given as degrees east of Greenwich',
  'air temperatures of the North Atlantic are not excluded when longitudes run from 0 to 360', '''
import Extended_IMMA as ex
for lon in (-30., 330.):
    r = ex.MarineReportQC(Rec(DCK=193, YR=1885, LAT=45., LON=lon, PT=5))
    r.mat_blacklist()
    assert r.get_qc('AT', 'mat_blacklist') == 1, lon
''')

S('c13-widen-from-edge', 'C13', [(X, "        latitude_approx = 89.5 - yindex\n", "        latitude_approx = 90. - yindex\n")],
  'a cell at a latitude where the column count changes between its edge and its middle',
  'the search reaches a column too far north of the equator and one too few south of it', '''
import Extended_IMMA as ex
import math
for y in range(1, 179):
    g = ex.Np_Super_Ob()
    for x in range(360):
        g.nobs[x, y, 0] = 1
        g.grid[x, y, 0] = x
    want = min(359, 2 * int(3 / math.cos((89.5 - y) * 3.1415928 / 180.)))
    got = g.get_neighbour_anomalies([3, 0, 0], 100, y, 0)[0]
    assert len(got) == want, (y, len(got), want)
''')

S('c14-limit-itself', 'C14', [(X, "                if abs(x - bm) >= bsd:", "                if abs(x - bm) > bsd:")],
  'a report that differs from its neighbours by exactly the limit', 'a difference of the whole limit is let pass', '''
import numpy as np
import Extended_IMMA as ex
import Climatology
P = {'limits': [[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]], 'number_of_obs_thresholds': [[0, 5, 15, 100], [0], [0, 5, 15, 100], [0]],
     'multipliers': [[4.0, 3.5, 3.0, 2.5], [4.0], [4.0, 3.5, 3.0, 2.5], [4.0]]}
d = ex.Deck()
for i, (lon, a) in enumerate(((0.5, 0.), (1.5, 4.))):
    r = ex.MarineReport(Rec(ID='S%d' % i, LAT=0.5, LON=lon, SST=10. + a))
    r.add_climate_variable('SST', 10.)
    d.append(r)
d.add_filter(ex.QC_filter())
d.mds_buddy_check('SST', Climatology.Climatology(np.ma.array(np.ones((73, 180, 360)), mask=False)), P)
assert [r.get_qc('SST', 'bud') for r in d.reps] == [1, 1], [r.get_qc('SST', 'bud') for r in d.reps]
''')

S('c15-other-limit', 'C15', [(X, "        r_hi = parameters[intype]['maximum_anomaly']  # previous", "        r_hi = parameters['SST']['maximum_anomaly']  # previous")],
  'an air temperature whose anomaly is above the limit of sea temperatures and below that of air temperatures (or limits that differ)',
  'air temperatures are judged by the limits of sea temperatures', '''
import numpy as np
import Extended_IMMA as ex
import Climatology
P = {'SST': {'maximum_anomaly': 8.0}, 'AT': {'maximum_anomaly': 10.0},
     'bayesian_buddy_check': {'prior_probability_of_gross_error': 0.05, 'quantization_interval': 0.1, 'measurement_error': 1.0,
                              'limits': [2, 2, 4], 'noise_scaling': 3.0}}
one = lambda: Climatology.Climatology(np.ma.array(np.ones((73, 180, 360)), mask=False))
d = ex.Deck()
for i, (lon, a) in enumerate(((0.5, 0.), (1.5, 9.))):
    r = ex.MarineReport(Rec(ID='S%d' % i, LAT=0.5, LON=lon, AT=10. + a))
    r.add_climate_variable('AT', 10.)
    d.append(r)
d.add_filter(ex.QC_filter())
d.bayesian_buddy_check('AT', one(), one(), one(), P)
''')

S('c16-window-edge', 'C16', [(X, """            lo = max(0, t1 - n_neighbours)
            hi = min(numobs, t1 + n_neighbours + 1)

            for t2 in range(lo, hi):

                speed, distance""", """            lo = max(0, t1 - n_neighbours + 1)
            hi = min(numobs, t1 + n_neighbours + 1)

            for t2 in range(lo, hi):

                speed, distance""")],
  'reports in conflict that are just as many places apart as the number of neighbours',
  'the neighbour farthest back is not looked at, so the counts are lopsided and good reports are removed', '''
import Extended_IMMA as ex
P = {'buoy_speed_limit': 15.0, 'ship_speed_limit': 60.0, 'delta_d': 1.11, 'delta_t': 0.01, 'number_of_neighbours': 1}
v = ex.Voyage()
for hr, lon in ((0, 0.), (1, 8.), (2, 0.)):
    v.add_report(ex.MarineReport(Rec(HR=hr, LON=lon, PT=5)))
v.iquam_track_check(P)
got = [v.get_qc(i, 'POS', 'iquam_track') for i in range(3)]
assert got == [0, 1, 0], got
''')

S('c18-slow-ship', 'C18', [('track_check.py', "        if amode <= 8.51 / km_to_nm:", "        if amode <= 12.0 / km_to_nm:")],
  'a ship whose most frequent speed is between 8.51 and 12 knots', 'ships of middling speed get the fixed limits instead of those from their own speed', '''
import track_check as tc
k = 0.539957
for kn in (9, 10, 11, 13):
    a, b, c = tc.set_speed_limits(kn / k)
    assert abs(a - kn * 1.25 / k) < 1e-9 and abs(b - 30. / k) < 1e-9 and abs(c - kn * 0.75 / k) < 1e-9, kn
''')

S('c18-year-itself', 'C18', [(X, "self.getvar(0, 'DCK') == 720 and self.getvar(0, 'YR') < 1891:", "self.getvar(0, 'DCK') == 720 and self.getvar(0, 'YR') <= 1891:")],
  'a platform of deck 720 with one or two reports in 1891', 'short records of 1891 are not marked as too few', '''
import Extended_IMMA as ex
P = {'max_direction_change': 60.0, 'max_speed_change': 10.0, 'max_absolute_speed': 40.0, 'max_midpoint_discrepancy': 150.0}
for yr, few in ((1890, 0), (1891, 1)):
    v = ex.Voyage()
    for h in (0, 6):
        v.add_report(ex.MarineReport(Rec(YR=yr, HR=h, DCK=720)))
    v.track_check(P)
    assert [v.get_qc(i, 'POS', 'few') for i in range(2)] == [few] * 2, yr
''')

S('c24-day-hides-unreliable', 'C24', [('trackqc.py', """        if bgvar_mask:
            bgvar_is_masked = True
        if daytime or land_match or ice_match or bgvar_mask:
            pass
""", """        if bgvar_mask and not daytime:
            bgvar_is_masked = True
        if daytime or land_match or ice_match or bgvar_mask:
            pass
""")], 'a short record whose only reports with an unreliable background are by day, and bad values by night',
  'a short record is rejected though part of its background is unreliable', '''
import Extended_IMMA as ex
import trackqc
v = ex.Voyage()
for d in range(1, 7):
    r = ex.MarineReport(Rec(ID='B', PT=7, DY=d, HR=12. if d == 3 else 0., SST=20.))
    r.setext('OSTIA', 5.)
    r.setext('ICE', 0.)
    r.setext('BGVAR', 4. if d == 3 else 0.01)
    v.add_report(r)
trackqc.sst_biased_noisy_check(v.reps, 30, 1.1, 1.0, 0.29, 3.0, 2, 0.3)
assert [r.get_qc('SST', 'drf_short') for r in v.reps] == [0] * 6
''')

S('c26-wait-once', 'C26', [('Tracking_QC_wrapper.py', "    while count > 250:\n", "    if count > 250:\n")],
  'a job queue that stays full for more than one wait', 'a job more is handed in while the queue is full', '''
import Tracking_QC_wrapper as w
load = [300, 300, 100]
slept = []
w.checkload = lambda user: load.pop(0)
w.time.sleep = lambda s: slept.append(s)
w.os.system = lambda c: 0
out = os.environ['SCRATCH']
w.write_submission('c.txt', 'ID       ', 2000, 1, 2000, 2, ['regular'], '200001-200002', out, 'run')
assert load == [] and len(slept) == 2, (load, slept)
''')

S('c27-swapped-heights', 'C27', [('IMMA1.py', '''parameters['07'] = ('MDS','C1M','OPM','KOV','COR','TOB','TOT','EOT','LOT','TOH','EOH',
                    'SIM','LOV','DOS','HOP','HOT','HOB',''', '''parameters['07'] = ('MDS','C1M','OPM','KOV','COR','TOB','TOT','EOT','LOT','TOH','EOH',
                    'SIM','LOV','DOS','HOP','HOB','HOT',''')], 'a record with attachment 7 that has different heights of thermometer and barometer',
  'the heights of thermometer and barometer are exchanged on reading', '''
import IMMA1
names = ('MDS', 'C1M', 'OPM', 'KOV', 'COR', 'TOB', 'TOT', 'EOT', 'LOT', 'TOH', 'EOH', 'SIM', 'LOV', 'DOS', 'HOP', 'HOT', 'HOB', 'HOA', 'SMF',
         'SME', 'SMV')
body = ''
for n in names:
    k = IMMA1.definitions['07'][n][0]
    body += {'HOT': ' 21', 'HOB': ' 34'}.get(n, ' ' * k)
rec = IMMA1.IMMA()
rec.readstr('2000 6 11200 1000 1000'.ljust(108) + ' 7%2d' % (len(body) + 4) + body + '\\n')
assert (rec.data['HOT'], rec.data['HOB']) == (21, 34), (rec.data.get('HOT'), rec.data.get('HOB'))
''')

S('c29-leading-blank', 'C29', [('BackgroundField.py', "        line = line.rstrip()\n        while", "        line = line.strip()\n        while")],
  'an identifier on the list that begins with a blank', 'another identifier is excluded than the one on the list', '''
import BackgroundField as bf
f = os.path.join(os.environ['SCRATCH'], 'bad.txt')
open(f, 'w').write(' ABC\\nDEF\\n')
assert bf.process_bad_id_file(f) == [' ABC     ', 'DEF      '], bf.process_bad_id_file(f)
''')

S('c30-near-pole', 'C30', [('spherical_geometry.py', "        if np.cos(lat1) < 0.0000001:", "        if np.cos(lat1) < 0.001:")],
  'a course from a point less than six kilometres from a pole', 'courses near a pole are taken for courses at the pole', '''
import spherical_geometry as sph
assert abs(sph.course_between_points(89.95, 0.0, 89.95, 90.0) - 45.0) < 0.1, sph.course_between_points(89.95, 0.0, 89.95, 90.0)
''')

S('c31-ice-at-zero', 'C31', [('CalcHums.py', """    w = (((a * t) + (b * td)) / (a + b))

    # Now test for whether pseudo-wetbulb is above or below/equal to zero
    # to establish whether to calculate e with respect to ice or water
    # recalc if ice
    if w <= 0.0:
        f = 1 + (3. * (10 ** (-4.))) + ((4.18 * (10 ** (-6.))) * p)
        e = 6.1115 * f * np.exp(((23.036 - (td / 333.7)) * td) / (279.82 + td))

    # Calculate pseudo-es""", """    w = (((a * t) + (b * td)) / (a + b))

    # Now test for whether pseudo-wetbulb is above or below/equal to zero
    # to establish whether to calculate e with respect to ice or water
    # recalc if ice
    if w < 0.0:
        f = 1 + (3. * (10 ** (-4.))) + ((4.18 * (10 ** (-6.))) * p)
        e = 6.1115 * f * np.exp(((23.036 - (td / 333.7)) * td) / (279.82 + td))

    # Calculate pseudo-es""")], 'air temperature and dew point both exactly zero',
  'saturated air at the freezing point has a relative humidity other than 100 percent', '''
import CalcHums
assert abs(CalcHums.rh(0.0, 0.0, 1013.0, roundit=False) - 100.0) < 1e-9, CalcHums.rh(0.0, 0.0, 1013.0, roundit=False)
''')

S('c35-calm-before-1968', 'C35', [(X, """            if self.getvar('VS') == 0:
                self.ext['vsi'] = 0.0
""", """                if self.getvar('VS') == 0:
                    self.ext['vsi'] = 0.0
""")], 'a stopped ship (speed code 0) from 1968 on', 'a stopped ship is given a speed of minus two knots', '''
import Extended_IMMA as ex
for yr in (1950, 1967, 1968, 2000):
    r = ex.MarineReport(Rec(YR=yr, VS=0))
    r.calculate_dsi_vsi()
    assert r.getext('vsi') == 0.0, yr
''')

S('c37-short-leg', 'C37', [(X, "        if abs(self.reps[nreps - 1].getvar('time_diff')) < 0.00001:", "        if abs(self.reps[nreps - 1].getvar('time_diff')) < 0.02:")],
  'a last leg of one minute', 'the ship is predicted to stand still after a leg of one minute', '''
import Extended_IMMA as ex
v = ex.Voyage()
v.add_report(ex.MarineReport(Rec(HR=0.0, LON=0.0)))
v.add_report(ex.MarineReport(Rec(HR=1. / 60 + 1e-9, LON=0.01)))
lat, lon = v.predict_next_point(1.0)
assert lon > 0.1, (lat, lon)
''')

S('c07-norm-of-zero', 'C07', [('qc.py', "    if inval is None or inclimav is None or limit is None:\n        result = 1\n", "    if inval is None or not inclimav or limit is None:\n        result = 1\n")],
  'a climatological average of exactly zero', 'a value is rejected where the climatological average is exactly zero', '''
import qc
assert qc.climatology_check(1.5, 0.0, 8.0) == 0, qc.climatology_check(1.5, 0.0, 8.0)
assert qc.climatology_check(1.5, 0.25, 8.0) == 0
''')

S('c09-century', 'C09', [('qc.py', "    if calendar.isleap(year):\n        month_lengths", "    if year % 4 == 0:\n        month_lengths")],
  'February or March of 1900, a century year that is no leap year', 'the day before 1 March 1900 is 29 February', '''
import qc
assert tuple(qc.yesterday(1900, 3, 1)) == (1900, 2, 28), qc.yesterday(1900, 3, 1)
assert qc.get_month_lengths(1900)[1] == 28
''')

DRIFT = '''
import Extended_IMMA as ex
import trackqc as tqc


def voyage(pts):
    v = ex.Voyage()
    for k, (h, lat, lon) in enumerate(pts):
        v.add_report(ex.MarineReport(Rec(UID='U%d' % k, PT=7, DY=1 + int(h // 24), HR=h % 24, LAT=lat, LON=lon)))
    return v

'''
S('c21-middle-time', 'C21', [('trackqc.py', "            hrs_smooth[i] = hrs[i + half_win]\n        assert not any(np.isnan(lon_smooth)), 'Nan(s) found in smoothed longitude'\n        assert not any(np.isnan(lat_smooth)), 'Nan(s) found in smoothed latitude'\n        assert not any(np.isnan(hrs_smooth)), 'Nan(s) found in smoothed time differences'\n    except AssertionError as error:\n        raise AssertionError('problem with smoothed report values: ' + str(error))\n\n    # loop through smoothed timeseries to see if drifter has run aground\n    i = 0\n    is_aground = False  # keeps track of whether drifter is deemed aground\n    i_aground = np.nan  # keeps track of index when drifter first ran aground\n    time_to_end = hrs_smooth[-1] - hrs_smooth[i]\n    while time_to_end >= min_win_period_hours:\n        f_win",
  "            hrs_smooth[i] = np.mean(hrs[i:i + smooth_win])\n        assert not any(np.isnan(lon_smooth)), 'Nan(s) found in smoothed longitude'\n        assert not any(np.isnan(lat_smooth)), 'Nan(s) found in smoothed latitude'\n        assert not any(np.isnan(hrs_smooth)), 'Nan(s) found in smoothed time differences'\n    except AssertionError as error:\n        raise AssertionError('problem with smoothed report values: ' + str(error))\n\n    # loop through smoothed timeseries to see if drifter has run aground\n    i = 0\n    is_aground = False  # keeps track of whether drifter is deemed aground\n    i_aground = np.nan  # keeps track of index when drifter first ran aground\n    time_to_end = hrs_smooth[-1] - hrs_smooth[i]\n    while time_to_end >= min_win_period_hours:\n        f_win")],
  'reports at uneven intervals and a record about as long as the shortest window', 'a drifter ashore is not found, the time of a smoothed position being taken as the mean of its window', DRIFT + '''
v = voyage([(0, 10.0, 20.0), (1, 10.0, 20.0), (24, 10.0, 20.0), (25, 10.0, 20.0), (26, 10.0, 20.0)])
tqc.aground_check(v.reps, 3, 1, 2)
assert [r.get_qc('POS', 'drf_agr') for r in v.reps] == [1] * 5, [r.get_qc('POS', 'drf_agr') for r in v.reps]
''')

S('c22-window-as-long', 'C22', [('trackqc.py', "        win_len = hrs[f_win][-1] - hrs[i]\n        if win_len < min_win_period_hours:\n            i += 1\n            time_to_end = hrs[-1] - hrs[i]\n            continue\n\n        displace = sphere_distance(lat[i], lon[i], lat[f_win][-1], lon[f_win][-1])",
  "        win_len = hrs[f_win][-1] - hrs[i]\n        if win_len <= min_win_period_hours:\n            i += 1\n            time_to_end = hrs[-1] - hrs[i]\n            continue\n\n        displace = sphere_distance(lat[i], lon[i], lat[f_win][-1], lon[f_win][-1])")],
  'a window exactly as long as the shortest one', 'a drifter carried off by a ship for exactly the shortest period is not found', DRIFT + '''
v = voyage([(0, 10.0, 20.0), (12, 12.0, 20.0), (24, 14.0, 20.0)])
tqc.speed_check(v.reps, 2.0, 1.0, 1.0)
assert [r.get_qc('POS', 'drf_spd') for r in v.reps] == [1] * 3, [r.get_qc('POS', 'drf_spd') for r in v.reps]
''')

S('c23-error-of-the-mean', 'C23', [('trackqc.py', "                bgerr_avg = np.mean(bgerr_winvals)", "                bgerr_avg = np.sqrt(np.mean(bgerr_winvals ** 2))")],
  'background errors that vary within a window and a bias between what their mean and their root mean square allow', 'a bad start of a record is passed', DRIFT + '''
v = voyage([(24 * k, 0.0, 0.0) for k in range(12)])
for k, r in enumerate(v.reps):
    r.setvar('SST', 20.0 + (0.45 if k < 6 else 0.0))
    r.setext('OSTIA', 20.0)
    r.setext('ICE', 0.0)
    r.setext('BGVAR', 0.25 if k % 2 else 0.0)
tqc.sst_tail_check(v.reps, 3, 2.0, 3, 9.0, 3, 0.0, 9.0, 0.3)
assert v.reps[0].get_qc('SST', 'drf_tail1') == 1, [r.get_qc('SST', 'drf_tail1') for r in v.reps]
''')

S('c25-first-month', 'C25', [('YMCounter.py', "                if lastdata != -1:\n                    ends.append(lastdata)", "                if lastdata > 0:\n                    ends.append(lastdata)")],
  'a drifter whose first chunk is nothing but the first month of the period', 'the chunks of a drifter are given the ends of others', '''
import YMCounter as ym
c = ym.YMCounter(2000, 1, 2002, 12)
for y, m in ((2000, 1), (2001, 6), (2001, 7)):
    c.setym(y, m, 1)
assert c.get_chunks(12) == ([0, 17], [0, 18]), c.get_chunks(12)
''')

S('c33-nearest-share', 'C33', [('trackqc.py', "    index1 = (length / trim)\n\n    trim = np.std(", "    index1 = int(round(float(length) / trim))\n\n    trim = np.std(")],
  'a sample of which the share to be trimmed is a half and more beyond a whole number', 'more is trimmed off than the documented share', '''
import trackqc as tqc
assert abs(tqc.trim_std([0., 0., 0., 0., 0., 9., 9., 9.], 5) - tqc.np.std([0., 0., 0., 0., 9., 9.])) < 1e-9, tqc.trim_std([0., 0., 0., 0., 0., 9., 9., 9.], 5)
''')

S('c36-last-temperature', 'C36', [('NRT.py', "        self.data['SST'] = sst\n", "        self.data['SST'] = sst if sst is not None else self.data.get('SST')\n")],
  'a line without a temperature read after one that has it, by the same record', 'a report without a temperature is given that of the line before', '''
import NRT
r = NRT.NRT()
r.readstr('A,x,2004-01-02T03:04:00Z,10.0,20.0,15.5')
r.readstr('A,x,2004-01-02T04:04:00Z,10.0,20.0,nan')
assert r.data['SST'] is None, r.data['SST']
''')
