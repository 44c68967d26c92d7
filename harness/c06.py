"""C06: source blacklists and platform markers (Blacklist, T_Blacklist)."""
import qc
import Extended_IMMA as ex
from mk import Rec
from rt import NONE, enc, deci

IDS = ["53521    ", "53522    ", "53566    ", "53567    ", "53568    ", "53571    ", "53578    ", "53580    ", "53582    ",
       "53591    ", "53592    ", "53593    ", "53594    ", "53595    ", "53596    ", "53599    ", "53600    ", "53601    ",
       "53602    ", "53603    ", "53604    ", "53605    ", "53606    ", "53607    ", "53608    ", "53609    ", "53901    ", "53902    "]
NEAR = ["53520    ", "53523    ", "53565    ", "53569    ", "53570    ", "53597    ", "53598    ", "53610    ", "53900    ",
        "53903    ", "53521", "5352", "SUPERIGORIN", "SUPERIGORINA ", "superigorina", "", "SHIP"]


def bl(v):
    lat, lon = v['lat'] / 100.0, v['lon'] / 100.0
    r = ex.MarineReportQC(Rec({'ID': v['id'], 'UID': 'u', 'DCK': deci(v['dck']), 'YR': v['yr'], 'MO': v['mo'], 'DY': 5,
                               'HR': 3.0, 'LAT': lat, 'LON': lon, 'PT': deci(v['pt'])}))
    r.do_blacklist()
    r.wind_blacklist()
    r.humidity_blacklist()
    r.mat_blacklist()
    r.is_buoy()
    r.is_ship()
    r.is_deck_780()
    return {'direct': enc(qc.blacklist(v['id'], deci(v['dck']), v['yr'], v['mo'], lat, lon, deci(v['pt']))),
            'bl': enc(r.get_qc('POS', 'blklst')), 'wind': enc(r.get_qc('W', 'wind_blacklist')),
            'hum': enc(r.get_qc('DPT', 'hum_blacklist')), 'mat': enc(r.get_qc('AT', 'mat_blacklist')),
            'buoy': enc(r.get_qc('POS', 'isbuoy')), 'drifter': enc(r.get_qc('POS', 'isdrifter')),
            'ship': enc(r.get_qc('POS', 'isship')), 'd780': enc(r.get_qc('POS', 'is780'))}


KINDS = {'bl': bl}


def generate(g):
    for v in g.behaviours.get('bl', []):
        g.fixed('bl', v)
    base = {'id': 'AA', 'dck': 926, 'yr': 1990, 'mo': 6, 'lat': 1000, 'lon': 2000, 'pt': 5}
    def f(**k):
        d = dict(base)
        d.update(k)
        g.fixed('bl', d)
    for i in IDS + NEAR + ['SUPERIGORINA']:
        for y, m in ((2005, 10), (2005, 11), (2005, 12), (2006, 1), (2006, 2), (2006, 11), (2004, 12), (2005, 1), (2006, 12)):
            f(id=i, yr=y, mo=m)
    for pt in list(range(-1, 25)) + [NONE]:
        for d in (NONE, 193, 700, 708, 732, 780, 781, 779, 874, 875, 873, 707, 709):
            f(pt=pt, dck=d)
    for lat in (-1, 0, 1):
        for lon in (-1, 0, 1, 36000, 35999, 18000, -18000):
            f(lat=lat, lon=lon)
    rng = g.rng
    for _ in range(g.scale(6000)):
        g.case('bl', {'id': rng.choice(IDS + NEAR + ['SUPERIGORINA']) if rng.random() < .2 else 'SHIP', 'dck': rng.choice([193, 732, 732, 780, 708, 874, 926, NONE]),
                      'yr': rng.choice([2005, 2006]) if rng.random() < 0.1 else rng.randint(1879, 1893) if rng.random() < .4 else rng.randint(1957, 1975),
                      'mo': rng.randint(1, 12), 'pt': rng.choice([NONE, 13, 5, 7, 6]) if rng.random() < 0.3 else rng.randint(0, 20),
                      'lat': rng.choice([100 * rng.randint(-90, 90), rng.randint(-9000, 9000), 0]),
                      'lon': rng.choice([500 * rng.randint(-36, 72), rng.randint(-18000, 36000), 0])})
