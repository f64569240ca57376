S, F, D, W, H, C, G, U = 'pyowc/core/stats.py', 'pyowc/core/finders.py', 'pyowc/data/fetchers.py', 'pyowc/data/wrangling.py', 'pyowc/helper.py', 'pyowc/calibration.py', 'pyowc/configuration.py', 'pyowc/utilities.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


BEST = '''
from pyowc.core.finders import find_besthist
def best(n, M, seed=3, al=20., as_=2., spread=4.):
    r = np.random.default_rng(seed)
    la, lo, d, z = r.normal(-40, spread, n), r.normal(100, spread, n), r.uniform(1990, 2010, n), -r.uniform(2000, 4000, n)
    i = quiet(find_besthist, la, lo, d, z, -40., 100., 2005., -3000., 8., 4., 8., 4., .5, .2, al, as_, 0, M)
    e = ((lo - 100) / 24) ** 2 + ((la + 40) / 24) ** 2
    big = ((lo - 100) / 8) ** 2 + ((la + 40) / 8) ** 2 + ((d - 2005) / al) ** 2
    sml = ((lo - 100) / 4) ** 2 + ((la + 40) / 4) ** 2 + ((d - 2005) / as_) ** 2
    return [int(x) for x in i], np.nonzero(e < 1)[0], big, sml
'''
seed('C01-small-age', 'C01', [(F, 'date, age_small,', 'date, age_large,')],
     'more casts in the ellipse than the limit, and casts whose rank at the small scales differs with the age scale', 'the last third is ranked with the large age scale', BEST + '''
i, e, big, sml = best(200, 30)
last = i[20:]
left = [x for x in e if x not in i[:20]]
want = sorted(left, key=lambda x: sml[x])[:10]
check(sorted(last) == sorted(want), 'last third is not the closest at the small scales')
''')
seed('C01-segment', 'C01', [(F, 'lsegment2 = math.ceil(max_casts / 3) + math.ceil(max_casts / 3) - index_rand.__len__()', 'lsegment2 = math.ceil(2 * max_casts / 3) - index_rand.__len__()')],
     'a limit that leaves remainder 1 when divided by three', 'one cast of the second third is chosen at the small scales instead', BEST + '''
for M in (30, 31, 40, 43):
    i, e, big, sml = best(220, M, seed=M)
    k = 2 * math.ceil(M / 3)
    check(len(set(i)) == M, 'size')
    # the random ones come first, in ascending order
    for nr in range(1, math.ceil(M / 3) + 1):
        left = [x for x in e if x not in i[:nr]]
        if sorted(i[nr:k]) == sorted(sorted(left, key=lambda x: big[x])[:k - nr]):
            rest = [x for x in left if x not in i[nr:k]]
            check(sorted(i[k:]) == sorted(sorted(rest, key=lambda x: sml[x])[:M - k]), 'last third, limit %d' % M); break
    else: check(False, 'second third, limit %d' % M)
''')
ARCH = '''
from scipy.io import savemat
import pyowc.data.fetchers as fe
T = tempfile.mkdtemp(); import atexit; atexit.register(shutil.rmtree, T, True)
CFG = {'HISTORICAL_DIRECTORY': T, 'HISTORICAL_CTD_PREFIX': '/ctd_', 'HISTORICAL_BOTTLE_PREFIX': '/bot_', 'HISTORICAL_ARGO_PREFIX': '/argo_', 'MAP_P_DELTA': 100.}
def put(kind, box, lat, pres, source=None, long=None):
    pres = np.array(pres, float).T; n = len(lat)
    d = dict(lat=np.array(lat, float), long=np.array(long if long is not None else [100.] * n, float), dates=np.array([20000101000000.] * n), pres=pres, sal=34 + pres / 1e4, ptmp=10 - pres / 1e3, temp=10 - pres / 1e3)
    if source: d['source'] = np.array(source, dtype=object)
    savemat(os.path.join(T, '%s_%d.mat' % (kind, box)), d)
def get(boxes, idx, fp, name='F7'): return quiet(fe.get_region_data, np.array(boxes, float), name, CFG, np.array(idx), np.array(fp, float))
'''
seed('C02-source-prefix', 'C02', [(D, "find(pa_float_name) != -1", "find(pa_float_name) == 0")],
     'an archive whose sources do not begin with the float name (a data centre or mode prefix)', 'the float being analysed is used as its own reference', ARCH + '''
put('argo', 1001, [-40, -41, -42], [[0, 500], [0, 500], [0, 500]], ['aoml_5900_1', 'D5901234_003', '5904_2'])
la, lo, da = quiet(fe.get_region_hist_locations, np.array([[1001., 0, 0, 1]]), '5901234', CFG)
check(sorted(la) == [-42, -40], 'analysed float offered: %s' % la)
''')
seed('C02-counting', 'C02', [(D, "                    starting_index = starting_index + data_length\n", "                    starting_index = starting_index + min(data_length, data['pres'].shape[0])\n")],
     'a file with more casts than levels, followed by another file', 'casts of later files are retrieved under the wrong numbers', ARCH + '''
put('ctd', 1001, [-40, -41, -42, -43], [[0, 100, 200]] * 4)
put('ctd', 1002, [-50, -51], [[0, 100, 200]] * 2)
r = get([[1001, 1, 0, 0], [1002, 1, 0, 0]], [1, 4], [0, 500])
check(list(r['grid_lat']) == [-41, -50], 'casts retrieved: %s' % r['grid_lat'])
''')
seed('C03-cutoff', 'C03', [(D, "too_deep = np.argwhere(pres > max_pres)", "too_deep = np.argwhere(pres >= max_pres)")],
     'a level at exactly the deepest float pressure plus the margin', 'a usable level is dropped', ARCH + '''
put('ctd', 1003, [-40, -41], [[0, 500, 1100], [0, 600, 1200]])
r = get([[1003, 1, 0, 0]], [0, 1], [0, 1000, np.nan])
check(np.nanmax(r['grid_pres']) == 1100, 'level at 1100 dbar lost')
''')
seed('C03-cache', 'C03', [(D, "                            # only use non-NaN values\n", "                            # only use non-NaN values\n                            data['pres'][data['pres'][:, i] > max_pres, i] = np.nan\n")],
     'two retrievals of one archive file in a session, the second for a deeper profile', 'levels cut for one profile are gone for all later ones', ARCH + '''
put('ctd', 1004, [-40, -41], [[0, 500, 1100, 1900], [0, 600, 1200, 2000]])
get([[1004, 1, 0, 0]], [0, 1], [0, 400])
r = get([[1004, 1, 0, 0]], [0, 1], [0, 2000])
check(np.nanmax(r['grid_pres']) == 2000, 'deep levels lost after an earlier, shallower retrieval')
''')
TOPO = '''
import pyowc.data.fetchers as fe
T = tempfile.mkdtemp(); import atexit; atexit.register(shutil.rmtree, T, True)
V = ((np.arange(2160)[:, None] * 31 + np.arange(4320)[None, :] * 7) % 30011 - 15000).astype(np.int16)
V.tofile(os.path.join(T, 'tbase.int'))
def topo(a, b, c, d):
    z, x, y = fe.get_topo_grid(a, b, c, d, {'CONFIG_DIRECTORY': T})
    r = 1080 - np.round(y * 12).astype(int); k = np.round(x * 12).astype(int) % 4320
    check(np.array_equal(z, V[r, k]), 'node with the elevation of another place in %s' % ((a, b, c, d),))
    check(x.min() <= a and x.max() >= b and y.min() <= c and y.max() >= d, 'range %s not covered' % ((a, b, c, d),))
'''
seed('C04-seam', 'C04', [(D, "nlgr = int(round(decoder[1] - 4320)) + 1", "nlgr = int(round(decoder[1] - 4320))"), (D, "nlgl = int(4320 - decoder[0])", "nlgl = int(4320 - decoder[0]) + 1")],
     'a range that crosses the 0/360 meridian', 'the node at the meridian carries the depth of the next latitude and the rest of the row is shifted', TOPO + '''
topo(10.2, 12.1, -3.3, 4.2); topo(-2.2, 3.1, 10, 12); topo(358.3, 361.2, -50, -48.9)
''')
seed('C04-round', 'C04', [(D, "tlat = int(np.ceil(max_lat * 12))", "tlat = int(np.round(max_lat * 12))")],
     'a northern limit less than half a node above a node', 'the grid stops short of the northern limit', TOPO + '''
topo(10.2, 12.1, -3.3, 4.2); topo(-2.2, 3.1, 10, 12.02)
''')
BOX = '''
from pyowc.core.finders import find_25boxes
t = np.zeros((648, 4)); t[:, 0] = np.arange(648) + 1000
def own(x, y): return 1000 + int(((x + .01) % 360) // 10) * 18 + min(17, max(0, int((90 - y - .01) // 10)))
def boxes(x, y):
    w = find_25boxes(x, y, {'la_wmo_boxes': t})[:, 0]
    e = [own(x + a, min(89.9, max(-89.9, y + b))) for b in (0, 10, -10, 20, -20) for a in (0, 10, -10, 20, -20)]
    check(sorted(set(w)) == sorted(set(e)), 'boxes around %s: %s, expected %s' % ((x, y), sorted(set(w)), sorted(set(e))))
'''
seed('C05-wrap-east', 'C05', [(F, "    if ln_x[3] >= 360:\n", "    if ln_x[3] >= 375:\n")], 'a profile between 350E and 355E', 'the boxes 20 degrees east are taken next to the meridian', BOX + '''
for x in (57.3, 123.2, 352.5): boxes(x, -41.7)
''')
seed('C05-wrap-west', 'C05', [(F, "    if ln_x[4] < 0:\n", "    if ln_x[4] < -10:\n")], 'a profile between 10E and 15E', 'boxes to the west of the meridian are missed', BOX + '''
for x in (57.3, 123.2, 352.5, 12.5): boxes(x, -41.7)
''')
seed('C06-order', 'C06', [(U, "    neg_long = np.argwhere(grid_long < 0)\n", "    top_long = np.argwhere(grid_long >= 320)\n    neg_long = np.argwhere(grid_long < 0)\n"), (U, "    # so it appears on the map\n    top_long = np.argwhere(grid_long >= 320)\n", "    # so it appears on the map\n")],
     'a list whose longitudes west of the meridian are all given as negative', 'the region stays split at the meridian', '''
from pyowc.utilities import wrap_longitude
r = wrap_longitude(np.array([-10., -5., 3., 20.]))
check(list(r) == [350, 355, 363, 380], 'wrapped: %s' % r)
''')
seed('C06-edge', 'C06', [(U, "bottom_long = np.argwhere(grid_long <= 40)", "bottom_long = np.argwhere(grid_long <= 40 - 1e-9)")],
     'a longitude of exactly 40 degrees in a region that reaches 320 or more', 'that position is left a turn away from the others', '''
from pyowc.utilities import wrap_longitude
r = wrap_longitude(np.array([330., 40., 5.]))
check(list(r) == [330, 400, 365], 'wrapped: %s' % r)
''')
DATE = '''
from pyowc.utilities import change_dates
def date(n, e):
    r = quiet(change_dates, np.array(n))
    check(np.allclose(r, e, rtol=0, atol=1e-9), '%s gives %s, expected %s' % (n, r, e))
'''
seed('C07-hours', 'C07', [(U, "if cal_dates_string[i].__len__() > 9:", "if cal_dates_string[i].__len__() > 10:")], 'dates with hours and nothing more (YYYYMMDDhh)', 'the hour is ignored', DATE + '''
date([20000201120000], [2000 + 31.5 / 365]); date([2000020112], [2000 + 31.5 / 365])
''')
seed('C07-minutes', 'C07', [(U, "            year = int(cal_dates_string[i][0:4])", "            year = int(cal_dates_string[i][0:4])\n            minute = 0 if i == 0 else minute"), (U, "            hour = 0\n            minute = 0\n", "            hour = 0\n")],
     'a list that mixes dates with minutes and dates without', 'a date inherits the minutes of the date before it', DATE + '''
date([20000201120000, 20000201], [2000 + 31.5 / 365, 2000 + 31 / 365]); date([20000201124500, 2000020112], [2000 + (31.5 + 45 / 1440) / 365, 2000 + 31.5 / 365])
''')
COV = '''
from pyowc.core.stats import covar_xyt_pv
def pv(a, z): return 2 * 7.292e-5 * math.sin(math.radians(a)) / z
def ref(p, q, la, lo, ag, ph, use):
    o = np.zeros((len(p), len(q)))
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            s = ((a[0] - b[0]) / lo) ** 2 + ((a[1] - b[1]) / la) ** 2 + (((a[2] - b[2]) / ag) ** 2 if ag else 0)
            if use:
                x, y = pv(a[0], a[3]), pv(b[0], b[3]); s += ((x - y) / math.hypot(x, y) / ph) ** 2
            o[i, j] = math.exp(-s)
    return o
'''
seed('C08-hemisphere', 'C08', [(S, "    pv_lat2 = potential_vorticity_vec(points2[:, 0], points2[:, 3])", "    pv_lat2 = np.copysign(potential_vorticity_vec(points2[:, 0], points2[:, 3]), pv_lat1[0])")],
     'positions on both sides of the equator with the vorticity term on', 'vorticities of opposite sign look alike', COV + '''
p = np.array([[2., 100, 2000, 3000], [3, 101, 2001, 3500]]); q = np.array([[-2., 100, 2000, 3000], [1, 102, 2003, 2800], [-1, 100, 1999, 4000]])
for use in (0, 1): check(np.allclose(covar_xyt_pv(p, q, 4, 5, 10, .5, use), ref(p, q, 4, 5, 10, .5, use)), 'covariance across the equator, pv %d' % use)
''' )
seed('C08-age', 'C08', [(S, "    if age != 0:\n        age_covar", "    if age > 1:\n        age_covar")], 'an age scale of a year or less', 'the time separation is ignored', COV + '''
p = np.array([[2., 100, 2000, 3000], [3, 101, 2000.4, 3500]])
for ag in (10, 2, .5): check(np.allclose(covar_xyt_pv(p, p, 4, 5, ag, .5, 0), ref(p, p, 4, 5, ag, .5, 0)), 'covariance with age scale %s' % ag)
''')
MAPD = '''
from pyowc.data.wrangling import map_data_grid
def ref(s, g, d, la, lo, ag, sv, nv):
    k = lambda a, b: sv * np.exp(-((a[:, None, 0] - b[None, :, 0]) / lo) ** 2 - ((a[:, None, 1] - b[None, :, 1]) / la) ** 2 - ((a[:, None, 2] - b[None, :, 2]) / ag) ** 2)
    I = np.linalg.inv(k(d, d) + nv * np.eye(len(s))); t = I.sum(); m = (I @ s).sum() / t
    o = []
    for x in (g, d):
        K = k(x, d); o += [K @ (I @ (s - m)) + m, np.sqrt(sv - np.diag(K @ I @ K.T) + (1 - (K @ I).sum(axis=1)) ** 2 / t)]
    return o
def both(s, g, d, *a):
    r = map_data_grid(s, g, d, *a, .1, 0); e = ref(s, g, d, *a)
    check(np.allclose(r[0], e[0][0]) and np.allclose(r[1], e[1][0]) and np.allclose(r[2], e[2]) and np.allclose(r[3], e[3]), 'mapped %s, expected %s' % (r[:2], (e[0][0], e[1][0])))
'''
seed('C09-coincident', 'C09', [(W, "noise_variance * np.identity(data_pos.__len__()))", "noise_variance * (data_pos_covar == 1))")], 'two casts at the same place and time', 'coincident casts share one noise, so the system degenerates', MAPD + '''
r = np.random.default_rng(1)
d = r.normal(0, 3, (8, 4)) + [10, 100, 2000, 3000]; g = np.array([[10., 100, 2000, 3000]]); s = 35 + r.normal(0, .1, 8)
both(s, g, d, 4., 5., 10., .02, .01)
d[3] = d[5]
both(s, g, d, 4., 5., 10., .02, .01)
''')
seed('C09-error', 'C09', [(W, "    covar_sum = np.sum(np.dot(grid_data_covar, data_data_covar), axis=1)", "    covar_sum = np.minimum(np.sum(np.dot(grid_data_covar, data_data_covar), axis=1), 1)")], 'a float so surrounded by casts that the weights add up to more than one', 'the error of the mapped value loses the part due to the mean', MAPD + '''
d = np.array([[x, y, 2000., 3000.] for x in (9, 10, 11) for y in (99, 100, 101)]); s = 35 + .1 * np.sin(np.arange(9.)); g = np.array([[10., 100., 2000., 3000.]])
both(s, g + 3, d, 4., 5., 10., .02, .01)
both(s, g, d, 4., 5., 10., .2, .01)
''')
INT = '''
from pyowc.data.wrangling import interp_climatology
def ref(gs, gt, gp, fs, ft, fp):
    S = np.full((len(fs), gs.shape[1]), np.nan); P = S.copy()
    for l in range(len(fs)):
        if not np.isfinite(fs[l] + ft[l] + fp[l]): continue
        for c in range(gs.shape[1]):
            k = np.isfinite(gs[:, c]) & np.isfinite(gt[:, c]) & np.isfinite(gp[:, c]); s, t, p = gs[k, c], gt[k, c], gp[k, c]; b = None
            for i in range(len(t) - 1):
                if (t[i] - ft[l]) * (t[i + 1] - ft[l]) <= 0 and t[i] != t[i + 1]:
                    w = (ft[l] - t[i]) / (t[i + 1] - t[i]); x = p[i] + w * (p[i + 1] - p[i])
                    if b is None or abs(x - fp[l]) < abs(b[0] - fp[l]): b = (x, s[i] + w * (s[i + 1] - s[i]))
            if b: P[l, c], S[l, c] = b
    return S, P
def interp(*a):
    r, e = quiet(interp_climatology, *a), ref(*a)
    check(np.allclose(r[0], e[0], equal_nan=True) and np.allclose(r[1], e[1], equal_nan=True), 'interpolated %s, expected %s' % (r, e))
'''
seed('C10-stale', 'C10', [(W, "        # select the values of sal matching the closest pres values\n", "        if stations_with_possible_interp.size < grid_stations:\n            sign_changes = tuple(axis[1:] for axis in sign_changes)\n\n        # select the values of sal matching the closest pres values\n")],
     'a float level that some casts do not bracket, followed by levels of the same casts with inversions', 'a value of an earlier level is left behind and is taken for a nearer pressure', INT + '''
gt = np.array([[10., 5.], [6, 5.2], [8, 3], [2, 2]]); gp = np.array([[0., 0], [100, 100], [200, 200], [600, 400]]); gs = np.array([[36., 35], [35.5, 35.1], [35.2, 34.8], [34, 34.5]])
interp(gs, gt, gp, np.array([35., 35]), np.array([7., 4]), np.array([180., 300]))
interp(gs, gt, gp, np.array([35., 35, 35]), np.array([9., 4, 7]), np.array([30., 20, 40]))
''')
seed('C10-inf', 'C10', [(W, "    good_theta = np.isfinite(theta)", "    good_theta = ~np.isnan(theta)")], 'infinite temperatures in the archive', 'an infinite temperature takes part in the interpolation', INT + '''
gt = np.array([[10.], [6], [np.inf], [2]]); gp = np.array([[0.], [100], [200], [600]]); gs = np.array([[36.], [35.5], [35.2], [34]])
interp(gs, gt, gp, np.array([35., 35]), np.array([7., 4]), np.array([50., 250]))
''')
BC = '''
from pyowc.core.stats import build_cov
CFG = {'MAPSCALE_LONGITUDE_SMALL': 4., 'MAPSCALE_LATITUDE_SMALL': 2., 'MAPSCALE_PHI_SMALL': .3, 'MAP_USE_PV': 1}
def ref(t, xy):
    L, P = t.shape; o = np.zeros((L * P, L * P)); pv = [2 * 7.292e-5 * math.sin(math.radians(a[0])) / a[2] for a in xy]
    b = [-2, 1, 2.5, 4, 8, 12, 18, 24, 30]; dn = [1, 1, 1.5, 1.5, 4, 4, 6, 6, 6]; up = [1, 1.5, 1.5, 4, 4, 6, 6, 6, 6]
    for p in range(P):
        for q in range(P):
            h = ((xy[p][0] - xy[q][0]) / 2) ** 2 + ((xy[p][1] - xy[q][1]) / 4) ** 2
            if CFG['MAP_USE_PV']: h += ((pv[p] - pv[q]) / math.hypot(pv[p], pv[q]) / .3) ** 2
            for i in range(L):
                for j in range(L):
                    v = 1. if i == j else math.exp(-((t[j, p] - t[i, p]) / np.interp(t[i, p], b, dn if i < j else up)) ** 2)
                    o[p * L + i, q * L + j] = math.exp(-h) * (1 if math.isnan(v) else v)
    return o
'''
seed('C11-tile', 'C11', [(S, "                elif i > j:\n                    l_theta = lower_interp(ptmp[i, profile])", "                elif i > j:\n                    l_theta = lower_interp(ptmp[i, max(profile, 0)] if i - j < 3 else ptmp[i - 1, profile])")],
     'profiles of four levels or more whose neighbouring levels have different up-looking scales', 'the lower triangle uses the scale of another level', BC + '''
t = np.array([[20., 19.5], [11.2, 12.4], [6, np.nan], [3.1, 3.3], [1.4, 1.9]]); xy = np.array([[-40., 100, 3000], [-41, 101, 3500]])
check(np.allclose(build_cov(t[:3], xy, CFG), ref(t[:3], xy)), 'three levels')
check(np.allclose(build_cov(t, xy, CFG), ref(t, xy)), 'five levels')
''')
seed('C11-pv', 'C11', [(S, "    if use_pv and pv_input_coords.any() and pv_coords.any() != 0:", "    if use_pv and pv_input_coords.any() and pv_coords.all() != 0:")], 'one profile exactly on the equator among others, with the vorticity term on', 'the vorticity term is dropped for all pairs', BC + '''
t = np.array([[20., 19.5, 19], [11.2, 12.4, 12]])
xy = np.array([[-1., 100, 3000], [-2, 101, 3500], [1, 102, 2500]])
check(np.allclose(build_cov(t, xy, CFG), ref(t, xy)), 'no profile on the equator')
xy[2, 0] = 0
check(np.allclose(build_cov(t, xy, CFG)[:4, :4], ref(t, xy)[:4, :4]), 'one profile on the equator')
''')
FIT = '''
from pyowc.core.stats import brk_pt_fit
def basis(x, b):
    k = np.concatenate(([x[0]], b, [np.inf])); E = np.ones((len(x), len(b) + 2))
    for j in range(len(b) + 1): E[:, j + 1] = (np.minimum(x, k[j + 1]) - k[j]) * ((x >= k[j]) | (j == 0))
    return E
def fit(x, y, w, b):
    E = basis(x, b); W = w if len(w) else np.eye(len(x))
    a = np.linalg.solve(E.T @ W @ E, E.T @ W @ y); p, r = quiet(brk_pt_fit, x, y, w, b)
    check(np.allclose(p, a) and np.allclose(r, y - E @ a), 'fit %s, expected %s' % (p, a))
x = np.linspace(-1, 1, 12); y = np.sin(3 * x) + .2 * np.cos(17 * x)
'''
seed('C12-weights', 'C12', [(S, "fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)", "fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), np.sqrt(w_i)), y_obvs)")],
     'weights that are not all 0 or 1', 'the coefficients do not satisfy the weighted normal equations', FIT + '''
fit(x, y, [], np.array([])); fit(x, y, np.eye(12), np.array([.1])); fit(x, y, np.diag(np.linspace(.5, 2, 12)), np.array([-.3, .4]))
''')
seed('C12-last-break', 'C12', [(S, "        if ixb_g_j.__len__() > 0:\n", "        if ixb_g_j.__len__() > 1:\n")], 'exactly one point beyond a break', 'the curve is discontinuous at the last point', FIT + '''
fit(x, y, [], np.array([.1])); fit(x, y, [], np.array([-.2, .95]))
''')
FC = '''
from pyowc.core.stats import fit_cond
def go(x, y, e, mb, nl=20):
    n = y.size; np.random.seed(1)
    return quiet(fit_cond, np.tile(x, (y.shape[0], 1)), y, e, np.eye(n), 'max_no_breaks', mb, 'nloops', nl)
'''
seed('C13-slope', 'C13', [(S, "        A[1:best] = A[1:best] * y_scale / x_scale", "        A[1:best] = A[1:best] * y_scale / min(x_scale, 1)")], 'a linear or piecewise fit over more than three profiles', 'the returned slope is not that of the curve', FC + '''
x = np.arange(1., 13); r = np.random.default_rng(0); y = 1 + .01 * x + r.normal(0, 1e-4, (4, 12)); q = go(x, y, np.full(y.shape, 1e-4), 0)
c = np.ravel(q[1]); check(np.allclose(np.ravel(q[3]), (c[-1] - c[0]) / 11), 'slope %s of the curve %s' % (np.ravel(q[3])[:2], c))
''')
seed('C13-gaps', 'C13', [(S, "good = np.argwhere(np.isfinite(y) & np.isfinite(x))", "good = np.argwhere(np.isfinite(y) & np.isfinite(x) & (n_err < 50 * np.nanmedian(n_err)))")], 'observations with very unequal errors', 'observations with large errors are ignored as if missing', FC + '''
x = np.arange(1., 7); y = np.full((3, 6), 1.); y[:, 3:] = 2.; e = np.full((3, 6), .01); e[:, 3:] = 1.
q = go(x, y, e, -1); w = 1 / e ** 2
check(np.allclose(np.ravel(q[1]), (w * y).sum() / w.sum(), rtol=0, atol=1e-9), 'weighted mean %s, expected %s' % (np.ravel(q[1])[0], (w * y).sum() / w.sum()))
''')
TH = '''
from pyowc.core.finders import find_10thetas
r = np.random.default_rng(5); L, P = 30, 4
p = np.sort(r.uniform(0, 2000, (L, P)), axis=0); t = 15 * np.exp(-p / 600) + 2; s = 34.5 + .05 * t + r.normal(0, .01, (L, P))
def ten(tl=[], tg=[], pl=[], pg=[], pc=.5):
    f = lambda v: [] if v == [] else np.array([[float(v)]])
    return quiet(find_10thetas, s.copy(), t.copy(), p.copy(), t.copy(), f(tl), f(tg), f(pl), f(pg), np.array([[pc]]))
'''
seed('C14-bounds', 'C14', [(F, "        pres_range = np.argwhere(pres > use_pres_lt)\n        for i in pres_range:\n", "        pres_range = np.argwhere(pres > use_pres_lt)\n        for i in pres_range[1:]:\n")], 'a lower pressure bound only', 'an excluded observation can be chosen', TH + '''
for b in (1800, 1000, 700, 500, 300):
    s[:] = 34.5 + .05 * t; n = 0
    q = ten(pl=b); ix = np.asarray(q[2], float)
    th = np.asarray(q[4], float).ravel(); a = np.where(p > b, np.nan, t)
    check(np.nanmax(th) <= np.nanmax(a) and np.nanmin(th) >= np.nanmin(a) - 1e-9, 'bound %s: candidate levels %s..%s beyond the allowed observations %s..%s' % (b, np.nanmin(th), np.nanmax(th), np.nanmin(a), np.nanmax(a)))
    for c in range(P):
        for k in ix[:, c]:
            if k >= 0: check(p[int(k), c] <= b, 'bound %s: observation at %s dbar chosen' % (b, p[int(k), c]))
''')
seed('C14-percent', 'C14', [(F, "bad = np.argwhere(percent_s_profs < use_percent_gt)", "bad = np.argwhere(percent_s_profs <= use_percent_gt)")], 'a candidate level present in exactly the required share of the profiles', 'a level with enough profiles is left out', TH + '''
t[t[:, 0] < 8, 0] = np.nan; t[t[:, 1] < 8, 1] = np.nan
q = ten(pc=.5); v = np.asarray(q[3], float).ravel(); th = np.asarray(q[4], float).ravel()
n = np.array([sum(np.nanmin(t[:, c]) < x < np.nanmax(t[:, c]) for c in range(P)) for x in th])
check(np.any((n == 2)) and np.all(np.isfinite(v[n == 2])), 'levels present in half of the profiles are left out')
''')
HIST = '''
from scipy.io import savemat, loadmat
import pyowc.helper as he
T = tempfile.mkdtemp(); import atexit; atexit.register(shutil.rmtree, T, True)
'''
seed('C15-extend', 'C15', [(H, "float_mapped_data[\"la_signal_sal\"].shape[0],", "0,")], 'a second run with profiles that have more levels than the stored ones', 'stored signal variances move to other levels', HIST + '''
d = {q: np.arange(6.).reshape(2, 3) for q in ('la_mapped_sal', 'la_mapsalerrors', 'la_noise_sal', 'la_signal_sal', 'la_ptmp')}
for q in ('scale_long_large', 'scale_lat_large', 'scale_long_small', 'scale_lat_small', 'scale_phi_large', 'scale_phi_small', 'scale_age_large', 'scale_age_small', 'use_pv', 'use_saf', 'p_delta', 'p_exclude'): d[q] = np.ones(3)
d['la_profile_no'] = np.array([1, 2, 3]); d['selected_hist'] = np.ones((1, 3)); f = os.path.join(T, 'm.mat'); savemat(f, d)
r = quiet(he.load_varibales_from_file, f, 4)
for q in ('la_mapped_sal', 'la_map_sal_errors', 'la_noise_sal', 'la_signal_sal', 'la_ptmp'):
    check(r[q].shape == (4, 3) and np.array_equal(r[q][:2], np.arange(6.).reshape(2, 3)) and np.all(np.isnan(r[q][2:])), q + ' moved: %s' % r[q])
''')
WORLD = '''
from scipy.io import savemat, loadmat
T = tempfile.mkdtemp(); import atexit; atexit.register(shutil.rmtree, T, True)
import pyowc.data.fetchers as fe, pyowc.helper as he, pyowc.calibration as ca, pyowc.core.finders as fi
for x in 'hsmck': os.makedirs(os.path.join(T, x))
np.full((2160, 4320), -3000, np.int16).tofile(os.path.join(T, 'k', 'tbase.int'))
t = np.zeros((648, 4)); t[:, 0] = np.arange(648) + 1000; t[:, 1] = 1; savemat(os.path.join(T, 'k', 'wmo_boxes.mat'), {'la_wmo_boxes': t})
CFG = {'HISTORICAL_DIRECTORY': T + '/h', 'HISTORICAL_CTD_PREFIX': '/ctd_', 'HISTORICAL_BOTTLE_PREFIX': '/bot_', 'HISTORICAL_ARGO_PREFIX': '/argo_', 'FLOAT_SOURCE_DIRECTORY': T + '/s', 'FLOAT_SOURCE_POSTFIX': '.mat',
 'FLOAT_MAPPED_DIRECTORY': T + '/m', 'FLOAT_MAPPED_PREFIX': 'map_', 'FLOAT_MAPPED_POSTFIX': '.mat', 'FLOAT_CALIB_DIRECTORY': T + '/c', 'FLOAT_CALIB_PREFIX': 'cal_', 'FLOAT_CALSERIES_PREFIX': 'calseries_', 'FLOAT_CALIB_POSTFIX': '.mat',
 'CONFIG_DIRECTORY': T + '/k', 'CONFIG_WMO_BOXES': 'wmo_boxes.mat', 'CONFIG_SAF': '', 'CONFIG_MAX_CASTS': 300, 'MAP_USE_PV': 0, 'MAP_USE_SAF': 0, 'MAPSCALE_LONGITUDE_LARGE': 8., 'MAPSCALE_LONGITUDE_SMALL': 4., 'MAPSCALE_LATITUDE_LARGE': 4.,
 'MAPSCALE_LATITUDE_SMALL': 2., 'MAPSCALE_PHI_LARGE': .1, 'MAPSCALE_PHI_SMALL': .02, 'MAPSCALE_AGE_LARGE': 20., 'MAPSCALE_AGE_SMALL': 10., 'MAP_P_EXCLUDE': 100., 'MAP_P_DELTA': 250.}
r = np.random.default_rng(2)
def archive(n=24, la=-45.2, lo=65.1):
    p = np.sort(r.uniform(0, 2000, (12, n)), axis=0); q = 12 * np.exp(-p / 500) + 1.5
    y, x = r.normal(la, 1, n), r.normal(lo, 1, n)
    d = dict(lat=y, long=x, dates=np.full(n, 20050101000000.), pres=p, ptmp=q, temp=q, sal=34.3 + .05 * q + .02 * (y - la) + r.normal(0, .02, p.shape))
    savemat(T + '/h/ctd_%d.mat' % (1000 + int(lo // 10) * 18 + int((90 - la) // 10)), d); return d
def source(nos, pres, la=-45.2, lo=65.1, seed=4):
    r = np.random.default_rng(seed); pres = np.array(pres, float).reshape(-1, 1) * np.ones(len(nos)); q = 12 * np.exp(-pres / 500) + 1.5
    sc = np.argsort(np.argsort(nos))
    d = dict(PROFILE_NO=np.array([nos], float), LAT=np.full((1, len(nos)), la) + .1 * sc, LONG=np.full((1, len(nos)), lo) + .1 * sc, DATES=np.full((1, len(nos)), 2006.), PRES=pres, TEMP=q, PTMP=q, SAL=34.3 + .05 * q)
    savemat(T + '/s/F7.mat', d); return d
def mapping():
    quiet(ca.update_salinity_mapping, '', CFG, 'F7'); return loadmat(T + '/m/map_F7.mat')
'''
seed('C15-settings', 'C15', [(C, "                            data['p_exclude'][profile_index] = map_p_exclude", "                            data['p_exclude'][missing_profile] = map_p_exclude")], 'a re-run that adds profiles which precede stored ones, with another setting', 'the stored setting of another profile is overwritten', WORLD + '''
archive(); source([3, 4], [150, 600, 900]); CFG['MAP_P_EXCLUDE'] = 100.; mapping()
source([1, 2, 3, 4], [150, 600, 900]); CFG['MAP_P_EXCLUDE'] = 120.; m = mapping()
check(list(m['la_profile_no'].ravel()) == [1, 2, 3, 4] and list(m['p_exclude'].ravel()) == [120, 120, 100, 100], 'exclusion pressures %s of profiles %s' % (m['p_exclude'].ravel(), m['la_profile_no'].ravel()))
''')
CALS = '''
from scipy.io import savemat, loadmat
import pyowc.configuration as co
T = tempfile.mkdtemp(); import atexit; atexit.register(shutil.rmtree, T, True)
CFG = {'FLOAT_SOURCE_DIRECTORY': T, 'FLOAT_SOURCE_POSTFIX': '.mat', 'FLOAT_CALIB_DIRECTORY': T, 'FLOAT_CALSERIES_PREFIX': 'calseries_', 'FLOAT_CALIB_POSTFIX': '.mat'}
os.makedirs(T + '/a')
def src(nos, **bad):
    d = {k: np.ones((3, len(nos))) for k in ('SAL', 'TEMP', 'PRES')}; d['PROFILE_NO'] = np.array([nos], float)
    for k, j in bad.items(): d[k][:, j] = np.nan
    savemat(T + '/a/F7.mat', d)
def cal():
    quiet(co.set_calseries, 'a', 'F7', CFG); return loadmat(T + '/a/calseries_F7.mat')
'''
seed('C16-flag', 'C16', [(G, "        if sal_nan.__len__() == 0 or \\\n                temp_nan.__len__() == 0 or \\\n                pres_nan.__len__() == 0:", "        if sal_nan.__len__() == 0 or \\\n                np.intersect1d(temp_nan, pres_nan).__len__() == 0:")], 'a profile whose temperatures and pressures are valid on different levels only', 'a profile that has valid salinities, temperatures and pressures is flagged out', CALS + '''
src([1, 2, 3], TEMP=1); c = cal(); check(list(c['calseries'].ravel()) == [1, 0, 1], 'flags %s' % c['calseries'])
os.remove(T + '/a/calseries_F7.mat'); d = {k: np.ones((3, 3)) for k in ('SAL', 'TEMP', 'PRES')}; d['PROFILE_NO'] = np.array([[1., 2, 3]])
d['TEMP'][0, 1] = np.nan; d['PRES'][1:, 1] = np.nan; savemat(T + '/a/F7.mat', d)
c = cal(); check(list(c['calseries'].ravel()) == [1, 1, 1], 'flags %s' % c['calseries'])
''')
seed('C16-bound', 'C16', [(G, "    if use_pres_lt.__len__() > 1:\n", "    if use_pres_lt.__len__() > 1 and use_theta_lt.__len__() <= 1 and use_pres_gt.__len__() == 0:\n")], 'settings with two values for the lower pressure bound and a value for the upper one', 'a bound given two values is kept', CALS + '''
e = np.zeros((0, 0)); src([1, 2, 3])
for g in (e, np.array([[100.]])):
    savemat(T + '/a/calseries_F7.mat', dict(breaks=e, max_breaks=np.array([[1]]), calseries=np.ones((1, 3)), calib_profile_no=np.array([[1., 2, 3]]), use_theta_lt=e, use_theta_gt=e, use_pres_lt=np.array([[900.], [1200.]]), use_pres_gt=g, use_percent_gt=np.array([[.5]])))
    c = cal(); check(c['use_pres_lt'].size == 0 and c['use_pres_gt'].size == g.size, 'bounds %s %s' % (c['use_pres_lt'], c['use_pres_gt']))
''')
PW = WORLD + '''
import gsw
def setup(cs, mb=-1, n=6):
    d = source(list(range(1, n + 1)), np.linspace(50, 1900, 16), lo=64.); e = np.zeros((0, 0))
    d['LONG'] = 64. + np.arange(n).reshape(1, -1) ** 2 * .5; savemat(T + '/s/F7.mat', d)
    ms = d['SAL'] + .02 * np.arange(n) + np.random.default_rng(3).normal(0, .002, d['SAL'].shape)
    savemat(T + '/m/map_F7.mat', dict(la_mapped_sal=ms, la_mapsalerrors=np.full(ms.shape, .01) * (1 + np.arange(n)), la_ptmp=d['PTMP'], selected_hist=np.ones((1, 3))))
    savemat(T + '/c/calseries_F7.mat', dict(calseries=np.array([cs], float), max_breaks=np.array([[mb]]), breaks=e, calib_profile_no=d['PROFILE_NO'], use_theta_lt=e, use_theta_gt=e, use_pres_lt=e, use_pres_gt=e, use_percent_gt=np.array([[.5]])))
    np.random.seed(0); quiet(ca.calc_piecewisefit, '', 'F7', CFG); return d, loadmat(T + '/c/cal_F7.mat')
'''
seed('C17-series', 'C17', [(C, "unique_coord_float = coord_float[calindex, :]", "unique_coord_float = coord_float[0:k, :]")], 'a second calibration series at other positions', 'the error of the factor of a series comes from the positions of another', PW + '''
d, a = setup([1, 1, 1, 2, 2, 2]); d, b = setup([0, 0, 0, 1, 1, 1])
check(np.allclose(a['pcond_factor_err'][0, 3:], b['pcond_factor_err'][0, 3:]), 'errors of the second series depend on the first: %s / %s' % (a['pcond_factor_err'], b['pcond_factor_err']))
''')
seed('C17-pressure', 'C17', [(C, "                cal_sal[:, calindex] = gsw.conversions.SP_from_C(cal_cond[:, calindex],\n                                                                 unique_ptmp_1,\n                                                                 0)", "                cal_sal[:, calindex] = gsw.conversions.SP_from_C(cal_cond[:, calindex],\n                                                                 unique_mapped_ptmp,\n                                                                 0)")], 'levels that are measured but not mapped', 'the calibrated salinity of unmapped levels is missing', PW + '''
d, a = setup([1] * 6)
m = loadmat(T + '/m/map_F7.mat'); p = m['la_ptmp'].copy(); p[:2] = np.nan
savemat(T + '/m/map_F7.mat', dict(la_mapped_sal=m['la_mapped_sal'], la_mapsalerrors=m['la_mapsalerrors'], la_ptmp=p, selected_hist=np.ones((1, 3))))
quiet(ca.calc_piecewisefit, '', 'F7', CFG); a = loadmat(T + '/c/cal_F7.mat')
e = gsw.SP_from_C(gsw.C_from_SP(d['SAL'], d['PTMP'], 0) * a['pcond_factor'], d['PTMP'], 0)
check(np.allclose(a['cal_SAL'], e, equal_nan=True), 'calibrated salinity differs from the factor times the conductivity')
''')
seed('C18-coincident', 'C18', [(S, "    dist[dist == 0.0] = np.nan", "    np.fill_diagonal(dist, np.nan)")], 'two casts at the same position', 'a coincident cast counts as the nearest neighbour', '''
from pyowc.core.stats import noise_variance
s = np.array([35., 36, 34.5, 34]); la = np.array([1., 1, 2, 5]); lo = np.array([7., 7, 7, 9])
e = np.mean([.25, 2.25, .25, .25]) / 2
check(abs(noise_variance(s, la, lo) - e) < 1e-12, 'noise variance %s, expected %s' % (noise_variance(s, la, lo), e))
''')
seed('C18-ties', 'C18', [(S, "+ (long[:, np.newaxis] - long[np.newaxis, :])**2).astype(float)", "+ (long[:, np.newaxis] - long[np.newaxis, :])**2).astype(np.float32)")], 'positions whose distances differ by less than single precision', 'a cast that is not the nearest is taken as the nearest', '''
from pyowc.core.stats import noise_variance
s = np.array([35., 36., 34.]); la = np.array([0., 1., -1 + 1e-9]); lo = np.zeros(3)
e = np.mean([1., 1., 1.]) / 2
la2 = np.array([0., 1 - 1e-9, -1.]); s2 = np.array([35., 35.5, 31.])
a = noise_variance(s2, la2, lo); e = np.mean([.25, .25, 16]) / 2
s3, la3 = np.array([35., 31., 35.5]), np.array([0., -1., 1 - 1e-9]); b = noise_variance(s3, la3, lo)
check(abs(a - e) < 1e-12 and abs(b - e) < 1e-12, 'noise variance %s %s, expected %s' % (a, b, e))
''')
SAF = '''
from scipy.io import savemat
import pyowc.data.fetchers as fe
T = tempfile.mkdtemp(); import atexit; atexit.register(shutil.rmtree, T, True)
z = np.concatenate(([0, 50], np.arange(100., 2000, 50))).reshape(1, -1); o = np.ones(z.shape); dn = np.linspace(0, 1, z.size).reshape(1, -1)
savemat(T + '/saf.mat', dict(S_meanS=34 + .5 * dn, S_meanN=34.6 + .2 * dn, S_stdS=.1 * o, T_stdS=.5 * o, S_stdN=.1 * o, T_stdN=.5 * o, T_meanS=2 + dn, T_meanN=12 - 8 * dn, Deph=z))
def front(t0, casts, lat=-45., fp=None):
    L = 9; p = np.tile(np.linspace(5, 1500, L).reshape(-1, 1), (1, len(casts))); t = np.array(casts, float) * np.ones((L, 1)) - np.linspace(0, .4, L).reshape(-1, 1); n = np.arange(float(len(casts)))
    g = dict(grid_sal=np.full(p.shape, 34.5), grid_ptmp=t, grid_pres=p, grid_lat=-45 + n, grid_long=100 + n, grid_dates=2000 + n, grid_z=3000 + n)
    f = dict(float_lat=lat, float_pres=np.linspace(5, 1500, L) if fp is None else fp, float_tmp=t0 - np.linspace(0, .4, L), float_sal=np.full(L, 34.5))
    return quiet(fe.frontal_constraint_saf, {'CONFIG_DIRECTORY': T, 'CONFIG_SAF': 'saf.mat'}, g, f)
'''
seed('C19-depths', 'C19', [(D, "        best_hist_z = grid_z[is_select]", "        best_hist_z = grid_z[:is_select.size]")], 'a float south of the front and casts on both sides in mixed order', 'casts are paired with the depths of other casts', SAF + '''
r = front(8., [9, 1, 8, 2, 7.5]); check(list(r['grid_lat']) == [-45, -43, -41] and list(r['grid_z']) == [3000, 3002, 3004], 'casts %s with depths %s' % (r['grid_lat'], r['grid_z']))
r = front(1., [9, 1, 8, 2, 7.5]); check(list(r['grid_z']) == [3001, 3003], 'depths %s' % r['grid_z'])
''')
seed('C19-thirty', 'C19', [(D, "    if float_lat < -30:\n", "    if float_lat <= -30:\n")], 'a float at exactly 30S', 'casts are removed although the float is not south of 30S', SAF + '''
check(list(front(8., [9, 1, 8], -20.)['grid_lat']) == [-45, -44, -43], 'float at 20S'); check(list(front(8., [9, 1, 8], -30.)['grid_lat']) == [-45, -44, -43], 'float at 30S loses casts')
''')
seed('C20-points', 'C20', [(H, "        d_1 = np.argwhere(np.abs(new_object[d_0, 1]) < 1 / 60)\n", "        d_1 = np.argwhere(np.abs(new_object[:, 1]) < 1 / 60) if d_0.size else d_0\n")], 'a cast whose longitude is that of one stored point and whose latitude is that of another', 'the position is not stored', '''
import pyowc.helper as he
d = dict(selected_hist=np.array([[100., -40, 1], [105., -45, 1]]), la_profile_no=np.array([1, 2]))
r = he.selected_historical_points(d, dict(hist_long=np.array([[100.]]), hist_lat=np.array([[-45.]])), 1)
check(len(r['selected_hist']) == 3, 'point (100, -45) is not stored: %s' % r['selected_hist'])
''')
seed('C20-outliers', 'C20', [(H, "        hist_data['hist_dates'] = np.delete(hist_data['hist_dates'], outlier).reshape((-1, 1))", "        hist_data['hist_dates'] = np.delete(hist_data['hist_dates'], outlier - outlier[0] + outlier[-1] if outlier.size == 1 else outlier[::-1] - outlier[-1] + outlier[0] if outlier[-1] - outlier[0] > 5 else outlier).reshape((-1, 1))")], 'two outliers more than five casts apart', 'the dates of the remaining casts are paired with other casts (or the sizes differ)', '''
import pyowc.helper as he
def go(o):
    n = np.arange(12.).reshape(-1, 1); r = he.remove_statical_outliers(np.array(o), {k: n.copy() for k in ('hist_sal', 'hist_pres', 'hist_long', 'hist_lat', 'hist_dates', 'hist_z')})
    e = [x for x in range(12) if x not in o]
    for k, v in r.items(): check(list(np.ravel(v)) == e, '%s after removing %s: %s' % (k, o, np.ravel(v)))
try: go([3]); go([2, 4]); go([3, 10]); go([1, 9])
except (IndexError, ValueError) as x: check(False, x)
''')
seed('C21-hemisphere', 'C21', [(F, "    if data_pv != 0 and ellipse_pv != 0:", "    if data_pv != 0 and ellipse_pv > 0:")], 'a float in the southern hemisphere with the vorticity term on', 'the vorticity term is left out of the ellipse', '''
from pyowc.core.finders import find_ellipse
a = find_ellipse(53, 57, 8, 53, 57, 4, .5, 1e-5, 2e-5); b = find_ellipse(53, 57, 8, 53, 57, 4, .5, -1e-5, -2e-5)
check(abs(a - b) < 1e-12, 'ellipse %s in the north, %s in the south' % (a, b))
''')
seed('C21-symmetry', 'C21', [(U, "math.sqrt(pv_2 ** 2 + pv_1 ** 2) / phi) ** 2", "math.sqrt(pv_2 ** 2 + abs(pv_2 * pv_1)) / phi) ** 2")], 'different vorticities of the two points', 'the separation changes when the points swap roles', '''
from pyowc.utilities import spatial_correlation as s
for p, q in ((2e-8, 2e-8), (1e-8, 3e-8)):
    a, b = s(57, 59, 8, 1, 2, 4, 2000, 2001, 20, .5, p, q), s(59, 57, 8, 2, 1, 4, 2001, 2000, 20, .5, q, p)
    e = 4 / 64 + 1 / 16 + 1 / 400 + ((q - p) / math.hypot(p, q) / .5) ** 2
    check(abs(a - e) < 1e-9 and abs(b - e) < 1e-9, 'separation %s / %s, expected %s' % (a, b, e))
''')
seed('C22-exclude', 'C22', [(C, "                            and float_data['float_pres'][n_level] >= map_p_exclude:", "                            and float_data['float_pres'][n_level] > map_p_exclude:")], 'a float level at exactly the exclusion pressure', 'the level is not mapped', WORLD + '''
archive(); source([1, 2], [50, 100, 600, 900]); m = mapping()
check(np.all(np.isfinite(m['la_mapped_sal'][1:])) and np.all(np.isnan(m['la_mapped_sal'][0])), 'mapped %s' % m['la_mapped_sal'])
''')
seed('C22-variance', 'C22', [(C, "                            sal_signal_residual = signal_variance(sal_residual)", "                            sal_signal_residual = np.mean(np.square(sal_residual))")], 'residuals whose mean is not zero', 'the second stage is made with a wrong signal variance', WORLD + '''
a = archive(); CFG['MAPSCALE_LATITUDE_LARGE'] = 1.; CFG['MAPSCALE_LONGITUDE_LARGE'] = 1.5; s = source([1], [50, 300, 600, 900], la=-44.4); m = mapping()
import pyowc.data.wrangling as wr, pyowc.core.stats as st
g = dict(lat=a['lat'], long=a['long'])
i = quiet(fi.find_besthist, a['lat'], a['long'], np.full(24, 2005.), np.full(24, 3000.), s['LAT'][0, 0], s['LONG'][0, 0], 2006., 3000., 1., 2., 1.5, 4., .1, .02, 20., 10., 0, 300); i = np.sort(i)
S, P = quiet(wr.interp_climatology, a['sal'][:, i], a['ptmp'][:, i], a['pres'][:, i], s['SAL'][:, 0], s['PTMP'][:, 0], s['PRES'][:, 0])
n = 0
for l in range(1, 4):
    k = np.isfinite(S[l]) & (np.abs(P[l] - s['PRES'][l, 0]) < 250)
    if k.sum() <= 5: continue
    h = S[l][k]; o = np.abs(h - h.mean()) / h.std() > 3; j = i[k][~o]; h = h[~o]
    d = np.column_stack((a['lat'][j], a['long'][j], np.full(len(j), 2005.), np.full(len(j), 3000.))); f = np.array([[s['LAT'][0, 0], s['LONG'][0, 0], 2006., 3000.]])
    nv, sv = st.noise_variance(h, d[:, 0], d[:, 1]), h.var()
    x = wr.map_data_grid(h, f, d, 1.5, 1., 20., sv, nv, .1, 0); q = h - x[2]; y = wr.map_data_grid(q, f, d, 4., 2., 10., q.var(), nv, .02, 0)
    n += 1
    check(np.allclose(m['la_mapped_sal'][l, 0], x[0] + y[0], rtol=0, atol=1e-9) and np.allclose(m['la_mapsalerrors'][l, 0], math.hypot(x[1], y[1]), rtol=1e-9), 'level %d: %s +- %s, expected %s +- %s' % (l, m['la_mapped_sal'][l, 0], m['la_mapsalerrors'][l, 0], x[0] + y[0], math.hypot(x[1], y[1])))
check(n > 0, 'nothing compared')
''')
