"""Writes /verif/properties.jsonl (kept so that the text has one source)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
U='pyowc/utilities.py'; FI='pyowc/core/finders.py'; ST='pyowc/core/stats.py'; FE='pyowc/data/fetchers.py'
WR='pyowc/data/wrangling.py'; HE='pyowc/helper.py'; CA='pyowc/calibration.py'; CO='pyowc/configuration.py'

prop('C01', 'Historical cast selection is valid, unique, complete and best-correlated',
 "Whatever the historical positions, dates, depths and the limit on the number of casts, the selected casts are distinct existing casts lying inside the large-scale ellipse around the float profile. If the ellipse holds no more casts than the limit, all of them are selected; otherwise exactly the limit is selected: a repeatable pseudo-random third (at most), then, of the casts left, those closest to the profile at the large space-time scales up to two thirds in all (each third rounded up), then, of those left again, the closest at the small scales. The selection depends on nothing but its arguments and leaves them unchanged.",
 ['inputs','configurations'], "All non-empty cast sets of any size, all float positions, all positive scales and limits, with and without the potential vorticity term.",
 "The tests sample a few hundred random casts with the default limit of 300 (or 250) and check sizes; they cannot reach every cast count, limit and tie pattern, nor which casts are chosen.",
 [FI,U], [('ellipse membership, random third, large-scale and small-scale ranking', FI+': find_besthist'), ('normalised distances', U+': spatial_correlation; '+FI+': find_ellipse')],
 observe=['return value of pyowc.core.finders.find_besthist'])

prop('C02', 'Offered casts and retrieved casts are numbered the same, analysed float excluded',
 "The positions and dates offered for selection and the profiles retrieved afterwards number the historical casts identically: asking for any set of numbers returns exactly those casts, each once and in archive order, with the latitude, longitude and decimal date they were offered with (casts without any data excepted). No cast whose source names the float being analysed is offered or returned, and only the boxes and the data types enabled for each box contribute.",
 ['inputs','configurations'], "All lists of boxes with any combination of data types, any archive contents with at least two casts and two levels per file (missing files included), any set of numbers, any float name.",
 "The tests read one or two fixed boxes and nine fixed numbers; agreement must hold for every combination of boxes, missing files and numbers.",
 [FE], [('box and data-type scan with a running start index', FE+': get_region_data'), ('box and data-type scan', FE+': get_region_hist_locations'), ('removal of the analysed float', FE+': read_mat_argo'), ('file choice per box and type', FE+': get_data')],
 state=[('starting_index','number of the first cast of the current file',FE+': get_region_data')])

prop('C03', 'Retrieved profiles keep exactly the archive levels that are usable',
 "Each retrieved historical profile holds, in archive order from the top, exactly the levels of that cast whose pressure is present and not deeper than the deepest float pressure plus the configured margin, padded with missing values only at the bottom. At any level where pressure, salinity or potential temperature is missing all three are missing, and no profile without a single usable level is returned; positions, dates and profiles stay paired. Retrieving data never alters the archive that later calls read.",
 ['inputs','histories'], "All archive contents (any pattern of missing values, any depths, any number of levels), all float pressure arrays, any sequence of retrievals in one session.",
 "The tests check shapes and a few values of fixed files; the padding, cut-off and missing-value rules must hold for every mix of profile lengths and missing-value patterns.",
 [FE], [('pressure cut-off, padding and stacking', FE+': get_region_data'), ('missing values spread over the three variables', FE+': _sync_nans'), ('removal of empty casts', FE+': get_region_data')])

prop('C04', 'Every node of the sea-floor depth grid carries the depth filed for its position',
 "For any requested longitude and latitude range, each node of the returned grid carries the elevation that the topography file stores for that node's own latitude and longitude (longitudes taken modulo 360), including ranges that cross the 0/360 meridian or reach past it. The nodes are 1/12 degree apart, run from north to south and from west to east, and cover the whole requested range (latitudes clipped to those of the file).",
 ['inputs'], "All longitude ranges from -360 up to 720 no wider than a full turn, all latitude ranges, any file content.",
 "No stable test calls it with the real file (the file is not in the repository); correctness of the seek arithmetic must hold for every range, in particular those that wrap.",
 [FE], [('index arithmetic and the two-part read of wrapped ranges', FE+': get_topo_grid')])

prop('C05', 'The 25 WMO boxes are those around the profile, across the date line included',
 "For every profile position the boxes returned are the rows of the WMO box table for the 10-degree boxes that hold the 25 points at -20, -10, 0, +10 and +20 degrees of longitude and latitude from the profile (nudged 0.01 degree east and north), with longitudes wrapped to 0-360 and latitudes beyond the poles taken in the polar boxes. The row for the profile's own box comes first, and if either coordinate is missing every entry is missing.",
 ['inputs'], "All longitudes in [0,360), all latitudes in [-90,90], missing coordinates, any table of 648 boxes.",
 "The tests use one position and one missing position; wrap-around and box edges depend on the position.",
 [FI], [('look-up table with one wrapped column at either end and nearest-neighbour look-up', FI+': find_25boxes, nearest_neighbour')])

prop('C06', 'Longitude wrapping keeps every position and makes regions contiguous',
 "Wrapping a list of longitudes keeps its length and order and changes each value only by whole turns: negative longitudes are raised by 360, and if any longitude is then 320 or more, exactly those of 40 or less are raised by 360 as well, otherwise nothing else changes. A region that straddles the 0/360 meridian therefore comes out contiguous.",
 ['inputs'], "All lists of longitudes of any length, of integers or reals, sorted or not.",
 "Three fixed lists are tested; the rule is about every list and every position in it.",
 [U], [('masked in-place shifts', U+': wrap_longitude')])

prop('C07', 'Calendar dates are decimalised exactly and bad dates become zero',
 "Every date written YYYYMMDD, YYYYMMDDhh, YYYYMMDDhhmm or YYYYMMDDhhmmss, held as an integer or as a float, becomes year + (days before the month in a 365-day year + day - 1 + hh/24 + mm/1440)/365. A date whose month is not 1-12, whose day is not 1-31 or which is too short to hold a day becomes 0, and never affects the other dates of the list.",
 ['inputs'], "All lists of dates from year 1000 to 9999, of any length and any mix of formats, good and bad.",
 "The tests use a handful of 14-digit dates and a few bad ones; formats, months and neighbours combine without bound.",
 [U], [('digit slicing and validation', U+': change_dates'), ('cumulative day of year', U+': cal2dec')])

prop('C08', 'Mapping covariance is the Gaussian of the scaled separations',
 "The covariance between any two positions is exp(-d), where d is the sum of the squared differences of latitude, longitude and date, each divided by its own decorrelation scale, plus the squared relative potential-vorticity difference over its scale when that option is on; the date term is left out when its scale is zero. It is therefore symmetric, lies in [0,1], is exactly 1 for coincident positions and does not depend on any other position in the set.",
 ['inputs','configurations'], "All finite sets of positions of any size (single positions included), all positive scales, option on or off with non-zero depths.",
 "The tests compare a few 3x3 matrices; the formula must hold for every pair, size and scale.",
 [ST,U], [('broadcast squared differences and exponential', ST+': covar_xyt_pv'), ('planetary vorticity', U+': potential_vorticity')])

prop('C09', 'Objective mapping is the optimal estimate with an estimated mean',
 "For any historical salinities the mapped value at the float is the objective (Gauss-Markov) estimate of Bretherton et al.: weighted mean plus covariance-weighted residuals, and the mapped values at the historical positions and both error estimates are the ones of that method, the error including the uncertainty of the mean. Hence adding a constant to all salinities adds it to every mapped value, scaling them scales the anomalies, and neither changes the errors.",
 ['inputs','configurations'], "All finite sets of historical positions and salinities, positive scales, positive signal and noise variances.",
 "One fixed example is compared with Matlab; linearity, the error formula and mean removal must hold for all data.",
 [WR,ST], [('matrix formulas', WR+': map_data_grid'), ('covariances', ST+': covar_xyt_pv')])

prop('C10', 'Climatology is interpolated on the float temperature at the nearest pressure',
 "For every float level with valid data and every historical cast, the interpolated salinity and pressure are the linear interpolation, with one common weight, between two consecutive valid levels of that cast whose temperatures bracket the float temperature, and of all such pairs the one whose interpolated pressure is closest to the float pressure. They are missing exactly where the float level is invalid or no pair brackets its temperature; each entry depends only on its own cast and level and the inputs are left unchanged.",
 ['inputs'], "All climatologies and float profiles of any size, with missing or infinite values anywhere, temperature inversions, repeated temperatures and casts of different lengths.",
 "The tests compare one data set with Matlab and a few toy cases; inversions, gaps and ties are unbounded in pattern.",
 [WR], [('compaction of valid levels', WR+': _get_cleaned_grid_data'), ('bracketing and weights', WR+': calculate_interpolation_weights, find_sign_changes_in_columns'), ('choice of nearest pressure', WR+': interp_climatology')])

prop('C11', 'The fit covariance has the documented block structure',
 "The covariance used for the fit errors is square, with one tile per pair of profiles; the entry for level i of profile p and level j of profile q is the horizontal covariance of p and q times the vertical covariance of levels i and j of profile p, which is 1 for i = j or where a temperature is missing and otherwise exp(-(difference/scale)^2) with the scale tabulated for the temperature of level i, looking down for i < j and up for i > j. The horizontal covariance is the Gaussian of latitude and longitude differences over the small scales (and of potential vorticity if enabled), 1 on the diagonal.",
 ['inputs','configurations'], "All temperature matrices within the table (-2 to 30 degrees) with any missing values, any numbers of levels and profiles, any positions.",
 "One 10x3 example is compared with Matlab; block placement and orientation must hold for all sizes.",
 [ST], [('vertical tile, interpolated scales', ST+': build_cov'), ('horizontal covariance', ST+': covarxy_pv')])

prop('C12', 'A piecewise fit with given breaks is the continuous least-squares line',
 "For sorted abscissas and sorted breaks within their range, the coefficients returned define a continuous piecewise-linear function with slope changes only at the breaks, and the residual is exactly the data minus that function at every point. The coefficients satisfy the (weighted) normal equations, so that no other such function has a smaller weighted residual; where the system is singular, or lengths disagree, zero coefficients and the data themselves are returned.",
 ['inputs'], "All data of any length, any number of breaks, with or without positive diagonal weights, points that coincide with breaks or each other.",
 "Two 20-point data sets without breaks and a singular one are tested; breaks, ties at breaks and weights combine without bound.",
 [ST,U], [('basis functions and normal equations', ST+': brk_pt_fit'), ('interval look-up', U+': sorter')])

prop('C13', 'The profile fit is one weighted least-squares curve through valid observations',
 "For every series of observations the fit returns one value, slope and error per distinct profile, ignores observations that are missing, and gives the same curve however the observations are ordered. With a break limit of -1 the curve is the error-weighted mean, with 0 it is that mean or the error-weighted straight line (whichever the corrected Akaike criterion prefers), and in general it is continuous piecewise linear with the returned slopes and at most the allowed number of breaks; rescaling or shifting the observations rescales and shifts the curve.",
 ['inputs','configurations'], "All observation matrices with at least one valid value, positive errors, any covariance with enough degrees of freedom, break limits from -1 up.",
 "One data set is compared with Matlab; it only ever reaches the offset fit.",
 [ST], [('conditioning, model choice and rescaling', ST+': fit_cond'), ('fit for given breaks', ST+': brk_pt_fit')])

prop('C14', 'The ten chosen theta levels are distinct, allowed and least variable',
 "The theta levels chosen for the fit are distinct levels of the candidate list, at most ten, in order of increasing salinity variance, and no candidate with enough valid profiles and a smaller variance is left out. For each profile the index given for a level points to the allowed observation whose temperature is nearest to it (missing if the profile does not span it), and observations that are unmapped or outside the configured temperature or pressure bounds never take part.",
 ['inputs','configurations'], "All float profile matrices of at least two levels whose valid pressures span at least 10 dbar (or with no valid temperature range at all), any pattern of missing values, any combination of temperature and pressure bounds.",
 "The tests use one float and five bound combinations, and check shapes or Matlab values.",
 [FI], [('exclusion, candidate levels, variance ranking', FI+': find_10thetas')])

prop('C15', 'Re-running the mapping only adds what is missing and keeps columns aligned',
 "Saved mapped data hold one column per profile of the float, sorted by profile number, with every value (mapped temperature, salinity, errors, variances, scales and options) in the column of its own profile, whatever order profiles were processed in and however many runs it took. Re-running never alters the columns already stored and adds exactly the profiles that are missing; new or reset columns are missing until mapped, and mapped salinities below 30 or above 40 are stored as missing.",
 ['histories','inputs'], "All sequences of runs with growing or re-ordered source files (more profiles, more levels), stored files of the current or older layout, any directory for the float.",
 "The tests never re-run a mapping on an existing file with new profiles; the guarantee is about every history of runs.",
 [CA,HE], [('search for missing profiles, column bookkeeping, quality check, sorting and saving', CA+': update_salinity_mapping'), ('loading and extending stored data', HE+': load_varibales_from_file'), ('reset or append of a column', HE+': process_profiles_la_variables'), ('common reordering', HE+': sort_numpy_array')],
 state=[('la_profile_no','profile number of each stored column',CA+': update_salinity_mapping')])

prop('C16', 'Calibration series settings are kept, extended and flag empty profiles',
 "Setting up the calibration series gives every profile of the float exactly one series flag, sorted by profile number: profiles already on file keep their flag, new ones inherit the flag of the profile before them, and any profile without a single valid salinity, temperature or pressure gets flag 0. Stored breaks, break limits, percentages and bounds are kept (defaults are used where the file or the setting does not exist), and a bound given more than one value is dropped.",
 ['histories','inputs'], "All float files with ascending profile numbers, all earlier settings files with some or all of those profiles, any sequence of runs.",
 "The tests only create the file from scratch and re-read it unchanged.",
 [CO], [('load or default, extend, flag and save', CO+': set_calseries')])

prop('C17', 'Calibrated salinity is the measured one with the fitted conductivity factor',
 "For every profile in a calibration series the saved calibrated salinity is the salinity whose potential conductivity is the measured one times the factor fitted for that profile (a factor of 1 gives the measured salinity back), and the calibrated conductivities and the error estimates follow from the same factor and its error, all in the column of that profile. Profiles flagged 0 and levels without data stay missing, and different series do not influence each other.",
 ['inputs','configurations'], "All floats, mapped fields and series assignments (several series, profiles flagged out), break limits from -1 up without prescribed breaks.",
 "The tests run it on one float with a single series and only check that a file is written; column bookkeeping over several series is not observed.",
 [CA], [('series loop, conversion and column assignment', CA+': calc_piecewisefit')])

prop('C18', 'Signal and noise variances are the documented averages',
 "The signal variance is the mean squared deviation from the mean of the valid salinities, and none valid is an error. The noise variance is half the mean squared difference between each salinity and the one at the nearest position that does not coincide with it, and 0 when all positions coincide; both are never negative, are unaffected by adding a constant to all salinities and scale with the square of a common factor.",
 ['inputs'], "All salinity and position vectors of any length, with coincident positions and missing salinities.",
 "Three-point examples are tested; coincident and equidistant positions combine without bound.",
 [ST], [('nanvar of the salinities', ST+': signal_variance'), ('distance matrix, exclusion of coincident points, nearest neighbour', ST+': noise_variance')])

prop('C19', 'Front separation only removes casts, consistently, and only in the south',
 "Separating casts by their side of the Subantarctic Front returns a subset of the casts in their original order with profiles, positions, dates and depths still paired and unchanged, and for a float at or north of 30S returns all of them. A float further south that is classified north or south of the front (temperature at 300 dbar above 5 or below 3 degrees, otherwise by the envelopes of the front definition) keeps exactly the casts whose own temperature at 300 dbar puts them on the same side; one that cannot be classified keeps all casts.",
 ['inputs','configurations'], "All float profiles and cast sets with at least three levels, with missing values, any front definition table.",
 "No test calls it at all.",
 [FE], [('classification at 300 dbar and consistent selection', FE+': frontal_constraint_saf')])

prop('C20', 'Per-level historical data stay paired through selection and outlier removal',
 "For each float level the historical data used are exactly those casts with an interpolated salinity whose interpolated pressure is within the configured distance of the float pressure, and their salinities, pressures, positions, dates and depths stay paired through this selection and through outlier removal. Every position used for mapping has a stored selected point within one sixtieth of a degree in both coordinates, points already stored are kept, and no two points are stored that close together.",
 ['inputs','histories'], "All interpolated fields and positions of any size, any set of outliers, any earlier list of selected points.",
 "No stable test calls these functions.",
 [HE], [('selection by level', HE+': process_profile_hist_variables'), ('paired deletion', HE+': remove_statical_outliers'), ('merging of selected points', HE+': selected_historical_points')])

prop('C21', 'Distance measures are the documented scaled quadratic forms',
 "The ellipse measure of a point is the square root of the sum of squared longitude and latitude offsets over three times their scales, and the space-time separation is the sum of squared longitude, latitude and date offsets over their scales; each adds the squared relative potential-vorticity difference over its scale only when both vorticities are non-zero. Potential vorticity is the planetary vorticity at the latitude divided by the depth and is never zero; all measures are non-negative, zero for coincident points and unchanged when the two points swap roles.",
 ['inputs'], "All finite positions, dates, non-zero depths and positive scales, scalar or element-wise over arrays.",
 "The tests evaluate a handful of points to four decimals.",
 [U,FI], [('spatial separation', U+': spatial_correlation'), ('planetary vorticity', U+': potential_vorticity'), ('ellipse measure', FI+': find_ellipse')])

prop('C22', 'Mapped salinity is the two-stage objective estimate at each float level',
 "For every float level with valid data at or below the exclusion pressure, the saved mapped salinity is the sum of the objective estimate at the large scales and that of its residuals at the small scales, made from the selected casts interpolated to the float temperature and pressure-matched, statistical outliers removed, with the saved noise and signal variances and an error combining those of both stages; a level with five matched casts or fewer stays missing. With front separation on, the casts on the side of the float are used if more than five remain, else all of them. Float and cast longitudes are compared the short way round on either side of the 0/360 meridian, and each cast enters with the sea-floor depth of its own position. The values of a profile depend on that profile, the archive and the settings alone.",
 ['inputs','configurations'], "All float profiles and archives with at least one cast within the large-scale ellipse, floats near the 0/360 meridian included, with and without the potential vorticity term.",
 "The tests map one real float and compare two numbers; the end-to-end estimate, its pairing of casts, depths and longitudes and the meridian are not observed.",
 [CA,HE,WR,ST,FI,FE], [('selection, interpolation, outlier removal and two-stage mapping', CA+': update_salinity_mapping'), ('depths of the casts', HE+': process_profiles_grid_variables'), ('selection by level', HE+': process_profile_hist_variables'), ('matrix formulas', WR+': map_data_grid')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            fh.write(json.dumps(p) + '\n')
    print(len(P))
