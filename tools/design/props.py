P = {
'C01': ('find_besthist, find_ellipse, spatial_correlation', 'rt/c01: an independent selection (same seeded draw, brute-force ranking, ties accepted) over 2000 layouts of 1–60 casts; checks distinctness, ellipse, counts, thirds, repeatability, inputs unchanged.'),
'C02': ('get_topo_grid is not involved: get_data, get_region_hist_locations, get_region_data', 'rt/c02: 600 synthetic archives on disk (1–4 boxes × 3 data types); asked sets of numbers vs an independent numbering of the files.'),
'C03': ('get_region_data and its helpers', 'rt/c03: 600 archives with shallow floats, deep casts, missing values; the retrieved columns vs an independent cut; second retrieval after the first (archive not altered).'),
'C04': ('get_topo_grid', 'every node holds the number stored at 2*(4320*(1080-12 lat) + 12 lon mod 4320) of the file, an uninterpreted function of the byte position; nodes on the lines of the file, 1/12 degree apart, covering the range; reads stay inside the file. The file position is ghost state of the library model; the row loop of the wrapped part by invariant, the others in closed form. Widths up to a full turn.'),
'C05': ('find_25boxes, nearest_neighbour', 'box table uninterpreted. Contract: the 25 entries are the rows whose box holds the 25 nudged points, first the own box; NaN in → all NaN.'),
'C06': ('wrap_longitude', 'contract: same length; element i raised by 360 iff negative or (some wrapped ≥ 320 and own ≤ 40); any length incl. 0, ints or reals; input unchanged.'),
'C07': ('change_dates, cal2dec', 'contract of cal2dec on integer fields; change_dates over lists of any length, a date of each of the 4 formats held as int or float; bad month/day/short dates give 0; element i depends on element i only.'),
'C08': ('covar_xyt_pv', 'entry (i,j) = exp of the documented distance; symmetric; in [0,1]; 1 at coincidence; one-dimensional single positions; with/without age and vorticity; input unchanged.'),
'C09': ('map_data_grid over the contract of covar_xyt_pv (C08)', 'mapped values and errors equal to the Bretherton formulae over an inverse W of the noisy covariance (uninterpreted, symmetric, unchanged by the data); shift and scale of the data proved as lemmas over the contract.'),
'C10': ('interp_climatology, _get_cleaned_grid_data, _get_finite_element_mask, find_sign_changes_in_columns, calculate_interpolation_weights, interpolate_values', '`_get_cleaned_grid_data` against its own contract (rows = usable levels in order); the level loop with the invariant "rows done hold the interpolation at the nearest bracketing pair, the others are missing, the work array is all missing"; lemma: argmin = a bracketing pair with no nearer one.'),
'C11': ('build_cov, covarxy_pv', 'horizontal and vertical contracts; build_cov block structure by loop invariant-free summary for any number of levels and profiles; pressures table by interval.'),
'C12': ('brk_pt_fit, sorter', 'rt/c12: continuity, knots, residual identity, normal equations and singular cases over 4000 small problems.'),
'C13': ('fit_cond, brk_pt_fit, nlbpfun', 'rt/c13: weighted mean/line/AICc choice recomputed, permutation and affine maps of the observations; 150 series (scipy optimiser in the loop).'),
'C14': ('find_10thetas', 'rt/c14: independent choice over 700 small float series.'),
'C15': ('update_salinity_mapping, load_varibales_from_file, process_profiles_la_variables, get_float_data, sort_numpy_array', 'four loop invariants of the driver: the list of missing profiles (exactly those not stored, in order), the columns after k profiles (stored ones unchanged, each new one in its own column), the levels done of a profile, the quality check (value missing iff outside 30-40); final claims over the saved dictionary: one column per profile, sorted, every variable in the column of its own profile, no profile twice, every profile present. Callees by contract. Helpers against their own contracts for any sizes.'),
'C16': ('set_calseries', 'the series written back keeps every stored profile\'s calseries flag, a new profile inherits the flag of the one before it, order of the source; loop invariant over profiles, recursion for the inherited flag, induction lemma for sorted sequences; default series when no file exists.'),
'C17': ('calc_piecewisefit', 'rt/c17: 60 whole calibrations, gsw inverted independently.'),
'C18': ('signal_variance, noise_variance', 'formulae over the valid/nearest-non-coincident selection, non-negativity, shift and scale lemmas; any number of salinities.'),
'C19': ('frontal_constraint_saf', 'north of 30 S all casts come back; south of it, exactly the casts on the side of the float, in order, all fields of the same cast, or all casts if the float is not classified. The sides: loop invariant over casts; the conditions of float and casts (levels, equal consecutive pressures, 300 dbar inside) against their definitions over the valid levels, the envelope test (all usable depths inside) through lemmas on counts; np.interp and gsw are uninterpreted and what they are given is obliged (valid levels only, 300 dbar, temperatures in situ of the cast, edges of the envelopes below the first two depths)'),
'C20': ('process_profile_hist_variables, remove_statical_outliers, selected_historical_points', 'selection and outlier removal keep the six arrays paired (same selection applied to each, in order); the point-merging loop by the invariant "kept points are stored, pairwise apart, every processed position has a near point".'),
'C21': ('find_ellipse, spatial_correlation, potential_vorticity', 'the documented formulae, non-negativity, zero at coincidence, symmetry, non-zero vorticity; scalars and arrays.'),
'C22': ('update_salinity_mapping, process_profiles_grid_variables, process_profile_hist_variables, remove_statical_outliers', 'every callee is replaced by its contract, and the caller must give it the arguments the statement describes: boxes of the float, positions of the casts, depth of each cast at its own position, longitude of the float the short way round, chosen casts, interpolated profiles, casts of a level, outliers more than 3 deviations from the mean, variances of the cleaned salinities, large scales then residuals at the small scales; the level loop by the invariant that each level done holds large + small, the root of the summed squared errors, the variances and the settings, and others stay missing. Helpers: kept casts are exactly those that qualify, in order, with all quantities of the same cast.'),
}
