"""writes tools/levels.json: which properties are decided by discharged obligations, and what each assumes"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = 'deductive verification: contracts on the functions of /repo (symbolic execution of their current source, loop summaries/invariants, z3)'
TP = 'deductive verification of the contracts of part of the functions (symbolic execution of /repo, z3); the rest as run-time contract (bounded)'
BASE = 'All obligations are discharged for all inputs, array sizes and iterations on the source as it is now. Assumes: reals for machine floats, no infinities, the numpy model of pyvc/npm.py. '
FULL = dict(
    C04='open, seek, read, close and struct.unpack by their library models over one file of 2160 rows of 4320 numbers.',
    C05='The box table is an uninterpreted array of 648 rows.',
    C06='', C07='Dates as ints or as floats with up to 14 integer digits; str()/int() of numbers per pyvc/strs.py.',
    C08='', C09='The solver is over an uninterpreted inverse with its algebraic laws: the kriging system is assumed regular, as in the statement of the method.',
    C10='', C11='The decorrelation table is covered as a piecewise-linear interpolation with its own nodes.',
    C16='Source profile numbers ascending and distinct, the file\'s profiles a distinct subset of them; reading and writing the .mat file is outside the verifier (library model holding the stored entries).',
    C15='Callees of update_salinity_mapping by contracts (those of the other properties; the placement claims hold for whatever values they return); reading and writing .mat files by library models; the sort by the model of numpy argsort.',
    C22='Callees of update_salinity_mapping by the contracts of the other properties (selection, archive, interpolation, covariances, variances): the obligations are that each receives the arguments the statement describes and that the stored values are the stated combination of their results; scipy interp2d is an uninterpreted function of the position.',
    C18='', C19='np.interp and the three gsw conversions are uninterpreted functions of their arguments; positions, dates and depths of casts present; at least three depths in the table.', C20='The random subset is not part of these functions.', C21='')
PART = {}
try: exec(open(os.path.join(HERE, 'levels_part.py')).read())
except FileNotFoundError: pass
out = {}
for k, n in FULL.items(): out[k] = dict(level='proof', technique=T, note=BASE + n + ' A bounded witness search on the real code runs beside the verifier.')
for k, n in PART.items(): out[k] = dict(level='exploration', technique=TP, note=n)
json.dump(out, open(os.path.join(HERE, 'levels.json'), 'w'), indent=1)
