"""Writes properties.jsonl and MANIFEST.json from the texts below"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

PY = 'hyvr/input/parameters.py'
OP = 'hyvr/input/option_parsing.py'
OT = 'hyvr/input/options.py'
TESTS = 'The tests run a handful of fixed literals'

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)]
P = [
 ('C01', 'List texts in parameter files are read as the nested list they spell',
  'A well-formed list text (numbers or names, separated by commas, nested with brackets to any depth, blanks anywhere '
  'between tokens) is read as exactly the nested list it spells, every value in its place and of the declared type. '
  'A text with unbalanced brackets, missing or superfluous commas or trailing characters is refused, never silently '
  'truncated or reinterpreted.',
  ['inputs'], 'every token sequence and every numeric value',
  TESTS + '; nesting depth, position, blanks and malformed texts are unbounded.',
  [OP], [('list parser', OP + ': parse_list')]),
 ('C02', 'List options get exactly their declared shape or are refused',
  'A list option whose given value already has the declared shape keeps its values; a single value or a list that '
  'lacks leading dimensions is repeated so that the result has exactly the declared shape (also where a dimension is '
  'the length of another option). A value that cannot be brought to the declared shape that way is refused with an '
  'error.',
  ['inputs', 'configurations'], 'every declared shape of 1-3 dimensions and every given nesting and value',
  TESTS + ' with equal numbers, so swapped or wrong entries would not show.',
  [OP], [('shape expansion', OP + ': Option.parse_list, expand_shape, expand_list'), ('shape test', OP)]),
 ('C03', 'Single options: types, truth values, defaults, alternative names, validation',
  'Every option yields the value written under its own name or one of its alternative names, converted to its '
  'declared type; true/yes/1 and false/no/0 spellings (any case) give the truth values and other texts are refused; a '
  'missing optional option yields its default and a missing required option is refused. A value rejected by the '
  'validation of the option is refused, and no option influences the value of another one.',
  ['inputs', 'configurations'], 'every presence pattern of options and names, every value',
  TESTS + ' of single options.',
  [OP], [('option parsing', OP + ': Option.parse, Section.parse')]),
 ('C04', 'The model uses exactly the settings written in the parameter file',
  'For every complete parameter file each setting used by the simulation equals the value written in the file, or the '
  'documented default if it is not written (dy and dz default to dx, origin 0, numsim 1, facies given by name become '
  'the number of that facies in the list of hydrofacies, per-facies and per-stratum scalars are repeated). Elements '
  'are numbered by their position in the list of architectural elements.',
  ['inputs', 'configurations'], 'every value of every option, present or missing',
  'The tests parse one example file; a mix-up of two options with equal or default values cannot show.',
  [PY, OT, OP], [('section parsing', PY + ': parse_inifile'), ('option tables', OT)]),
 ('C05', 'Contact models in the parameter file reach the right contact surface',
  'The contact models of the strata and of the elements are understood in any capitalisation, each stratum and '
  'element gets its own one, and elevation, variance and correlation lengths are taken from the documented positions. '
  'Contact models with a wrong number of entries, an unknown keyword, or a number of models that does not fit the '
  'number of strata are refused.',
  ['inputs', 'configurations'], 'every contact model keyword, parameter value and count',
  'No test parses a random contact model of several strata.',
  [PY, 'hyvr/geo/contact_surface_utils.py'], [('contact models', 'hyvr/geo/contact_surface_utils.py: '
                                               'parse_contact_model'), ('strata section', PY)]),
 ('C06', 'Parameter files of the old format describe the same model',
  'A parameter file that uses the option names of the old format (plain or with the very old r_/l_/ll_/flag_ '
  'prefixes) yields the same settings as the same quantities written in the new format: geometry names, trough '
  'density, contact models, background, lag, trends, outputs and run settings. Old settings that no longer exist are '
  'refused instead of being ignored.',
  ['inputs', 'configurations'], 'every value of every old option, present or missing',
  'One old file is parsed in the tests and compared with nothing.',
  [PY, 'hyvr/input/options_deprecated.py'], [('conversion', PY + ': get_new_parameters_from_deprecated'),
                                             ('old option tables', 'hyvr/input/options_deprecated.py')]),
 ('C07', 'Run name, model directory and run directory follow the documented rules',
  'Without a run name the name of the parameter file without its extension is used, without a model directory the '
  'directory of the parameter file is used, and the run directory is the directory of that name in the model '
  'directory. A parameter file whose name ends with _autogenerated_backup.ini is taken to lie in its run directory. '
  'Reading a parameter file changes no file.',
  ['inputs', 'configurations'], 'every combination of file name, run name and model directory',
  'The tests use one file name; the rules branch on names, options and prompts.',
  [PY], [('directory rules', PY + ': parameters')]),
 ('C08', 'Old results are deleted only on request; the settings are stored with the run',
  'If the run directory already holds results they are left untouched and the run is refused unless overwriting was '
  'requested (by the flag of the call, else by the parameter file); with overwriting exactly the old content of the '
  'run directory disappears and nothing outside of it. Afterwards the run directory holds '
  '<runname>_autogenerated_backup.ini with the same settings, and running that copy means the same run.',
  ['histories', 'configurations'], 'every prior content of the directories and every combination of overwrite settings',
  'No test looks at the directories; the outcome depends on what earlier runs left behind.',
  [PY], [('directory setup', PY + ': set_up_directories, setup_from_inifile')]),
 ('C09', 'A run makes all requested realisations and stores each separately',
  'A run makes exactly the requested number of realisations; each is generated, assigned to cells, given hydraulic '
  'parameters if and only if they are switched on, and then written in all requested formats, in this order. With '
  'more than one realisation number n is written to real_<nnn> inside the run directory, a single one to the run '
  'directory itself; only the test case removes its results.',
  ['configurations', 'histories'], 'every number of realisations and every switch',
  'The tests run the test case only.',
  ['hyvr/sim.py'], [('realisation loop', 'hyvr/sim.py: run')]),
 ('C10', 'The grid covers the domain with cells of the given size',
  'For extents that are multiples of the cell size the grid has exactly extent/size cells per axis, the cell centres '
  'lie half a cell off the origin and one cell apart, and the domain ends at origin plus extent. The three coordinate '
  'arrays give every cell the coordinates of its own column, row and layer, and periodicity is kept as given.',
  ['inputs'], 'every origin, cell size and extent',
  'Tests use one grid with unit-like sizes.',
  ['hyvr/geo/grid.py'], [('grid', 'hyvr/geo/grid.py: Grid')]),
 ('C11', 'Contact surfaces lie where their model puts them and can be limited safely',
  'A flat contact surface lies at its elevation everywhere, a random one is its elevation plus the random field with '
  'the requested variance and correlation lengths. Limiting it by another surface from above or below changes only '
  'the columns where the two cross, to exactly the other surface, which itself stays as it is. The reported minimum '
  'and maximum enclose the surface at all times, and a new surface reports its exact minimum, maximum and mean.',
  ['inputs'], 'every pair of surfaces and every random field',
  'The test limits one or two fixed surfaces.',
  ['hyvr/geo/contact_surface.py'], [('surfaces', 'hyvr/geo/contact_surface.py: ContactSurface')]),
 ('C12', 'Strata fill the domain from bottom to top without gaps or overlaps',
  'In every column the strata lie on top of each other in the given order without gap or overlap: the uppermost ends '
  'at the top of the domain, the top of every stratum is the bottom of the next one above, and the lowest starts at '
  'the bottom of the domain. A contact surface lies where its contact model puts it, limited by the next contact '
  'surface above where the two would cross. Every stratum has its own name, background values, elements and contact '
  'parameters.',
  ['inputs', 'configurations'], 'every set of contact elevations and every random field',
  'Needs contact surfaces that cross or leave the domain, for every random field.',
  ['hyvr/geo/model.py', 'hyvr/geo/stratum.py'], [('strata', 'hyvr/geo/model.py: Model.generate_model')]),
 ('C13', 'Architectural elements fill their stratum without gaps or overlaps',
  'In every column the elements of a stratum lie on top of each other without gap or overlap from its top to its '
  'bottom; each is as thick as its drawn thickness (plus the avulsion depth, drawn from the given range, where '
  'avulsion happens), limited by the bottom of the stratum, with the contact model of the element below. Every '
  'element is of a type listed with positive probability for the stratum.',
  ['inputs', 'configurations'], 'every stratum geometry and every outcome of the random draws',
  'The tests draw one random sequence in one stratum.',
  ['hyvr/geo/stratum.py'], [('elements', 'hyvr/geo/stratum.py: Stratum')]),
 ('C14', 'Sheets fill a sheet element without gaps or overlaps',
  'The sheets of a sheet element cover it in every column from its bottom to its top without gap or overlap: one '
  'massive sheet without lens thickness, otherwise sheets of the lens thickness (scaled by the vertical size trend at '
  'their place). No sheet reaches above the top or below the bottom of its element.',
  ['inputs'], 'every element geometry, lens thickness and size trend',
  'Tests look at one element with flat surfaces.',
  ['hyvr/geo/sheet_ae.py', 'hyvr/geo/sheet.py'], [('sheets', 'hyvr/geo/sheet_ae.py: SheetAE.generate_objects')]),
 ('C15', 'Element records describe their objects and enclose them',
  'The vertical extent of an element and of a stratum always encloses all objects and surfaces they hold, so that no '
  'cell is skipped. The tables an element keeps of its objects (extent, angles, facies, facies sequences, numbers) '
  'agree entry by entry with the objects, and background facies, azimuth and dip are those of the element if given '
  'and of the stratum otherwise.',
  ['inputs'], 'every set of objects and every background setting',
  'Wrong extents only drop cells for particular geometries.',
  ['hyvr/geo/ae_realization.py', 'hyvr/geo/stratum.py'],
  [('records', 'hyvr/geo/ae_realization.py: AERealization')]),
 ('C16', 'Every cell gets the values of the topmost object that contains it',
  'Every cell whose centre lies inside the domain gets the stratum and element it lies in and the facies, azimuth, '
  'dip, object number and object type of the uppermost object of that element containing its centre; if there is none '
  'it gets the background values of the element and object number -1. No cell stays unassigned and none gets values '
  'of an object that does not contain it.',
  ['inputs'], 'every arrangement of strata, elements and objects relative to the cells',
  'The result depends on the relative position of cells and surfaces, which tests fix.',
  ['hyvr/assign_points.py', 'hyvr/geo/ae_realization.py'],
  [('assignment', 'hyvr/assign_points.py: assign_points')]),
 ('C17', 'Sheets contain the right cells and dip as prescribed',
  'A sheet contains exactly the points between its bottom and its top surface, and gives them its facies, azimuth and '
  'dip. The angles of a sheet lie within the given ranges; in a sheet with dipping sets the layers are planes of '
  'exactly that azimuth and dip, separated by the set distance, and every point of the domain gets the facies of its '
  'layer.',
  ['inputs'], 'every point, surface, angle range and set distance',
  'Tests query one sheet at a few points.',
  ['hyvr/geo/sheet.py'], [('membership', 'hyvr/geo/sheet.py: Sheet.maybe_assign_points_to_object'),
                          ('dip sets', 'hyvr/geo/sheet.py: Sheet')]),
 ('C18', 'Troughs cover exactly their half ellipsoid and set facies and angles there',
  'A cell belongs to a trough exactly if it lies in the lower half of the ellipsoid with the given length, width, '
  'depth, centre and orientation (in periodic domains also in its images on the opposite sides). Such a cell gets the '
  'number of the trough and, within the lag height above the deepest point, the lag facies with zero angles. Above '
  'that a massive trough gives one of its facies and its own dip and azimuth, and a trough with dipping sets or bulb '
  'sets gives the facies of the layer the cell lies in, layers having the given thickness. Troughs at given positions '
  'are all created, from top to bottom.',
  ['inputs', 'configurations'], 'every size, position, orientation, query point, structure and random draw',
  'No test creates a trough.',
  ['hyvr/geo/trough.pyx', 'hyvr/geo/trough_ae.pyx'],
  [('shape and layers', 'hyvr/geo/trough_ae.pyx: maybe_assign_points_to_object'),
   ('trough', 'hyvr/geo/trough.pyx: Trough')]),
 ('C19', 'Bulb sets follow the trough surface: azimuth and dip are those of the shell',
  'In troughs with bulb structure the azimuth and dip of a cell describe the plane that is tangential there to the '
  'ellipsoid shell of the trough through the cell, also for rotated troughs, and the dip never exceeds the given '
  'maximum dip of the element.',
  ['inputs'], 'every point of the trough, size and orientation',
  'No test creates a trough; single points cannot settle signs in all quadrants.',
  ['hyvr/geo/trough_ae.pyx', 'hyvr/geo/trough.pyx'],
  [('orientation', 'hyvr/geo/trough_ae.pyx: maybe_assign_points_to_object')]),
 ('C20', 'Channels cover exactly their parabolic cross-section along the centreline',
  'A cell belongs to a channel exactly if it is not above the channel top and not below the parabola that has the '
  'given width at the top and the given depth at the nearest point of the centreline, whatever other cells have been '
  'examined before. Such a cell gets the number of the channel and, within the lag height above the bottom, the lag '
  'facies with zero angles; otherwise a massive channel gives its facies and dip, and a channel with dipping sets '
  'gives its dip, the azimuth of the inverse-distance weighted flow direction and the facies of the layer counted '
  'along the centreline and upwards.',
  ['inputs', 'histories'], 'every centreline, size, query point, order of visited cells',
  'No test creates a channel; the shortcut for far cells depends on the history of queries.',
  ['hyvr/geo/channel.pyx', 'hyvr/geo/channel_ae.pyx'],
  [('shape', 'hyvr/geo/channel_ae.pyx: maybe_assign_points_to_object'), ('channel', 'hyvr/geo/channel.pyx')]),
 ('C21', 'Facies sequences only use listed facies and allowed successors',
  'A facies sequence has the requested length, every entry is one of the listed facies, and with alternating facies '
  'each entry is followed only by facies listed as its successors. A sequence of a single layer is one listed facies.',
  ['inputs'], 'every outcome of the random choices, every facies and successor list',
  'One random sequence is drawn in a test.',
  ['hyvr/utils.py'], [('sequences', 'hyvr/utils.py: get_alternating_facies')]),
 ('C22', 'Troughs and channels are placed and sized as the parameters say',
  'Troughs are placed on levels that start at the mean top of the element and go down by the aggradation thickness '
  'while they stay above the highest point of the bottom plus buffer times depth; the number per level is drawn with '
  'mean density times domain area, positions are uniform and independent over the domain, and migrating troughs keep '
  'their number and move from level to level by normal steps with the given means and deviations per axis. Channels '
  'start one aggradation thickness below the top, the given number per level, at random lateral positions just '
  'upstream of the domain, keep or migrate these positions from level to level. Sizes follow the vertical size trend '
  'and trough orientations the paleoflow range.',
  ['inputs', 'configurations'], 'every parameter value and outcome of the random draws',
  'No test generates troughs or channels, and distributions cannot be settled by samples.',
  ['hyvr/geo/trough_utils.py', 'hyvr/geo/trough_ae.pyx', 'hyvr/geo/channel_ae.pyx'],
  [('trough positions', 'hyvr/geo/trough_utils.py: generate_trough_positions, rand_trough_params'),
   ('channel positions', 'hyvr/geo/channel_ae.pyx: generate_objects')]),
 ('C23', 'Channel centrelines follow the disturbed meander model',
  'The directions along a centreline follow the second-order autoregressive model with wave number, height and '
  'independent zero-mean noise of the given strength. The centreline starts at the given start point, advances by the '
  'given step length along each direction, and has the given mean flow direction; only points further than the '
  'channel width outside of the x range of the domain are left out, and the stored velocities are those of the steps. '
  'Interpolation along a curve keeps the first point, stays on the curve, spaces points by the given distance up to '
  'the refinement step and covers the whole curve.',
  ['inputs'], 'every model parameter, noise value, start point, domain and curve',
  'No test generates a centreline.',
  ['hyvr/geo/channel_utils.py', 'hyvr/optimized.py'],
  [('directions', 'hyvr/geo/channel_utils.py: ferguson_theta, thetaAR2'),
   ('centreline', 'hyvr/geo/channel_utils.py: ferguson_curve'), ('interpolation', 'hyvr/optimized.py: curve_interp')]),
 ('C24', 'Conductivity tensors are symmetric, positive and aligned with the bedding',
  'The conductivity tensor of every cell is symmetric, has the conductivity along two directions of the bedding '
  'plane given by azimuth and dip of that cell and the conductivity divided by the anisotropy ratio across it. '
  'Cells do not influence each other.',
  ['inputs'], 'every conductivity, ratio, azimuth and dip',
  'Tests compare one cell with stored numbers.',
  ['hyvr/optimized.py', 'hyvr/geo/model.py'], [('tensors', 'hyvr/optimized.py: set_anisotropic_ktensor')]),
 ('C25', 'Every cell gets the hydraulic parameters of its own facies, object and trends',
  'Without heterogeneity conductivity, porosity and anisotropy ratio of a cell are those of its facies; with it, '
  'every object (or every facies, depending on the level) and every element background gets its own random field with '
  'the variance and correlation lengths of the facies, applied to its own cells only. Element trends act only on the '
  'cells of that element and global trends on all cells, each by the factor at the position of the cell; bedding '
  'azimuth and dip enter the tensor in degrees.',
  ['inputs', 'configurations'], 'every assignment of cells and every parameter, field and trend',
  'Hydraulic output is never compared with its definition in the tests.',
  ['hyvr/geo/model.py'], [('hydraulics', 'hyvr/geo/model.py: Model.generate_hydraulic_parameters')]),
 ('C26', 'Random fields have the requested size, variance and correlation structure',
  'A random field has the size of its grid (or one value per selected cell) and is a linear function of independent '
  'standard normal draws whose covariance depends on the distance of the cells through the requested covariance '
  'model, with the requested variance, and correlation lengths acting along their own axes. With a selection mask the '
  'values are those of a field over the selected part of the grid.',
  ['inputs', 'configurations'], 'every variance, spacing, correlation length and every value of the draws',
  'The outcome is random; tests can only look at single samples.',
  ['hyvr/utils.py'], [('spectral simulation', 'hyvr/utils.py: specsim')]),
 ('C27', 'Data files hold exactly the fields of the model',
  'Each requested data format (mat, py, npz, h5, vtr) produces one file named after the run in the realisation '
  'directory, holding every field of the model under its name with unchanged values and shape (vtr: all but the '
  'tensors, at the cell corner coordinates of the grid). An unknown format is refused; a missing library costs a '
  'warning and its own format only.',
  ['inputs', 'configurations'], 'every field, grid, list of formats and set of installed libraries',
  'No test writes and compares output files.',
  ['hyvr/postprocess/output.py'], [('writers', 'hyvr/postprocess/output.py: create_outputs, to_mat, to_pickle, '
                                    'to_npz, to_hdf5, to_vtr')]),
 ('C28', 'MODFLOW models describe the simulated aquifer',
  'In the MODFLOW-2005 and MODFLOW 6 models every cell has the conductivity (and anisotropy, azimuth and dip if '
  'generated) of the simulated cell at the same place: layers counted from the top with the elevations of the grid, '
  'rows and columns with the widths of the axis they follow. Heads, head gradient or inflow given in the flowtrans '
  'section are applied to all cells of the inlet and outlet face, and the initial heads run linearly between them '
  '(mf6).',
  ['inputs', 'configurations'], 'every grid, field and boundary setting',
  'No test exports a model.',
  ['hyvr/postprocess/output.py'], [('exports', 'hyvr/postprocess/output.py: to_modflow, to_mf6')]),
 ('C29', 'HydroGeoSphere files list tensors and porosity of every cell',
  'The HydroGeoSphere output lists every cell exactly once, numbered from 1 in the order of the arrays (x slowest, z '
  'fastest), with its own tensor in the order xx, yy, zz, xy, xz, yz and its own porosity under the same number.',
  ['inputs'], 'every grid and field',
  'No test exports a model.',
  ['hyvr/postprocess/output.py'], [('export', 'hyvr/postprocess/output.py: to_hgs')]),
 ('C30', 'Generated models are numbered uniquely and consistent from strata to cells',
  'In a generated model every element and every object has its own number that no other one shares, in all '
  'realisations, and every cell carries the numbers of the stratum, element and object it lies in. A second '
  'realisation of the same model starts from scratch and is not influenced by the first.',
  ['inputs', 'histories'], 'every outcome of the random draws, contact elevation and thickness, repeated realisations',
  'Only whole generated models show mistakes in numbering, and tests never generate one.',
  ['hyvr/geo/model.py', 'hyvr/geo/stratum.py', 'hyvr/assign_points.py'],
  [('numbering', 'hyvr/geo/model.py: Model.generate_model'), ('assignment', 'hyvr/assign_points.py')]),
 ('C31', 'Incomplete or inconsistent parameter files are refused',
  'A parameter file that lacks a required section or option, names an unknown facies, element, geometry, structure, '
  'output format or heterogeneity level, or gives a per-facies, per-stratum or per-element list of the wrong length '
  'is refused with an error before anything is simulated or written. Complete and consistent files are accepted.',
  ['inputs', 'configurations'], 'every single defect of a parameter file, all other values arbitrary',
  'Tests cover three kinds of errors.',
  [PY, OT, OP], [('consistency tests', PY + ': parse_inifile'), ('required options', OT)]),
 ('C32', 'Cross sections show the cells at the requested position',
  'A cross section of a field, perpendicular to x or y, shows the values of the cells that contain the requested position, '
  'each drawn at the coordinates of its own cell, or their logarithm if that is asked for. Without a position the section '
  'goes through the middle of the domain, for an empty list there is none, and positions outside of the domain are not drawn.',
  ['inputs'], 'every origin, spacing, field and position of the sections',
  'No test plots a model; a grid with a spacing of one and an origin at zero hides most mistakes.',
  ['hyvr/postprocess/plotting.py'], [('cross sections', 'hyvr/postprocess/plotting.py: cross_section_pcolor')]),
 ('C33', 'The command line runs the given file and reports failure',
  'The command line runs the given parameter file exactly once, or the test case if none is given. With --overwrite, in '
  'any position, overwriting is requested, without it the setting of the parameter file decides. A failing run is reported with '
  'its reason and a non-zero exit status, a successful one ends with status zero.',
  ['inputs', 'faults'], 'every order of arguments, every kind of failure of the run',
  'No test starts the program from the command line.',
  ['hyvr/__main__.py'], [('command line', 'hyvr/__main__.py')]),
]

NA = []

NOTE = ('Every path of the named functions is executed symbolically from the current source; Z3 shows each assertion '
        'for all values within the bounds (%s) or gives a counterexample, which counts only if it fails again in the '
        'real code under the ordinary interpreter. Trusted: the numpy model of the executor (checked by replaying '
        'witnesses of every case on the real code), Z3, real instead of floating-point arithmetic.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for i, t, s, over, q, why, files, mech in P:
            assert len(t) <= 80, i
            f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=over, text=q),
                                    why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
                    + '\n')
    checks = []
    import importlib
    na = [n[0] for n in NA]
    for p in P:
        i = p[0]
        if i in na:
            continue
        m = importlib.import_module('props.' + i.lower())
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i,
                           thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique='symbolic execution of the real source with Z3, bounded', level='model_checking',
                           level_note=NOTE % m.BOUNDS))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3-vt -m compileall -q symx props', checks=checks,
                       not_applicable=[dict(property=a, reason=b) for a, b in NA],
                       notes='symx: symbolic executor; props: one harness per property; see DESIGN.md'), f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
