VN = 'interprocedural gated value flow (abstract interpretation, value-numbered normal forms and loop summaries) compared with a reference definition'
TRACE = 'interprocedural effect-trace analysis (gated effects in program order) over abstract inputs and file system states'
NOTE_VN = ('Sound up to the modelled semantics of Python and of the used numpy/os functions (sa/models*.py) with real arithmetic in place of floats; '
           'a comparison that is not decided is counted as undecided in the evidence and never reported as a violation.')
NOTE_TR = ('Covers every control path of the analysed roots for arbitrary arguments and file system contents; effects inside opaque library calls are '
           'outside the model; races with other processes are not considered.')

prop('C01', 'Output never destroys an existing file',
     'Whenever a command or an output function of the package writes a data map or a table at a path where a file already exists, that file survives with its content: '
     'it is first moved to a name which no other file has. No command truncates, overwrites, deletes or copies over the content of a file that existed before it ran. (Drawn figures are excluded.)',
     ['inputs', 'histories', 'configurations'],
     'all output functions and commands, all paths, options and inputs, all states of the file system (also earlier backups) at the time of the call',
     'Tests write into fresh temporary files and check one backup of one name; the guarantee is about every write reachable from every command and every previous content of the directory.',
     ['strata/utils.py', 'strata/dataformats/write.py', 'strata/dataformats/gmx_flow_version_1/write.py', 'strata/dataformats/simple/write.py', 'strata/sample_average.py',
      'strata/contact_line_analysis.py', 'strata/spreading/collect.py', 'strata/spreading/view.py', 'strata/spreading/fit.py', 'strata/interface/angle.py', 'strata/interface/collect.py',
      'strata/interface/sample.py', 'strata/average.py', 'strata/convert.py'],
     [('prepare_path decorator around every output function', 'strata/utils.py:prepare_path')],
     TRACE + '; typestate of each output path (existing -> moved away -> opened)', NOTE_TR)

prop('C02', 'Backups are named #name.K# and preparation is transparent',
     'Preparing an output path creates its missing directories and, only if a file is there, moves that file to #name.K# in the same directory with the smallest free K from 1. '
     'The prepared output function is then called exactly once with the arguments it was given and its value is returned; a backup is reported unless the caller turned that off. '
     'Every function that outputs a table or a data map at a given path prepares that path before touching it.',
     ['inputs', 'histories'],
     'all paths (with or without directory), all existing files and earlier backups, all arguments of the output functions',
     'Tests try two or three names in one directory; the name search is a loop over the state of the file system and must be right for every state.',
     ['strata/utils.py'], [('prepare_path', 'strata/utils.py:prepare_path')],
     TRACE + '; loop summary of the name search compared with a reference definition', NOTE_TR)

prop('C07', 'Averages of data maps are the weighted means of their bins',
     'Averaging a list of data maps on the same grid gives for every bin the arithmetic mean of coordinates, mass and number, and for temperature and velocities the mean weighted by number and mass respectively; '
     'bins without any weight get zero. The number of averaged maps does not change the formula and no input map is changed.',
     ['inputs'], 'all numbers of maps, all bin values including empty bins',
     'Tests average two or three small maps with chosen values; weights that vanish in some bins and larger groups are not sampled.',
     ['strata/dataformats/simple/average.py', 'strata/dataformats/gmx_flow_version_1/main.py', 'strata/dataformats/simple/main.py'],
     [('average_data', 'strata/dataformats/simple/average.py:average_data')], VN, NOTE_VN)

prop('C08', 'Combining bins sums or averages whole blocks on the right grid',
     'Combining neighbouring bins of a data map by integer factors gives one bin per complete block, located at the mean position of its block, with summed number and mass and number- or mass-weighted temperature and velocities. '
     'The grid information returned describes exactly the new bins (shape, spacing, number and origin) and remainder bins outside complete blocks are dropped.',
     ['inputs', 'configurations'], 'all grid sizes, spacings and origins, all factors, all bin values including empty blocks',
     'Tests combine a few small grids whose sizes and factors are fixed.',
     ['strata/dataformats/simple/average.py'], [('combine_bins', 'strata/dataformats/simple/average.py:combine_bins')], VN, NOTE_VN)

prop('C16', 'Data map files are enumerated in order up to the first gap',
     'A command reads exactly the existing files base + five digit number + extension, in increasing order from the first number to the last number or the first missing file; '
     'groups are complete runs of consecutive files (advancing by the group length, or by one for rolling groups) and an incomplete rest is not used. When not even the first file is there, that is reported by a warning. '
     'Output files are numbered consecutively from the input number, or from its group number rounded up, with the extension asked for.',
     ['inputs', 'configurations', 'histories'], 'all bases, begin and end numbers, group sizes, extensions, and all sets of existing files',
     'Tests list directories with a handful of files; where files are missing, group lengths, ends and rolling interact in ways that are not sampled.',
     ['strata/utils.py'], [('gen_filenames, find_datamap_files, find_singles_to_singles, find_groups_to_singles, pop_fileopts', 'strata/utils.py')],
     'generator and loop summaries in normal form compared with reference definitions', NOTE_VN)

prop('C04', 'GMX_FLOW files carry exactly the map that was written',
     'A map written in the default format is a header with the origin (lower corner), shape, spacing, number of kept bins and field names, then, field after field, the bin numbers (uint64) and values (float32) of exactly the bins with mass. '
     'Reading any file of that format, whatever its header length and comments, gives every bin of the grid once, at the centre of its cell, with the values of the file and zero where the file has no bin, and the grid information of the header; '
     'so a map read back equals the map written.',
     ['inputs', 'histories'], 'all grid shapes, spacings, origins, bin values, sets of empty bins, header lengths and comment lines',
     'Tests write and read a few fixed small grids; the position where the binary part starts, the order of the bins and which bins are kept depend on header length, shape and values.',
     ['strata/dataformats/gmx_flow_version_1/read.py', 'strata/dataformats/gmx_flow_version_1/write.py'],
     [('read_data', 'strata/dataformats/gmx_flow_version_1/read.py:read_data'), ('write_data', 'strata/dataformats/gmx_flow_version_1/write.py:write_data')],
     VN + '; reconstruction of the byte stream from the effect trace', NOTE_VN)

prop('C05', 'Simple maps read back as the map that was written',
     'A map written in the simple formats is the table of X, Y, N, T, M, U, V of every bin in that column order, bin after bin (float32 values, or a text table under a header of the field names), whatever order the caller\'s fields have. '
     'Reading it gives back, for binary and for text files, every bin with its coordinates and values, and a grid information (shape, spacing, origin, number of bins) which describes those coordinates.',
     ['inputs'], 'all grids in the file order of the formats, all bin values, field orders of the caller, single rows and columns',
     'Tests use one example file and small grids with more than one row and column.',
     ['strata/dataformats/simple/read.py', 'strata/dataformats/simple/write.py', 'strata/dataformats/simple/main.py'],
     [('read_data', 'strata/dataformats/simple/read.py:read_data'), ('write_data', 'strata/dataformats/simple/write.py:write_data')],
     VN + '; reconstruction of the written table from the effect trace', NOTE_VN)

prop('C06', 'Formats are recognised and converted without changing the map',
     'A data map file is read with the reader of the format its first bytes announce, and everything else with the simple reader; several files are read in the order given. '
     'Writing uses the format asked for (the default one without a request), refuses unknown formats before touching any file, and no call changes the format of a later one. '
     'Conversion writes every input map unchanged in the requested format at the output with its number.',
     ['inputs', 'configurations', 'histories'], 'all file contents by prefix, all format names, all sequences of calls and of input files',
     'Tests convert one or two files; detection and dispatch must hold for every first line, every format name and after any earlier call.',
     ['strata/dataformats/read.py', 'strata/dataformats/write.py', 'strata/convert.py'],
     [('guess_read_module', 'strata/dataformats/read.py:guess_read_module'), ('write', 'strata/dataformats/write.py:write'), ('convert', 'strata/convert.py:convert')],
     TRACE, NOTE_TR)

prop('C03', 'Tables are complete text: described, legended once, one full row per value',
     'The table a command writes keeps every line written in that run: description lines are comments, the legend of the columns comes once and before the rows, '
     'every row is a line of its own with one number for each announced column, and the numbers are the times and values the command computed and returns, in the same order.',
     ['inputs', 'configurations'], 'all commands with a table output, all option sets, all numbers of files and rows, all begin numbers',
     'Tests compare a few rows of one or two tables; a header that is repeated or truncated, or rows that differ from the returned values, appear only for other options or numbers of files.',
     ['strata/contact_line_analysis.py', 'strata/sample_average.py', 'strata/spreading/collect.py', 'strata/spreading/view.py', 'strata/spreading/fit.py', 'strata/interface/angle.py',
      'strata/interface/sample.py', 'strata/interface/view.py'],
     [('sample_contact_line_edges, sample_average_files, collect, view_spreading, fit_spreading_data, sample_interfaces, interface_contact_angle', 'strata/')],
     TRACE + '; the text is reassembled as a symbolic document (lines, columns, loops) and checked line by line', NOTE_TR)

prop('C09', 'Averages of flow maps on different grids use the grid which holds them all',
     'Averaging flow maps whose grids share a spacing gives a map on the smallest grid holding every bin of every map: each map is placed at its own bins, is zero elsewhere, '
     'and every bin is the plain mean, or the mean weighted by the field given as weight (zero without any weight), over all maps. Empty maps can be left out or count as zeros. '
     'The information of the result (shape, spacing, origin, number of bins) describes that grid, no input map changes, and an empty list is refused.',
     ['inputs', 'configurations'], 'all sizes and relative positions of the grids (same, inside, overlapping, apart, before) along both axes, all bin values, weights and orders of the maps',
     'Tests combine a few small grids; the position of each map in the combined grid depends on the sizes and offsets along both axes and on their order.',
     ['droplets/average.py', 'droplets/flow.py'],
     [('average_flow_data, get_combined_grid, transfer_data, average_data', 'droplets/average.py')], VN, NOTE_VN)

prop('C10', 'Finer and coarser flow maps are made from whole neighbourhoods of bins',
     'Making a flow map coarser by integer factors sums every whole block of bins (or averages it for fields with a weight) at the mean position of the block; making it finer by a factor puts every new bin at its own '
     'position with the average of the coarse bins around it (weighted where a weight is given). The grid information belongs to the new map, the given map is unchanged, and factor one or none is a plain copy.',
     ['inputs', 'configurations'], 'all grid shapes, orders of bins, factors, fields, weights and bin values including empty ones',
     'Tests resample a few small grids with fixed factors; remainders, empty weights and edges of the grid depend on shape and factor together.',
     ['droplets/resample.py', 'droplets/flow.py'],
     [('downsample_flow_data, supersample_flow_data', 'droplets/resample.py')], VN, NOTE_VN)

prop('C11', 'Limits keep exactly the bins inside them',
     'Wherever limits are given (for cutting, resampling, or drawing arrows of a map), exactly the bins whose coordinate or field value is inside the closed interval are kept; a side that is not given does not restrict, '
     'and a limit of zero is a limit like any other. Every field is cut the same way, the order of the bins stays, the shape and number of bins count what was kept, and the map that was given is not changed.',
     ['inputs', 'configurations'], 'all maps and orders of bins, all fields, all combinations of given and omitted limits including zero',
     'Tests cut one or two maps with limits between bins; bins on a limit, a limit of zero, one side omitted, and limits in fields other than X and Y are not sampled.',
     ['droplets/flow.py', 'droplets/resample.py', 'droplets/data_utils.py', 'droplets/average.py', 'strata/average.py', 'strata/view_flowmap.py'],
     [('FlowData.lims, FlowData.cut', 'droplets/flow.py'), ('_cut_system_limits', 'droplets/resample.py:_cut_system_limits'), ('cut_system', 'strata/average.py:cut_system'),
      ('get_lim_indices', 'droplets/data_utils.py:get_lim_indices'), ('get_quiver_data', 'strata/view_flowmap.py:get_quiver_data')], VN, NOTE_VN)

prop('C12', 'Flow map objects are independent copies that keep bins together',
     'A flow map made from a mapping, an array or another map holds all its fields and the grid information given to it. Copies share no memory with the original: changing or moving one leaves the other as it was. '
     'A translation shifts the coordinate and the origin together and nothing else, sorting reorders whole bins and returns the same bins, the size of a bin and the number of bins follow from spacing and shape, '
     'and reading or setting a field touches that field only.',
     ['inputs', 'histories'], 'all maps (fields, orders of bins, grids) and all sequences of a copy followed by a change',
     'Tests copy a small map and change one field; sharing shows only after a later change to another field or to the information.',
     ['droplets/flow.py'], [('FlowData', 'droplets/flow.py:FlowData')], VN, NOTE_VN)

prop('C13', 'The average command writes the mean of every group on its grid',
     'For every group of input files (consecutive or rolling) the average command writes exactly one map at the output path of the group: the bin by bin (weighted) mean of the files in the group, '
     'cut to the limits, combined or refined by the factors asked for, and with grid information (shape, spacing, number of bins, lower corner of the first bin) which describes the bins that are written.',
     ['inputs', 'configurations', 'histories'], 'all sets of existing files, all bin values and grids, group lengths 1-3 consecutive and rolling (4 thorough), all limits and combining factors, and refinement by 2 (3 thorough)',
     'Tests average a few example files with one group length and compare one or two output maps.',
     ['strata/average.py', 'strata/dataformats/read.py', 'strata/dataformats/write.py', 'droplets/resample.py'],
     [('average, get_map_info', 'strata/average.py')], VN + '; the arguments at the write call are captured under their path conditions', NOTE_VN)

prop('C15', 'Sampled quantities of a flow map follow their definitions',
     'For every flow map: the centre of mass is the mass weighted mean position, the inertial energy of a bin is M(U^2+V^2)/2, the flow angle is that of the vector (U,V) in degrees, its mean that of the (weighted) sum of the vectors, '
     'and the viscous dissipation is mu[2(ux^2+vy^2-(ux+vy)^2/3)+(uy+vx)^2] of the (weighted) flow with derivatives along the right axes. '
     'The fields added for drawing (flow, radial, visc, density gradient, evaporation) follow their definitions bin by bin and no other field changes.',
     ['inputs', 'configurations'], 'all grids and orders of bins, all values, labels of coordinates, mass, flow and weight',
     'Tests compare a few small maps, mostly square ones with unit spacing in one order; a swapped axis or spacing or a missing weight shows only on others.',
     ['droplets/sample.py', 'strata/view_flowmap.py'],
     [('sample_center_of_mass, sample_inertial_energy, sample_flow_angle, sample_viscous_dissipation', 'droplets/sample.py'),
      ('add_absolute_flow, add_radial_flow, add_viscous_dissipation, add_density_gradient, add_evaporation', 'strata/view_flowmap.py')], VN, NOTE_VN)

prop('C20', 'The sample command gives one value per map and label, in order',
     'Sampling a series of maps returns the times i*dt and, for every label in the order given, one value per file: the mean (or on request the sum) over the bins inside the limits whose cutoff field is at least the cutoff, '
     'which is the midpoint of that field if no value is given, with the standard deviation of a mean; the flow angle is mass weighted and has no sum; the slip length is averaged over the columns of bins relative to the floor. '
     'No label influences the value of another one.',
     ['inputs', 'configurations', 'histories'], 'all sets of files, values and grids, all labels and their combinations used in the code, given, omitted and zero cutoffs and limits',
     'Tests sample one or two labels of small maps; cutoffs equal to a value, several labels (one sorts the map), sums with limits are not sampled.',
     ['strata/sample_average.py', 'droplets/sample.py', 'droplets/flow.py'],
     [('sample_average_files, sample_value, sample_slip_length', 'strata/sample_average.py')], VN, NOTE_VN)

prop('C21', 'The spreading series follows the wetted edges of every map',
     'For every map in which the droplet wets, the spreading series gets the next time (t0, t0+dt, ...; maps before impact take no time) and half the distance between the edges. '
     'The edges are those of the lowest interface layer, or only of the layer at the floor if one is given (zero included). '
     'Edges are followed through the periodic boundary: when their order changes, the one which moved further has left the box on the side it is now far from, and this holds for all later maps.',
     ['inputs', 'histories', 'configurations'], 'all edge positions, orders of edges and numbers of turns, box sizes, sequences of up to three maps (four thorough) which wet or not and any state between two maps, floors and search options',
     'Tests do not cover the collection; the periodic state depends on the whole history of edges.',
     ['strata/spreading/collect.py', 'droplets/flow.py'],
     [('collect, get_spreading_edges, check_and_update_periodic_info', 'strata/spreading/collect.py')], VN, NOTE_VN)

prop('C22', 'The interface search returns the edges of the liquid in every layer',
     'A cell is liquid if its value is at least the cutoff (default: midpoint of least and largest value) and enough other cells (default one) within the radius (default: least distance of cells) are too. '
     'For every map the default search gives, for each layer within the limits from bottom to top, the outermost liquid cells to the left and right as indices into the map. '
     'The periodic search gives the ends of the longest row of connected liquid cells, the first and last cell of a layer being connected, and counts neighbours through the boundary.',
     ['inputs', 'configurations'], 'all maps in either storage order, limits, labels, radii, cutoffs and neighbour counts; the periodic search for maps of one to four columns (five thorough), any number of layers',
     'Tests use a handful of small maps; the search depends on every cell value.',
     ['droplets/interface.py'],
     [('get_interface, _cell_is_droplet, _get_indices_in_radius', 'droplets/interface.py')], VN, NOTE_VN)
prop('C23', 'The collected interface goes around the droplet layer by layer',
     'For every map interface collection writes one outline: the left edges of all layers from the bottom to the top, then the right edges from the top to the bottom, with heights counted from zero at the bottom layer. '
     'The edges of each layer are followed through the periodic boundary from map to map; a layer which was not in the last map begins like the nearest layer which was. '
     'With recenter "zero" the middle of the bottom edges is at zero, with "com" the mass-weighted mean position of all bins.',
     ['inputs', 'histories'], 'edges at any of the histories in checks/c23.py (spreading, leaving the box on either side, coming back, layers which appear and vanish at either end), symbolic spacing and masses, ten columns and six rows',
     'Whether edges are followed correctly depends on the history of all layers, tests use two maps.',
     ['strata/interface/collect.py', 'droplets/droplet.py'],
     [('collect_interfaces, get_interface_coordinates, update_interface_with_pbc_info, transfer_values', 'strata/interface/collect.py')], VN, NOTE_VN)
prop('C24', 'Areas, lengths and contact angles of interfaces are those of their points',
     'The area of an interface is that between its sides by the trapezoid rule, and is refused exactly if heights of the sides differ; its length is the sum of the distances of subsequent points. '
     'The sides of an interface file are its first and second half, each from the bottom up. The angle of a side at a height is that of the line from its lowest point to the point nearest to this height above it; '
     'the angle of the circle segment is 2 arctan(2 height/chord). The contact angles of a map are those from the bottom layer (that nearest to the floor, if given; none if it is not part of the interface) to the uppermost layer within the height. '
     'The series contain the values of all interfaces that have one, at the times of these.',
     ['inputs'], 'all coordinates, any number of points (area, angles of sides, segment), 2 to 4 points for the series and lengths, maps with up to three layers (four thorough) anywhere',
     'Tests use a circle and a few fixed outlines.',
     ['strata/interface/sample.py', 'strata/interface/angle.py', 'droplets/interface.py'],
     [('sample_interfaces, get_area_of_interface, calc_length', 'strata/interface/sample.py'), ('interface_contact_angle, read_interface_file, measure_angle, fit_angle_from_segment', 'strata/interface/angle.py'),
      ('get_contact_angle', 'droplets/interface.py')], VN, NOTE_VN)

prop('C17', 'Options of the command line reach the analysis unchanged',
     'Every command accepts the documented arguments and options with their documented types, number of values and defaults and makes exactly one call of its analysis function, '
     'in which each argument has its position and each option its keyword with the value given by the user. Only documented translations are made: no final number means infinity, '
     'recenter none/off and label None mean none, --nooutput means no output path, --process sum means sum=True, --noaxis or --nodrawaxes means noaxis, a missing label of a sampled interface is that of the variable; '
     'interface angle calls nothing if neither --fit nor --height is given. Every keyword passed is read by what is called. Results are printed in order if and only if printing is on.',
     ['inputs', 'configurations'], 'all 15 commands, every option at an arbitrary value (translated options at each of their values)',
     'Tests of the repository call the functions, never the command line; an option which is accepted and then lost or misnamed is noticed by no test.',
     ['strata/strata.py'], [('all *_cli callbacks and their decorators', 'strata/strata.py')],
     'declaration query on the click decorators against a reference table; gated value flow of every option symbol through the callback into the captured call; keyword closure over the syntax tree',
     'Semantics of click (names of destinations, types, flags) as documented; types of values which are classes of the package are compared by name only.')

na('C18', 'Fits return the best parameters of the data',
   'The power law fit of spreading data and the slip length fit of a velocity profile return the least squares parameters of the points within the limits.',
   ['inputs'], 'all data', 'Tests have one exact data set.', ['strata/spreading/fit.py', 'droplets/sample.py'], [('fit_spreading_data', 'strata/spreading/fit.py')],
   'the result is produced by numerical library code (scipy curve_fit, numpy polyfit) whose optimality is not visible in the source; which points are handed to it is decided under C20 and C21')

na('C19', 'Quantities per angle are means over the nearest angle bin',
   'sample_per_angle assigns each interface point to the nearest angle bin and returns the mean per bin.',
   ['inputs'], 'all points', 'Tests have few points.', ['droplets/sample.py'], [('sample_per_angle', 'droplets/sample.py')],
   'the bin is an argmin over floating point distances perturbed by 1e-6 for an unbounded list of points; no sound normal form for that choice is in reach')

na('C26', 'Figures show the data asked for',
   'Every view draws the values, colours, contours and limits which were asked for.',
   ['inputs', 'configurations'], 'all data and options', 'Tests draw nothing.', ['strata/view_flowmap.py', 'strata/utils.py'], [('draw_contours, draw_values', 'strata/view_flowmap.py')],
   'what a figure shows is decided inside matplotlib; only the values handed over (C15) and the options reaching the view (C17) are visible in the source')

prop('C25', 'Contact line cells, their groups and samples are those of both sides',
     'The cells of a side are copies of the cells between its outermost cells and the inner edge of the extraction box (width inwards of the outermost cell of the uppermost layer within the reference height), '
     'from its lowest cell to that of the last layer which is not further than the height above the lowest left cell; the map is not changed. Moved to the origin, the inner lower corner of a side is at (0, 0) and only the coordinates change. '
     'The moved map of a side is in order of its rows and has its own shape, bin number and origin (how far it was moved). Files are read in order and averaged in complete groups: subsequent ones or, rolling, every run of this many files. '
     'The averages of a side are put back on the grid at the mean of where its maps came from or, recentered, as far apart around zero. Fused sides touch at zero. '
     'The sampled value is the mean (or sum) of that of the left side with its flow along x mirrored and that of the right side, the deviation the mean of both, none if one has none; '
     'the time is that of the middle of the group in the file order. Cutoff, floor, averaging and weights given by the user are used in the search, sampling and averages.',
     ['inputs'], 'all cells of a layer and all grids with the boxes of 2 (thorough 3) layers at heights of 0 to 1.5 (3) bins, all values; up to 5 (8) files in groups of 1 to 3',
     'Tests use one drop with fixed boxes and no groups of files.',
     ['strata/contact_line_analysis.py', 'droplets/contact_line.py'],
     [('get_contact_line_cells, adjust_cell_coordinates', 'droplets/contact_line.py'),
      ('extract_contact_line_bins, sample_contact_line_edges, get_grouped_data, fuse_edges', 'strata/contact_line_analysis.py')], VN, NOTE_VN)
