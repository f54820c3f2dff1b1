"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})



prop('C02', 'Averaging flow field samples gives the mass-weighted cell averages',
     'The average of any number of equally shaped flow field samples has, per cell, mass and number equal to their '
     'arithmetic means over the samples, velocities weighted by mass and temperature weighted by number, and the '
     'coordinates of the input. Cells without weight in all samples give zero, never an undefined value. The inputs are '
     'not modified.',
     ['inputs'],
     'every number of samples and cells, every value of every field including zero mass in some or all samples',
     'The tests average two or three fixed maps; the result must be exact for every combination of values and weights, '
     'including all-zero weights in some cells.',
     ['strata/dataformats/simple/average.py', 'strata/dataformats/simple/main.py'],
     [('weighted sums', 'strata/dataformats/simple/average.py average_data')])

prop('C03', 'Coarsening a map sums and averages whole blocks of cells',
     'Coarsening a map by whole factors along each axis gives one cell per complete block, placed at the centre of the '
     'block, whose values are the sums over its cells, or averages for the fields which have a weight (velocity by mass, '
     'temperature by number; zero where a block has no weight), the weights being those of the input even if they are '
     'averaged by weights of their own. Cells left over at the upper ends are dropped, limits on '
     'the coordinates are inclusive, and the information of the new map (shape, spacing, origin, number of bins) '
     'describes its grid. The order of the records in the input does not matter, maps of whole numbers have the same sums and '
     'means as others, and the input is not modified.',
     ['inputs', 'configurations'],
     'every map shape, factor per axis, spacing, origin, record order, limits and values',
     'The tests use single maps and factors with fixed values; block indices, left-over rows, record order and zero '
     'weights interact.',
     ['droplets/resample.py', 'strata/dataformats/simple/average.py'],
     [('block combination of records', 'droplets/resample.py downsample_flow_data'),
      ('block combination of files', 'strata/dataformats/simple/average.py combine_bins')])

prop('C04', 'Supersampling refines the grid and averages over neighbouring fine cells',
     'Supersampling by a factor N gives N times as many cells along each axis from the same origin with 1/N of the '
     'spacing, and the information describes that grid. Each fine cell holds the mean (weighted where a weight is '
     'given, by the weights of the input even if those have weights of their own; zero without weight) over the copies of the original cells at all fine cells closer than N along both axes '
     'within the map, also for maps of whole numbers. A factor of one or none gives an independent copy, and the input is not modified.',
     ['inputs', 'configurations'],
     'every map shape, factor, spacing, origin, record order, weight and value',
     'The tests supersample one or two fixed maps by two; edges, factors and weights of the neighbourhood interact.',
     ['droplets/resample.py'],
     [('neighbourhood average', 'droplets/resample.py supersample_flow_data')])

prop('C05', 'Averaging flow maps of different extent on their combined grid',
     'The average of flow maps with equal spacing lies on the smallest common grid which covers all of them, whose shape, '
     'spacing, origin, number of bins and coordinates are consistent. Each cell holds the average over all maps of its '
     'values, a missing cell counting as zero, or the weighted average where a weight is given (by the weights of the '
     'input, even if those are averaged by weights of their own); cells without weight are '
     'zero. Different or unknown spacings and unknown labels are refused, coordinate noise well below a cell does not '
     'change the result, and empty maps count as maps of empty cells unless they are excluded. Records on the same coordinates are '
     'averaged label by label, whole numbers like any others; records on different coordinates are refused, and no records have no average.',
     ['inputs', 'configurations'],
     'every number, extent and relative position of the maps, every value, weight and spacing, coordinate labels, noise',
     'The tests average two fixed maps; the combined grid depends on the relative position of every map.',
     ['droplets/average.py'],
     [('combined grid', 'droplets/average.py get_combined_grid'), ('cell transfer', 'droplets/average.py transfer_data'),
      ('average', 'droplets/average.py average_data')])

prop('C06', 'The interface search yields the outermost droplet cells of each layer',
     'A cell belongs to the droplet when its value is at least the cutoff (by default the midpoint between the lowest '
     'and highest value) and at least the given number of the other cells within the search radius (by default the '
     'lower of the distances between cells along the two axes) do too. The interface yields, bottom to top and once '
     'each, exactly the layers within the inclusive height limits which have such cells, as the record indices of the '
     'outermost ones to the left and right. A homogeneous system has no interface under the default cutoff, and '
     'neither the order of the records, the names of the coordinates nor rounding of the coordinates matter (cells at the radius count).',
     ['inputs', 'configurations'],
     'every value in every cell, cutoff, radius, number of neighbours, height limits, record order and spacing',
     'The tests search a few drawn shapes; which cells count depends on all values around each cell.',
     ['droplets/interface.py'],
     [('neighbour count', 'droplets/interface.py cell_fulfils_criteria'),
      ('layer search', 'droplets/interface.py get_interface')])

prop('C07', 'The periodic interface search yields the longest filled stretch per layer',
     'With the search for the longest connected stretch, each layer which has droplet cells yields the record indices of '
     'the two ends of a longest run of consecutive droplet cells, where the layer and the neighbour search are periodic '
     'along x. A completely filled layer is yielded from its first to its last cell. This holds for maps at any origin, '
     'with rounded coordinates, and for any record order; the search refuses maps without known shape and spacing.',
     ['inputs', 'configurations'],
     'every value in every cell, every cutoff, radius, record order, origin and spacing',
     'The tests use a few drawn shapes in sorted order at the origin; runs which wrap around the edge, ties and record '
     'order interact.',
     ['droplets/interface.py'],
     [('run search', 'droplets/interface.py get_interface search_longest_connected'),
      ('periodic copies', 'droplets/interface.py get_interface')])

prop('C09', 'The flow map container keeps records, labels and information consistent',
     'However the data is given, the container holds the same records without aliasing its input, and refuses arrays of '
     'unequal size, other input, and malformed or unknown information. Cutting, limiting and the indices of limits of several fields keep exactly the records '
     'within the inclusive limits, unchanged and in order, and copying, translating, limiting and cutting return new '
     'maps with the right information (shape, spacing, origin, number of bins) which leave the original untouched. '
     'Sorting orders records by y and then x and loses or mixes none. Labels, values, information and size are always those after '
     'the last operation, whichever operations came before.',
     ['inputs', 'histories'],
     'every number of records and labels, every value and limit, including limits on cells and empty results',
     'The tests use a handful of fixed arrays; exactness at limits and the consistency of information hold for all.',
     ['droplets/flow.py'],
     [('construction', 'droplets/flow.py FlowData.__init__'), ('limits', 'droplets/flow.py FlowData.lims'),
      ('cut', 'droplets/flow.py FlowData.cut'), ('sort', 'droplets/flow.py FlowData.sort')])

prop('C15', 'The contact angle joins the bottom layer to the highest layer within reach',
     'The contact angle on each side is the angle (in degrees, measured through the droplet, so above 90 when it leans '
     'outwards) of the line from the edge of the bottom interface layer to the edge of the highest layer at most the '
     'given height above it. With a floor, the layers start at the row closest to it, and that row must have an '
     'interface. Rounding of the coordinates does not matter (layers at the height count). When there are no two such layers, both angles are undefined and this is returned, not raised.',
     ['inputs', 'configurations'],
     'every field value, height, floor, cutoff, spacing and record order',
     'The tests measure fixed shapes; gaps between layers, layers exactly at the height and missing interfaces are not '
     'reached.',
     ['droplets/interface.py'],
     [('angle', 'droplets/interface.py get_contact_angle')])

prop('C10', 'Contact line cells are those within the area at each edge of the interface',
     'From the interface layers between the bottom one and the given height above it, the cells of a side are all those '
     'between the bottom and top of these layers and within the smallest range along x which holds the edges of the '
     'layers and a box of the given width, placed inwards from the edge of the highest consecutive layer not above the '
     'synchronisation height, where cells at the end of the box count also if coordinates are rounded. They are returned unchanged as a copy; without an interface no cells are returned. '
     'Adjusting cells subtracts the innermost x (the largest for the left, the lowest for the right side) and the lowest '
     'y from a copy and returns that shift, which is zero for no cells.',
     ['inputs', 'configurations'],
     'every field value, cutoff, area, height, synchronisation height, spacing, origin and record order',
     'The tests extract from one triangular shape; which cells are returned depends on every edge.',
     ['droplets/contact_line.py'],
     [('extraction', 'droplets/contact_line.py get_contact_line_cells'),
      ('adjustment', 'droplets/contact_line.py adjust_cell_coordinates')])

prop('C11', 'File series are read in order up to the first gap and grouped without loss',
     'A series of numbered files is read from the first requested number, one by one, up to the first missing file or '
     'the last requested number. Groups hold exactly the requested number of consecutive files and follow each other '
     'without gap or overlap (or shift by one file when rolling), and an incomplete remainder is dropped. Every input '
     'is paired with its output name: the same number for single files, the number of its first file divided by the '
     'group size and rounded up for groups, the number of its first file for rolling groups, with the input extension '
     'unless another is given, and names have at least five digits.',
     ['inputs', 'histories', 'configurations'],
     'every first and last number (also beyond five digits), every set of existing files, group size, rolling, extensions',
     'The tests use a few complete series; gaps, ends inside a group and numbers over 99999 interact.',
     ['strata/utils.py'],
     [('series', 'strata/utils.py find_datamap_files'), ('names', 'strata/utils.py gen_filenames'),
      ('numbering', 'strata/utils.py find_groups_to_singles')])

prop('C12', 'Writing output never destroys an existing file',
     'When an output file already exists, every writer first moves it unchanged to the first free name #name.i# (i from '
     '1) in the same directory, makes missing directories, and then writes to a free path; no other file is touched. '
     'This holds for any history of writes, and also when the writer itself fails the earlier content survives.',
     ['histories', 'fault_sequences', 'inputs'],
     'every state of the output directory (which of the file, its backups and the directory exist), every sequence of '
     'writes, every writer, with and without a failing writer',
     'The test makes two backups of one file; gaps among backups, other directories and the individual writers are not '
     'reached.',
     ['strata/utils.py', 'strata/dataformats/simple/write.py', 'strata/dataformats/gmx_flow_version_1/write.py',
      'strata/interface/collect.py', 'strata/interface/angle.py', 'strata/interface/sample.py',
      'strata/sample_average.py', 'strata/spreading/collect.py', 'strata/contact_line_analysis.py'],
     [('backup', 'strata/utils.py prepare_path')])

prop('C13', 'Sampled map quantities are the weighted means they are defined as',
     'The centre of mass is the mass-weighted mean position, the inertial energy of a bin is M (U² + V²)/2, and the mean '
     'flow angle is the direction, in degrees in (-180, 180], of the summed (optionally weighted) flow. Sampling by angle '
     'around a point assigns each cell, at its angle in [0, 360) counter-clockwise from the positive x axis and within '
     'the inclusive angle and radius limits, to exactly one half-open interval, and gives the (weighted) mean of the '
     'value over each interval, zero for one without weight. Unknown labels are refused with a ValueError, the centre '
     'of mass of a system without mass with a ZeroDivisionError; values may be whole numbers, and the sampled map is not changed.',
     ['inputs', 'configurations'],
     'every position (all quadrants, the axes and the origin), value and weight, any limits and interval size, any labels',
     'The tests have a few cells in the first quadrants; cells on the axes, on interval limits and in the last interval '
     'are decided by inequalities.',
     ['droplets/sample.py'],
     [('centre of mass', 'droplets/sample.py sample_center_of_mass'), ('energy', 'droplets/sample.py sample_inertial_energy'),
      ('direction', 'droplets/sample.py sample_flow_angle'), ('angular sampling', 'droplets/sample.py sample_per_angle_from')])

prop('C14', 'Fields derived from a flow map follow their definitions in every cell',
     'The viscous dissipation is 2μ(u_x² + v_y²) − (2μ/3)(u_x + v_y)² + μ(v_x + u_y)² with derivatives along each axis '
     'by central differences (second-order one-sided at the edges) over the spacing of that axis, of the flow or of the '
     'weighted flow divided by the weight; the density gradients and the evaporation u·∇ρ use central differences '
     '(first-order at the edges). Absolute flow is |u| and radial flow the component around the point, positive '
     'clockwise. The results belong to the cells they are stored with whatever order the map had, other fields are kept, '
     'and a map without shape or spacing is refused by the dissipation. The arrows drawn of a flow map are exactly those '
     'of the cells with flow inside the inclusive limits, and not below the cutoff.',
     ['inputs', 'configurations'],
     'every map value, viscosity, order of the records, unequal shapes and spacings, any labels and limits',
     'The tests use unit or equal spacings and square or separable maps, so that swapped axes and spacings agree.',
     ['droplets/sample.py', 'strata/view_flowmap.py'],
     [('dissipation', 'droplets/sample.py sample_viscous_dissipation'),
      ('gradients', 'strata/view_flowmap.py add_density_gradient, add_evaporation'),
      ('flow', 'strata/view_flowmap.py add_absolute_flow, add_radial_flow'), ('arrows', 'strata/view_flowmap.py get_quiver_data')])

prop('C01', 'Flow maps survive being written to files, read back and converted',
     'A regular map written in any format (gmx, simple, simple_plain; gmx by default) is recognised from the content of '
     'the file and read back with all fields, shape, spacing, number of bins and origin, every value in its bin: to single '
     'precision, or six decimals in plaintext. Bins without mass read as empty bins from gmx files. The simple formats '
     'keep every bin with its own coordinates in whatever order the bins were stored, plaintext maps also with columns in '
     'any order. Converting a series writes one file with the same number for each input within the limits, in the wanted '
     'format and with the same values, and leaves the inputs alone. Unknown formats and maps with missing fields '
     '(simple) are refused with a KeyError before anything is written, and a gmx file which was cut short is refused '
     'instead of being taken for another map.',
     ['inputs', 'configurations', 'crash_points'],
     'every field value, any origin and spacing, grids down to a single bin, row or column, empty bins, order of the '
     'records and columns, formats, header lengths, and every point at which a file can be cut',
     'The tests round-trip a few full square maps; short files, raw data which looks like text, single rows and other '
     'orders are separate paths of the readers.',
     ['strata/dataformats/read.py', 'strata/dataformats/write.py', 'strata/dataformats/gmx_flow_version_1/read.py',
      'strata/dataformats/gmx_flow_version_1/write.py', 'strata/dataformats/simple/read.py',
      'strata/dataformats/simple/write.py', 'strata/convert.py'],
     [('recognition', 'strata/dataformats/read.py guess_read_module'), ('gmx', 'strata/dataformats/gmx_flow_version_1/read.py read_data'),
      ('simple', 'strata/dataformats/simple/read.py read_data'), ('conversion', 'strata/convert.py convert')])

prop('C17', 'Recentering and cutting maps keeps every bin at its value',
     'recenter_maps moves every map by the whole number of bins which brings its recentering value nearest the common '
     'one, so that the values meet in the same column; it keeps exactly the range of bins which all maps have, fields and '
     'values moving along with their bins, and the grid information describes that common range (shape, spacing, number '
     'of bins). Unequal numbers of maps and values are refused with an IndexError and values which are no numbers with '
     'a TypeError. Cutting a system keeps exactly the bins inside the limits, which are inclusive; a side without limit '
     'is not cut.',
     ['inputs', 'configurations'],
     'every recentering value and bin value, several maps, unequal spacings and shapes, any cut limits',
     'The tests recenter a couple of maps with unit spacing by whole bins.',
     ['strata/average.py'],
     [('recentering', 'strata/average.py recenter_maps'), ('cutting', 'strata/average.py cut_system')])

prop('C21', 'Averaging a series of map files gives the means of the maps, on their bins',
     'average writes one map per full group of input files. In every bin the mass and number are the means over the '
     'group, velocities are mass-weighted and temperatures number-weighted means, on the same bins as the '
     'inputs after cutting them to limits and recentering every map around its centre of mass or left or right contact '
     'line edge, where those are asked for. Combining bins adds up the mass and number of the blocks of bins (incomplete blocks '
     'are left out), and supersampling refines the averaged map. Coordinates, shape, spacing and origin of what is written describe the '
     'bins, the input files are unchanged, and limits which are not pairs are refused with a ValueError.',
     ['inputs', 'configurations'],
     'every value of the maps, groups, cut limits, recentering methods, combined bins and supersampling, alone and together',
     'The tests compare a few averages of full equal maps without reading how cutting, recentering and combining '
     'change the grid that is written.',
     ['strata/average.py', 'strata/dataformats/simple/average.py', 'strata/utils.py'],
     [('averaging', 'strata/average.py average'), ('grid', 'strata/average.py get_output_info'), ('maps', 'strata/dataformats/simple/average.py average_data')])

prop('C16', 'Interface files give area, length, contact angles and means of their interfaces',
     'For an interface file (left edge upwards, right edge downwards) the sampled area is that enclosed by the edges and the '
     'length that of the line through its points; sides at different heights are reported and skipped for areas, while '
     'times keep following the files. The contact angle measured at a height is the angle inside of the droplet, '
     'between the base and the line from the end of the base to the layer nearest that height above it, on either side, with '
     'the mean of both; the angle of a fitted segment is exact for circular segments on the base, as high as both sides are on average. Averaging '
     'interfaces in groups gives the mean position per side on exactly the layers all of them have, still connected '
     'from the bottom left to the bottom right, and saved interfaces (whose header names the files of the group), angles and samples hold '
     'the returned values. An angle without a layer above the base near the height is undefined, and saved as 0. '
     'Edges of many interfaces combined by height keep every position at its height, layers an interface does not have are missing. '
     'Files which cannot be read are skipped, other variables are refused with a ValueError and inputs are left alone.',
     ['inputs', 'configurations'],
     'every position and height of the layers, measuring height, number of files, groups and which layers files share',
     'The tests sample one circle and split one square interface; angles, averages and saved files are not tested.',
     ['strata/interface/sample.py', 'strata/interface/angle.py', 'strata/interface/view.py', 'strata/interface/collect.py'],
     [('area and length', 'strata/interface/sample.py sample_interfaces, get_area_of_interface, calc_length'),
      ('angles', 'strata/interface/angle.py interface_contact_angle'), ('averages', 'strata/interface/view.py view_interfaces')])

prop('C08', 'Droplet edges are followed over the periodic boundary',
     'For a history of frames in which the edges of a droplet move less than half a box between frames, with one of them '
     'at a time crossing the periodic boundary, the absolute positions which are reported equal the true ones for any box and '
     'any origin of the system. For interfaces this holds in every layer; layers which appear are followed from the nearest '
     'layer of the last frame, layers which vanish leave the others correct. Collecting interfaces writes per map '
     'one file with the left edge upwards and then the right edge downwards, heights counted from the bottom layer, '
     'positions in the map or recentred around zero or the centre of mass, also for interfaces of a single layer, '
     'of the layers within the height limits, with a header which names the map and the options. The maps and previous information are not changed.',
     ['histories', 'inputs', 'configurations'],
     'every real position and displacement history of both edges, box and origin; every set of layers of consecutive frames '
     'within the bounds; every mass of the maps which are collected',
     'The tests step through a few hand-written positions of a box that starts at zero, and no test has layers appearing, '
     'vanishing or crossing at different frames.',
     ['strata/spreading/collect.py', 'strata/interface/collect.py'],
     [('edges', 'strata/spreading/collect.py check_and_update_periodic_info, add_pbc_multipliers_to_edges'),
      ('layers', 'strata/interface/collect.py update_interface_with_pbc_info, transfer_values'),
      ('files', 'strata/interface/collect.py collect_interfaces')])

prop('C18', 'The spreading radius is collected per time since impact and read back unchanged',
     'For any sequence of maps the collected data has one value per map in which the droplet lies on the floor: the time '
     'passed since the first such map (from the given first time, counting also maps in between without spreading) and half '
     'the distance of the outermost edges on that layer, followed over the periodic boundary; maps before the impact and '
     'layers below the floor are ignored. The saved file holds the same times and radii with both edges, and a header of the '
     'options used and the map and time of the impact, for every output of a session. '
     'Spreading files are read as one series per column, scaled by a common or '
     'individual factors, shifted in time to be nearest a radius at the same time, fitted curves cover the requested times, '
     'combined data can be saved and read again; inputs are left alone and factors of another number refused.',
     ['histories', 'inputs', 'configurations'],
     'every mass of the maps, drift of the droplet, time step and first time, every pattern of maps with and without spreading '
     'within the bounds; every value of the series, factors and radius',
     'The tests find edges in single maps and synchronise one pair of files; collecting from files and its output is never run.',
     ['strata/spreading/collect.py', 'strata/spreading/view.py', 'strata/spreading/fit.py'],
     [('collection', 'strata/spreading/collect.py collect, get_spreading_edges, write_spreading'),
      ('combination', 'strata/spreading/view.py combine_spreading_data, sync_time_at_radius, scale_spreading_data'),
      ('files', 'strata/spreading/view.py read_spreading_data, write_spreading_data'),
      ('fitted curves', 'strata/spreading/fit.py get_fitted_data, get_inds_in_limits')])

prop('C19', 'Values, angles and slip lengths sampled from maps are those of their bins',
     'For every map the sampled value of a label is the mean with its standard deviation, or the sum, over exactly the bins which '
     'pass the cutoff (a value, or the midpoint of the cutoff label) and lie in the limits; inertial energy and viscous '
     'dissipation are those of the bins, in the same order as the cutoff whatever else is sampled from the map; the flow '
     'angle is that of the total mass flow. The slip length is the mean distance from the floor to where the fitted '
     'flow of the columns vanishes, exact for linear profiles. Times count the maps read from zero, saved files hold '
     'times, values and deviations of every map in order, unknown cutoff labels disable the cutoff, and unknown labels or '
     'sums of angles end the sampling without a result. The input files are not changed.',
     ['inputs', 'configurations'],
     'every value of the bins, cutoff, limits, floor, viscosity and time step, labels sampled together, within the bounds',
     'The tests only run the slip length and the single sampling functions; no file is ever sampled in the tests.',
     ['strata/sample_average.py', 'droplets/sample.py'],
     [('values', 'strata/sample_average.py sample_value'), ('slip length', 'strata/sample_average.py sample_slip_length'),
      ('files', 'strata/sample_average.py sample_average_files'), ('angle and energy', 'droplets/sample.py sample_flow_angle, sample_inertial_energy')])

prop('C20', 'Contact lines of maps are extracted, averaged, combined and sampled',
     'For every list of maps the bins of the left and right contact line (the interface within the extraction area, and the '
     'area inwards from it) are averaged over groups of maps, whole groups or rolling, relative to the innermost bottom bin: mass '
     'and numbers by arithmetic mean, flow by mass and temperature by number weights, maps without a droplet left out. '
     'Averaged edges are put at their mean position along x with the bottom row at zero, mirrored around zero if recentered, or '
     'side by side if fused, also where coordinates are rounded by the file format; both edges are combined on one grid, where shared bins hold the weighted mean, and written '
     'as one complete map per group that reads back, with bins where they belong. Sampling gives the mean over both edges (and the mean of their standard deviations), or the sum, '
     'of the bins which pass the cutoff, with the flow of the left edge mirrored, at the time of the middle of the group; '
     'the saved file holds the same values. The input files are not changed.',
     ['inputs', 'configurations'],
     'values of the bins next to the contact lines, outlines of droplets, group sizes, grids and options within the bounds',
     'The tests cover the extraction of cells from single maps; files are never extracted or sampled.',
     ['strata/contact_line_analysis.py', 'droplets/contact_line.py', 'droplets/average.py'],
     [('extraction', 'strata/contact_line_analysis.py extract_contact_line_bins, get_averaged_contact_line_edges, combine_flow_data'),
      ('sampling', 'strata/contact_line_analysis.py sample_contact_line_edges'),
      ('cells', 'droplets/contact_line.py get_contact_line_cells, adjust_cell_coordinates'),
      ('averages', 'droplets/average.py average_flow_data')])

prop('C22', 'Figures show the data of the files they are drawn from',
     'For every list of maps one figure is drawn per file, in order: height maps and contours hold every bin which '
     'passes the cutoff once, at its coordinates (in a box of the height map for each bin, next to those of its neighbours), with its value of the label, also for derived labels, for maps in any order and for '
     'every one of several files; contours lie on the grid of the map, clipped to the limits unless levels are given; arrows are '
     'drawn for exactly the bins with flow which lie within the limits and pass the cutoff, coloured by the label; '
     'stream lines follow the flow on a regular grid at the coordinates of the bins which has no flow (masked) in exactly those which do not pass '
     'the cutoff or limits, are coloured by the label and as wide as the mass. Limits, levels, colour maps, colours, titles, axes, sizes, resolution and paths are handed to the figure as given. Interfaces, samples, angles and spreading '
     'curves are drawn with the values which are returned or read, figures of interfaces are numbered as their groups. '
     'Figures are shown or saved only when asked for; drawing does not change the files.',
     ['inputs', 'configurations'],
     'values of the bins, cutoffs, limits, orders of the bins, curves and options within the bounds',
     'No figure is drawn in any test.',
     ['strata/view_flowmap.py', 'strata/interface/view.py', 'strata/interface/sample.py', 'strata/interface/angle.py', 'strata/spreading/view.py', 'strata/utils.py'],
     [('maps', 'strata/view_flowmap.py view_flowmap_2d, height, contour'), ('flow', 'strata/view_flowmap.py view_flowfields, get_quiver_data, get_streamline_data'),
      ('figures', 'strata/utils.py decorate_graph'), ('curves', 'strata/interface/view.py view_interfaces; strata/spreading/view.py plot_spreading_data')])

prop('C23', 'Spreading data is fitted to power laws by least squares',
     'For every list of spreading data files each column of radii is fitted to A * t^k by least squares on logarithmic axes, over '
     'the positive times which lie within the fit limits (limits of zero included; all of them where no limits are given or no time lies within). The fitted '
     'parameters are returned for every series in order, data on an exact power law gives that law. The data and the curve of '
     'every series are drawn with their label, the curve over its own limits (those of the data where none are given) at '
     'the values of the fitted law, named with the fitted parameters. Curves are saved to files with the times and values which '
     'are drawn, and figures are shown or saved only when asked for.',
     ['inputs', 'configurations'],
     'radii over decades, limits of the fits and curves, numbers of files, columns and rows within the bounds',
     'No test fits spreading data.',
     ['strata/spreading/fit.py', 'strata/spreading/view.py'],
     [('fit', 'strata/spreading/fit.py fit_spreading_data'), ('curves', 'strata/spreading/view.py plot_spreading_data')])

prop('C24', 'Commands of the command line do what their options say',
     'Every command of the command line (average, convert, sample, spreading collect/view/fit, interface collect/view/sample/angle, '
     'contact-line collect/sample, view contour/height/flow) does what its function does for the options which are given, in any '
     'order of options and arguments and for any numbers, "none" standing for no value, and with the documented defaults for the '
     'options which are not: it writes the same files and data, draws the same figures, fails where the function fails, and prints '
     'the radii, fits and means it is asked for. It does not change its input files. Command lines which are not understood '
     '(unknown options, missing or malformed values, numbers out of range, files which do not exist) end with an error code and '
     'write nothing.',
     ['inputs', 'configurations'],
     'numbers given to the options, masses of bins at the edges of the droplets, sets of options',
     'No test runs the command line.',
     ['strata/strata.py'],
     [('commands', 'strata/strata.py average_cli ... sample_average_cli'), ('values', 'strata/strata.py OptFloatParamType, ListFloatValsParamType, set_none_to_inf')])

# NEXT

P.sort(key=lambda p: p['id'])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as fp:
    for p in P:
        fp.write(json.dumps(p) + '\n')
print(len(P), 'properties')
