"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
D, E, V, W, G, T, C = ('src/gempakio/decode/gempak.py', 'src/gempakio/encode/gempak.py',
                       'src/gempakio/decode/vgf.py', 'src/gempakio/encode/vgf.py',
                       'src/gempakio/gemcalc.py', 'src/gempakio/tools.py',
                       'src/gempakio/common.py')


def p(id, title, statement, text, why, files, mech, over=('inputs',), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': list(over), 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'Packed grids unpack to the original within half a quantisation step',
  'Packing a grid of values (including missing points) at a precision of 1 to 31 bits and unpacking the result gives back, at every point, the original value to within half of the packing step (up to floating-point rounding), and exactly the missing value where and only where the input was missing. '
  'The step is the finest power of two for which the range of the non-missing values still fits the precision, so it never exceeds the range divided by about a quarter of the available codes (a range too small for a 32-bit real step aside), and the packed array has exactly ceil(bits*points/32) 32-bit words. '
  'Precisions outside 1 to 31 are refused.',
  'every two-dimensional grid of finite values, any pattern of missing points, every precision 1..31',
  'Tests pack a few fixed fields at 16 bits; word-straddling layouts, rounding at the top of the range and missing patterns depend on grid size, precision and values jointly.',
  [E, D], [('pack_grib', E + ':pack_grib'), ('_unpack_grib', D + ':_unpack_grib')],
  observe=['encode.gempak.pack_grib', 'decode.gempak._unpack_grib'])

p('C02', 'Bit-packed grids decode to the exact bit field of every point',
  'Decoding a bit-packed grid yields, for every point i, reference + scale * (the bits-wide field starting at bit i*bits of the big-endian-ordered word stream). '
  'When a missing value is in force, exactly the points whose field is all ones are returned as missing; otherwise none are.',
  'every number of points, every content of the packed words (including negative words), every bit width 1..31',
  'Tests decode a handful of archived files with one or two bit widths; whether a field straddles words depends on i and the width.',
  [D], [('_unpack_grib', D + ':_unpack_grib'), ('grib/dec branch', D + ':GempakGrid._unpack_grid')],
  observe=['decode.gempak._unpack_grib', 'GempakGrid.gdxarray'])

p('C03', 'Difference-packed and unpacked grids decode point by point as stored',
  'A difference-packed grid decodes so that the first non-missing point is the reference, each later point is its predecessor (the last non-missing point before it in its row or, when its row has none, the first non-missing point of the nearest earlier row that has one) plus minimum difference plus scale times its field, and all-ones fields are missing when the missing flag is set. '
  'An unpacked grid decodes to exactly the stored reals in row order.',
  'every grid shape, bit width 1..31, field content and missing flag',
  'One archived file exercises the difference path with one width.',
  [D], [('_unpack_grid', D + ':GempakGrid._unpack_grid'), ('_fortran_ishift', D + ':GempakFile._fortran_ishift')],
  observe=['GempakGrid._unpack_grid', 'GempakGrid.gdxarray'])

p('C04', 'Real data packed into integers decode with their own scale and offset',
  'Decoding packed station or sounding data yields for each record and each parameter (field + offset) * 10**scale, where field is that parameter\'s bit slice of the record, and the missing value exactly when the slice is all ones. '
  'A data length that is not a whole number of records is refused.',
  'every parameter table (bit widths 1..32, scales, offsets), every number of records, every word content',
  'Archived files exercise a few parameter tables; slices straddling words and 32-bit slices depend on the table.',
  [D], [('_unpack_real', D + ':GempakFile._unpack_real'), ('_fortran_ishift', D + ':GempakFile._fortran_ishift')],
  observe=['GempakFile._unpack_real'])

p('C05', 'Written files have disjoint, in-order sections where the label says',
  'In every grid, sounding or surface file written, the sections named by the label (label, data management, row keys, column keys, file headers, row headers, column headers, parts, data pointers, data) lie where their pointers say, are large enough for their contents and do not overlap. '
  'Every non-zero data pointer addresses a data block that starts at or after the end of the pointer table, blocks do not overlap, and each block lies within the file, whose next free word is just past the last of them. '
  'Word and byte positions convert into each other without loss.',
  'every combination of numbers of rows, columns, parameters, levels and grid sizes',
  'Tests write files with one to a few entries; section sizes interact with 128-word record boundaries.',
  [E, C], [('_set_pointers', E + ':DataManagementFile._set_pointers'), ('to_gempak', E + ':DataManagementFile.to_gempak'), ('_dmword', E + ':DataManagementFile._dmword'), ('_word_to_position', C + ':_word_to_position')],
  over=('inputs', 'histories'), observe=['GridFile.to_gempak', 'SoundingFile.to_gempak', 'SurfaceFile.to_gempak'])

p('C06', 'Files decode the same regardless of byte order',
  'A file stored with the opposite byte order (integers and reals swapped word by word, character data unchanged) decodes to the same inventory, headers and data as the native file.',
  'every GEMPAK grid, sounding and surface file',
  'Tests use a few archived files of a fixed byte order each.',
  [D], [('_swap_bytes', D + ':GempakFile._swap_bytes'), ('prefmt/endian uses', D + ':GempakFile')],
  observe=['GempakGrid', 'GempakSounding', 'GempakSurface'])

p('C07', 'Grid files round-trip metadata, navigation and data',
  'Reading back a grid file written by the library gives one grid for each distinct one added, with its parameter name, level(s), vertical coordinate, times and forecast offset, and each grid\'s values within half a packing step with missing points missing. '
  'The projection, its angles and the corner coordinates read back are those of the projection and coordinates the file was created with.',
  'every set of added grids, supported projections, levels, coordinate types, dates and forecast hours',
  'Tests round-trip one small grid per projection with fixed metadata.',
  [E, D], [('GridFile', E + ':GridFile'), ('GempakGrid', D + ':GempakGrid')],
  over=('inputs', 'histories'), observe=['GridFile.to_gempak', 'GempakGrid.gdxarray', 'GempakGrid.gdinfo'])

p('C08', 'Sounding files round-trip every sounding',
  'Reading back a sounding file written by the library (with pressure or height among its parameters) gives exactly the soundings added (the last one for equal station metadata and time), each with its station identifier (first four characters), number, coordinates to the nearest hundredth of a degree, elevation, state, country and valid time, and every parameter value equal to the value given (as 32-bit real) with NaN as missing.',
  'every set of soundings: parameters, level counts, station metadata, times',
  'Tests write one or two fixed soundings.',
  [E, D], [('SoundingFile', E + ':SoundingFile'), ('GempakSounding', D + ':GempakSounding')],
  over=('inputs', 'histories'), observe=['SoundingFile.to_gempak', 'GempakSounding.snxarray'])

p('C09', 'Surface files round-trip every station report',
  'Reading back a surface file written by the library gives exactly the reports added (the last one for equal station metadata and time), each with its identifier (up to eight characters), number, coordinates to the nearest hundredth of a degree, elevation, state, country, priority and time, and every parameter value equal to the value given (as 32-bit real) with NaN as missing.',
  'every set of station reports: parameters, station metadata, times given as text or datetime',
  'Tests write one or two fixed stations with datetime objects.',
  [E, D], [('SurfaceFile', E + ':SurfaceFile'), ('GempakSurface', D + ':GempakSurface')],
  over=('inputs', 'histories'), observe=['SurfaceFile.to_gempak', 'GempakSurface.sfjson'])

p('C10', 'Encoded dates, forecast times, levels and coordinates decode as defined',
  'Integer date-times decode to the calendar time they encode (yymmdd below one hundred million, otherwise mmddyyHHMM), forecast times to their type and hour/minute offset, times to HHMM, negative levels to none, and vertical coordinates to their name. '
  'Every value the writers encode decodes to the original.',
  'every valid calendar time, forecast type and offset, level and coordinate',
  'Tests use a few times; digit-count boundaries (leading zeros, hours over 99, early years) are not sampled.',
  [D, E], [('_convert_dattim', D + ':GempakFile._convert_dattim'), ('_convert_ftime', D + ':GempakFile._convert_ftime'), ('_make_time', D + ':GempakFile._make_time'), ('_write_column_headers', E + ':GridFile._write_column_headers'), ('add_grid time parsing', E + ':GridFile.add_grid')],
  observe=['GempakFile._convert_dattim', 'GempakFile._convert_ftime', 'GridFile.add_grid'])

p('C11', 'Adding the same entry replaces it; adding others never disturbs it',
  'After any sequence of additions to a grid, sounding or surface file, the file holds one entry per distinct set of metadata, with the data given last for it; adding one entry never changes another. '
  'An addition refused for bad types, sizes, names or lengths raises an error and leaves what the file would write unchanged.',
  'every sequence of valid and refused additions',
  'Tests add one or two entries and never a refused one between valid ones.',
  [E, T], [('add_grid', E + ':GridFile.add_grid'), ('add_sounding', E + ':SoundingFile.add_sounding'), ('add_station', E + ':SurfaceFile.add_station')],
  over=('inputs', 'histories'), observe=['to_gempak output'])

p('C12', 'Arguments passed by the caller are never modified',
  'No call to add data, pack a grid, select data, or query a file changes the arrays, lists or dictionaries the caller passed in.',
  'every call of the writing and selection interfaces with mutable arguments',
  'No test compares arguments before and after.',
  [E, D], [('add_grid', E + ':GridFile.add_grid'), ('add_sounding', E + ':SoundingFile.add_sounding'), ('gdxarray', D + ':GempakGrid.gdxarray'), ('snxarray', D + ':GempakSounding.snxarray'), ('sfjson', D + ':GempakSurface.sfjson')],
  observe=['caller arguments'])

p('C13', 'Grid selection returns exactly the matching grids in file order',
  'Selecting grids by any combination of parameter, time, vertical coordinate, level, second time and second level returns exactly the grids of the inventory whose every filtered attribute is among those requested, in inventory order, each with its own data; first and last mean the earliest and latest time in the file, names match regardless of case, and single values, lists and text times are equivalent ways to ask. '
  'If none match, an error is raised.',
  'every inventory and every combination of filters',
  'Tests use a few filters on one file.',
  [D], [('gdxarray', D + ':GempakGrid.gdxarray'), ('gdinfo', D + ':GempakGrid.gdinfo')],
  observe=['GempakGrid.gdxarray'])

p('C14', 'Sounding selection returns exactly the matching soundings',
  'Selecting soundings by any combination of station identifier, station number, time, state, country and bounding box returns exactly the soundings of the inventory that satisfy every filter (box edges included), in inventory order, each with its own data; first and last mean the earliest and latest time, names match regardless of case, and single values and lists are equivalent ways to ask. '
  'If none match, an error is raised.',
  'every inventory and every combination of filters',
  'Tests use a few filters on one file.',
  [D], [('snxarray', D + ':GempakSounding.snxarray'), ('_bbox_filter', D + ':_bbox_filter')],
  observe=['GempakSounding.snxarray'])

p('C15', 'Surface selection returns exactly the matching reports',
  'Selecting surface reports by any combination of station identifier, station number, time, state, country and bounding box returns exactly the reports of the inventory that satisfy every filter (box edges included), in inventory order, each with its own values; first and last mean the earliest and latest time, names match regardless of case, and single values and lists are equivalent ways to ask. '
  'If none match, an error is raised.',
  'every inventory (standard, ship and climate layouts) and every combination of filters',
  'Tests use a few filters on one file per layout.',
  [D], [('sfjson', D + ':GempakSurface.sfjson'), ('_bbox_filter', D + ':_bbox_filter'), ('_unpack_standard', D + ':GempakSurface._unpack_standard'), ('_unpack_ship', D + ':GempakSurface._unpack_ship'), ('_unpack_climate', D + ':GempakSurface._unpack_climate')],
  observe=['GempakSurface.sfjson'])

p('C16', 'Nearest-time lookup returns a closest report for every selected station',
  'Asking for the observation nearest a time returns, for every station selected by the one filter given, exactly one of its reports, and no other report of that station is closer in time. '
  'Giving no filter or more than one is refused.',
  'every inventory, target time and single filter',
  'Tests check one station and time.',
  [D], [('nearest_time', D + ':GempakSurface.nearest_time')],
  observe=['GempakSurface.nearest_time'])

p('C17', 'Files that are not GEMPAK files or are of an unknown layout are refused',
  'A file whose first 28 bytes are not the GEMPAK signature is refused with an error by every reader, as are files whose navigation or analysis block size, surface layout, grid packing or projection is not a supported one; none of these is ever returned as data. '
  'An unknown data source code is read as unknown.',
  'every file content in the checked fields',
  'Tests try one or two bad files.',
  [D], [('_process_gempak_header', D + ':GempakFile._process_gempak_header'), ('GempakFile.__init__', D + ':GempakFile.__init__'), ('_get_surface_type', D + ':GempakSurface._get_surface_type'), ('_data_source', D + ':_data_source'), ('_unpack_grid', D + ':GempakGrid._unpack_grid')],
  observe=['GempakGrid', 'GempakSounding', 'GempakSurface'])

p('C18', 'Thermodynamic calculations propagate missing data and follow their formulas',
  'Vapor pressure, mixing ratio, virtual temperature, scale height and moist hydrostatic height return missing exactly when a required input is missing (or non-physical where documented), a missing dewpoint giving the temperature itself as virtual temperature, and otherwise the value of the GEMPAK formula. '
  'For physical inputs (0 < vapor pressure < half the pressure) the mixing ratio is positive, the virtual temperature is not below the temperature, and height increases as pressure falls.',
  'all real inputs, with any of them missing and any missing-value flag',
  'Tests check a few sample values.',
  [G], [('vapor_pressure', G + ':vapor_pressure'), ('mixing_ratio', G + ':mixing_ratio'), ('virtual_temperature', G + ':virtual_temperature'), ('scale_height', G + ':scale_height'), ('moist_hydrostatic_height', G + ':moist_hydrostatic_height')],
  observe=['gempakio.gemcalc'])

p('C19', 'Interpolated parameters lie between their neighbours; wind takes the short arc',
  'Interpolating between two levels gives at each level\'s pressure-weighted position a value between the two end values, equal to them at the ends, linear in the logarithm of pressure; wind direction goes the short way round and lies in [0, 360); any parameter missing at either level is missing. '
  'The result has the target, which lies between the two levels, as its pressure; a target outside them or a non-positive pressure is refused.',
  'all real pressures and values, any subset missing',
  'Tests check a few sample values.',
  [G], [('interp_parameters', G + ':interp_parameters')],
  observe=['gemcalc.interp_parameters'])

p('C20', 'Filling gaps in a sounding changes only missing values',
  'Filling missing data, heights or pressures in a sounding (interpolating missing data, log-pressure heights, log-pressure pressures) never changes a value that was present (temperature and dewpoint, and wind direction and speed, being filled as pairs), never changes the number of levels or other fields, and each filled value lies between those of the levels it was interpolated from. '
  'The fill routines always terminate.',
  'every sounding with pressure decreasing upward and any pattern of missing values',
  'Tests check a few sample soundings.',
  [G], [('interp_missing_data', G + ':interp_missing_data'), ('interp_logp_height', G + ':interp_logp_height'), ('interp_logp_pressure', G + ':interp_logp_pressure'), ('interp_moist_height', G + ':interp_moist_height')],
  observe=['gempakio.gemcalc'])

p('C21', 'Merged soundings are consistent and contain the mandatory data',
  'Merging the parts of an unmerged sounding yields pressure, height, temperature, dewpoint, wind direction and wind speed lists of one common length, pressure strictly decreasing above the surface level (levels of missing pressure and mandatory levels below ground, which follow the surface, aside), and every valid mandatory level (with temperature and height) above the surface present with its temperature and dewpoint. '
  'Parts that are absent contribute nothing, and no data at all yields no sounding.',
  'every combination of parts and level contents with pressure decreasing in each part',
  'Archived files exercise a few combinations of parts.',
  [D, G], [('_merge_sounding', D + ':GempakSounding._merge_sounding')],
  observe=['GempakSounding._merge_sounding', 'GempakSounding.snxarray'])

p('C22', 'Splitting report text keeps every report and its time',
  'Splitting the text of a surface entry into reports yields one report for each occurrence of the station identifier that is followed by text (or one for the whole text when it has no identifier or it occurs once, and one with no text for blank text), in order, losing no text other than surrounding whitespace. '
  'Regular reports keep the stored time; special reports get the day, hour and minute in their text when it names a valid time and the stored time otherwise; decoded values go to the regular reports, or to the special ones when there is no regular text.',
  'every text, station identifier, time group and set of values',
  'Archived files exercise typical texts only.',
  [D], [('_process_report_text', D + ':GempakSurface._process_report_text')],
  observe=['GempakSurface._process_report_text', 'GempakSurface.sfjson'])

p('C23', 'Every vector graphic element encodes to exactly its declared size',
  'For every element that can be constructed and however its attributes are later changed (to documented values that fit their field), encoding yields exactly the number of bytes its header declares, and header and body state the same counts and bounds, so a file is the concatenation of its elements\' encodings in the order added after the file header.',
  'every constructible element and every sequence of attribute changes',
  'Tests encode one instance of each element.',
  [W], [('_make_element_header', W + ':Element._make_element_header'), ('Line.encode', W + ':Line.encode'), ('Front.encode', W + ':Front.encode'), ('SpecialLine.encode', W + ':SpecialLine.encode'), ('SpecialText.encode', W + ':SpecialText.encode'), ('SymbolBase.encode', W + ':SymbolBase.encode'), ('VGFile.to_vgf', W + ':VGFile.to_vgf')],
  over=('inputs', 'histories'), observe=['Element.encode', 'VGFile.to_vgf'])

p('C24', 'Vector graphic files round-trip every element',
  'Reading back a file written from lines, special lines, fronts, special text, special symbols and markers gives the same elements in the same order, each with the attributes given (coordinates and sizes rounded as the reader documents: hundredths for coordinates, tenths for sizes), its text, colours, group, closure, fill and smoothing.',
  'every sequence of valid elements and attribute values',
  'Tests round-trip a few fixed elements.',
  [W, V], [('encoders', W), ('_decode_lines', V + ':VectorGraphicFile._decode_lines'), ('_decode_special_lines', V + ':VectorGraphicFile._decode_special_lines'), ('_decode_fronts', V + ':VectorGraphicFile._decode_fronts'), ('_decode_special_text', V + ':VectorGraphicFile._decode_special_text'), ('_decode_symbols', V + ':VectorGraphicFile._decode_symbols')],
  over=('inputs', 'histories'), observe=['VGFile.to_vgf', 'VectorGraphicFile'])

p('C25', 'Vector graphic decoding stays aligned from element to element',
  'Decoding any element consumes exactly the bytes its header declares, whatever the element kind, so every element that follows is decoded from its own bytes; elements of unsupported kinds are skipped whole; decoding stops at the first invalid or incomplete header and keeps what came before.',
  'every sequence of well-formed elements of all kinds (including unsupported kinds)',
  'Archived files contain particular sequences.',
  [V], [('_decode_elements', V + ':VectorGraphicFile._decode_elements'), ('_validate_header', V + ':VectorGraphicFile._validate_header'), ('element decoders', V)],
  observe=['VectorGraphicFile.elements'])

p('C26', 'Vector graphic attributes only ever hold documented values',
  'Constructing an element or setting an attribute with a value outside its documented range raises an error and leaves the element as it was; values inside are accepted and read back unchanged. '
  'A front\'s width and the intensity digit of its code always agree, and flipping a front or special line twice restores it.',
  'every attribute value and sequence of settings',
  'Tests try one or two bad values per attribute.',
  [W], [('setters', W)], over=('inputs', 'histories'), observe=['encode.vgf elements'])

p('C27', 'Vector graphic queries return exactly the matching elements',
  'Filtering by class and/or type (and/or logic), asking for groups, and the presence flags return exactly the matching elements in file order (groups by ascending number, each element in exactly one), none when nothing matches; element bounds are the extremes of the element coordinates and file bounds those of its element bounds (elements with a zero bound, which have no extent, aside).',
  'every list of decoded elements and every query',
  'Tests query fixed files.',
  [V], [('filter_elements', V + ':VectorGraphicFile.filter_elements'), ('get_group', V + ':VectorGraphicFile.get_group'), ('Group.add_element', V + ':Group.add_element'), ('bounds', V + ':VectorGraphicFile.bounds')],
  observe=['VectorGraphicFile'])

p('C28', 'Coordinate helpers and JSON export preserve coordinates',
  'Closing a polygon appends exactly its first point and leaves the others, flipping reverses the order (twice restores it), for lists and arrays alike, and mixed types are refused; exporting to JSON yields one object per element whose coordinate arrays are the element\'s coordinates to hundredths.',
  'all coordinate sequences and decoded files',
  'Tests use one short array.',
  [V], [('close_coordinates', V + ':VectorGraphicFile.close_coordinates'), ('flip_coordinates', V + ':VectorGraphicFile.flip_coordinates'), ('to_json', V + ':VectorGraphicFile.to_json')],
  observe=['VectorGraphicFile'])

p('C29', 'Structure and buffer readers read what was written and advance exactly',
  'Unpacking the bytes a named structure packed gives the packed values with each field\'s own converter applied; reading n bytes or items from a buffer returns precisely the next ones and advances by precisely their size; marks and jumps return to the marked place; a peek does not advance.',
  'every structure definition, buffer content and sequence of operations',
  'Tests cover a few operations.',
  [T], [('NamedStruct', T + ':NamedStruct'), ('IOBuffer', T + ':IOBuffer')],
  over=('inputs', 'histories'), observe=['tools.NamedStruct', 'tools.IOBuffer'])

p('C30', 'Ordered sets behave as sets that remember insertion order',
  'An ordered set contains exactly the items added and not since discarded, each once, iterates in order of first insertion, has the matching length, discards absent items silently, equals another ordered set only with the same items in the same order, and equals any other set with the same items.',
  'every sequence of operations',
  'Tests cover a few operations.',
  [T], [('OrderedSet', T + ':OrderedSet')], over=('inputs', 'histories'), observe=['tools.OrderedSet'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
