"""Regenerates properties.jsonl (the single source of the property texts)."""
import json, pathlib
EG='src/gempakio/encode/gempak.py'; DG='src/gempakio/decode/gempak.py'
EV='src/gempakio/encode/vgf.py'; DV='src/gempakio/decode/vgf.py'
GC='src/gempakio/gemcalc.py'; TL='src/gempakio/tools.py'; CM='src/gempakio/common.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe,'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},
              'why_tests_cant':why,'anchors':a})
p('C01','Grid values survive write+read within the packing resolution',
 'A grid added to a grid file, written and read back comes back with exactly the same missing cells (NaN or the missing value) and with every other cell within (range of the non-missing values)/(2^precision - 2) plus single-precision rounding of the value given, for grids whose value range does not straddle the missing value. Constant grids come back exact (to single precision), all-missing grids come back all missing, no valid cell ever turns missing, and no cell moves to another position.',
 ['inputs','configurations'],'every grid shape, float dtype and memory layout, value range/magnitude/sign, missing pattern (none, some, all, constant+missing), every precision 1..31 bits',
 'Tests round-trip a few smooth fields at the default 16 bits and compare packed words for one fixture; the interaction of range, missing cells, bit width and word alignment is unbounded.',
 [EG,DG],[('GRIB-style packing of the grid',f'{EG}: pack_grib, GridFile._write_data'),('GRIB unpacking',f'{DG}: _unpack_grib, GempakGrid._unpack_grid')],
 ['GridFile.add_grid arguments','GempakGrid.gdxarray values and mask'])
p('C02','Grid inventory and metadata survive write+read',
 'Reading a written grid file lists exactly the grids added: one entry per distinct combination of parameter, vertical coordinate, level(s) and time(s), each with the parameter name (upper-cased), coordinate, levels, grid type and valid time(s) that the add call specified, and the data retrieved through an entry is the data added under it. Valid time is the given date/time itself for plain times and the initial time plus the forecast offset when a type and offset are given, down to the minute.',
 ['inputs','histories'],'all date/time spellings (datetime, string, typed string with 0-5 offset digits), types A/F/V/G/I, one and two times, one and two levels, all vertical coordinates, parameter names of 1-12 characters, any number and order of grids',
 'Tests add one or a few grids with a handful of time spellings; the product of type, offset, second time/level and mixed collections is untested.',
 [EG,DG,CM],[('time parsing and column keys',f'{EG}: GridFile.add_grid'),('GDT/GTM encoding',f'{EG}: GridFile._write_column_headers'),('GDT/GTM decoding',f'{DG}: _convert_dattim, _convert_ftime, GempakGrid.__init__')],
 ['GridFile.add_grid arguments','GempakGrid.gdinfo()','GempakGrid.gdxarray()'],
 [('column set','one header per distinct grid, sorted on output',f'{EG}: GridFile.column_headers')])
p('C03','Georeferencing of grids is preserved and geometrically correct',
 'For every supported projection, a grid file written from a regular grid of a spherical-earth projection (given as lat/lon or as projected x/y) reads back with the latitude and longitude of every cell equal to those written (within single precision), in the same row/column orientation (cylindrical grids run from west to east, wrapping the dateline if need be). Independently of the writer, any navigation block with supported projection angles yields the latitudes and longitudes prescribed by the spherical map-projection formulas for that projection, and projecting a cell centre returns its x/y. The analysis block a grid file is written with describes the same area as its navigation block and the spacing of its cells. Every grid returned carries the coordinates of its cells and attributes (WKT, and CF where the projection has a CF name) that describe the same projection.',
 ['inputs','configurations'],'projections MER, STR, NPS, SPS, LCC, SCC, CED, MCD, ORT, NOR, SOR, AED, LEA, GNO with random angles, extents, grid sizes (down to one row or column of cells and up), both coordinate modes',
 'Tests use one fixed file per projection with one set of angles.',
 [EG,DG],[('projection parameter extraction',f'{EG}: GridFile._set_projection_params, _set_bbox'),('CRS construction',f'{DG}: GempakGrid._get_crs, _set_coordinates, project_point')],
 ['GridFile constructor','GempakGrid.lat/lon/x/y/crs','GempakGrid.project_point'])
p('C04','Soundings survive write+read',
 'Reading a written sounding file lists exactly the (time, station) soundings added, with station id, number, latitude/longitude (to 0.01 degree), elevation, state, country and time as given; and each sounding returns, for every parameter and level, the single-precision value added, with NaN/missing masked and levels in decreasing pressure (or increasing height) order (none for a sounding without levels); its station_pressure is the pressure of the first level. No value migrates to another level, parameter, station or time.',
 ['inputs','histories'],'any parameter set (1-44) with pressure or height coordinate, 0-499 levels, any number of stations and times in any order including absent combinations and replacements, ids up to 8 characters, negative and fractional coordinates',
 'Tests write one sounding with fixed parameters.',
 [EG,DG],[('sounding writer',f'{EG}: SoundingFile.add_sounding, _write_data, _write_column_headers'),('merged sounding reader',f'{DG}: GempakSounding._unpack_merged, snxarray')],
 ['SoundingFile.add_sounding','GempakSounding.sninfo()','GempakSounding.snxarray()'])
p('C05','Surface observations survive write+read',
 'Reading a written surface file lists exactly the (time, station) reports added with station id, number, latitude/longitude (to 0.01 degree), elevation, state, country, priority and time as given, and each report returns the single-precision value added for every parameter, missing where NaN was given. Both documented date/time forms (string and datetime) are accepted and equivalent.',
 ['inputs','histories'],'any parameter set, any number of stations and times in any order including absent combinations and replacements, ids up to 8 characters, negative and fractional coordinates',
 'Tests write a few stations at one time from datetime objects only.',
 [EG,DG],[('surface writer',f'{EG}: SurfaceFile.add_station, _write_data'),('surface reader',f'{DG}: GempakSurface._unpack_standard, sfjson')],
 ['SurfaceFile.add_station','GempakSurface.sfinfo()','GempakSurface.sfjson()'])
p('C06','Every written GEMPAK file is structurally valid',
 'Every grid, sounding or surface file written is a well-formed GEMPAK data-management file for an independent reader: all pointers lie inside the file, the label, key, header, part, pointer-table, navigation/analysis and data regions never overlap, counts agree with the contents, the next-free-word entry points just past the last datum, unused cells have zero pointers, and the file is a whole number of 128-word records. Each data block\'s length word matches its contents.',
 ['inputs','histories'],'all three file classes, any number of rows/columns (including record-boundary sizes), sparse combinations, parameters, grid sizes and precisions, empty files',
 'Tests read written files only with gempakio itself, which tolerates most layout errors, and never near record boundaries.',
 [EG],[('pointer layout',f'{EG}: DataManagementFile._set_pointers'),('block writers',f'{EG}: DataManagementFile.to_gempak, *_write_data')],['bytes of the written file'],
 [('next_free_word','first unused word of the file',f'{EG}: DataManagementFile.next_free_word')])
p('C07','Writing is deterministic, repeatable and free of side effects on inputs',
 'Building and writing a file (grid, sounding, surface or vector graphic) never modifies the arrays, dictionaries or lists passed in, and later changes the caller makes to those objects never change what is written. Writing the same builder twice, or building the same GEMPAK content in a different insertion order, produces identical bytes; adding an entry under the same metadata again replaces the previous one, and adding more after a write yields the same file as adding everything before.',
 ['inputs','histories'],'all sequences of add, re-add, write, mutate-caller-object operations on all writer classes',
 'Tests add once and write once with throw-away inputs.',
 [EG,EV],[('input normalisation',f'{EG}: DataManagementFile._replace_nan, add_* methods'),('sorted headers',f'{EG}: column_headers/row_headers'),('VGF writer',f'{EV}: VGFile')],['caller-owned objects before/after','bytes of written files'])
p('C08','Rejected or failed operations leave builders and files intact',
 'When an add call raises an error, the builder behaves as if the call had never been made: what it later writes is identical to a builder that never saw the bad call. When writing fails at any point (unencodable content or an I/O error), an existing file at the destination is not destroyed by content-encoding failures, and the same builder can later be written successfully with the same bytes once the cause is gone. Content the file cannot hold is refused with an error rather than stored as something else: a grid that has not the shape of the file, a parameter missing, unknown or of another length than the rest, profiles of more than 500 levels, names too long for their field, unreadable times, more than 44 parameters; a grid bit width outside 1-31 is refused when the file is written.',
 ['fault_sequences','histories','inputs'],'every invalid argument kind at every position of an add sequence; encode failures at every element; write errors at the file system',
 'Tests check that errors are raised, never what state is left behind.',
 [EG,EV],[('validation before mutation',f'{EG}: add_grid/add_sounding/add_station'),('in-memory assembly before open',f'{EG}: DataManagementFile.to_gempak'),('VGF write',f'{EV}: VGFile.to_vgf')],['builder output bytes after a rejected call','destination file after a failed write'])
p('C09','Packed grids decode exactly as the packing formula prescribes',
 'For every supported packing (unpacked, GRIB, DEC, difference), bit width 1-31, grid size, reference, scale and missing flag, the values decoded from a grid file equal the ones the GEMPAK packing definition prescribes for those packed bits (reference plus integer times scale; running row-wise differences for difference packing), to single precision. Cells carrying the all-ones code are missing exactly when the file says missing data may be present.',
 ['inputs','configurations'],'independently packed grids with random integers (including extremes and sign-bit words), bit widths 1..31, all packings, with and without missing flag, extra-long grid headers',
 'Tests compare one fixture file per packing, all 16 bits or similar.',
 [DG],[('unpackers',f'{DG}: GempakGrid._unpack_grid, _unpack_grib, _fortran_ishift')],['GempakGrid.gdxarray values and mask'])
p('C10','Decoding does not depend on the byte order of the file',
 'A grid, sounding or surface file and its byte-swapped counterpart (same content stored in the other byte order, text left as text) decode to identical inventories, metadata, coordinates, values and text.',
 ['inputs','configurations'],'all file classes, packings, part types (real, packed, text) and header shapes, in both byte orders',
 'One pair of grid fixtures is compared; sounding and surface files of foreign byte order are not tested.',
 [DG,TL],[('byte-order detection and prefix',f'{DG}: GempakFile._swap_bytes and every read')],['all public reader results'])
p('C11','Unused slots and absent entries never disturb the entries that exist',
 'In a file with deleted (unused) row or column headers, empty cells, missing parts or free space anywhere, every existing entry is listed and decoded with its own metadata and values, exactly as if the unused slots were not there, and nothing is listed for the unused ones.',
 ['inputs','histories'],'any subset of rows/columns unused at any position, any subset of cells or parts empty, header keys in any order, in grid, sounding (merged and unmerged) and surface (standard, ship, climate) files',
 'Fixture files contain no deleted headers and few holes.',
 [DG],[('header scan',f'{DG}: GempakGrid/GempakSounding/GempakSurface.__init__'),('data pointer arithmetic',f'{DG}: gdxarray, _unpack_*')],['gdinfo/sninfo/sfinfo','gdxarray/snxarray/sfjson'])
p('C12','Query filters select exactly the matching entries',
 'For grid, sounding and surface readers, a query returns exactly the inventory entries satisfying every given filter, in inventory order, and raises KeyError when there are none; a scalar and a one-element list (or tuple/array) filter, any letter case of text filters, and a date given as datetime or string are equivalent. "first"/"last" select the earliest/latest time in the file, bounding boxes are inclusive, and the objects passed as filters are never modified.',
 ['inputs','configurations'],'all combinations of parameter/time/coordinate/level/second time/second level, station id/number/time/state/country/bbox filters, as scalars, lists, tuples, arrays, in any letter case',
 'Tests use a few single-filter queries on fixture files.',
 [DG],[('filtering',f'{DG}: gdxarray, snxarray, sfjson, _bbox_filter')],['results of gdxarray/snxarray/sfjson for a query vs a reference predicate over the known contents'])
p('C13','nearest_time returns the closest report of each selected station',
 'For each station selected by the one filter given (station id(s), number(s), state(s), country(ies) or bounding box), nearest_time returns exactly one report of that station, whose time is at minimum distance from the requested time among the reports of the requested kind the same reader returns for that station, and returns nothing else (a report made outside the state, country or box asked for is not a report of a selected station, even under the same id); a station without any report of that kind contributes nothing. Using no filter or several is refused.',
 ['inputs'],'surface files with any stations/times, requested times before/between/after/tied, every filter kind',
 'Tests query one station of one file.',
 [DG],[('nearest selection',f'{DG}: GempakSurface.nearest_time')],['GempakSurface.nearest_time vs GempakSurface.sfjson'])
p('C14','METAR/SPECI text is conserved and time-stamped correctly',
 'For standard surface files (times in rows, stations in columns) carrying raw report text, every individual METAR or special report stored in a slot is returned once, in order and with its text intact, with the numeric values attached to the regular report(s) of the slot, or to its specials when there is no regular report, never to both; a slot whose text is blank keeps its numeric values as a regular report. Special reports carry the day/hour/minute from their own text (the date nearest to the slot having that day and time; falling back to the slot time when absent or invalid), regular reports carry the slot time, and specials appear only when asked for.',
 ['inputs'],'any number of concatenated METAR and special reports per slot, with or without parseable station/time groups, with or without numeric parts',
 'Two fixture files are compared with GEMPAK listings.',
 [DG],[('text splitting',f'{DG}: GempakSurface._process_report_text, sfjson')],['GempakSurface.sfjson(include_special=True/False)'])
p('C15','Packed real data decode to (field + offset) x 10^scale',
 'Sounding and surface data stored packed decode, for every record and parameter, to (packed field + offset) times ten to the scale, and to missing exactly when the field is all ones, for every bit width (1-32), offset, scale, parameter count and field position including fields that straddle 32-bit words.',
 ['inputs','configurations'],'random parameter tables (bits 1..32, offsets and scales of either sign), random fields including 0, max and all-ones, 1..n records, all file kinds, both byte orders',
 'One packed fixture is compared.',
 [DG],[('bit-field unpacking',f'{DG}: GempakFile._unpack_real')],['snxarray / sfjson values'])
p('C16','Merged raob profiles conserve observations and are physically ordered',
 'Decoding any unmerged (raob) sounding terminates without error and yields a profile whose non-missing pressures strictly decrease with height level, in which every observed level accepted by the GEMPAK merge rules (mandatory, tropopause, significant temperature, significant wind and maximum wind data) appears with its observed temperature, dewpoint and wind, and all other values are interpolations between neighbouring levels or missing. Soundings with any data in any part are listed (those holding only text yield no profile), and text parts are returned verbatim. Mandatory levels below ground may stay repeated as in GEMPAK.',
 ['inputs'],'random part subsets (TTAA..PPCC, text), missing values in any field, significant winds on height or pressure, below-ground mandatory levels, below/above 100 hPa mixes',
 'Four fixture soundings are compared with GEMPAK output.',
 [DG,GC],[('merge',f'{DG}: GempakSounding._merge_sounding, _unpack_unmerged'),('interpolation',f'{GC}: interp_*')],['GempakSounding.sninfo/snxarray on unmerged files'])
p('C17','Thermodynamic and interpolation formulas are correct everywhere',
 'The sounding calculations agree with the GEMPAK definitions for all physical inputs: vapour pressure, mixing ratio, virtual temperature, scale height and hypsometric height equal the published formulas; missing inputs give missing outputs (with missing dewpoint meaning dry air). Interpolation is linear in log pressure, stays between the bounding values, takes the shorter way round for wind direction with a result in [0,360), reproduces the end points, never alters observed values and fills only levels that have data on both sides (heights may also be extended upward).',
 ['inputs'],'physical ranges of temperature, dewpoint, pressure, height and wind; profiles with any missing pattern',
 'No test calls these functions directly.',
 [GC],[('formulas',f'{GC}: vapor_pressure, mixing_ratio, virtual_temperature, scale_height, moist_hydrostatic_height, interp_*')],['return values of gempakio.gemcalc functions'])
p('C18','Vector graphics elements survive write+read',
 'Every element written to a VGF file (line, front, special line, special text, special symbol, marker, file header) reads back as the same kind of element, in the same order, with the same attributes (type codes, colors, smoothing, filling, group, sizes, rotation, text and so on) and the same coordinates to the reader\'s documented rounding; closed lines come back closed. The number of elements read equals the number written.',
 ['inputs','histories'],'all element kinds with all admissible attribute values and 1-500 points, any number and mix of elements',
 'Tests round-trip one instance of each kind.',
 [EV,DV],[('encoders',f'{EV}: *Element.encode, VGFile.to_vgf'),('decoders',f'{DV}: VectorGraphicFile._decode_*')],['VGFile.to_vgf bytes','VectorGraphicFile.elements'])
p('C19','Every VGF element type decodes to the fields stored in the file',
 'For every element type and historical version the reader supports (lines, fronts, symbols, circles, lists, text, tracks, SIGMETs, convective outlooks, volcano and ash, GFA, jets, tropical cyclone products, significant weather, watches, winds), each attribute of the decoded element equals the value stored in the corresponding field of the record, strings without padding, all points in stored order. Decoding succeeds for every well-formed record of these types.',
 ['inputs','configurations'],'independently encoded records of every element type and version with distinct random field values, all admissible point/part counts',
 'Fixtures contain a few samples of some types; several types and versions have none.',
 [DV],[('per-type decoders',f'{DV}: VectorGraphicFile._decode_*')],['VectorGraphicFile.elements'])
p('C20','VGF elements decode independently of their neighbours',
 'The elements decoded from a concatenation of VGF records are, in order, exactly the elements decoded from each record on its own; records of unsupported type or version, deleted records and records longer than their content are passed over or decoded without affecting any other element, and every byte is consumed by exactly one record. A record whose header is not valid (unknown class or type codes, a deletion flag or colour outside its range, a size below that of the header or beyond the end of the file) ends the file, as in GEMPAK, without affecting the elements before it.',
 ['inputs','histories'],'any sequence of valid records of any types (including unsupported types, deleted elements, zero-point records)',
 'Fixtures have fixed sequences.',
 [DV],[('record framing',f'{DV}: VectorGraphicFile._decode_elements, _read_header, _validate_header')],['VectorGraphicFile.elements'])
p('C21','VGF queries, groups, bounds and JSON export agree with the element list',
 'For any VGF file, every has_*/get_* method, filter_elements combination, group listing and bounds result equals the one computed directly from the list of decoded elements, and has_X is true exactly when get_X returns something; elements whose stored box is all zero have no bounds. The coordinate helpers (closing and flipping) give the closed or reversed sequence for lists and arrays alike without modifying what they are given. The JSON export parses and contains the same elements and attribute values (real numbers to two decimals) in order.',
 ['inputs'],'files with any mix of element types, groups and classes; all filter arguments and operations',
 'Tests call a few accessors on fixture files.',
 [DV],[('accessors',f'{DV}: VectorGraphicFile.has_*, get_*, filter_elements, get_group, to_json, bounds, Group')],['public accessors of VectorGraphicFile'])
p('C22','VGF elements are validated and their headers describe their content',
 'Constructing a VGF element or setting one of its attributes accepts exactly the documented values and raises an error for the others, leaving the element unchanged, and whatever way the value arrives (constructor or attribute) the same rule applies. Every encoded record\'s header has the correct class/type codes, a record size equal to the record\'s length, point counts equal to the coordinates and a bounding box equal to the extremes of its coordinates.',
 ['inputs'],'all element classes and attributes, valid and invalid values, any coordinates, mutation after construction',
 'Tests probe a handful of invalid values.',
 [EV],[('property setters',f'{EV}: *Element setters'),('header encoding',f'{EV}: VectorGraphicElement encode_header/encode')],['constructors, attributes, encode() bytes'])
p('C23','Damaged or foreign input never yields silently wrong data and always ends',
 'Opening or reading any file that is not the right format, is empty, truncated anywhere or has any header field corrupted always ends by either raising an error or returning data; for a truncated file, everything returned is identical to what the intact file returns for those entries and nothing the file cannot contain any more is invented. For corrupted (rather than cut) content only termination is claimed, since a damaged value may be a legitimate different value. Files that do not start with the format\'s signature are refused.',
 ['inputs','fault_sequences'],'every truncation point and random corruptions of valid grid/sounding/surface/VGF files, foreign files',
 'No test opens a damaged file.',
 [DG,DV,TL],[('format check and bounds',f'{DG}: GempakFile.__init__, _process_gempak_header; {TL}: IOBuffer; {DV}: _validate_header')],['constructors and query results on damaged files'])
p('C24','Reading is repeatable and results are independent of query history',
 'A reader\'s answers depend only on the file: any query repeated, or asked after any other queries (successful or failing) or by another reader of the same file, gives the same result, and changing a query result (arrays, lists, dictionaries) never changes later answers. (Elements and headers exposed as attributes of a reader belong to the reader.) Reading never modifies the file.',
 ['histories'],'any interleaving of queries on one or several readers of the same files, with mutation of returned results in between',
 'Tests issue one query per reader.',
 [DG,DV,TL],[('shared buffer with explicit jumps',f'{TL}: IOBuffer; {DG}: every read starts with jump_to')],['sequences of public reader calls'],
 [('buffer offset','current read position shared by all queries',f'{TL}: IOBuffer._offset')])
p('C25','Damage to one entry\'s data stays confined to that entry',
 'When the data block of one grid, sounding or station report of a GEMPAK file is damaged (its length word, its pointer or its content), every other entry is still listed and a query selecting it returns exactly what the intact file returns. A query selecting the damaged entry raises an error or returns data, but never values assembled from a packed block that is not a whole number of records, from a block whose length is shorter than its header, or from a block too short for its grid.',
 ['inputs','fault_sequences'],'any file, any entry, any damage of its data block; every other entry queried on its own',
 'No test opens a damaged file.',
 [DG],[('per-entry pointers and lengths',f'{DG}: _unpack_merged, _unpack_unmerged, _unpack_standard/_ship/_climate, _unpack_real, _unpack_grid')],['query results on damaged files'])
p('C26','Named codes are the numbers of the GEMPAK tables',
 'Every named code the package offers (colors, fills, fonts and font sizes, line, special line, front, marker, symbol and text types, vertical coordinates) is written to files as the number GEMPAK\'s tables give to it, and every stored number the reader translates (line styles, marker, list and front names, tropical cyclone codes, data source, file type, forecast type, vertical coordinate) is shown under the name of that number; unknown data sources are shown as unknown.',
 ['inputs'],'every name of every table in every place it can be used, every number of every translated field',
 'Tests use a handful of the names, and compare them with themselves.',
 [EV,DV,'src/gempakio/common.py'],[('code tables',f'{EV}: *Codes; {DV}: enumerations; src/gempakio/common.py: FileTypes, VerticalCoordinates, ForecastType, DataSource')],['bytes of written files','names shown by readers'])
p('C27','Reading and writing touch nothing but the file they are given',
 'Opening and querying a file, or building and writing one, touches only the named file: a reader opens it read-only, leaves no descriptor open whether it succeeds or fails, and answers from the content the file had at opening even if the file is later changed or removed; writing leaves exactly the named file with the complete content and nothing of an older file that stood there, and an operation that fails leaves no new file. The path may be a string or a Path, absolute or relative. No call changes the state of the process (working directory, umask, environment, random generators, floating-point, warning, decimal and locale settings, signal handlers), prints anything, starts processes or opens sockets.',
 ['inputs','histories','fault_sequences'],'every reader and builder, str/Path/relative paths, absent/longer/shorter existing files, successful and failing operations',
 'Tests look at returned values and at temporary files only.',
 [EG,DG,EV,DV,TL],[('file opening and writing',f'{EG}: DataManagementFile write; {DG}: GempakFile.__init__; {DV}: VectorGraphicFile.__init__; {EV}: VGFile.to_vgf; {TL}: IOBuffer.fromfile')],['audit events, open descriptors, directory contents and process state around public calls'])
p('C28','Byte-level helpers behave as sequence and set models',
 'The read buffer, the structure reader, the ordered set and the output stream give, for any sequence of calls, the results of a byte string with a position, of standard structure formats, of a set that remembers insertion order and of a file of 4-byte words: reading returns the next bytes (in the byte order and type asked for) and advances by exactly that much, peeking does not advance, jumps and offsets are relative to their marks, and truncating or splicing removes or replaces exactly the bytes asked for. Reading a value, structure, array or text beyond the end, or removing or popping what is not there, raises an error and changes nothing.',
 ['inputs','histories'],'random sequences of operations on every helper, with every integer and float format, sizes at and around the end of the data',
 'Tests call each helper once.',
 [TL,EG],[('buffers and structures',f'{TL}: IOBuffer, NamedStruct; {EG}: GempakStream'),('ordered set',f'{TL}: OrderedSet')],['results, errors and positions of the helpers'])
p('C29','Readers and builders in different threads do not disturb each other',
 'Jobs that each open and query their own reader, or build and write their own file, give the same results and the same bytes when they run at the same time in several threads, whatever the interleaving, as when each runs alone; files and input objects may be shared between them.',
 ['schedules'],'2-5 jobs of the same or of different kinds, preempted at arbitrary lines of the package',
 'Tests are single-threaded.',
 [EG,DG,EV,DV,TL],[('per-object state',f'{DG}: GempakFile._buffer; {TL}: IOBuffer._offset; {EG}: builders; {EV}: VGFile')],['results of concurrent public calls'],
 [('module and class level state','must not be written by readers or builders',f'{DG}, {DV}, {EG}, {EV}, {TL} module level')])
p('C30','What a reader returns can be written back and reads the same',
 'Everything a reader returns about a file - coordinates, projection, inventory entries, times, levels, grids, soundings (merged ones included), surface reports and vector graphics elements - is accepted as it is by the corresponding builder, and the file written from it reads the same: the same inventory, the same coordinates (to single precision), the same missing cells and the same values (exactly, or within the packing resolution for grids).',
 ['inputs','configurations'],'files of every layout, byte order, packing and projection, converted through any of the accepted spellings',
 'Tests exercise readers on fixtures and builders on synthetic data, never one on the output of the other.',
 [EG,DG,EV,DV],[('reader results',f'{DG}: gdxarray, snxarray, sfjson, lat/lon/x/y/crs; {DV}: elements'),('builder inputs',f'{EG}: GridFile, SoundingFile, SurfaceFile; {EV}: VGFile and elements')],['reader results before and after conversion'])
p('C31','Inputs that mean the same make the same file',
 'A file depends only on the meaning of what the builders are given: arrays of any memory layout, byte order or writability, lists and tuples where sequences are accepted, either spelling of missing values, letter case and order of names and keys, integer or real number types, the documented spellings of a time, omitted or explicit defaults, and positional or keyword arguments all make byte-identical files.',
 ['inputs'],'random content of every builder, every argument respelled at random',
 'Tests use one spelling of each argument.',
 [EG,EV],[('argument normalization',f'{EG}: add_grid, add_sounding, add_station, constructors; {EV}: element constructors')],['bytes of written files'])
p('C32','What cannot be decoded is refused or announced, never dropped silently',
 'Content the package cannot decode never disappears or turns into data unnoticed: selecting a grid in an unsupported packing (NMC, GRIB2 or an unknown code), or a sounding or surface report with a part of an unsupported data type, raises an error; a grid file in an unsupported projection is refused at opening; a grid with no data, every VGF record whose type or version is unsupported, an unknown data source (shown as unknown) and a projection rotation that is ignored are each announced by a warning (logged or issued). All other entries and elements of such files read as if the undecodable ones were not there, without warnings, and reading a file with nothing undecodable logs and issues no warning.',
 ['inputs','configurations'],'every unsupported packing, part data type, projection, VGF type and version and unknown data source, on any of the entries of files of every kind, selected alone and with others',
 'Tests read files that can be decoded, and a few that are refused at opening.',
 [DG,DV],[('refusals',f'{DG}: _unpack_grid, _unpack_merged/_unmerged/_standard/_ship/_climate, _get_crs, _data_source, gdxarray'),('skipped records',f'{DV}: _decode_elements, _decode_sigmet, _decode_watches')],['errors, log records and warnings of reader calls'])
p('C33','Results depend on the input alone, not on the process that computes them',
 'Reading and querying a file gives the same answers in the same order, and writing the same content gives the same bytes, in every process: whatever the string hash seed, the time zone, the locale, the clock, the environment variables, the working directory, the optimization and development modes of the interpreter, process-wide settings (number printing, decimal context, random seeds, garbage collection, error handling of numpy, warnings), the thread, the name and place of the file, and whatever was read or written before.',
 ['configurations','histories'],'reads with queries and writes of every kind of file, repeated in processes with any combination of surroundings and in any order',
 'Tests run in one process with one environment and compare sets or single answers.',
 [EG,DG,EV,DV,TL],[('inventories kept as sets',f'{DG}: _gdinfo, _sninfo, _sfinfo, nearest_time'),('dates',f'{DG}: _make_date, _convert_dattim; {EG}: add_grid, add_station, add_sounding'),('text encodings',f'{DG}: _decode_strip; {EV}: encode')],['query results and written bytes in separate processes'])
out=pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
out.write_text(''.join(json.dumps(x)+'\n' for x in P))
