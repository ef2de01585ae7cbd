"""Single source of the property texts: writes properties.jsonl and MANIFEST.json for the properties that have a module in props/."""
import io, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, state=state))


F = 'weio/'
prop('C01', 'OpenFAST input files: entries read as written; write/read preserves everything',
     'Reading an OpenFAST input file yields every label, value, description, table, file list and output list that the file contains, in order and with the type the text denotes. '
     'Writing the object and reading the result gives the same content, and an unmodified file is written with the same sequence of lines, labels and sections. '
     'Reading never modifies the file, and what the object is asked for between reading and writing has no influence on what is written.',
     ['inputs'], 'every document of the OpenFAST label/value layout, with any mix of value kinds, tables, lists, spacing, capitalisation and quoting',
     'The tests read and rewrite a dozen fixed example decks and compare the text loosely; they sample neither the value notations, nor table sizes, nor combinations of sections.',
     [F + 'fast_input_file.py'], [('line-by-line parser with label/value detection', 'FASTInputFileBase._read, parseFASTInputLine, parseFASTNumTable'), ('text writer', 'FASTInputFileBase.toString')],
     ['object entries', 'file written', 'toDataFrame'],
     'property-based testing: structured document generator, reference model of the document, read/write round trip',
     'documents of up to ~25 entries and 3 tables; table layouts known to the generator')
prop('C02', 'OpenFAST input files: an edit changes what was edited and nothing else',
     'Over any history of setting entries (under any capitalisation), changing table cells, converting to tables, writing and reloading, the object behaves as an ordered mapping: the last value set is the one returned, written and read back, and every other entry keeps its value, position and description. '
     'Asking for or setting a name that the file does not have raises an error and changes nothing. A file built from scratch by adding entries is written with those entries and reads back equal.',
     ['histories', 'inputs'], 'every sequence of edits, queries, writes and reloads on every document',
     'Tests set one or two values once and write; histories, capitalisation and untouched entries are not explored.',
     [F + 'fast_input_file.py'], [('case-insensitive label lookup', 'FASTInputFileBase.getID / __getitem__ / __setitem__'), ('writer', 'FASTInputFileBase.toString')],
     ['object entries', 'file written'], 'stateful property-based testing against an ordered-dictionary model', 'histories of up to 10 operations')
prop('C03', 'OpenFAST blade, airfoil, BeamDyn, SubDyn and platform files keep their tables',
     'Blade, tower, airfoil (one or several Reynolds tables), BeamDyn, SubDyn and reduced-order platform input files are read with every table, matrix and scalar they hold, and write/read gives the same content. '
     'When a table is replaced by one of another size, the file written declares the new number of rows everywhere and reads back consistently. '
     'Derived columns (mode shapes, their normalisation, normal and chordwise coefficients, member properties) are those defined by the stored coefficients.',
     ['inputs', 'histories'], 'every number of stations, tables, modes and every finite content; every replacement of a table',
     'The tests read one example of each file; sizes are never changed and derived columns are not compared with their definition.',
     [F + 'fast_input_file.py'], [('per-module file classes', 'EDBladeFile, EDTowerFile, ADBladeFile, ADPolarFile, ExtPtfmFile, BDFile'), ('conversion to tables', 'FASTInputFileBase._toDataFrame')],
     ['object entries', 'file written', 'toDataFrame'], 'property-based testing: generated files per layout, independent model of tables and derived columns, round trip',
     'up to 30 stations, 5 airfoil tables, 12 modes')
prop('C04', 'FAST binary and text output files are decoded to exactly what they store',
     'Every FAST output file (binary layouts 1 to 4, or text with any header and spacing) is read as the table of channels it stores: names, units, time and every value, decoded as the layout prescribes. '
     'Buffered and unbuffered reading agree, whatever the number of rows and channels.',
     ['inputs', 'configurations'], 'every file of the binary layouts 1-4 and text layout: any numbers of channels and rows, scalings, time encodings, name lengths, descriptions',
     'The tests decode a few example files of two layouts; block boundaries, other layouts, single rows and odd sizes are not reached.',
     [F + 'fast_output_file.py'], [('binary decoder', 'load_binary_output, fread, freadRowOrderTableBuffered'), ('text decoder', 'load_ascii_output')], ['toDataFrame', 'data', 'info'],
     'property-based testing: independent encoder of each layout, decode and compare', 'up to two reader blocks (327 680 values)')
prop('C05', 'Time series written as FAST output read back within the precision of the layout',
     'A table of time series written as FAST binary or text output reads back with the same channel names, units, number of rows, time and, within one quantisation step of the layout, the same values. '
     'Writing does not modify the data in memory, and rewriting a file that was read preserves its channels.',
     ['inputs'], 'every table of finite time series on a uniform time axis: any number of channels, names and units of any length, constant or extreme ranges',
     'One test writes one table; ranges, constant channels, long names and missing units are not sampled.',
     [F + 'fast_output_file.py'], [('binary encoder', 'writeBinary'), ('entry points', 'writeDataFrame, FASTOutputFile._write')], ['file written', 'toDataFrame'],
     'property-based testing: write/read round trip and independent decoder', 'uniform time step')
prop('C06', 'TurbSim boxes: decoded exactly, and written within one quantisation step',
     'A TurbSim full-field file is read with its grid, time, reference values, tower points and the velocity of every component at every time and point, as the layout prescribes. '
     'Writing a box and reading it back keeps the grid and reproduces every velocity within one quantisation step of its component, whatever its mean and range.',
     ['inputs'], 'every box size, spacing, scaling, periodic or not, with or without tower points, uniform components included',
     'One test reads one small box and rewrites it.', [F + 'turbsim_file.py'], [('reader and writer', 'TurbSimFile._read, TurbSimFile._write')], ['object entries', 'file written'],
     'property-based testing: independent encoder and decoder, write/read round trip', 'boxes up to 7x7x256')
prop('C07', 'Mann boxes: exact write/read; TurbSim-Mann conversions keep each value in place',
     'A Mann box file is read so that every velocity is at the position and time index the layout gives it, with the coordinates implied by the spacings and origin, and is written back bit for bit. '
     'Converting between TurbSim and Mann boxes keeps every value at its position, time and component.',
     ['inputs'], 'every box dimension, spacing, origin and content', 'No test checks the content of a Mann box or of a conversion.',
     [F + 'mannbox_file.py', F + 'turbsim_file.py'], [('reader and writer', 'MannBoxFile.read, MannBoxFile.write'), ('conversions', 'TurbSimFile.fromMannBox, TurbSimFile.toMannBox, MannBoxFile.fromTurbSim')],
     ['object entries', 'files written'], 'property-based testing: independent encoder, exact round trip, differential across the two formats', 'boxes up to 12x7x7')
prop('C08', 'Querying a turbulence box never changes it; extraction and scaling as defined',
     'Extracting points, planes, profiles, spectra, correlations and tables from a turbulence box returns the values defined by the stored field and leaves the box, and a file written from it afterwards, unchanged. '
     'Scaling, mirroring and similar modifications change the field exactly as defined, over any sequence of operations.',
     ['histories', 'inputs'], 'every sequence of queries and modifications on every box', 'Tests call a few queries once and compare single numbers.',
     [F + 'turbsim_file.py', F + 'mannbox_file.py'], [('queries', 'TurbSimFile.valuesAt, horizontalPlane, verticalPlane, vertProfile, midValues, crosscorr_*, csd_*, coherence_longi; MannBoxFile.valuesAt, vertProfile, ...'), ('modifications', 'TurbSimFile.scale, makePeriodic, _longiline')],
     ['returned arrays', 'object entries', 'file written'], 'stateful property-based testing against a numpy model of the field', 'boxes with at least 2 points per direction; up to 8 operations')
prop('C09', 'CSV reading finds separator, comments, names and units as the file lays them out',
     'A delimited text table is read with every row, value and text cell it contains, whatever its separator (comma, semicolon, tab, blanks), comment lines, line ends and encoding. '
     'Column names are those of the file (own line, line of units below, comment line) or given by the user, and generic names only when there are none.',
     ['inputs', 'configurations'], 'every unambiguous layout of a delimited table, and every reading option', 'The tests read ten small example files.',
     [F + 'csv_file.py', F + 'file.py'], [('detection of comments, separator, names and units', 'CSVFile._read'), ('encoding detection', 'File.encoding')], ['toDataFrame', 'header'],
     'property-based testing: generated layouts of a known table', 'tables up to 20x6')
prop('C10', 'Tables written to CSV, Parquet or Excel files are read back unchanged',
     'A table written to a CSV (any separator, with or without header lines), Parquet or multi-sheet Excel file is read back with the same column names, rows, text, numbers and missing values. '
     'Reading and rewriting an existing file preserves its table and header lines.',
     ['inputs'], 'every table of numbers, missing values and text; every separator, header and set of sheets', 'One test round-trips one Parquet table; CSV and Excel writing are untested.',
     [F + 'csv_file.py', F + 'parquet_file.py', F + 'excel_file.py'], [('writers', 'CSVFile._write, ParquetFile._write, ExcelFile._write')], ['files written', 'toDataFrame'],
     'property-based testing: write/read round trip', 'tables up to 30x6, 3 sheets')

prop('C11', 'HAWC2 ae, pc and st files: all sets kept, and interpolation as tabulated',
     'HAWC2 blade layout, profile coefficient and structural files (isotropic or fully populated stiffness) are read with every set, sub-set, station and value, whatever follows the values on their line. '
     'Objects filled set by set or edited are written to files that read back with the same sets. Chord, thickness, coefficient and stiffness accessors return the tabulated values at the stations and interpolate in between; the element stiffness and shape functions computed from a set are those of a Timoshenko beam with the tabulated properties.',
     ['inputs'], 'every number and numbering of sets, rows and content; every edited or new object', 'The tests read one example of each and compare a single number.',
     [F + 'hawc2_ae_file.py', F + 'hawc2_pc_file.py', F + 'hawc2_st_file.py', F + 'wetb/hawc2/ae_file.py', F + 'wetb/hawc2/pc_file.py', F + 'wetb/hawc2/st_file.py'],
     [('parsers and writers', 'AEFile, PCFile, StFile')], ['data sets', 'toDataFrame', 'files written'],
     'property-based testing: generated sets, reference model, round trip, interpolation oracle', 'up to 4 sets, 20 rows')

prop('C12', 'HAWC2 htc files keep their structure; an edit changes only what it names',
     'An htc file is read with its nested sections, commands, values, sensors and remarks in order, repeated commands each under their own key, included files in place of the include command, and nothing after exit. '
     'Saving and reading again gives the same content (main bodies first, as HAWC2 requires). Over any history of setting, adding, deleting, copying and saving, only the named entries change, and comparison with another file reports exactly when they differ. '
     'Body geometry and structural tables are those of the sections and of the set referenced.',
     ['inputs', 'histories'], 'every tree of sections and commands, every layout of its text, every history of edits', 'The repository has no htc example and no test of it.',
     [F + 'wetb/hawc2/htc_contents.py', F + 'wetb/hawc2/htc_file.py', F + 'hawc2_htc_file.py'], [('tree of sections and lines', 'HTCSection, HTCLine, HTCOutputSection, HTCFile'), ('body tables', 'HAWC2HTCFile.bodyC2, setBodyC2, toDataFrame')],
     ['object contents', 'file saved', 'toDataFrame'], 'property-based testing: generated trees and layouts, stateful edits against an ordered-tree model, round trip', 'trees up to depth 4, histories up to 10 operations')

prop('C13', 'HAWC2 and BHawC results: every channel decoded; channel requests are consistent',
     'A HAWC2 (text or binary) or BHawC result, opened through its sel or dat file, gives the channels stored, with names, units, descriptions and simplified column names that do not depend on how often the table is asked for. '
     'Channels requested one after the other, in any order and repetition, are those of the file. Writing and reading back keeps names, units, descriptions and, within the written digits, every value.',
     ['inputs', 'histories'], 'every number of channels and scans, every layout, every sequence of channel requests', 'The tests read three small results and compare single values.',
     [F + 'hawc2_dat_file.py', F + 'wetb/hawc2/Hawc2io.py'], [('decoder', 'ReadHawc2'), ('table and writer', 'HAWC2DatFile._toDataFrame, _write')], ['data', 'info', 'toDataFrame', 'files written'],
     'property-based testing: independent encoder, model of channel names, stateful channel requests, round trip', 'up to 40 channels, 300 scans')
prop('C14', 'Bladed results: every section and channel decoded; inconsistent data refused',
     'A Bladed result (2 or 3 dimensions, text or binary, single, double or integer data) gives one column per channel and section with the value stored for it, the unit it denotes and the time axis of the header; a project gives the tables of all its files of equal length side by side. '
     'Data that do not match their header are refused, never returned as a table.',
     ['inputs'], 'every number of channels, sections and rows, every encoding, layout of the header, file name and folder', 'The tests compare single values of a few example files.',
     [F + 'bladed_out_file.py'], [('header parser', 'read_bladed_sensor_file'), ('data decoder', 'read_bladed_output, OrgData'), ('project', 'BladedFile._read')], ['dataSets', 'toDataFrame', 'errors'],
     'property-based testing: independent encoder, decode and compare; fault injection on sizes', 'up to 9 channels, 4 sections, 4 files')

prop('C15', 'FLEX result, blade, profile, wave and documentation files are read as laid out',
     'FLEX results of versions 0, 2 and 3 give every sensor at every time, with one time stamp per row and the names of the sensor file. Blade files of versions 0 to 3, profile files, wave kinematics and documentation files give every station, coefficient, matrix, number and text they contain. '
     'Profile files are written so that they read back equal. Files whose numbers of sensors, rows or values disagree are refused.',
     ['inputs'], 'every size, version, time step and content', 'The tests compare one or two numbers per example file.',
     [F + 'flex_out_file.py', F + 'flex_blade_file.py', F + 'flex_profile_file.py', F + 'flex_wavekin_file.py', F + 'flex_doc_file.py'], [('decoders', 'read_flex_res, read_flex_sensor, FLEX*File._read'), ('profile writer', 'ProfileSet.toString')],
     ['toDataFrame', 'object attributes', 'file written', 'errors'], 'property-based testing: independent encoders, round trip of profiles, fault injection on sizes', 'up to 30 sensors, 4000 rows, 25 stations')

prop('C16', 'VTK legacy files: grids, cells and data are decoded and written unchanged',
     'A legacy VTK file of structured points, a rectilinear, structured or unstructured grid, in text or binary form, gives its points, grid axes, cells by type with their connectivity, and every scalar, vector, tensor and field on points and cells, with the type of number stored. '
     'Writing a file that was read, or a new object, in text or binary form and reading it again gives the same points, cells and data, and does not change the object. A file cut within its points or cells is refused.',
     ['inputs'], 'every grid size, cell type, number type, number of components and order of the data sections', 'The tests read a few examples and compare a few values.',
     [F + 'vtk_file.py'], [('reader', 'VTKFile._read, _read_section, translate_cells'), ('writer', 'VTKFile._write')], ['points, cells, point_data, cell_data', 'file written', 'errors'],
     'property-based testing: independent encoder of the legacy layout, decode and compare, write/read round trip', 'up to 125 points, 12 cells, 5 arrays')

prop('C17', 'Tecplot and ROSCO performance tables: read as laid out, written unchanged',
     'A Tecplot ASCII file gives its title, variables, zone and auxiliary data, and every row of its data, wherever lines are broken, commented or blank. A ROSCO performance file gives its pitch, tip-speed-ratio and wind-speed axes and its three tables, with one column per pitch angle. '
     'Objects read, or made from scratch, are written so that they read back with the same content, again and again, all digits of Tecplot data being kept unless a precision is asked for. Rows or tables with a wrong number of values are refused.',
     ['inputs'], 'every number of variables, rows, pitch angles and tip-speed ratios, every content and layout', 'The tests read three small examples, compare single values, and never write a ROSCO file.',
     [F + 'tecplot_file.py', F + 'rosco_performance_file.py'], [('Tecplot parser and writer', 'read_tecplot, _process_merged_line, TecplotFile.write'), ('ROSCO parser and writer', 'load_from_txt, write_rotor_performance')],
     ['object entries', 'toDataFrame', 'file written', 'errors'], 'property-based testing: generated layouts, reference model, write/read round trip, fault injection', 'up to 30 variables, 60 rows, 20x15 tables')
prop('C18', 'HAWCStab2, BModes, CACTUS, TDMS, NetCDF and RAAW results are read as stored',
     'HAWCStab2 power, induction, deflection, force and Campbell files, BModes results, CACTUS results, and TDMS, NetCDF and RAAW data give every value they store, under the names and units of the file and with the time, wind speed or mode it belongs to. '
     'CACTUS coefficients are converted to the forces, moments and powers they denote, at every blade and element, however often the table is asked for. Files with missing columns or of another kind are refused.',
     ['inputs'], 'every number of rows, modes, blades, elements and channels and every content', 'The tests read one example of some of these files and compare single values; TDMS, NetCDF, CACTUS and RAAW readers have no test.',
     [F + 'hawcstab2_pwr_file.py', F + 'hawcstab2_ind_file.py', F + 'hawcstab2_cmb_file.py', F + 'bmodes_out_file.py', F + 'cactus_file.py', F + 'tdms_file.py', F + 'netcdf_file.py', F + 'raawmat_file.py'],
     [('decoders', '_read and toDataFrame of each class'), ('CACTUS conversion', 'CactusFile.timeDataToOpenFAST, elemDataToOpenFAST')], ['toDataFrame', 'object attributes', 'errors'],
     'property-based testing: independent encoders, decode and compare, fault injection', 'up to 40 rows, 12 modes, 4 blades')

prop('C19', 'OpenFAST linearization files: matrices, operating points and names',
     'A linearization file gives, for any number of states, inputs and outputs, the operating conditions of its header, every matrix (A, B, C, D, jacobians, mass matrix) and operating point of the file at its row and column, '
     'and descriptions and short names that are in the order of the file, keep units, and are distinct when the described quantities are. Tables show these values under these names; sections of size zero are left out. '
     'A truncated or foreign file is refused, and no call to write destroys the file.',
     ['inputs'], 'every number and selection of states, inputs, outputs and optional matrices, orientations included', 'The tests read one file and compare a few numbers.',
     [F + 'fast_linearization_file.py'], [('readers', 'FASTLinearizationFile._read, _slowRead'), ('short names', 'short_descr, xdescr, ydescr, udescr'), ('tables', 'toDataFrame, xop_mean')], ['object keys', 'toDataFrame', 'errors'],
     'property-based testing: independent encoder, decode and compare, fault injection', 'up to 8 states, 12 inputs and outputs')

prop('C20', 'SubDyn summary files: tables, modes and JSON of the structure described',
     'A SubDyn summary file gives every scalar and matrix of the file, with degrees of freedom counted from zero, and Guyan and Craig-Bampton modes that attribute each motion to the joint and direction the file maps it to: '
     'retained ones from the identity, internal ones from the mode matrices, fixed ones at rest, scaled to the requested amplitude and in the requested order. The table and the JSON show these modes at the positions and in the order of their joints. '
     'Asking for them changes neither the object nor other objects, and files of other modules, truncated or irregular ones are refused.',
     ['inputs', 'histories'], 'every structure, partition of the degrees of freedom and set of modes; repeated calls, several objects', 'The tests read one pendulum of two members and compare a few numbers.',
     [F + 'fast_summary_file.py', F + 'mini_yaml.py'], [('yaml reader', 'mini_yaml.yaml_read'), ('modes', 'getModes, NodesDisp'), ('outputs', 'subDynToDataFrame, subDynToJson')], ['object keys', 'getModes', 'toDataFrame', 'toJSON', 'errors'],
     'property-based testing: independent encoder and mode expansion, repeated-call relations', 'up to 7 joints, 9 members, 5 modes')

prop('C25', 'Structural graphs keep topology, positions, properties and modes',
     'A graph, under any history of additions, divisions, sorts and queries, answers every query (positions, connectivity, elements of a node, lengths, extent, lines, nodal table, JSON) for its current nodes and elements. '
     'Dividing splits each selected element into a chain of equal parts between its ends, with unique numbers, the same properties and interpolated data, and leaves the others; sorting only reorders. '
     'The graph of a SubDyn or HydroDyn input or SubDyn summary has the joints, members, properties, boundary conditions, masses and modes of the file; operations that would break the modes are refused.',
     ['inputs', 'histories'], 'every structure and history of operations', 'The tests count nodes and elements of three example files and never divide, sort or export.',
     ['weio/tools/graph.py', F + 'fast_input_file_graph.py'], [('graph', 'GraphModel'), ('converters', 'subdynToGraph, hydrodynToGraph, subdynSumToGraph')], ['GraphModel methods', 'toJSON', 'nodalDataFrame'],
     'stateful property-based testing against a reference model of the graph; structural oracles for converters', 'up to 20 operations, about 200 elements')

prop('C22', 'Reading is a function of the file; converting and exporting change nothing',
     'What weio gives for a file (class, content, table, written copy, or refusal) depends on the content and name of the file only: not on the files read, edited, exported or refused before in the same process, nor on what was done to other objects. '
     'An object that reads another file of its format equals a new object of that file, also after a failed read. Calling toDataFrame, repeatedly, or writing to another path leaves the object, its table and all files read as they were.',
     ['histories', 'inputs'], 'every history of reads, re-reads, failed reads, conversions, exports and misuse of earlier objects, over files of all formats',
     'The tests read each file once with a new object, in a fixed order; state carried over between reads, or by conversions, is not looked at.',
     [F + '__init__.py', F + 'file.py', F + 'file_formats.py', F + 'fast_input_file.py', F + 'csv_file.py', F + 'vtk_file.py'], [('reading', 'File.read, _read of every class'), ('conversions', 'toDataFrame'), ('writers', 'write')],
     ['object content', 'toDataFrame', 'bytes of files written', 'source files'],
     'stateful differential testing: histories in one process against the result of a new process, over generated and example files', 'histories of up to 16 operations over up to 6 files; formats with dated files are compared by content')

prop('C21', 'weio.read finds the right reader, by extension, content and priority',
     'weio.read gives a file to the formats that declare its extension (in any case, pattern extensions included), in order of priority, and returns the object of the first that accepts the content, identical to what that class reads directly; formats that refuse are passed over. '
     'Formats added by the user take part at the priority they state, whatever their module imports, and faulty user modules are reported. '
     'Missing, empty and unknown files raise the documented errors, options reach the reader, and the answer does not depend on folder, file name, or relative or absolute path.',
     ['inputs', 'configurations'], 'every file of the supported formats under every name, and every set of user formats',
     'The tests call weio.read on the example files under their own names, without user formats; folders, extension case, competing formats and refusals are not explored.',
     [F + '__init__.py', F + 'file_formats.py', F + 'file.py'], [('list of formats', 'fileFormats, userFileClasses'), ('detection', 'detectFormat, isRightFormat, read')], ['class and content of the object', 'errors', 'list of formats'],
     'property-based testing: renamed example and generated files, generated user formats against a reference model of the selection', 'up to 4 user formats and 5 files per case')

prop('C23', 'Damaged files are refused, reading always ends and leaves the file as it is',
     'A file of a format that states its size (counts, dimensions, archive or footer), from which a part is missing (or, for Mann boxes, to which bytes were added), is refused with an exception by the class of the format, by weio.read and by an object that had read the undamaged file: no value is made up and no shortened content is returned as if complete. '
     'Reading any damaged variant of a file of a supported format ends, with content or an ordinary exception, within ordinary time and memory, does not end or crash the process, and never changes the file.',
     ['inputs', 'fault_sequences'], 'every truncation or removal contradicting the stated size, and every local damage of bytes, lines and numbers, for files of all formats',
     'The tests only read complete files; simulation outputs cut short by a crash or a full disk are ordinary in practice.',
     ['weio/fast_output_file.py', 'weio/turbsim_file.py', 'weio/mannbox_file.py', 'weio/hawc2_dat_file.py', 'weio/bladed_out_file.py', 'weio/hawc2_ae_file.py', 'weio/vtk_file.py', 'weio/fast_input_file.py'],
     [('readers', '_read of the classes of sized formats'), ('size checks', 'load_binary_output, TurbSimFile.read, MannBoxFile.read, ReadHawc2.ReadBinary, read_bladed_output, VTKFile.read')], ['weio.read', 'constructors', 'File.read'],
     'fault injection over generated files (truncation and structured damage) with refusal as oracle; mutation fuzzing of readers in limited child processes', 'files up to a few hundred kB; 60 s and 8 GB limits')

prop('C26', 'An input deck has the files it refers to, and a written deck reads back',
     'FASTInputDeck reads exactly the module files in use according to the switches of the main file and to the list of modules requested: each entry has the content of the file referred to (path relative to the referring file, or absolute, quoted or not, from any folder), in the order of the lists, and None for modules off, "unused", missing or not requested. '
     'This holds whatever the object had read before. A deck written to any folder, with any prefix, suffix and directory, by an object that may have been edited, reads back with the same module contents, touches no other file, and can be written again.',
     ['inputs', 'histories', 'configurations'], 'every folder layout, combination of switches, list of modules, and history of reads, edits and writes', 'The test reads one AeroDyn driver deck of one folder and never writes a deck.',
     ['weio/fast_input_deck.py', 'weio/fast_input_file.py'], [('deck', 'FASTInputDeck.read, readAD, write'), ('paths', '_fullpath, ED_path and similar')], ['fst_vt', 'inputfiles', 'ED_path', 'write'],
     'model-based property testing on generated trees of files, histories of reads and writes', 'up to 3 decks of about 18 files; AeroDyn sub files only followed when they do not move')

prop('C27', 'Text wind files keep values, names and comments',
     'A deterministic wind file (.wnd) and a TurbSim user time series have, once read by the class or weio.read, the values of the file under the names of the format in the order of its columns, with any number of comment lines, spacing and title; written, edited or not, they read back the same, comments stay comments and the sizes stated are those of the data. '
     'A step wind has the requested speeds over the requested times, with ramps of the requested length, within the given speed limits, in a new object or one that was read.',
     ['inputs', 'histories'], 'every series, layout of the file, and parameters of step winds', 'The tests read one file of each format, write it and compare the text; no names, no file without comments, no step wind, one point only.',
     ['weio/fast_wind_file.py', 'weio/turbsim_ts_file.py', 'weio/csv_file.py', 'weio/file.py', 'weio/__init__.py'], [('wind', 'FASTWndFile.read, write, stepWind'), ('series', 'TurbSimTSFile.read, toString, columns')],
     ['toDataFrame', 'write', 'stepWind', 'weio.read'], 'round-trip and reference-model property testing of generated files; step winds against an independent model', '12 rows, 4 points, 12 steps')

prop('C28', 'Copies, pickles and printing of file objects',
     'An object of any reader can be copied (copy.deepcopy), pickled and sent to another process: the copy has the class, content, table, accessors and written files of the original. '
     'Original and copies are independent: whatever is done to one of them, the others keep the content of the file. Printing an object that was read works, and changes nothing.',
     ['inputs', 'histories'], 'every file of every format, and every history of copies, edits, reads, conversions and exports', 'No test copies, pickles or prints an object.',
     ['weio/file.py', 'weio/fast_input_file.py', 'weio/turbsim_file.py', 'weio/wetb/hawc2/st_file.py', 'weio/wetb/hawc2/htc_contents.py', 'weio/hawc2_htc_file.py', 'weio/hawc2_st_file.py'], [('state of objects', 'attributes set by _read of each class; HTCContents.__getattr__; StFile accessors'), ('printing', '__repr__ of each class')],
     ['copy.deepcopy', 'pickle', 'repr', 'toDataFrame', 'write'], 'stateful property testing: histories of copies of generated and example files against a freshly read object in a pristine process', '10 operations, 2 files')

prop('C29', 'HAWC2 models: lists of files, names, times, turbulence and water settings',
     'For an htc model the lists of input files, output files, result files and turbulence files are exactly those its sections refer to, with the names of the files that exist in the model folder, which is found from them whatever the case of the names, and included files are read. '
     'Setting the name, the times, Mann turbulence, turbulence export or water properties changes the entries concerned, to the values given, and no other; the lists follow, also after saving and reading.',
     ['inputs', 'histories'], 'every set of references, existing or not, in every section, and every setting', 'The repository has no htc example and no test of it.',
     ['weio/wetb/hawc2/htc_file.py', 'weio/wetb/hawc2/htc_extensions.py', 'weio/wetb/hawc2/htc_contents.py'], [('lists', 'HTCFile.input_files, output_files, turbulence_files, res_file_lst, auto_detect_modelpath'), ('settings', 'HTCFile.set_name, set_time; HTCDefaults.add_mann_turbulence, add_turb_export, add_hydro')],
     ['lists of files', 'content of the object', 'file saved'], 'property-based testing: generated model folders and htc files, reference model of the lists and entries', '8 inputs, 6 outputs, 3 result files')

prop('C30', 'Files read, tabulated and written in several threads at once: each as if alone',
     'Threads that read files (of the same or of different formats, the same file included), convert them to tables and write them at the same time each get the content, the table, the written bytes or the refusal that the same calls give alone, wherever control passes from one thread to another. '
     'The list of formats is complete for every thread, also when several ask for it first, and an object that several threads convert to a table stays as it was.',
     ['schedules'], 'every interleaving of the lines of the readers and writers, for every pair of files', 'The tests read one file after the other in one thread.',
     ['weio/__init__.py', 'weio/file.py', 'weio/fast_input_file.py', 'weio/csv_file.py', 'weio/hawc2_dat_file.py', 'weio/wetb/hawc2/htc_contents.py', 'weio/vtk_file.py'], [('entry points', 'weio.read, weio.fileFormats, File.read, File.write, File.toDataFrame')],
     ['content of the objects', 'tables', 'files written', 'files read'], 'property-based testing of schedules: generated jobs and generated points where control passes (deterministic scheduler over traced lines), differential oracle against each job alone in a pristine process', '3 threads, 5 operations each, 4 schedules per case: a plan of 25 switches, then three fixed lags and strides')

# MORE


def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py'))]
    with io.open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in have:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                                                 mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
    m = dict(version=1, setup_cmd='/opt/venv/bin/python vlib/deps.py',
             checks=[dict(property=p['id'], quick_cmd='/opt/venv/bin/python run.py %s --tier quick' % p['id'], thorough_cmd='/opt/venv/bin/python run.py %s --tier thorough' % p['id'],
                          technique=p['technique'], level='exploration', level_note=p['note']) for p in have],
             not_applicable=[])
    with io.open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        f.write(json.dumps(m, indent=1) + '\n')


main()
