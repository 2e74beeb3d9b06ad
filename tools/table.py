U = "src/utils_string.cpp"
prop("S01", "Integers and text convert exactly in both directions",
     "Formatting any signed or unsigned integer of up to 64 bits, to narrow or wide text, gives its canonical decimal form. "
     "The integer recognisers accept exactly the canonical decimal texts (optional minus sign, no leading zeros, no surrounding characters) "
     "whose value fits the result type, and deliver exactly that value; every other text, including the empty one, is rejected.",
     "every integer of every supported width, and every narrow or wide text",
     "TestutilsString samples a dozen values; boundary values, overflow by one, junk characters and the wide variants are unbounded.",
     ["src/utils_string.h", U],
     [("digit generation in a fixed buffer", "src/utils_string.h itoa/utoa/itow/utow"), ("strtoll and comparison with the canonical form", "src/utils_string.cpp IsInt")],
     "property-based testing against a 128-bit decimal reference, ASan/UBSan",
     "Numeric strings are generated around powers of ten and two, type limits +-1, and mutated by inserting, deleting and replacing characters.",
     observe=["returned strings", "returned value and success flag"])
prop("S02", "Floating point numbers and text convert faithfully",
     "The text of a finite float or double is plain decimal notation with at most six decimals, no redundant trailing zeros or trailing dot, and it denotes the value to within half a unit of the sixth decimal. "
     "The number recognisers accept exactly the texts that are one complete decimal literal (optional sign, fraction and exponent) and return the correctly rounded value; "
     "empty texts, and texts with anything after the literal, are rejected.",
     "every finite float/double and every text without leading blanks or hexadecimal prefix",
     "The tests try a handful of literals; rounding carries, huge magnitudes, partial literals and overflow need generated ones.",
     ["src/utils_string.h", U],
     [("fixed formatting then trimming of zeros", "src/utils_string.h ftoa/ftow"), ("strtof/strtod with end pointer", "src/utils_string.cpp IsNumber/IsDouble")],
     "property-based testing against a literal grammar and strtod/%f reference",
     "Trusts glibc's strtod as correctly rounding.", observe=["returned strings", "returned value and success flag"])
prop("S03", "Splitting, trimming, matching and option maps treat text exactly",
     "Trimming removes exactly the blanks, tabs and line ends at both ends of a text, case conversion and case-insensitive matching affect exactly ASCII letters, and splitting yields exactly the pieces between delimiters in order (one empty piece after a final delimiter is dropped; without a delimiter, the blank-separated words). "
     "Splitting for values returns the numbers of the pieces in order. "
     "Option maps return what was last stored under a key, copying one option map into another takes over all of its entries and keeps the other ones of the destination, and updating changes only the given key.",
     "every text, delimiter and sequence of map operations",
     "Tests cover a few literals; repeated, leading and trailing delimiters, unusual characters and empty texts are not enumerated.",
     ["src/utils_string.h", U],
     [("character loops and find_first_of", "src/utils_string.cpp SplitString/Trim/StringMatch/CopyStringMap/UpdateStringMap")],
     "property-based testing against independent text models",
     "Words are split at the white space of the C locale.", observe=["returned strings and vectors", "map contents"])
prop("S04", "Wide and narrow text conversion round-trips and is memory safe",
     "Converting text between narrow multi-byte and wide form and back returns the text unchanged whenever the current locale can represent it. "
     "Text which the locale cannot represent converts to an empty text, and no conversion of any text reads or writes outside its buffers.",
     "every narrow or wide text, in the C and UTF-8 locales",
     "No test covers these conversions; buffer sizing depends on the mix of one- to four-byte characters.",
     ["src/utils_string.h", U], [("mbstowcs/wcstombs into a sized buffer", "src/utils_string.cpp atow/wtoa")],
     "property-based testing: round trip and an independent UTF-8 codec, ASan",
     "Locale C.UTF-8 and C as present in the sandbox.", observe=["returned strings", "AddressSanitizer reports"])
prop("B01", "Exactly the dotted-quad IPv4 addresses are recognised",
     "A text is recognised as an IP address exactly when it consists of four groups of one to three decimal digits separated by single dots, each group at most 255, with nothing before or after. "
     "Any other text, of any length, is rejected without harm.",
     "every text", "The one test has three literals.", ["src/basic.cpp"],
     [("pattern scan and range checks", "src/basic.cpp IsIpAddress")], "property-based testing against a dotted-quad grammar",
     "Texts with blanks inside are part of the rejected set only where the grammar above rejects them.", observe=["returned flag"])
prop("B02", "Thread numbers are set as asked and sleeps last as asked",
     "After a positive number of threads is set, parallel regions run with exactly that many; a negative number changes nothing; the default is half of the processors available, but at least one. Sleeping lasts at least the milliseconds given.",
     "every number of threads set before and asked for, every duration", "No test sets threads.", ["src/basic.cpp", "src/basic.h"],
     [("OpenMP thread setting", "src/basic.cpp SetOpenMPThread/SetDefaultOpenMPThread/GetAvailableThreadNum")], "property-based testing against the size of a parallel region",
     "Up to 16 threads; durations up to 1.2 s, mostly to 5 ms.", observe=["number of threads", "elapsed time"])
prop("T01", "Dates and times convert to text and back without drift",
     "The text of a date and time is the standard-time calendar date and clock time of that instant in the process's time zone, in every supported layout (with or without clock time, any separator). "
     "Parsing such a text returns the instant it was made from (midnight of the day, when the text has only a date).",
     "every instant in years 1001 to 9998, every layout and separator, and time zones with and without daylight saving",
     "Tests use a few dates in one zone; month and year ends, leap days, daylight-saving changes and zones west and east of Greenwich are a product of inputs.",
     ["src/utils_time.cpp"], [("localtime/mktime with manual daylight-saving removal", "src/utils_time.cpp ConvertToString/ConvertToString2/ConvertToTime/ConvertYMDToTime")],
     "property-based testing: round trip and an independent calendar, several time zones",
     "Time zones from the system's zoneinfo; daylight saving of one hour.", observe=["returned text and instants"])
prop("T02", "Calendar computations follow the Gregorian calendar",
     "Leap years, day numbers within the year, Julian day numbers and the year, month and day of an instant are those of the proleptic Gregorian calendar. "
     "Julian day numbers of consecutive days differ by exactly one.",
     "every date in years 1001 to 9998", "The tests check a few years; century rules and the month boundaries need all dates.",
     ["src/utils_time.cpp"], [("leap rule, Julian day formula, localtime", "src/utils_time.cpp IsLeapYear/JulianDay/DayOfYear/GetDateInfoFromTimet")],
     "property-based testing against an independent day-count calendar", "Dates are drawn with bias to month, year, leap and century boundaries.", observe=["returned numbers"])
prop("T03", "Date-time objects keep parts and instant consistent under arithmetic",
     "In any time zone, a date-time built from a calendar date and clock time (or its leading parts, the rest being zero), from a timestamp, from a copy or from the present reports local parts and a timestamp that describe the same instant; its conversion to UTC has the parts of that instant in UTC. An empty date-time is all zero. "
     "Moving it forward or backward by a duration shifts the timestamp by exactly that duration, moving there and back or converting to UTC and back restores it, and comparisons order date-times as their timestamps do.",
     "every date-time, duration and history of moves and conversions",
     "No test exercises these objects.", ["src/utils_time.h", "src/utils_time.cpp"],
     [("millisecond stamps and tm conversion", "src/utils_time.cpp DateTime")],
     "stateful property-based testing against a calendar model", "Clock times that a zone skips are not judged; of the two instants of a repeated clock time either is accepted.", over=("inputs", "histories"), observe=["date-time fields and timestamps"])
A_ = "src/utils_array.h"
prop("A01", "Arrays are allocated, copied and released exactly",
     "Initialising a one- or two-dimensional array gives exactly the requested shape, holding the given value or a converted copy of the given data, independent of its source; pooled two-dimensional arrays are contiguous row by row. "
     "An array that is already allocated is refused and left untouched, an empty or negative shape is refused, and releasing an array (also an empty one) sets its pointer to null. "
     "Array objects own their storage through every history of copies, moves and assignments, and no operation accesses memory outside the arrays.",
     "every shape, element type, initial value, source and history",
     "Tests initialise a few small shapes of one type; shapes, type pairs and histories are unbounded and memory errors invisible to them.",
     [A_], [("malloc-style pools with pointer rows", "src/utils_array.h Initialize1DArray/Initialize2DArray/Release*"), ("move and copy of owned storage", "src/utils_array.h Array2D")],
     "stateful property-based testing against vectors of vectors, ASan/UBSan",
     "Values stay within the range of both element types.", over=("inputs", "histories"), observe=["array contents and pointers", "returned flags", "AddressSanitizer reports"])
prop("A02", "Arrays are written to and read from text completely",
     "The text written for an array has one line per row and in it every value of that row, to six significant digits. "
     "A text with a heading, the number of rows and (for two dimensions) the rows, each led by its number of values, is read as exactly that array, whatever white space separates the entries and whether it comes as a file or a string; the array can be released like any other. A missing or unreadable text gives an empty array and no rows.",
     "every shape, element type, rows of different lengths, spacing and malformed heading",
     "No test calls these functions.", [A_, "src/utils_array.cpp"], [("stream input and output", "src/utils_array.* Output*ArrayToTxtFile/Read*ArrayFromTxtFile/Read2DArrayFromString")],
     "property-based testing: round trip through independently written and parsed text", "Values of floating point arrays read back to the six digits the format has.", observe=["text files", "arrays read", "AddressSanitizer reports"])
prop("M01", "Array statistics equal those of the non-excluded values",
     "Count, minimum, maximum, mean, standard deviation and range of an array (and of every layer of a two-dimensional array) are those of the values different from the excluded one, whatever their order, the element type, and the number of threads. "
     "The maximum, minimum and (indexed) sum of an array are those of all its values.",
     "every array of every element type, any share of excluded values, 1 to 8 threads",
     "Tests use one array without exclusions; the position of excluded values, element types, layers and thread counts multiply.",
     ["src/utils_math.h"], [("parallel reductions", "src/utils_math.h BasicStatistics"), ("loops", "src/utils_math.h MaxInArray/MinInArray/Sum")],
     "property-based testing against a long double reference, several thread counts",
     "With no value left after exclusion only the count (zero) is judged.", over=("inputs", "schedules"), observe=["returned statistics"])
prop("M02", "Fast mathematical functions stay within their error bounds",
     "Over their whole range the approximate square root, logarithm, exponential and power agree with the exact function to within 3e-7 (float) or 1e-10 (double) relative, 5e-4 absolute, 1e-5 relative, and 2e-4+5e-4*|exponent| relative respectively, and the switchable variants equal the standard functions in the default build. "
     "The limited exponential clamps its argument to the given limits, the signed power of a negative base is minus the power of its magnitude, and two numbers compare equal exactly when they are the same number.",
     "every positive normal argument (exponentials: -43 to 43)",
     "Tests evaluate a few points each; table and bit-trick errors show at particular mantissas and exponents.",
     ["src/utils_math.h", "src/utils_math.cpp"], [("bit manipulation, series and lookup tables", "src/utils_math.cpp ApprSqrt/ApprLn/ApprExp/ApprPow")],
     "property-based testing against the standard functions with measured error bounds",
     "The bounds are slightly above the worst error measured on the original code over 1e8 points.", observe=["returned values"])
F_ = "src/utils_filesystem.cpp"
prop("F01", "Path names decompose and recompose consistently",
     "The directory, core name and suffix of a path are the parts of its absolute form (links, . and .. resolved when it exists) before the last separator, before the last dot of the file name, and after it; dots in directory names play no role. "
     "Replacing the suffix, appending or prefixing to the name and concatenating change exactly that part and keep the others.",
     "every path, existing or not, with any dots in its parts",
     "Tests use one existing file and one name; dots in directories, missing or multiple suffixes and indirect spellings are open-ended.",
     [F_], [("realpath and last separator / last dot", F_ + " GetAbsolutePath/GetCoreFileName/GetSuffix/ReplaceSuffix/AppendCoreFileName/ConcatFullName")],
     "property-based testing against an independent path model in scratch directories",
     "POSIX separators; names ending in a dot are judged by their parts only.", observe=["returned paths"])
prop("F02", "File operations change exactly what they are asked to",
     "Existence queries report the actual state, making a directory creates just that directory, deleting a file removes just that file, and finding files lists exactly the visible entries of the directory whose suffix (any letter case) is the wanted one. "
     "Cleaning removes exactly the visible files, links and empty directories in a directory (creating it if missing), deleting a directory removes it with everything in it, or only its files when subdirectories are to be kept; links are removed themselves, never followed, and nothing outside the directory changes.",
     "every directory tree with links, hidden and suffix-less names, and every sequence of operations",
     "Tests delete one fixed tree; trees, links, suffix overlaps and sequences are unbounded.",
     [F_], [("readdir loops with remove", F_ + " FindFiles/CleanDirectory/DeleteDirectory"), ("stat", F_ + " FileExists/PathExists/DirectoryExists")],
     "stateful model-based testing in scratch directories, as an unprivileged user, with the destructive calls intercepted",
     "Paths given as arguments are not links themselves; permissions are not varied.", over=("inputs", "histories"), observe=["the directory tree after every step", "returned values and lists"])
prop("F03", "Text files load as their meaningful lines and logs only grow",
     "Loading a text file returns, in order, its lines trimmed of blanks and line ends, without empty lines and lines starting with #; the file is not changed. "
     "A path that cannot be read as a file is reported as failure with no lines, and the call returns. "
     "A log message appends exactly one time-stamped record to the log and keeps all earlier ones, and an exception's text carries its class, function and message.",
     "every file content and line-end style, and every sequence of messages",
     "Tests load one file.", [F_, "src/basic.cpp"], [("getline loop", F_ + " LoadPlainTextFile"), ("append mode stream", "src/basic.cpp Log")],
     "property-based testing against a line model", "Lines up to 20000 characters.", over=("inputs", "histories"), observe=["returned lines and flag", "log content"])
D_ = "src/data_raster.hpp"
RF = ["src/data_raster.hpp", "src/data_raster.cpp"]
TY = "every raster of every cell type, dimension, number of layers and share of NoData cells"
prop("R01", "Raster cells are read and written exactly, whatever is stored",
     "A raster shows, for every row, column and layer, the value it was constructed with or last set to, whether it holds one or several layers and whether it stores all cells or only valid ones; setting a cell that is outside or not stored changes nothing. "
     "Rows, columns, layers and cell indexes out of range read as NoData (or a null array), positions of cells that are outside or not stored are negative, and a layer's values of a cell come in layer order. "
     "Header, number of cells and data length always agree with what is stored.",
     TY + ", and every sequence of accesses",
     "Tests read and set a few cells of one raster; the combination of dimension, storage and history is unbounded.",
     RF, [("1D/2D data with an optional index of valid positions", D_ + " GetValue/GetValueByIndex/SetValue/GetPosition"), ("construction over given arrays", D_ + " clsRasterData constructors")],
     "stateful model-based testing against a plain grid, ASan/UBSan", "Up to 7x7 cells, 4 layers, 8 cell types.", over=("inputs", "histories"), observe=["returned values, positions and headers"])
prop("R02", "Coordinates and cells correspond exactly",
     "A coordinate belongs to the one cell whose square contains it: a cell owns its left and top edge, so that neighbouring cells neither overlap nor leave gaps, and a coordinate beyond the raster's outer edges belongs to none. "
     "The coordinate of a cell's centre lies in that cell, and looking up data by coordinate addresses the data of that cell.",
     "every georeference and coordinate, on edges or not", "Tests look up one coordinate inside one raster; edges and extents are unbounded.",
     RF, [("floor arithmetic on header fields", D_ + " GetPositionByCoordinate/GetCoordinateByRowCol/GetPosition")],
     "property-based testing against exact half-open cells", "Edges are tested where coordinates are exact in binary; with other georeferences points within a millionth of a cell of an edge are left out.", observe=["returned rows, columns and positions"])
prop("R03", "Calculating valid positions keeps exactly the valid cells",
     "Once valid positions are calculated, a raster stores exactly the cells whose first layer is not NoData, in row-major order, each with unchanged values of all layers, and reports their number. "
     "Reading any cell by row and column gives the same as before, except that cells without a value in the first layer read NoData in all layers; calculating again changes nothing.",
     TY, "Tests have one sample raster; the arrangement of NoData cells over layers is unbounded.",
     RF, [("compaction of data and index arrays", D_ + " CalculateValidPositionsFromGridData/SetCalcPositions")],
     "property-based testing against a plain grid, ASan/UBSan", "Up to 20x20 cells, 3 layers.", observe=["returned values, positions and counts"])
prop("R04", "Masking keeps exactly the cells under the mask's valid cells",
     "Reading a raster with a mask gives a raster with the mask's cell size, on the mask's extent if asked for and else on the smallest block of mask cells with values, holding at every valid mask cell the value of the file's cell that contains its centre (the default value, if one is given, where the file has NoData) and NoData elsewhere. "
     "It is refused if nothing is in common, the mask itself is never changed, and valid positions, if present, are exactly the stored cells of the result. "
     "Later requests for positions or for the mask's extent keep what the raster shows.",
     "every file and mask of any extent, cell size, NoData arrangement and type, all options and default values",
     "Tests mask one sample raster by a few masks; the relative placement of extents and NoData cells is unbounded.",
     RF, [("masking by coordinates, extent and position flags", D_ + " MaskAndCalculateValidPosition/ReadFromFile/SetUseMaskExt")],
     "property-based testing against an independent masking model, ASan/UBSan", "Extents are aligned to quarter cells; NoData of the file is not NaN.", over=("inputs", "configurations"), observe=["the raster read", "the mask"])
prop("R05", "Several files become layers that agree with the first one",
     "Reading several files gives a raster with one layer per file in the given order, on the extent of the first (masked like a single one); every further layer holds, at the cells that are stored, the value of its own file's cell that contains the centre, and NoData where that file has none or does not reach. "
     "The NoData of further files is replaced by that of the first.",
     "every set of files of equal or different extents, cell sizes and NoData, with and without a mask", "Tests read three files of equal extent.",
     RF, [("further layers looked up by coordinate", D_ + " ReadFromFiles")],
     "property-based testing against an independent model", "1-4 files; values of further layers differ from the first NoData.", over=("inputs", "configurations"), observe=["the raster read"])
G_ = "src/db_mongoc.cpp"
GF = ["src/db_mongoc.h", G_]
prop("G03", "Values of BSON documents read as what was stored",
     "Every value stored in a document reads as exactly this number, text, truth or instant (UTC seconds), in every representation that can hold it: numbers of 32 and 64 bits, fractions, and texts of them, Boolean values and their texts, date times of any year and their texts. "
     "Options stored in a document become numbers if their text is a number, of the same value, and the same text otherwise. "
     "Keys that are missing or of another kind read as no number, the empty text, false and no instant.",
     "every value of every kind, every option text and key",
     "The tests read one sample metadata document, and only if a MongoDB server is running.",
     GF, [("conversion by BSON type", "src/db_mongoc.h GetNumericFromBsonIterator, " + G_ + " GetStringFromBson/GetBoolFromBson/GetDatetimeFromBson"), ("options to BSON", G_ + " AppendStringOptionsToBson")],
     "property-based testing against typed values, real BSON, ASan/UBSan", "Texts that contain more than a number are not judged as numbers; the process runs in UTC for date texts.", observe=["returned values"])
prop("G04", "GridFS files are stored, found, described and removed exactly",
     "A file written to a GridFS is read back byte for byte, with its metadata, by its name and any of its options; only files whose name and options all match are found, described or removed, and all of these are removed, with every other file left as it is. "
     "Names of files, collections, GridFS and databases are listed completely. "
     "Failures of the server are reported (short ones while searching are overcome), nothing is stored, returned or reported as removed then, and no driver object is left behind.",
     "every sequence of operations on several GridFS, with names, options and server faults",
     "The tests write one file to a running server; most sandboxes have none, and no test injects faults.",
     GF, [("filter by name and metadata", G_ + " MongoGridFs::GetFile/RemoveFile/GetFileMetadata"), ("stream read loop and writing", G_ + " MongoGridFs::GetStreamData/WriteStreamData"), ("listing and ownership of handles", G_ + " MongoClient/MongoDatabase")],
     "stateful model-based testing with fault injection, on an in-process stand-in of the driver, ASan/UBSan",
     "The server and driver are a stand-in with the documented behaviour of libmongoc; documents are real BSON.", over=("histories", "fault_sequences") , observe=["returned data and flags", "stored files"])
GM = ["src/data_raster.hpp", "src/data_raster.cpp", "src/db_mongoc.h", "src/db_mongoc.cpp"]
prop("G01", "Rasters stored in GridFS read back as the same rasters",
     "Storing a raster puts exactly one file into the GridFS, named and described by the raster's header, options and the given ones, in place of former files of this name and description, with all cells or the valid ones of every layer in the chosen data type; the raster keeps what it shows. "
     "Reading such a file (also of another program, of any number type) gives the raster with this header, layers, options and values, all or positioned by the given mask or the positions known before, masked like a raster from a file, also into a used raster. "
     "What is missing, incomplete, contradictory, of an unknown type, or cannot be read or written due to the server, is refused without loss of other files, and leaves neither data in the raster nor driver objects.",
     TY + ", every data type, mask, option, file content and sequence of storing and reading, with faults of the server",
     "The tests store and read one sample raster, and only if a MongoDB server is running; no test has malformed files or faults.",
     GM, [("GridFS data and metadata to raster", D_ + " ReadGridFsFile/ReadFromMongoDB"), ("raster to GridFS data and metadata", D_ + " OutputToMongoDB/WriteStreamDataAsGridfs")],
     "stateful model-based testing of rasters and stored files against plain grids and bytes, with fault injection, on an in-process stand-in of the driver, ASan/UBSan",
     "The server and driver are a stand-in with the documented behaviour of libmongoc. Up to 8x8 cells, 3 layers; values and NoData within the range of the data types.", over=("inputs", "histories", "fault_sequences"), observe=["stored bytes and metadata", "the raster read", "returned flags"])
prop("G02", "Subsets are stored in GridFS and their data read back cell by cell",
     "Output of subsets to a GridFS stores one file per usable subset (its extent or only its cells) or one combined file (the raster's extent or stored cells), each described by its own header, layers, cell count and options, with the original values, the subset's data, or their classes at the cells of the subset, and NoData (or the default value, for unusable subsets of a combined file) elsewhere. "
     "Data of a subset read from such files is that of its cells in their order, of all layers; files of another size are refused and leave the subset as it was. "
     "Success is reported only if everything is stored; other files, and what the raster and its subsets show, stay as they are.",
     TY + ", every grouping, data, class map, data type, and sequence of output, reading, and changes, with faults of the server",
     "The tests store subsets of one raster, and only if a MongoDB server is running.",
     GM, [("subset data to GridFS", D_ + " OutputSubsetToMongoDB/PrepareSubsetData/PrepareCombSubsetData"), ("GridFS to subset data", "src/data_raster.cpp SubsetPositions::ReadFromMongoDB")],
     "stateful model-based testing of subsets and stored files against plain grids and bytes, with fault injection, on an in-process stand-in of the driver, ASan/UBSan",
     "The server and driver are a stand-in with the documented behaviour of libmongoc. Up to 8x8 cells, 3 layers; combined reclassification is left out if a subset is unusable.", over=("inputs", "histories", "fault_sequences"), observe=["stored bytes and metadata", "subset data", "returned flags"])
AP = "apps/mask_rasterio.cpp"
prop("X01", "The raster program masks, decomposes and combines as asked",
     "A run of mask_rasterio with given input, mask, mode, output and settings, by arguments or by configuration file with any number of items, writes exactly the files or GridFS files that are called for: the raster under the mask, the part of each group of the mask or of the raster's values, or the raster combined of the given parts, in the named format, data type and NoData, with default values, NoData and reclassification of this item. "
     "Missing parts, or parts of another extent, leave their groups at the default value. "
     "Items that cannot be read, or have nothing in common with the mask, are left out without effect on others; arguments without sense end the program with one of its exit codes.",
     TY.replace("cell type, ", "") + ", mask, grouping, mode, formats of input and output, settings and arguments",
     "No test runs the program.",
     [AP, "src/data_raster.hpp"], [("arguments and configuration to settings per item", AP + " main, parse_fmt_paths, parse_key_values"), ("modes upon the raster class", AP + " main (loop over the items)")],
     "property-based testing of whole runs against a model of masking, grouping and combining, files and stored files read independently, ASan/UBSan",
     "The program runs within the process of the check, MongoDB being an in-process stand-in. Up to 7x7 cells, 3 layers, 3 items. The exit code of runs without any result is not judged.", over=("inputs",), observe=["files written", "files stored", "exit code"])
prop("R12", "Reclassification and NoData replacement map every stored cell",
     "Reclassifying replaces every stored value (its integer part) by its class in the given map and by NoData if the map has none; replacing NoData turns exactly the NoData cells of all layers into the new value, which is NoData from then on. "
     "Neither changes the extent, the positions or the number of cells.",
     TY + ", every class map and sequence", "No test replaces NoData, and one map is tried.",
     RF, [("in-place loops over the data", D_ + " Reclassify/ReplaceNoData")],
     "stateful property-based testing against a plain grid", "Up to 7x7 cells, 3 layers.", over=("inputs", "histories"), observe=["returned values, header"])
prop("R13", "Raster statistics are those of the valid cells of each layer",
     "Number, mean, minimum, maximum, standard deviation and range of a layer, asked for by any name or function, singly or for all layers, are those of its valid stored cells as of the last computation. "
     "They are computed on first request and renewed on update; a raster of one plain layer has none for 'all layers', and unknown names give the default value.",
     TY + ", every sequence of queries, updates and changes", "Tests check one raster's statistics.",
     RF, [("cached statistics map", D_ + " CalculateStatistics/UpdateStatistics/GetStatistics")],
     "stateful property-based testing against a long double reference", "Every layer has a valid cell.", over=("inputs", "histories"), observe=["returned statistics"])
prop("R06", "ASC files hold exactly the raster and read back as it",
     "Writing a raster as ASC gives one complete file per layer, which replaces any former file: its header is exactly the raster's, every valid cell has its value (integers exactly, other numbers to six significant digits), and every other cell has exactly the header's NoData, whether the raster stores all or only valid cells. "
     "Reading the files gives back the raster, and writing changes nothing in it.",
     TY + ", every georeference, and any former file", "Tests write one sample raster; georeferences, values, types and storage multiply.",
     RF, [("stream output by row, column and next valid position", D_ + " OutputAscFile/WriteAscHeaders"), ("line parser", D_ + " ReadAscFile")],
     "property-based testing: independent reader and round trip, ASan/UBSan", "Values that equal NoData after rounding to six digits are left out; the directory exists.", over=("inputs", "configurations"), observe=["written files", "the raster read back"])
prop("R08", "GeoTIFF files hold exactly the raster and read back as it",
     "Writing a raster as GeoTIFF gives one file per layer with the raster's size, georeference, spatial reference, NoData and data type, in which every cell has exactly its value, and reading the files gives back the raster. "
     "A GeoTIFF of any other program and data type reads into a raster of any type that can hold its values, cell by cell, with its NoData (if it defines none, the default of its data type; 8-bit data without larger values than 127 then counts as signed).",
     TY + ", and every such file", "Tests convert one sample raster; types, values and storage multiply.",
     RF, [("GDAL band input and output per data type", D_ + " WriteSingleGeotiff/ReadRasterFileByGdal/OutputFileByGdal")],
     "property-based testing: independent GDAL reader and writer, and round trip", "64-bit values up to 2^53; georeference within 1e-9 relative.", over=("inputs", "configurations"), observe=["written files", "the raster read"])
prop("R09", "Converting the output data type keeps values and NoData, or is refused",
     "Writing a raster as another data type gives a file of that type in which every valid cell has its value (its integer part for integer types) and every NoData cell the file's NoData, which is the raster's, or the default of the type if the type cannot hold it. "
     "If a valid value is beyond the range of the type, nothing is written and the output is refused; the raster itself is not changed.",
     "every pair of 10 data types, values in and beyond the range, and every spelling of the type name",
     "Tests convert one sample raster into a few types.",
     RF, [("conversion loops with range checks per type", D_ + " WriteSingleGeotiff"), ("type names", "src/data_raster.cpp StringToRasterDataType/RasterDataTypeToString")],
     "property-based testing against an independent conversion model", "Valid values that become equal to the output's NoData are left out; values up to 9e15.", over=("inputs", "configurations"), observe=["written files", "returned flag"])
prop("R10", "Subsets partition the valid cells and carry their own data to files",
     "Building subsets puts every valid cell into exactly one subset, that of its value's group (its own value if not grouped), in row-major order, with the subset's extent, local and global positions and header describing exactly these cells; subsets stay consistent with the raster they belong to, also when they were taken over from a mask and positions change later. "
     "Data given to subsets (refused if of another length) and the raster's original values, optionally reclassified, are written in separate files of the subset's extent or combined into one file of the raster's, every cell with exactly its value and all others with NoData (or the default value, for combined unusable subsets). "
     "Neither the raster nor the mask changes.",
     "every raster, grouping, mask with subsets, and every sequence of giving data, rebuilding and output",
     "Tests build subsets of one raster; group maps, layers, masks and histories multiply.",
     RF, [("subset positions relative to data and extent", D_ + " BuildSubSet/PrepareCombSubsetData/PrepareSubsetData/MaskAndCalculateValidPosition"), ("owned or shared arrays", D_ + " SubsetPositions")],
     "stateful property-based testing against a model of groups, independent file readers, ASan/UBSan",
     "Rasters up to 8x8 cells of 7 classes, data of up to 3 layers.", over=("inputs", "histories"), observe=["subsets", "written files"])
prop("R07", "ASC texts are read completely or refused",
     "An ASC text is read exactly if it defines numbers of columns and rows, lower left x and y (of centre or corner), cell size and NoData, in any order and letter case, before exactly columns times rows decimal numbers, in any line layout, with blank lines and # comments ignored; the raster then has exactly this georeference, NoData and cells, in row-major order. "
     "Any other text (cut off, too many or few values, words, misplaced, missing or impossible header values) is refused, alone, as a further layer or into a used raster, and no text makes the reader access memory out of bounds.",
     "every text, well-formed or mutated, and three ways to read it", "Tests read two irregular files.",
     RF, [("token loop with a running index", D_ + " ReadAscFile")],
     "structured fuzzing with mutations against an independent parser, ASan/UBSan",
     "Up to 300000 cells; texts without NoData line and less than seven lines, mixing centre and corner of one axis, or with hexadecimal, infinite or not-a-number literals in place of numbers, are not judged.", observe=["returned flag", "the raster read"])
prop("R11", "Copies equal the original, behave like it and are independent",
     "A raster copied or copy-constructed from another one of any origin shows the same header, options, types, cells, positions, statistics and subsets with data, whatever the destination held before, and copying a raster to itself changes nothing. "
     "Every later operation has the same results and effects on the copy as on the original, and neither changing nor deleting one of them affects the other.",
     "every raster of any origin (constructed, read, masked, failed, blank) and history, every destination and every later history",
     "Tests copy one raster and compare a few values.",
     RF, [("deep copies of arrays, maps and subsets", D_ + " Copy/clsRasterData(another)")],
     "stateful metamorphic testing: observation of all public state, twin execution, ASan", "Up to 7x7 cells; the mask outlives the rasters.", over=("inputs", "histories"), observe=["all public state", "written files"])
prop("R14", "Rasters stay consistent and free of their past over any history",
     "Whatever is done to a raster (reading files again, with other masks, layers or failures, changing values, positions, subsets, statistics, output, copies, queries of any index), its positions, cells, layers and subsets agree with each other, no memory is accessed out of bounds or after release, and no other raster or mask changes. "
     "Reading files into a used raster succeeds and shows the same as reading them into a new one.",
     "every sequence of public operations on rasters that share masks", "Tests use each object once, for one purpose.",
     RF, [("owned and shared arrays with flags", D_ + " clsRasterData members raster_/raster_2d_/pos_data_/pos_idx_/store_pos_/mask_/stats_/subset_")],
     "stateful property-based testing with invariants and a metamorphic re-read, ASan/UBSan", "Masks outlive the rasters and are not modified while in use; SetPositions and foreign headers are left out.", over=("histories",), observe=["all public state", "AddressSanitizer reports"])
prop("R15", "Output that reports success has been written in full",
     "When files can not be written in full (no space left at any point of any of the files, or a name is taken by something else), writing a raster, its combined or separate subsets, or an array, as ASC or GeoTIFF, reports failure; success means that every file is there with its whole content. "
     "With enough space ASC output succeeds, and when the fault is over the same output gives the same files as ever, whatever the failed one left.",
     "every raster, way of output, format, and point at which writing fails", "Tests never let writing fail.",
     RF, [("results of writing and closing files", D_ + " WriteAscHeaders/WriteSingleAsc/OutputAscFile/WriteSingleGeotiff/OutputFullsizeToFiles")],
     "fault injection at generated points, differential against output without fault", "The fault is a limit of the file size at any byte (RLIMIT_FSIZE), or a non-empty directory in place of a file; up to 60x60 cells.", over=("inputs", "fault_sequences"), observe=["returned flag", "written files"])
prop("R16", "Rasters keep the names, spatial reference, types and options they come with",
     "After files are read by whatever constructor or function, the path is the one given and the core name that of the file; of several files, the first one's directory and core name up to its last underline, with the template of the layers' names. "
     "Spatial reference and data type are those of the (first) file, or the reference of the mask when masked; the output type is the one asked for under any of its names in any case, or else the file's; the options given are found again, and no other. "
     "Setting the core name, a type or the default value changes nothing else, and subsets output without a name become files of the core name beside the source, which stays as it was.",
     "every file name, directory, number of files, spatial reference, options, mask and way of reading", "Tests use one naming scheme and hardly look at names, references or options.",
     RF, [("bookkeeping when reading", D_ + " InitializeReadFunction/ConstructFromSingleFile/ReadFromFiles"), ("default output names", D_ + " OutputSubsetToFile")],
     "property-based testing against a model of names and options, GDAL as the reference for spatial references", "Paths are absolute; keys of options are case sensitive.", observe=["names, options, types, flags", "names in the directory of the source"])
prop("R17", "Requests that cannot be answered are refused and change nothing",
     "Asked for cells, indices, layers, coordinates, statistics, options, files, subsets or outputs that do not exist, a raster, with or without data, answers with NoData, -2, the default value, a null pointer, an empty text or failure as documented, never touches memory it does not own, writes no file and shows afterwards exactly what it showed before. "
     "A raster without data, for whatever reason, can be read into afterwards like a new one.",
     "every raster, including those never read, not readable, apart from their mask, or given values of the wrong number, and every invalid request", "Tests try one or two invalid requests on valid rasters.",
     RF, [("validation before each access", D_ + " ValidateRasterData/ValidateRowCol/ValidateLayer/ValidateIndex and their callers")],
     "property-based testing: snapshots of all that a raster shows before and after, ASan/UBSan", "Null masks and null source rasters are the caller's responsibility.", over=("inputs", "histories"), observe=["answers", "all accessors before and after"])
for i_, what_, files_, mech_ in [
    ("L01", "strings, dates, arrays and statistics", ["src/utils_string.cpp", "src/utils_time.cpp", "src/utils_array.h", "src/utils_math.h"], ("temporary buffers and tm structures", "src/utils_string.cpp, src/utils_time.cpp, src/utils_array.h")),
    ("L02", "paths, files and directories", ["src/utils_filesystem.cpp"], ("directory handles and file streams", "src/utils_filesystem.cpp")),
    ("L03", "rasters", RF, ("owned arrays, statistics, subsets and GDAL datasets", D_ + " ReleaseMaskPosition/ReleaseSubset/~clsRasterData and every early return")),
    ("L04", "the database and the raster program's use of it", ["src/db_mongoc.cpp"] + RF + ["apps/mask_rasterio.cpp"], ("BSON documents, GridFS files, buffers", "src/db_mongoc.cpp, " + D_ + " ReadFromMongoDB/OutputToMongoDB")),
]:
    prop(i_, "Operations on %s release all memory and files" % what_.replace("strings, dates, arrays and statistics", "strings, dates and arrays").replace("the database and the raster program's use of it", "the database"),
         "Whatever operations on %s are performed, with success, refusal or failure: once the objects involved are gone, the memory and the open files they used are released, so that repeating the same operations any number of times never uses more memory or open files than before." % what_,
         "every case of the other properties on these parts", "Tests run each operation once and do not watch memory or open files.",
         files_, [mech_], "metamorphic property-based testing: the same generated case repeated seven times, allocated bytes and open files compared",
         "Growth counts only when every one of the repetitions adds to it (caches that fill once do not).", over=("inputs", "histories"), observe=["allocated bytes (AddressSanitizer's allocator)", "open file descriptors"])
prop("P01", "Results do not depend on the number of threads",
     "Whatever number of threads works on it, every operation on rasters and arrays - creating, reading, masking, converting, copying, calculating valid positions, replacing NoData, reclassifying, statistics, and writing files - gives the same values, positions and files as a single thread (sums up to rounding).",
     "every raster, operation sequence and number of threads, however the threads are scheduled",
     "Tests run tiny rasters with the default number of threads and compare a few values; a schedule that exposes shared data need not occur in them.",
     ["src/data_raster.hpp", "src/utils_array.h", "src/utils_math.h"],
     [("OpenMP loops over cells with reductions and private data", D_ + " WriteSingleGeotiff/ReadFromFiles/ReplaceNoData/CalculateValidPositionsFromGridData, src/utils_array.h, src/utils_math.h")],
     "differential property-based testing: the same operations with one and with 2-8 threads, ASan/UBSan", "Schedules are those the system happens to make; up to 90x90 cells.",
     over=("inputs", "schedules"), observe=["values, positions, statistics and file bytes"])
prop("N01", "Without GDAL, ASC rasters work the same and other formats are refused",
     "Built without GDAL, rasters from and to ASC files keep all properties they have with it: masking, layers, positions, subsets, copies, statistics, reading of any text. "
     "Files of any other format are refused when read, alone or among others, and whatever other format is asked for when writing, an ASC file of the same core name is written instead.",
     "every raster, ASC text, history and file name", "The tests are built with GDAL only.",
     RF, [("the branches without USE_GDAL", D_ + " ReadFromFile/ReadFromFiles/OutputToFile/WriteRasterToFile")],
     "property-based testing: the models of the raster properties against a build without GDAL, ASan/UBSan", "Formats are told by the suffix of the name.", over=("inputs", "configurations"), observe=["rasters read", "files written"])
