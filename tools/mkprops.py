import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
pk='channelpack/pack.py'; du='channelpack/datautils.py'; rt='channelpack/readtext.py'; db='channelpack/dbf.py'; rx='channelpack/readxl.py'
xl='channelpack/xlrd/'
masks=[("mask","which elements are selected","pack.py ChannelPack.mask")]
p('C01',"Parts are exactly the maximal True runs of the mask",
 "After any sequence of operations on a pack, the parts enumerate, consecutively from 0 and in order, exactly the maximal runs of True elements in the pack's current mask. Asking a channel for part i returns exactly the contiguous elements under run i, whatever the filter setting, a part number beyond the last raises IndexError, and the parts of a channel joined together are the filtered channel.",
 ['histories','inputs'],"all histories of mask assignment, in-place mask operators, start/stop masking, duration filtering, minimum duration settings, mask reset, data assignment and appending, for all masks including all True, all False and empty",
 "Tests check a few hand-written masks of about ten elements after one operation; a stale or off by one part list needs a particular order of operations or a run at a boundary.",
 [pk,du],[("part list kept in step with the mask","pack.py __setattr__('mask'), duration, parts, __call__"),("run finding","datautils.py slicelist")],["pack.parts()","pack(ch, part=i)","pack.mask"],masks)
p('C02',"A channel call returns the documented view of the data",
 "With no filter in effect a channel call returns the whole array as is; 'filter' returns exactly the elements whose mask element is True, in order and with the same dtype; 'nan' returns an array of full length with the masked out elements replaced by nan for numeric data (integers becoming floats) and by None for every other kind of data, other elements unchanged. A part given in the call overrides the filter argument, the filter argument (including 'ignore' for the whole array) overrides the filter attribute of the pack.",
 ['inputs','histories'],"all data kinds (float, int, unsigned, complex, bool, str, bytes, object, datetime), all masks, and all combinations of part, filter argument and filter attribute",
 "Tests use a couple of float and string channels; the product of data kind, mask, argument and attribute is not covered.",
 [pk,du],[("precedence of part, argument, attribute","pack.py __call__"),("nan or None substitution","datautils.py masked")],["pack(ch, part, nof)"],masks)
p('C03',"Resetting the mask selects every record",
 "After construction, after assigning new data, after mask_reset and after appending a pack, the mask is a boolean array as long as the channel with the lowest number and all True, whatever values the data holds (nan and None included). With no data the mask is an empty boolean array, and the only thing that may make elements False again is the minimum duration setting of the pack when the whole data is shorter than that.",
 ['inputs','histories'],"all data sets of any dtype, length and channel numbering, with any previous mask and minimum duration",
 "Tests reset masks of finite float data only.",
 [pk],[("mask_reset","pack.py mask_reset"),("data assignment resets","pack.py __setattr__('data')")],["pack.mask"],masks)
p('C04',"Duration filtering removes exactly the parts that do not qualify",
 "Requiring a minimum duration makes False exactly those maximal True runs of the mask having fewer elements than duration times samplerate, and requiring a maximum duration (mindur=False) exactly those having more; every other element of the mask keeps its value and the returned array equals the new mask. Float rounding in the product of duration and samplerate does not matter: 0.29 at samplerate 100 requires 29 elements.",
 ['inputs','histories'],"all masks, all int or float durations and samplerates, minimum and maximum, after any history",
 "Tests try a few integer durations on one mask.",
 [pk],[("part length comparison","pack.py duration")],["pack.duration(...)","pack.mask"],masks)
p('C05',"The minimum duration setting persists over every mask update",
 "While the pack attribute mindur is an integer, every update of the mask (assignment, in-place operators, start/stop masking, mask reset, data assignment, append) leaves exactly the True runs of the updated mask that are at least mindur elements long. Setting mindur applies it to the current mask at once without resetting it, and setting it to None changes nothing by itself and stops the requirement for later updates.",
 ['histories'],"all histories mixing mindur settings with mask updates of every kind",
 "The persistent effect shows only in sequences of updates after the setting; tests have a handful of such sequences.",
 [pk],[("mindur consulted in mask assignment","pack.py __setattr__('mask'), __setattr__('mindur')")],["pack.mindur","pack.mask"],masks)
p('C06',"Start/stop masking follows the triggers exactly",
 "The result of start/stop masking is a boolean array where an element is True exactly if its stop trigger is false and its start trigger is true or the previous result element is True (nothing is started before the first element), a true stop dominating a true start. It is anded into the mask when applied, and the mask is not touched with apply=False.",
 ['inputs','histories'],"all pairs of equally long trigger sequences (bool arrays, lists, numbers, strings, objects: any truth values) and all prior masks",
 "Tests hold two or three trigger patterns.",
 [pk,du],[("trigger automaton","datautils.py startstop_bool"),("anding into the mask","pack.py startstop")],["pack.startstop(...)","pack.mask"],masks)
p('C07',"Masking and reading never alter data, arguments or other packs",
 "No masking, filtering, reading, naming or record operation changes any element or dtype of any data channel, of any array or dict the caller passed in, of the names, or of another pack, even when the mask assigned is a channel of the pack, an array the caller keeps, or the mask or data of another pack. Appending to one pack changes only that pack.",
 ['histories'],"all histories of operations over several packs sharing arrays, masks, data dicts and names dicts",
 "Aliasing shows only when the same object is used in two roles and altered later; no test does that.",
 [pk,du],[("copies taken of masks and dicts","pack.py __setattr__"),("views never written","pack.py duration, __call__")],["all arrays and dicts reachable by the caller before and after each operation"])
p('C08',"Appending concatenates every channel and is all or nothing",
 "After appending B to A every channel of A is its old elements followed by B's, in that order, under the same channel numbers and names, A's list of file names is extended with B's, and B is unchanged; an empty A takes B's data, and names where A has none. If the non-empty channel numbers (or the non-empty names numbers) differ, or the arrays can not be joined, the append raises (ValueError for the differing numbers) and A is left exactly as it was.",
 ['inputs','histories'],"all pairs and chains of packs: with or without data, names, file names, any dtype, aligned or not, appended to itself",
 "Tests append a couple of aligned packs once or twice.",
 [pk],[("append_pack","pack.py append_pack")],["pack.data","pack.names","pack.filenames","pack.mask"])
p('C09',"A channel reference resolves to the right channel or raises",
 "A channel is looked up first as a channel number, then as a name, then as the fallback prefix followed by nothing but a number; the first match decides and it always means the channel of that number, and a reference matching nothing (or a name whose number has no data) raises KeyError. The name of a channel is its name string, its first word, its first regular expression match, or the fallback prefix plus its number, as asked for, and the changeable prefix is honoured in both directions.",
 ['inputs'],"all data key sets (sparse, negative, large), all names including names that look like fallback strings of other channels, duplicates, unicode and empty names, all references",
 "Tests look up ordinary names and a few fallback strings.",
 [pk],[("lookup order","pack.py _datakey"),("name strings","pack.py name")],["pack(ch)","pack.name(ch, ...)"])
p('C10',"Data and names containers keep integer keys and flat arrays",
 "The data and names of a pack are dicts that hold integer keys only, and every value in data is a one-dimensional numpy array of the values given; this holds after every dict operation, whatever form of argument (dict, other mapping, pairs, iterator of pairs, in-place union, default setting). An operation that would break it raises TypeError (key) or ValueError (shape) and leaves the container as it was, and every accepted operation has the effect and return value it has with an ordinary dict.",
 ['histories','inputs'],"all sequences of dict operations with valid and invalid keys and values",
 "Tests exercise single operations; iterators, in-place union and failing updates in the middle of a sequence are not covered.",
 [pk],[("IntKeyDict","pack.py"),("NpDict","pack.py")],["pack.data","pack.names"])
p('C11',"Records are the rows of the channel views",
 "The i:th record holds, under each field name, exactly the i:th element of what calling the pack for that channel number gives with the same part and filter arguments, there is one record per element and the fields are in channel number order. Field names are the names of the pack or, on request, the fallback prefix with the channel number (which then means exactly that channel even if some other channel has that very string for a name); names that are not valid identifiers raise ValueError.",
 ['inputs','histories'],"all packs, names, masks, filter settings and parts, including names that collide with fallback strings",
 "Tests iterate a few records of one small pack.",
 [pk],[("records","pack.py records")],["pack.records(...)"])
p('C12',"Attributes accept only valid values and keep file names in step",
 "Assigning an invalid value to the filter attribute (ValueError), the fallback prefix, the mask, the minimum duration or the file name (TypeError), or deleting any of the pack's attributes except the mask (AttributeError), raises and leaves the whole pack as it was. The file name is always the first of the list of file names, setting it replaces only that first entry, and after appends the list holds the file names of all packs in order.",
 ['histories','inputs'],"all sequences of valid and invalid assignments, deletions and appends",
 "Tests try one invalid value per attribute on a fresh pack.",
 [pk],[("validation","pack.py __setattr__, __delattr__")],["pack attributes"])
p('C13',"Text data is read to exactly the values in the file",
 "For delimited text, every channel holds one element per non-blank data line after the skipped rows, in order: float of the field for a column that is numeric (decimal point or decimal comma) on the first data line, the caller's converter result where one is given, and otherwise the field text as is (or stripped if asked). A field left empty in a numeric column is nan, and extra fields beyond those of the first data line are ignored.",
 ['inputs'],"all tables of any size, delimiters (any white space, tab, single or multiple characters), decimal sign, number notation, signs, padding, missing fields, blank lines, line ends, skipped rows, encodings",
 "The tests read a few files of a few lines.",
 [rt],[("type detection on first line","readtext.py linetuples"),("decimal comma","readtext.py _floatit"),("columns","readtext.py textpack")],["textpack(...)"])
p('C14',"Selecting text columns is a projection of the full read",
 "Reading only some columns, by a single number, by any sequence of numbers in any order with repetitions, or by a dict of names, gives for each selected column exactly the data (and the name from the file, or the given name) it has in the full read, under its own column number, and no other channels. Names taken from the file are the stripped fields of the last skipped row.",
 ['inputs','configurations'],"all tables and all subsets, orders and forms of column selection, combined with converters, stripping, names from the file and source kinds",
 "Tests select one or two columns in ascending order.",
 [rt],[("usecols handling","readtext.py textpack, linetuples"),("names","readtext.py textpack")],["textpack(..., usecols, names, hasnames)","lazy_textpack(..., usecols)"])
p('C15',"Text reading does not depend on how the source is given",
 "The same content gives the same pack whether given as a file name, an open text file, a text stream in memory, or a binary file or stream of bytes with an encoding, and reading a stream starts at the position the stream is in. The debug option changes nothing in the result. The pack's file name is the path of the file, or the empty string for a stream without a path.",
 ['inputs','configurations'],"all tables in ascii compatible encodings, all source kinds, stream positions, debug on and off, for the plain and the automatic reader",
 "Tests use one kind of source per reader test, always positioned at its start.",
 [rt],[("contextopen","readtext.py"),("bytes handling","readtext.py linetuples"),("lazy rewinding","readtext.py lazy_textpack")],["textpack(...)","lazy_textpack(...)","pack.fn"])
p('C16',"The automatic text reader finds the data by itself",
 "For a numeric table with one constant delimiter and consistent decimal sign, after a header of free text lines, the automatic reader gives exactly the pack that the plain reader gives with the right number of skipped rows, delimiter, converters and names spelled out, names being the header line nearest above the data having as many fields as there are columns. Keyword arguments given by the caller override what was found.",
 ['inputs'],"all such files: number of columns, delimiters, decimal comma or point, header lengths, with and without a names line, number formats, within the number of lines preparsed",
 "Tests have about ten sample files.",
 [rt],[("preparse","readtext.py preparse"),("lazy_textpack","readtext.py")],["lazy_textpack(...)"])
p('C17',"Unreadable text data raises instead of giving wrong data",
 "If some selected numeric field can not be converted, or a given converter raises, reading raises that error and no pack is returned, whatever line it is on. With debug on the same exception is raised, after printing the 1-based number of the last line that was read successfully (for data without blank lines).",
 ['inputs','fault_sequences'],"all tables with a bad field or failing converter at any line and column, any skipped rows, with or without names in the file",
 "Tests have a single failing line number.",
 [rt],[("conversion errors propagate","readtext.py linetuples"),("debug output","readtext.py datadict")],["textpack(..., debug)","stdout"])
p('C18',"Readers release what they open and leave callers' streams open",
 "Whatever the outcome of a read - success, malformed content, an input/output error at any read, seek or close, or an exception from a converter - every file a reader opened itself is closed when it returns or raises, and a stream handed in by the caller is never closed. Input files are never modified, and a read that hits an error gives the complete result or raises, never a partial one.",
 ['fault_sequences','inputs'],"every input/output operation of every reader failing in turn, and all malformed contents",
 "Tests never inject input/output errors and never look at open files.",
 [rt,db,rx,xl+'book.py',xl+'__init__.py',xl+'xlsx.py'],[("contextopen","readtext.py"),("workbook context manager","xlrd/book.py __exit__, release_resources")],["open file descriptors","stream.closed","file bytes"])
p('C19',"DBF records are read to exactly the stored values",
 "Reading a DBF file gives one channel per field, in field order and named by the field names, with one element per record that is not marked deleted, in file order: numbers for numeric fields (int with no decimals, else float, nan if blank), floats for float fields, dates or None for date fields, 'T', 'F' or '?' for logical fields and the text for character fields.",
 ['inputs'],"all DBF files: any number and order of fields, sizes, decimals, records, deletion marks, blank values, header padding",
 "The tests read one sample file and a few constructed ones.",
 [db],[("dbfreader","dbf.py")],["dbfpack(...)"])
p('C20',"Selecting DBF fields is a projection of the full read",
 "Reading a DBF file with a list of field names gives, under the same channel numbers and names as in the full read, exactly the channels of those fields with exactly the same elements, for any set and order of names and whatever records are deleted. The source being a path, a file or a byte stream (read from the position it is in) makes no difference.",
 ['inputs','configurations'],"all DBF files, all subsets of fields, all patterns of deleted records, all source kinds",
 "Tests select fields from files without deleted records in awkward positions.",
 [db],[("dbfrecords","dbf.py"),("dbfpack","dbf.py")],["dbfpack(..., names)"])
p('C21',"A truncated or malformed DBF file raises",
 "If the file ends before all the values asked for in the records the header promises, at any byte, or a stored value can not be converted to its field type, reading it raises and never returns a pack with wrong or fewer records; data after the promised records is ignored.",
 ['crash_points','inputs'],"every truncation point of a DBF file, and bad values in any field and record, with and without selected names",
 "Tests do not truncate files.",
 [db],[("fixed size unpacking","dbf.py dbfreader, dbfrecords")],["dbfpack(...)"])
p('C22',"XLSX cells are read to exactly the stored values and types",
 "Opening an xlsx workbook gives for every sheet, by index and by name, a grid where each stored cell has exactly its stored value and type - number, date (by its number format), text (shared, rich, inline or formula string, with escapes and preserved spaces), boolean, error - and every other cell is empty; merged ranges, notes, defined names, sheet visibility and date system are as stored. Equivalent encodings of the same content (cell and row references present or omitted, part names in any case, parts in any order) give the same result.",
 ['inputs'],"all xlsx workbooks within the supported features: sheets, sparse cells, types, styles, string encodings, relationships layouts",
 "The tests open about ten sample files.",
 [xl+'xlsx.py',xl+'sheet.py',xl+'book.py'],[("cell decoding","xlrd/xlsx.py do_row"),("styles","xlrd/xlsx.py X12Styles"),("grid filling","xlrd/sheet.py put_cell, tidy_dimensions")],["xlrd.open_workbook(...)","sheetpack(...)"])
p('C23',"XLS cells are read to exactly the stored values and types",
 "Opening an xls workbook (BIFF8, BIFF5/7 and the older single sheet formats) gives for every sheet, by index and by name, a grid where each stored cell has exactly its stored value and type - number in any of the number encodings, date (by its number format), text from the shared table or the cell itself, boolean, error, formula result of each kind - and every other cell is empty, with the stored date system and sheet visibility.",
 ['inputs'],"all well formed xls workbooks over these record types: any order and position of cells, values, formats, code pages and string encodings",
 "The tests open a few sample files.",
 [xl+'book.py',xl+'sheet.py',xl+'biffh.py',xl+'formatting.py'],[("record decoding","xlrd/sheet.py read"),("number decoding","xlrd/sheet.py unpack_RK"),("formats","xlrd/formatting.py handle_xf, handle_format")],["xlrd.open_workbook(...)","sheetpack(...)"])
p('C24',"Spreadsheet columns become channels by the typing rule",
 "For the cells of a selected column: only numbers and missing cells (empty, blank or error) give the numbers with nan for missing; only text and missing cells give the text with '' for missing; any other mix gives what numpy makes of a list of each cell's own value with dates as datetimes, booleans as bool and missing cells as None. The values of a channel are in row order, one per row of the data range.",
 ['inputs'],"all columns of all mixes of cell types, in xls and xlsx files, in both date systems",
 "Tests cover a few mixes in sample sheets.",
 [rx],[("sheet_columns","readxl.py")],["sheetpack(...)"])
p('C25',"Spreadsheet ranges select exactly the cells addressed",
 "The pack holds exactly the columns selected (0-based numbers in any order, or letters and letter ranges; all columns of the range by default) under their sheet column numbers, with the rows from the start cell (below the header row if the range includes the header) to the stop cell, both within the sheet, inclusive, and defaulting to its first and last cell. Names come from the first row of the range, or from the row of the header cell given, or there are none; columns outside of the start and stop cells raise ValueError, and letters mean columns as in spread sheets (A is 0, Z 25, AA 26).",
 ['inputs','configurations'],"all sheets, start and stop cells, header settings, column selections and sheet references",
 "Tests use a handful of ranges.",
 [rx],[("cellreference, letter2num, normalize_usecols","readxl.py"),("sheetpack","readxl.py")],["sheetpack(...)"])
p('C26',"Excel dates convert to the right calendar date and time",
 "For every serial number of either date system, from 1 March 1900 (1 January 1904) to 31 December 9999, the datetime is the calendar date and time it denotes to the millisecond, the tuple the same to the second, and conversion back from a tuple gives the serial number; out of range or ambiguous serial numbers and invalid tuples raise the documented errors.",
 ['inputs'],"all day numbers of both systems and all times of day",
 "Tests try some dates; there are three million days and the rounding cases at second and day boundaries.",
 [xl+'xldate.py'],[("xldate_as_datetime, xldate_as_tuple, xldate_from_*","xlrd/xldate.py")],["xlrd.xldate functions","sheetpack(...)"])
p('C27',"A workbook in any valid compound file layout is read the same",
 "The content read from an xls workbook does not depend on how its compound file is laid out: stream contiguous or fragmented in any sector order, stored in ordinary or in short sectors, with sectors of 512 or 4096 bytes, allocation tables in extension sectors, other streams and storages before, after or between, any directory tree shape and any number of entries, memory mapped, read, or given as bytes.",
 ['inputs','configurations'],"all valid OLE2 compound file layouts of a given workbook stream",
 "The sample files have one layout each, mostly contiguous.",
 [xl+'compdoc.py',xl+'book.py'],[("stream location","xlrd/compdoc.py"),("loading","xlrd/book.py biff2_8_load")],["xlrd.open_workbook(...)"])
p('C28',"Shared strings survive every split over continuation records",
 "Every string of an xls workbook's shared string table is read exactly, however the table is split over continuation records: between or inside strings, before or after headers, switching between one and two byte characters at a split, with rich text runs and phonetic data being no part of the text wherever they are split.",
 ['inputs'],"all string tables and all split positions allowed by the format",
 "Splits occur only in big files; no test has one at each kind of position.",
 [xl+'book.py'],[("unpack_SST_table","xlrd/book.py")],["xlrd.open_workbook(...)","sheet.cell_value"])
p('C29',"All ways to read a sheet agree",
 "For any sheet, cells, rows, columns, slices (with defaults, negative and out of range bounds), types, values and lengths read by any of the access methods agree with the single cell access, out of range cells raise IndexError. Loading xls sheets on demand (with unloading and reloading, in any order), ragged rows read by cell or row, and memory mapping change nothing but the trailing empty cells and the time of loading.",
 ['inputs','histories','configurations'],"all sheets, all index arguments, all open options and all orders of loading and unloading",
 "Tests compare a few accesses on sample sheets.",
 [xl+'sheet.py',xl+'book.py'],[("row and column access","xlrd/sheet.py"),("on demand loading","xlrd/book.py get_sheet, unload_sheet")],["Sheet access methods","Book.sheet_by_*"])
p('C30',"Damaged spreadsheet files fail cleanly and quickly",
 "For any truncation or corruption of a spreadsheet file, opening and reading it either returns or raises an ordinary exception after work bounded by the size of the file and the extent of its sheets: it never hangs, never exhausts the stack or memory, and never leaves files open.",
 ['inputs','fault_sequences'],"all truncations and byte, record, sector table and XML corruptions of xls and xlsx files",
 "Tests have one or two corrupt samples.",
 [xl+'compdoc.py',xl+'book.py',xl+'sheet.py',xl+'xlsx.py'],[("sector chain checks","xlrd/compdoc.py seen"),("record loops","xlrd/book.py, xlrd/sheet.py")],["steps executed","exceptions","open file descriptors"])
p('C31',"Number formats are classed as date or not by their meaning",
 "A number cell is a date exactly if its format is one of the standard date or time formats, or a custom format with date or time codes (y, m, d, h, s in either case) outside of quoted text, escaped characters and square brackets, and with no digit placeholders among them; literals, colours, conditions and currency in the format never make a number a date or a date a number.",
 ['inputs'],"all format strings composed of date codes, digit placeholders, quoted and escaped literals, fill and padding characters, bracketed parts and sections, in xls and xlsx files",
 "Tests hold a short list of format strings.",
 [xl+'formatting.py',xl+'xlsx.py'],[("is_date_format_string","xlrd/formatting.py"),("standard formats","xlrd/formatting.py std_format_code_types")],["sheet.cell_type"])
p('C32',"Every read stands alone",
 "The outcome of reading a file with given arguments - the pack, the workbook content, or the type of exception - is the same as in a fresh process, whatever was read or failed to be read before, whatever the caller has done to packs handed out earlier, and whatever other threads are reading at the same time from sources of their own. Results handed out are never changed by later reads, and the lists and dicts passed as arguments are left as they were.",
 ['histories','schedules','inputs'],"all sequences of reads by any of the readers with valid and damaged content, alterations of packs in between, and all interleavings of reads in threads",
 "Tests make each read once, in a fixed order and one thread; state left behind shows only in particular histories or interleavings.",
 [rt,db,rx,pk,xl+'book.py',xl+'xlsx.py',xl+'__init__.py'],[("arguments taken and packs made","readtext.py textpack, lazy_textpack, dbf.py dbfpack, readxl.py sheetpack"),("workbook objects","xlrd/book.py open_workbook_xls, xlrd/xlsx.py open_workbook_2007_xml")],["packs and workbooks returned","arguments passed"],
 [("module and class level state","nothing read is kept there","all modules")])
p('C33',"Notes, links and layout of xls sheets are as stored",
 "With formatting_info, the notes (text, author, cell, visibility, rich text runs), hyperlinks (range, kind, target, description, screen tip, text mark), row heights, column widths and their attributes, outline levels, page breaks, panes and window settings of an xls sheet are those stored in the file, for every version that has them, however text is split over continuation records and whatever characters it has. Cell content is the same with and without them.",
 ['inputs','configurations'],"all valid xls sheets with notes, hyperlinks, row and column records, page breaks and window settings",
 "Sample files have few of these, one version and plain text.",
 [xl+'sheet.py'],[("hyperlinks","xlrd/sheet.py handle_hlink, handle_quicktip"),("notes","xlrd/sheet.py handle_note, handle_txo, handle_obj"),("layout","xlrd/sheet.py read")],["Sheet attributes cell_note_map, hyperlink_list, colinfo_map, rowinfo_map, page breaks, window settings"])
p('C34',"Defined names of xls workbooks are as stored",
 "The defined names of an xls workbook are listed in the order stored with name (built-in ones decoded), scope and flags, and are found by name in lower case and by scope; constants, arithmetic on numbers, references and lists of references give exactly the value stored, relative or absolute, and cell() and area2d() address exactly the cells referred to, or raise XLRDError for anything else. A name whose formula is not evaluated has no value rather than a wrong one, and no formula of a name prevents the workbook from being opened and its cells read.",
 ['inputs'],"all sets of defined names and all formulas valid in them, in BIFF 5, 7 and 8 files",
 "Sample files have a few names with plain references.",
 [xl+'book.py',xl+'formula.py'],[("names","xlrd/book.py handle_name, names_epilogue, Name"),("evaluation","xlrd/formula.py evaluate_name_formula")],["Book.name_obj_list, name_map, name_and_scope_map","Name.result, cell(), area2d()"])
p('C35',"Fonts, cell formats, styles and colours of xls workbooks are as stored",
 "With formatting info an xls workbook gives every font, cell format (number format, font, parent, alignment, borders, background, protection and which of them are in force), style and palette colour exactly as stored, in order and under its own index, in every BIFF version. Every cell leads, by its format index, to the cell format stored for it.",
 ['inputs'],"all sets of fonts, cell formats, styles and palettes valid in BIFF 2 to 8 files",
 "Sample files have few formats and the tests look at some attributes of some of them.",
 [xl+'formatting.py',xl+'sheet.py'],[("records","xlrd/formatting.py handle_font, handle_xf, handle_style, handle_palette"),("cells","xlrd/sheet.py Sheet.cell_xf_index")],["Book.font_list, xf_list, format_map, style_name_map, colour_map","Sheet.cell_xf_index"])
p('C36',"Copies of a pack are equal and independent; its printed form recreates it",
 "A pack copied by deepcopy or by pickling has the same data, names, mask, parts and settings as the original, and behaves the same in every operation from then on, while no operation on one of them has an effect on the other. The printed form of a pack is a Python expression making a pack with the same channels and names, for values that numpy prints in full.",
 ['inputs','histories'],"all packs, all histories of operations before and after the copy",
 "The tests do not copy packs, and compare one printed form.",
 [pk],[("printed form","pack.py ChannelPack.__repr__"),("state","pack.py ChannelPack.__setattr__, NpDict, IntKeyDict")],["copy.deepcopy, pickle","ChannelPack.__repr__"])
p('C37',"Workbooks tell of themselves what is stored; a given encoding is used",
 "A workbook tells the version, date system, code page, country settings, name of the last user, document properties and number format records stored in it, for every format and version, in whatever order and by whatever program they were written. When an older file has no code page or a wrong one, opening it with encoding_override gives every text of it as written in that encoding.",
 ['inputs'],"all user names, countries, code pages, encodings and document properties in BIFF 2 to 8 and xlsx files",
 "The tests look at few of these attributes, in few files.",
 [xl+'book.py',xl+'xlsx.py'],[("globals","xlrd/book.py derive_encoding, handle_codepage, handle_writeaccess, handle_country, getbof"),("document properties","xlrd/xlsx.py X12Book.process_coreprops"),("override","xlrd/__init__.py open_workbook")],["open_workbook(encoding_override=...)","Book.user_name, countries, codepage, encoding, biff_version, format_list, props"])
p('C38',"The record listings of an xls file account for every byte of its stream",
 "The listing made by dump of any xls file shows every record of its stream, in order, with its offset, code, name, length and bytes, tells of every byte that is not in a record, and leaves nothing out and adds nothing, numbered or not. The summary made by count_records has the number of records of each name, and the codes of those that have none.",
 ['inputs'],"all record streams, in bare files and in compound files, with zeros and odd bytes between and after the records",
 "The tests list no file byte by byte.",
 [xl+'biffh.py',xl+'__init__.py'],[("listing","xlrd/biffh.py biff_dump, hex_char_dump"),("summary","xlrd/biffh.py biff_count_records")],["xlrd.dump(filename, outfile, unnumbered)","xlrd.count_records(filename, outfile)"])
p('C39',"Cells, columns and ranges are named as in spread sheets",
 "The name of every column, cell, range and relative range, in A1 notation and in R1C1 notation, means by the rules of spread sheets exactly those cells on those sheets, for every column of every format, every base cell, and sheet names with spaces and apostrophes. The text of a defined name that is a reference means the cells referred to.",
 ['inputs'],"all columns, cells, ranges, relative references, base cells and sheet names",
 "No test names a cell.",
 [xl+'formula.py'],[("names","xlrd/formula.py colname, cellname, cellnameabs, rangename3d, rangename3drel"),("text of names","xlrd/formula.py evaluate_name_formula")],["xlrd.colname, cellname, cellnameabs","xlrd.rangename3d, rangename3drel","Name.result.text"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    import re
    n=len(re.findall(r'[.](?:\s|$)',x['statement']))
    if n>3: print(x['id'],n)
print(len(P))
