Y = 'include/CommonSEGY.hpp'
PLIST = [
 dict(id='P01', title='SEG-Y samples decode to exactly the values their bytes encode',
  statement='For every SEG-Y file whose sample format code is supported, in either byte order, every sample delivered for a trace equals exactly the number its bytes encode under that format (hexadecimal float, IEEE single and double, signed and unsigned integers of 1, 2, 3, 4 and 8 bytes). The number of samples delivered equals the number the file declares, and reading stops exactly at the end of the data.',
  q='all 13 sample formats, both byte orders, all trace lengths and all sample bytes',
  why='tests read a few sample files in one or two formats; most formats, byte orders and bit patterns are never exercised',
  files=['src/ISEGY.cpp', 'src/CommonSEGY.cpp', 'include/util.hpp'],
  mech=[('sample readers', 'src/ISEGY.cpp read_trace_samples, CommonSEGY::Impl sample reading functions'), ('byte order conversion', 'include/util.hpp read<>')],
  observe=['ISEGY::read_trace', 'ISEGY::has_trace'],
  note='All 39 format and byte-order instances proved for every trace length and content; trusts the stream model, clang and z3.'),
 dict(id='P02', title='SEG-Y text and binary file headers are reported as stored',
  statement='For every SEG-Y file, every field of the reported binary header is the value stored at its position defined by the standard, in the byte order the file declares, and the reported text header is the first 3200 bytes. A binary header supplied by the caller replaces the stored one field for field, except that the byte order is always taken from the file.',
  q='all file contents, revisions and byte orders',
  why='a test compares a few fields of a few files; a field read from a wrong offset, width or sign shows only for values that occur in no sample file',
  files=['src/ISEGY.cpp', 'src/CommonSEGY.cpp', Y, 'include/util.hpp'],
  mech=[('binary header reading', 'src/ISEGY.cpp read_bin_header'), ('binary header override', 'src/ISEGY.cpp constructors')],
  observe=['ISEGY::binary_header', 'ISEGY::text_headers'],
  note='Proved for every content, both revision classes and all byte orders; trusts the stream model, clang and z3.'),
 dict(id='P03', title='SEG-Y trace header fields follow the header map',
  statement='For every trace header and every header map, each mapped field is reported under its name with the value its bytes encode for the declared type at the mapped position, including fields in additional trace headers. The default map places the standard fields where the SEG-Y standard puts them.',
  q='all field types, positions, byte orders, numbers of additional headers and header contents',
  why='tests look at a few fields of a few traces; type, position and byte order combinations are too many to sample',
  files=['src/ISEGY.cpp', 'src/CommonSEGY.cpp', Y],
  mech=[('trace header reading', 'src/ISEGY.cpp read_trace_header, read_additional_trace_headers'), ('default map', 'src/CommonSEGY.cpp default_trace_header')],
  observe=['ISEGY::read_trace', 'ISEGY::read_header', 'Trace::Header::get'],
  note='Each type is proved at an arbitrary position in an arbitrary header for each byte order; the default map and up to three additional headers are proved for all contents.'),
 dict(id='P04', title='A SEG-Y reader delivers every trace once, in order',
  statement='For every SEG-Y file, consecutive reads deliver consecutive traces: each trace starts right where the previous one ended, whatever mix of full and header-only reads was used, for fixed-length and for variable-length traces, with or without additional headers and a stored first-trace offset. A header-only read reports the same header as a full read, and the end of the data is reported exactly after the last trace.',
  over=['inputs', 'histories'],
  q='all positions, trace lengths and mixes of full and header-only reads',
  why='tests iterate through one or two files with one kind of read',
  files=['src/ISEGY.cpp'],
  mech=[('trace reading and skipping', 'src/ISEGY.cpp read_trace, read_header')],
  state=[('curr_pos', 'file position of the next trace', 'src/CommonSEGY.cpp CommonSEGY::Impl')],
  observe=['ISEGY::read_trace', 'ISEGY::read_header', 'ISEGY::has_trace'],
  note='Proved for two consecutive reads from an arbitrary position of the file, which is the induction step over any number of reads.'),
 dict(id='P14', title='Byte-order and BCD primitives are exact and inverse',
  statement='Changing byte order reverses the bytes of a value and is its own inverse for every scalar type. Writing a number in packed decimal stores exactly its decimal digits, leaves the neighbouring half byte alone, advances over exactly the bytes used, and reading it back gives the number.',
  q='all values, digit counts up to four and both alignments',
  why='tests check a handful of numbers',
  files=['include/util.hpp'],
  mech=[('byte swapping', 'include/util.hpp swap'), ('packed decimal', 'include/util.hpp to_bcd, from_bcd')],
  note='Proved for all values of every scalar type and 2 to 4 digits at both alignments.'),
 dict(id='P20', title='Files that cannot be interpreted are refused, never misread',
  statement='A SEG-Y file with an unknown byte-order mark or an unsupported sample format is refused with an exception on opening, and exactly such files are. A file too short for its headers, or a trace whose bytes are not all there, raises an exception and is never delivered with made-up content.',
  q='all byte-order marks, format codes, file sizes and trace lengths',
  why='tests only open well-formed files',
  files=['src/ISEGY.cpp', 'src/CommonSEGY.cpp'],
  mech=[('file byte order', 'src/ISEGY.cpp constructor'), ('format selection', 'src/ISEGY.cpp assign_sample_reader'), ('stream error mask', 'src/CommonSEGY.cpp')],
  observe=['ISEGY::ISEGY', 'ISEGY::read_trace'],
  note='Proved for every mark, format code and file size; relies on the stream model for the reporting of short reads.'),
 dict(id='P05', title='Extended text headers and trailer stanzas are all found and reported',
  statement='For every SEG-Y file, the reported text headers are the primary one followed by exactly the extended ones the file holds: as many as the binary header states, or, when it states a variable number, all up to and including the end stanza. Trace data starts right behind them. Trailer stanzas (a stated number, or all up to the end stanza) are taken from behind the last trace, are reported complete and in order, and are never delivered as traces. A file whose announced end stanza is missing, or whose stanzas cannot be located, is refused.',
  q='all contents of the records, byte orders, numbers of samples and traces',
  why='no sample file of the tests has extended headers or trailers in most of these forms',
  files=['src/ISEGY.cpp', Y],
  mech=[('extended text headers', 'src/ISEGY.cpp read_ext_text_headers'), ('trailer stanzas', 'src/ISEGY.cpp read_trailer_stanzas')],
  observe=['ISEGY::text_headers', 'ISEGY::trailer_stanzas', 'ISEGY::read_trace', 'ISEGY::has_trace'],
  note='Proved for up to three records of each kind with arbitrary content, any number of fixed-length traces and up to three variable-length traces of any length; the number of text records is enumerated.'),
 dict(id='P06', title='SEG-Y samples are written as the exact encoding of their values',
  statement='For every trace written to a SEG-Y file, in every supported sample format and byte order, each sample is stored, in order and in exactly the space its format takes, as the encoding of its value: the bits of the number for IEEE double, the nearest number for IEEE single, the value cut to 24 fraction bits for hexadecimal float (zero below its range, the largest number above it), and the whole part for integers in range. Numbers a format can hold are therefore read back unchanged.',
  q='all 13 sample formats, both byte orders, all numbers of samples and all sample values',
  why='tests write one file in one format and compare it with a stored one; wrong encodings at powers of 16, negative numbers or odd widths occur for values in no test',
  files=['src/OSEGY.cpp', 'src/CommonSEGY.cpp', 'include/util.hpp'],
  mech=[('sample writers', 'src/OSEGY.cpp write_trace_samples, sample writing functions'), ('hexadecimal float', 'src/OSEGY.cpp IBM float writer')],
  observe=['OSEGY::write_trace'],
  note='All 39 format and byte-order instances proved for every number of samples up to 65535 and every value; trusts the stream model, clang and z3.'),
 dict(id='P07', title='SEG-Y text and binary file headers are written as given',
  statement='A file made by a SEG-Y writer starts with the given text header and the binary header; every binary header field given by the user is stored at its position defined by the standard, in the chosen byte order, with the byte-order mark to match. The numbers of extended text headers and trailer stanzas are those actually written, the revision shown is that of the writer, and a missing format becomes the default of the revision. An empty binary header is completed with the number of samples and the sample interval of the first trace. Without a text header a default one is written.',
  q='all header contents, byte orders, revisions and numbers of extended headers up to two',
  why='tests write one binary header; a wrong offset, width or order of a field shows only for other values',
  files=['src/OSEGY.cpp', 'src/OSEGYRev0.cpp', 'src/OSEGYRev1.cpp', 'src/OSEGYRev2.cpp', 'src/CommonSEGY.cpp'],
  mech=[('binary header writing', 'src/OSEGY.cpp write_bin_header'), ('default and extended text headers', 'src/OSEGYRev0.cpp, src/OSEGYRev1.cpp, src/OSEGYRev2.cpp'), ('completion from the first trace', 'src/OSEGYRev0.cpp, OSEGYRev1.cpp, OSEGYRev2.cpp write_trace')],
  observe=['OSEGYRev0', 'OSEGYRev1', 'OSEGYRev2'],
  note='Proved for all contents of all fields, three byte orders, three revisions and up to two extended text headers.'),
 dict(id='P08', title='SEG-Y trace headers are written as the header map says',
  statement='For every header map and every trace, each mapped field of the trace header is stored at the mapped position as the encoding of its value in the mapped type and the byte order of the file; integer and floating point values are converted to the kind the map asks for, fields the trace does not have and bytes no field covers are zero, and values never leak from one trace into another. Additional trace headers follow the standard one, in the order of the maps. The default map places the standard fields where the SEG-Y standard puts them.',
  q='all field types, positions, byte orders, values and up to three additional headers',
  why='tests write a few fields of a few traces',
  files=['src/OSEGY.cpp', 'src/CommonSEGY.cpp'],
  mech=[('trace header writing', 'src/OSEGY.cpp write_trace_header, write_additional_trace_headers'), ('default map', 'src/CommonSEGY.cpp')],
  observe=['OSEGY::write_trace'],
  note='Each type is proved at an arbitrary position for each byte order; the default map and up to three additional headers are proved for all values.'),
 dict(id='P09', title='A written SEG-Y file holds everything, in order, and nothing else',
  statement='A file made by a SEG-Y writer consists of the text header, the binary header, the extended text headers, all traces in the order they were written, each complete, and, for revision 2, the trailer stanzas, with no gap, overlap or rest, for traces of fixed and of variable length, so that a reader finds all of it again. What the file could not hold is refused with an exception: a text header that does not have 3200 characters, an unknown byte order or format, a first trace without usable number of samples and interval when these are needed, or a trace whose number of samples differs from the one the file states.',
  over=['inputs', 'histories'],
  q='all record contents, trace lengths, byte orders and revisions',
  why='tests write one file and compare it with a stored one',
  files=['src/OSEGY.cpp', 'src/OSEGYRev0.cpp', 'src/OSEGYRev1.cpp', 'src/OSEGYRev2.cpp'],
  mech=[('file layout', 'src/OSEGY.cpp, src/OSEGYRev2.cpp'), ('trace writing', 'src/OSEGY.cpp write_trace')],
  state=[('file', 'output position', 'src/CommonSEGY.cpp CommonSEGY::Impl')],
  observe=['OSEGY::write_trace', 'OSEGYRev2::~OSEGYRev2'],
  note='Proved for two traces of any length behind one another (the induction step) with up to one extended header and two stanzas of any content.'),
 dict(id='P10', title='EBCDIC and ASCII text conversion is code page 037 and reversible',
  statement='Converting text from EBCDIC to ASCII or back replaces every character by its IBM code page 037 counterpart, for all 256 characters and any length, keeps the length, and converting there and back gives the original text.',
  q='all texts of any length and all characters',
  why='a test converts one sentence; the table has 256 entries in each direction',
  files=['src/CommonSEGY.cpp', Y],
  mech=[('conversion', 'src/CommonSEGY.cpp ebcdic_to_ascii, ascii_to_ebcdic and their tables')],
  observe=['CommonSEGY::ebcdic_to_ascii', 'CommonSEGY::ascii_to_ebcdic'],
  note='Proved for texts of any length and content against an independently generated code page table.'),
 dict(id='P11', title='Only consistent trace header maps are accepted',
  statement='Opening a file with a trace header map succeeds only if every mapped field lies inside its 240-byte header, no two fields of a header overlap, every header name has exactly eight characters, and the number of mapped additional headers fits the binary header; every other map is refused with an exception, and every map that meets these conditions is accepted.',
  q='all field positions and types, header names and header counts',
  why='the number of overlapping and out-of-range field combinations is far beyond what tests try',
  files=['src/CommonSEGY.cpp'],
  mech=[('map validation', 'src/CommonSEGY.cpp CommonSEGY::Impl constructor')],
  observe=['CommonSEGY::CommonSEGY'],
  note='Proved for all positions and types of up to three fields, all name lengths and up to five maps.'),
 dict(id='P13', title='Traces and their headers behave as independent values',
  statement='A header value can be read back under its name with the type and value it was set to; setting a name again replaces its value, names never set have none, and the list of names has each once. Copies of traces and headers have the content of the original and are independent of it, moving transfers the whole content, assignment replaces it, and self-assignment changes nothing; a trace keeps exactly the samples it was made with.',
  over=['inputs', 'histories'],
  q='all header values, all sample counts and contents, every copy, move and assignment operation',
  why='tests never copy, assign or move a trace and then change one of the two',
  files=['src/Trace.cpp', 'include/Trace.hpp'],
  mech=[('value semantics', 'src/Trace.cpp, include/Trace.hpp')],
  observe=['Trace', 'Trace::Header'],
  note='Proved for all values and sample vectors of any length; key sets are enumerated up to 15 other keys.'),
 dict(id='P21', title='Exceptions always carry file, line and message',
  statement='The text of an exception is the file name, the line number in decimal and the message, separated by blanks, for every content of these, and it stays the same in copies, moved-to and rethrown exceptions for as long as they live.',
  q='all file names, messages and line numbers, all ways of copying',
  why='tests never look at the message of a copied or rethrown exception',
  files=['src/Exception.cpp', 'include/Exception.hpp'],
  mech=[('message', 'src/Exception.cpp')],
  observe=['Exception::what'],
  note='Proved for all texts up to 65535 characters and all line numbers, with the decimal digits of a number as a function of the number.'),
 dict(id='P12', title='Sorted reading delivers every trace once, in order of the key',
  statement='Reading a SEG-Y file sorted by a trace header delivers every trace of the file exactly once, with its own header and samples, in ascending order of the header value; traces with equal values come in file order. The list of keys has each occurring value once, in order; asking for the traces or headers of a value delivers exactly those, in file order and no more than asked for, and does not disturb sequential reading. A file without traces delivers none, and sorting by a header the traces do not have is an error.',
  over=['inputs', 'histories'],
  q='all key values (integer and floating point, with ties), full and header-only reads, both byte orders; up to four traces',
  why='tests sort a file or two; ties, equal and extreme keys and lookups between sequential reads are not sampled',
  files=['src/ISEGYSorted1D.cpp'],
  mech=[('sorting', 'src/ISEGYSorted1D.cpp constructor'), ('delivery', 'src/ISEGYSorted1D.cpp read_trace, read_header, get_traces, get_headers, get_keys')],
  state=[('order', 'map from key to file positions', 'src/ISEGYSorted1D.cpp Impl')],
  observe=['ISEGYSorted1D::read_trace', 'ISEGYSorted1D::read_header', 'ISEGYSorted1D::get_traces', 'ISEGYSorted1D::get_headers', 'ISEGYSorted1D::get_keys'],
  note='Bounded in the number of traces: for up to four traces (three for lookups by key) every obligation is proved for all key values, and for up to two traces for any trace length; more traces are not covered.'),
 dict(id='P15', title='SEG-D general headers are reported as stored',
  statement='For every SEG-D file of revisions 0 to 3, each field of the general headers 1, 2, 3 and of the further ones is reported with the value stored at its place defined by the standard, including packed decimals, scaled values and signs; every additional block of revision 3 is reported under its kind with the fields of that kind. Extended and external header blocks are all reported, whole, as stored, whether their number is in the first or second general header. Nothing is reported that the file does not have, and exactly the known sample formats are accepted.',
  q='all contents of all header fields, all revisions, both ways of giving the numbers of blocks, all 24 kinds of additional blocks',
  why='tests print the headers of one or two sample files; most blocks and fields never occur in them',
  files=['src/ISEGD.cpp', 'include/CommonSEGD.hpp', 'include/util.hpp'],
  mech=[('general headers', 'src/ISEGD.cpp read_gen_hdr1, read_gen_hdr2_rev2, read_gen_hdr2_and_3'), ('additional blocks', 'src/ISEGD.cpp read_rev2_add_gen_hdr_blks, read_rev3_add_gen_hdr_blks'), ('extended and external headers', 'src/ISEGD.cpp read_headers_before_traces')],
  observe=['ISEGD::general_header', 'ISEGD::general_header2', 'ISEGD::general_header3', 'ISEGD::general_headerN', 'ISEGD::extended_headers', 'ISEGD::external_headers'],
  note='Proved for all field contents; numbers of blocks are enumerated (up to two additional, up to three extended and external ones).'),
 dict(id='P16', title='SEG-D channel sets are reported as stored',
  statement='For every SEG-D file, the channel sets of every scan type are all reported, in order, each field with the value stored at its place defined by the standard for the revision; what only revision 3 has is absent for older files. Sample skew blocks are skipped, however many there are, and the record has traces exactly when its channel sets have channels.',
  q='all contents of all fields, revisions, numbers of skew blocks, both ways of giving the numbers',
  why='tests print the channel sets of one or two sample files',
  files=['src/ISEGD.cpp', 'include/CommonSEGD.hpp'],
  mech=[('channel set headers', 'src/ISEGD.cpp read_ch_set_hdr, read_headers_before_traces')],
  observe=['ISEGD::channel_set_headers', 'ISEGD::has_trace'],
  note='Proved for all field contents and any number of skew blocks; up to three scan types and three channel sets each are enumerated.'),
 dict(id='P17', title='SEG-D traces come with their headers, in order, record by record',
  statement='For every SEG-D file, consecutive reads deliver the traces of a record one after another, each starting where the previous one ended whatever its number of samples and header extensions, and then those of the next record with the headers of that record, skipping a general trailer; the end is reported exactly after the last trace. Each trace header field is the value stored at its place, extended numbers taking precedence; the standard extension is reported for its revision, and with a map each mapped field of each extension block has the value its bytes encode in the mapped type. A trace whose channel set the file does not have is refused.',
  over=['inputs', 'histories'],
  q='all header contents, mapped positions and types, numbers of samples, revisions and trailer sizes',
  why='tests read a sample file or two from start to end; extended numbers, trailers, several records and most field types do not occur in them',
  files=['src/ISEGD.cpp'],
  mech=[('trace headers', 'src/ISEGD.cpp read_trace_header, read_trace_header_ext'), ('sequence', 'src/ISEGD.cpp read_trace, read_trailer, read_headers_before_traces')],
  state=[('chans_read', 'traces of the record already read', 'src/ISEGD.cpp ISEGD::Impl'), ('curr_pos', 'file position', 'src/ISEGD.cpp ISEGD::Impl')],
  observe=['ISEGD::read_trace', 'ISEGD::has_trace', 'ISEGD::has_record'],
  note='Proved for all contents, numbers of samples and trailer blocks; three traces of two channel sets and two records are enumerated, pow is an uninterpreted function where its exponent is not concrete.'),
 dict(id='P18', title='SEG-D samples decode to exactly the values their bytes encode',
  statement='For every SEG-D trace in every supported sample format, the samples delivered are, in order and in the declared number, exactly the values their bytes encode under that format (integers of 24 and 32 bits, quaternary, hexadecimal and binary exponents, IEEE single and double, big and little endian) times the power of two the channel set gives.',
  q='all 14 sample formats, all numbers of samples, sample bytes and scale exponents',
  why='tests print the samples of files in one or two formats',
  files=['src/ISEGD.cpp', 'include/util.hpp'],
  mech=[('sample readers', 'src/ISEGD.cpp assign_sample_reading, read_trace_samples')],
  observe=['ISEGD::read_trace'],
  note='Proved for every number of samples up to 65535 and all sample bytes; a power with a fractional exponent is an uninterpreted function of the exponent.'),
]
NA = {}
