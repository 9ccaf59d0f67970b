P('C01', 'Integer and fixed-point values survive text conversion exactly',
  'Every 32/64-bit integer and every fixed-point value (tenths to billionths) is printed as the decimal numeral of exactly that value (sign, all digits, correct place of the point) and converting that text back stores the same value, aligned, in its own bytes only. '
  'The number scanners accept exactly [spaces][-]digits (unsigned scanners no sign; 0x hexadecimal where supported), consume exactly the numeral, deliver its value whenever it fits the type, and on rejection leave the destination untouched.',
  ['inputs'], 'every 32-bit and 64-bit value; every text with a numeral of up to 20 digits',
  'tests convert a handful of constants; extreme values, signs of fractions, digit counts and rejected texts are never all tried',
  [T, U, M], [('XBT_ToStringChunk', T), ('XBT_FromString / str2dec', T), ('ScanInt, ScanInt64, ScanUInt64, ScanUInt64Hex', M), ('Int64ToStr', U)], observe=['text and consumed length', 'stored bytes'])
P('C02', 'Dates and times convert to and from text without changing the instant',
  'Every day number prints as its proleptic Gregorian date and every second or millisecond count as its own UTC date and time with zero padded fields; scanning such a text returns the same number. '
  'The scanners accept exactly existing dates and times of day (leap years right, seconds below 60), apply a time zone offset with its sign, and reject anything else without reporting success.',
  ['inputs'], 'every day number with a year of up to six digits, every 32-bit second count, every millisecond count, every field combination of a text',
  'tests sample single dates; leap-year ends, centuries, dates before 1970, offsets and impossible dates are unlimited in number',
  [T, U], [('UnixDate2Str, ScanUnixDate', U), ('ScanUnixTime, ScanUnixTime64msec', U), ('UnixTime642Str', U), ('XBT_ToStringChunk / XBT_FromString dispatch', T)], observe=['text', 'stored number'])
P('C03', 'Hexadecimal, GUID, SHA-1, Base64 and IPv4 texts carry their exact bytes',
  'Printing a hexadecimal blob, GUID, SHA-1 digest or IPv4 address yields the canonical text of exactly its bytes, and converting the canonical text back stores exactly those bytes with the right length. '
  'The scanners of these forms reject texts with a wrong digit, a wrong separator or too few digits, and Base64 encoding follows RFC 4648 (with padding) and never writes beyond the given buffer.',
  ['inputs'], 'every byte string / every text up to the stated lengths, every buffer size',
  'tests encode one or two fixed values', [T, U, M], [('ScanHex, ScanGUID, ScanSHA1, ScanIPv4', U), ('Hex printing in XBT_ToStringChunk / XBT_ToString', T), ('base64_encode', U)])
P('C04', 'A detected value type can always represent the text it was detected for',
  'Whenever type detection assigns a value type to a text, converting the text to that type succeeds and does not lose information: printing the stored value gives a text of the same value. Text which no value type represents is detected as string.',
  ['inputs'], 'every text', 'the texts are unlimited; detection uses character-class counts that only special combinations confuse', [T], [('XBT_Detect, XBT_Detect2', T), ('XBT_JoinTypes', T)],
  na='type detection is a heuristic over character-class counts which loses information on the pinned code for several classes of text (listed in DESIGN.md); the fix changes the design of the detector, and a check restricted to the texts where it holds was not built')
P('C05', 'Joining and sizing of value types is coherent',
  'Joining the types of several occurrences gives the same result in every order and grouping, joining a type with itself changes nothing, empty occurrences never change the result, and anything mixed with text is text. '
  'Every in-place value type reports one consistent size and alignment through all interfaces, a string or blob value is sized as exactly its stored bytes, and comparing stored values is a consistent order that agrees with equality.',
  ['inputs', 'configurations'], 'all triples of value types; every stored value', 'tests join only the pairs that occur in the sample documents',
  [T, 'include/binary_xml/bin_xml_types.h'], [('XBT_JoinTypes', T), ('XBT_Size2, XBT_Align, XBT_FIXEDSIZE', T), ('XBT_Compare, XBT_Equal', T)])
P('C06', 'Value conversion and copying stay inside the buffers they are given',
  'Storing a text as a value, copying a value and printing a value never write outside the destination buffer and never read outside the source value, whatever the sizes; when the destination is too small the call reports failure. A copied value compares byte for byte equal to its source.',
  ['inputs'], 'every value type, every content, every free space', 'tests use large buffers only', [T], [('XBT_FromString', T), ('XBT_Copy', T), ('XBT_ToStringChunk', T)])
P('C07', 'Readers accept only well-formed binary documents and stay inside the file',
  'For any file content, checking a document reads only bytes inside the file and accepts it only if every element, parameter, string and child offset points inside the document; symbol tables accepted at load hold only names inside the file.',
  ['inputs'], 'every byte content of a file', 'tests only read files the library wrote', [B], [('XB_reader::Initialize, CheckSymbol', B), ('XML_Item::Check', B), ('XML_Symbol_Table / XML_Param_Symbol_Table::Load', B)])
P('C08', 'Name lookup finds exactly the names that were registered',
  'Looking a name up in the symbol tables of a document or of a writer returns an id of a registered symbol with exactly that name and its type if there is one, and nothing otherwise; registering a known name never creates a second symbol, and ids already given out stay valid.',
  ['histories', 'inputs'], 'every sequence of registered names', 'tests use a few fixed names in one order', [B, C, W], [('XML_Symbol_Table lookup', B), ('XB_symbol_table::getSymbol', C)])
P('C09', 'Pool memory is handed out aligned, disjoint and inside the pool',
  'Every block handed out by the shared memory pool lies completely inside the pool, is aligned as requested, is zero filled where promised and does not overlap any block handed out before; when the pool is full the request fails, nothing already stored changes and later smaller requests still work.',
  ['inputs', 'histories'], 'every pool size, fill level and request size', 'tests never fill a pool', [W, 'include/binary_xml/bin_write_plugin.h'], [('BW_pool::allocate, allocate8', W)])
P('C10', 'Element lists stay consistent circular lists under every operation',
  'Adding, joining and replacing elements in the tree under construction leaves every sibling list a proper circular doubly linked list that contains exactly the elements put there, in the order of insertion.',
  ['histories', 'inputs'], 'every list length and operation', 'tests only append', [W, 'include/binary_xml/bin_write_plugin.h'], [('BW_element::join, add, replace, findChild', W)])
P('C11', 'Typed values written to a tree are read back unchanged',
  'A value stored in an element or attribute through a typed setter is returned unchanged by the matching getter, has exactly the bytes of its type, and an update in place keeps every other value of the tree unchanged.',
  ['inputs'], 'every value of every type', 'tests print a few constants', [W], [('BW_element tag*/attr* setters and getters', W)])
P('C12', 'The registry of tag and attribute names of a writer is exact',
  'Registering a new name with a type yields an id whose name and type are those given and keeps the id, name and type of every name registered before; registering a known name returns its id and joins the types. '
  'A name is found exactly when it was registered, a registration that fails (unknown type, full pool) leaves the ids as they were, and a writer reopened for checking accepts a registration only with the same id, name and type and changes nothing. Ids are registered in order.',
  ['histories', 'inputs'], 'every table content, name, type, fill level of the pool; histories of a few hundred registrations', 'tests register a fixed list of a few different names once; prefixes, empty names, moved tables, full pools and ids over 127 never occur', [W, 'include/binary_xml/bin_write_plugin.h'],
  [('BW_symbol_table_16B::getByName, getName, getType, getNamesSize, check, Open', W), ('BW_plugin::registerTag / registerAttr / registerParam', W), ('BW_plugin::alterTag / alterAttr', W), ('BW_pool::makeTable, getTagName, getAttrName, getTagType, getAttrType', W)], observe=['returned ids', 'names, types and bytes of the pool'])
P('C13', 'The JSON tokenizer never leaves its input and yields well nested tokens',
  'For every input text and every token budget, the JSON tokenizer reads only the text and writes only the token array, and either reports an error or returns tokens whose ranges lie inside the text, are properly nested, and match the container and string boundaries of the text. '
  'Running it without a token array counts exactly the tokens it would produce, and what it accepted once it accepts again with the same tokens.',
  ['inputs'], 'every text, every token array size', 'tests parse one document', [J], [('jsmn_parse, jsmn_parse_string, jsmn_parse_primitive', J)])
P('C14', 'Sorting yields an ordered stable permutation',
  'Sorting any array with any consistent order leaves exactly the same elements in non-descending order, with equal elements in their original order, and touches nothing outside the array and its scratch space.',
  ['inputs'], 'every array length and content', 'tests sort symbol lists of the samples only', [M, U], [('mergesort_r2', M)])
P('C15', 'SHA-1 digests equal the standard',
  'The digest computed for any message is the one FIPS 180-4 defines, independent of the memory around the message.',
  ['inputs'], 'every message', 'tests hash no message or one', [U], [('SHA1 computation', U)])
P('C16', 'Packing a document preserves its tree',
  'Converting a document and reading the result yields the same elements, in the same order and nesting, with the same attribute names, types and values.',
  ['inputs', 'programs'], 'every document tree', 'tests convert two sample documents', [C, B, 'src/bin_xml_packer.cpp'], [('XB_creator / Bin_xml_creator two-pass copy', C)],
  na='a property of the whole event pipeline (expat callbacks, two passes over growing buffers, file output, reader): contracts per function do not compose to it within reach of the verifier; the codecs, tables, sorting and reader below it are decided separately')
P('C18', 'Text scanning helpers consume exactly what they recognise',
  'The helpers that scan names, strings, elements and white space in a text advance exactly past the recognised part, never past the terminating zero, never write beyond the destination, and on failure leave the position usable.',
  ['inputs'], 'every text and buffer size', 'tests call a few of them with one text', [M], [('Scan* / Go* helpers', M)])
P('C19', 'Text printed as XML is escaped so that parsing restores it',
  'Every string printed to XML text through the value printer has its markup characters replaced by entities so that an XML parser restores exactly the original string, and all other characters are printed unchanged.',
  ['inputs'], 'every string', 'sample documents contain few special characters', [T, M], [('XBT_ToXMLStream / escaping', T)])
P('C20', 'Concurrent readers of one document see the same content',
  'Several threads may read one opened document at the same time without changing or misreading it.',
  ['schedules'], 'every interleaving', 'tests are single threaded', [B], [('XB_reader', B)],
  na='a property over thread interleavings: sequential contracts cannot express it')
P('C21', 'A crash while writing never leaves a document that reads as complete',
  'If the process stops at any moment while a document is being written, the file left behind is not accepted as a complete document.',
  ['crash_points'], 'every crash point', 'tests never interrupt a writer', [W, C], [('BW_plugin::Write', W)],
  na='a property over crash points and file system histories: not expressible as a contract of one call')
