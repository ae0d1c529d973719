# -*- coding: utf-8 -*-
'''Writes /verif/properties.jsonl (kept as a script so the text is reviewable).'''
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

S = 'src/hwp5/'
prop('C01', 'Record streams decode and re-encode without loss',
 'Reading any HWPTAG record stream yields exactly the records that were written to it - same tag, level, size, payload and consecutive sequence numbers, for every payload length including zero and those that need the extended size field. Writing the records that were read reproduces the original stream byte for byte, through the API as well as through `hwp5proc records --raw`, `--raw-header` and `--raw-payload`, from a document or from standard input.',
 ['inputs'], 'every finite sequence of (tag 0..1023, level 0..1023, payload of any length) and every entry point that reads or dumps records',
 'the suite decodes a handful of fixture records; the 12-bit size escape, empty payloads, wide levels/tags and whole-stream reproduction are never exercised over a range',
 [S+'recordstream.py', S+'proc/records.py'],
 [('header bit packing and size escape', S+'recordstream.py:decode_record_header/encode_record_header'), ('payload reading', S+'recordstream.py:read_record'), ('CLI dump', S+'proc/records.py')],
 ['RecordStream.records()', 'hwp5proc records --raw'])
prop('C02', 'Record ranges, tree groups and indexes select exactly what they name',
 'For any record stream, tree grouping partitions the records in order into groups that each start at a level-0 record, and the n-th tree group, a start-end range and a single index return exactly the corresponding records with their original sequence numbers. Lazily consumed groups, list groups and the `hwp5proc records` listings (simple, JSON, raw, with --range or --treegroup, from a file or stdin) all show that same selection; a range or group beyond the end selects nothing.',
 ['inputs', 'configurations'], 'every record sequence starting at level 0, every range, group number and output mode',
 'tests check one or two groups of a fixture; boundaries (first, last, single-record groups, out of range) and agreement between the interfaces are not checked',
 [S+'recordstream.py', S+'proc/records.py'],
 [('grouping generator', S+'recordstream.py:group_records_by_toplevel'), ('selection', S+'recordstream.py:RecordStream.records/record/records_treegroup'), ('CLI', S+'proc/records.py')])
prop('C03', 'Every record type decodes to the field values its bytes encode',
 'For every known record type, control kind and file format version, decoding a record gives each field exactly the value laid out in its payload: fixed fields, strings, arrays, version-dependent and conditional fields, and the specialisation chosen by control id or parent. The decoded bytes plus the reported unparsed remainder cover the payload exactly, so nothing is skipped or read twice.',
 ['inputs', 'configurations'], 'all record types x file versions x field values, array counts, flag combinations and trailing unknown bytes',
 'tests decode single fixture records; version gates, rare flag combinations, fills, arrays of other sizes and trailing data are only sampled once if at all',
 [S+'binmodel/', S+'bintype.py', S+'dataio.py'],
 [('type-definition events, version filter', S+'bintype.py'), ('record layouts', S+'binmodel/tagid*.py, '+S+'binmodel/controls/*.py'), ('specialisation', S+'binmodel/__init__.py:resolve_model_events')],
 ['ModelStream.models()'])
prop('C04', 'Malformed record data is reported as a parse error, and nothing else',
 'When a record payload ends inside a required field, or the record data is otherwise corrupted, parsing terminates and either yields records decoded from the bytes that are present or raises the documented parse error that identifies the offending record; fields are never made up from bytes that are not there. The hwp5proc commands report it and exit with a non-zero status (`find` reports it and goes on with the next file), without an unhandled traceback.',
 ['inputs', 'fault_sequences'], 'every truncation point and byte corruption of otherwise valid record payloads',
 'the suite has a couple of broken fixtures; truncation at every field boundary or inside a field of every record type is not tried',
 [S+'bintype.py', S+'binmodel/__init__.py', S+'hwp5proc.py', S+'errors.py', S+'dataio.py'],
 [('error event and ParseError construction', S+'binmodel/__init__.py:raise_on_errorevent, '+S+'bintype.py:read_type_events'), ('short reads', S+'dataio.py:readn')])
prop('C05', 'All model views agree and do not depend on parsing history',
 'The models of a stream are the same whether they are listed in full, by tree group, by index, as JSON or as parse events, and the same on every reading. They do not depend on which other documents, record types or format versions were parsed earlier in the process or interleaved with this one.',
 ['inputs', 'histories'], 'every stream; every history of parsing other streams of arbitrary versions before, after or interleaved',
 'type definitions are compiled into process-wide caches; tests parse one version at a time and never compare histories',
 [S+'bintype.py', S+'binmodel/__init__.py'],
 [('compiled typedef caches', S+'bintype.py:get_compiled_typedef_with_version'), ('per-parse context', S+'binmodel/__init__.py:parse_models'), ('event route', S+'binmodel/__init__.py:parse_model_events')])
prop('C06', 'Paragraph text is split into text and control characters exactly',
 'For any paragraph text data, the reported chunks tile the character positions from start to end without gap or overlap, in order. Text chunks carry exactly the characters at those positions and every control character appears once as its own chunk with its code, 1- or 8-unit width and parameters.',
 ['inputs'], 'all sequences of UTF-16 text (any script, surrogate pairs, bytes that look like control characters at odd offsets) and char/inline/extended control characters',
 'tests use a few literal strings; misaligned matches, adjacent controls and unusual characters are combinatorial',
 [S+'binmodel/tagid51_para_text.py', S+'binmodel/controlchar.py'],
 [('control character search', S+'binmodel/controlchar.py:ControlChar.find/decode'), ('chunking', S+'binmodel/tagid51_para_text.py:parse_chunks')])
prop('C07', 'Document XML is well formed and keeps every character with its formatting',
 'For any parseable document the nested XML output is one well-formed element tree, whatever characters the document contains and in whatever encoding the caller names. The text and control characters of each paragraph appear in it completely and in the original order (characters that XML cannot represent are replaced, NUL removed), each assigned to the character shape that covers its position and to the layout line that contains it.',
 ['inputs'], 'all documents: any text, any positions of character-shape changes and line starts, any nesting',
 'tests compare a few splits on literal data; the interaction of chunk, shape and line boundaries and of special characters with XML escaping is unbounded',
 [S+'xmlmodel.py', S+'xmlformat.py'],
 [('splitting by shape and line', S+'xmlmodel.py:split_and_shape/line_segmented/merge_paragraph_text_charshape_lineseg'), ('serialisation and escaping', S+'xmlformat.py:xmlevents_to_textchunks')],
 ['hwp5proc xml', 'Hwp5File.xmlevents()'])
prop('C08', 'Every inline object is anchored once, at its own control character',
 'In the document XML each extended control (table, shape, note, field, header, section definition, ...) of a paragraph appears exactly once, at the text position of its own control character and with all its content beneath it; the section definition encloses its section instead. Controls are never dropped, duplicated, reordered or attached to another paragraph, at any nesting depth.',
 ['inputs'], 'all paragraphs with any number and kinds of controls mixed with text and inline characters, nested to any depth',
 'pairing is positional (first control record to first extended character); tests use one or two controls per paragraph',
 [S+'xmlmodel.py', S+'treeop.py'],
 [('inlining', S+'xmlmodel.py:make_extended_controls_inline'), ('subtree capture', S+'treeop.py:build_subtree')])
prop('C09', 'Table cells are grouped into the rows the table declares',
 'For any table, the document XML contains one row element per non-empty declared row, in order, and each row holds exactly the declared number of cells, in order and with their own paragraphs. Captions stay outside the grid, nested tables stay inside their cell, and column/row position and spans of every cell are preserved.',
 ['inputs'], 'all tables: any number of rows, any per-row cell counts including merged-away cells and empty rows, nested tables, captions',
 'fixtures contain a few regular tables; row widths of 0, 1, 2, nesting and captions are not varied',
 [S+'xmlmodel.py', S+'binmodel/tagid56_list_header.py', S+'binmodel/tagid61_table.py'],
 [('row grouping', S+'xmlmodel.py:restructure_tablebody'), ('list header to cell/caption', S+'binmodel/tagid56_list_header.py')])
prop('C10', 'Fields enclose exactly the text between their start and end marks',
 'In the document XML a field element covers the content between its field-start and field-end characters, nested fields nest, and a field spanning several lines is reopened on every line it covers. Unmatched start or end marks never unbalance the document or lose text.',
 ['inputs'], 'all sequences of field starts, field ends, text and line breaks, including nested, empty, multi-line, unclosed and stray ones, in body and nested paragraphs',
 'tests cover a single hyperlink; nesting x line boundaries x unmatched marks is combinatorial',
 [S+'xmlmodel.py'], [('field matching', S+'xmlmodel.py:match_field_start_end/mfse_lineseg/mfse_field_end')])
prop('C11', 'Nested text lists keep their own paragraphs and ids are unique',
 'In the document XML each text list (cell, caption, header, footer, note, text box, hidden comment) contains exactly the paragraphs that follow its header in the file, in order, and no paragraph appears twice or outside its list. Paragraphs, tables, drawing objects and shapes carry ids that are unique and number them consecutively in document order across all sections.',
 ['inputs'], 'all nestings of lists and paragraphs over any number of sections',
 'tests look at one header and one table; siblings, several lists per control and deeper nesting are not varied',
 [S+'xmlmodel.py'], [('re-parenting', S+'xmlmodel.py:make_paragraphs_children_of_listheader'), ('id assignment', S+'xmlmodel.py:give_elements_unique_id')])
prop('C12', 'Sections and column sets appear once, in numeric order, around their text',
 'Whatever order the container lists them in, body sections appear in the document XML and in every conversion in numeric order, each exactly once, with its number, wrapped in its own section definition. Within a section each paragraph that starts a new column definition opens exactly one new column set and every paragraph of the section lies inside the section.',
 ['inputs', 'configurations'], 'any number of sections (including ten or more), any storage listing order, any placement of column definitions',
 'no fixture has more than a few sections and directory order is whatever the file has',
 [S+'filestructure.py', S+'xmlmodel.py'], [('section ordering', S+'filestructure.py:Sections.section_indexes'), ('section/column wrapping', S+'xmlmodel.py:wrap_section/wrap_columns')])
prop('C13', 'XML attributes state the decoded field values',
 'For every record of a document the XML element carries one attribute or child for each decoded field, and reading the attribute back gives the decoded value: numbers, strings, flags with each of their bit fields, enumerations by name (number when undefined), colours, margins, references and versions (the row sizes of a table are shown by its row elements). No field is missing and no two fields share an attribute.',
 ['inputs'], 'all record types and field values, including undefined enumeration values, negative numbers, extreme values and special characters',
 'tests check attribute formatting for a few values',
 [S+'xmlformat.py', S+'dataio.py'], [('attribute expansion', S+'xmlformat.py:expanded_xmlattribute/startelement'), ('typed attributes', S+'dataio.py:typed_struct_attributes')])
prop('C14', 'Flat XML lists every record and every field in file order',
 'For any parseable document `hwp5proc xml --format=flat` produces a well-formed file that contains the file header fields and, for the document information and every section, one element per record with its tag, level, size and sequence number, and one item per field with its offset, type and value. It agrees with the decoded records.',
 ['inputs'], 'all parseable documents and values (undefined enumeration values, any text)',
 'nothing in the suite runs the flat format',
 [S+'xmldump_flat.py', S+'proc/xml.py', S+'binmodel/__init__.py'], [('event to XML', S+'xmldump_flat.py'), ('parse events', S+'binmodel/__init__.py:parse_model_events')])
prop('C15', 'Embedded binary data survives XML embedding unchanged',
 'With binary embedding requested, every embedded image or object declared by the document appears in the XML under its own storage id as base64 that decodes to exactly the bytes of its (decompressed) stream; without the option no data is embedded. Linked and storage-type items are never embedded.',
 ['inputs', 'configurations'], 'any number, size and extension of binary items, ids up to 65535, compressed or not, mixed storage types',
 'one fixture with small images; lengths around the base64 line width and id formatting are not varied',
 [S+'xmlmodel.py', S+'filestructure.py'], [('embedding', S+'xmlmodel.py:embed_bindata')])
prop('C16', 'Plain-text conversion keeps all text, in reading order',
 'For any document the plain-text conversion outputs the text of every body paragraph, in order, with one line per paragraph, line-break and tab characters kept, and the conversion of one paragraph independent of its formatting: adding character-shape changes, line segments or fields does not alter the text. Table content appears as the documented placeholder, and apart from line breaks and tabs no control character and nothing outside the document\'s text is emitted.',
 ['inputs'], 'all documents: text, formatting, nested objects, several sections, distribution documents',
 'tests check that conversion runs on a few fixtures',
 [S+'hwp5txt.py', S+'xsl/plaintext.xsl', S+'xmlmodel.py'], [('stylesheet', S+'xsl/plaintext.xsl'), ('pipeline', S+'hwp5txt.py:TextTransform')])
prop('C17', 'HTML conversion keeps all text, tables and references',
 'For any document the HTML output is well-formed XHTML containing the text of every paragraph of the body, of table cells and captions, text boxes, headers and footers, in order, and every table with its rows, cells and spans. Every style class, stylesheet and image file it refers to is present in the output, and every embedded binary item is written out unchanged.',
 ['inputs'], 'all documents over text, shapes, tables, images and sections; single-file outputs and directory output',
 'tests convert a few fixtures and check little of the result',
 [S+'hwp5html.py', S+'xsl/hwp5html.xsl', S+'xsl/hwp5css.xsl', S+'xsl/hwp5css-common.xsl'], [('HTML stylesheet', S+'xsl/hwp5html.xsl'), ('output directory', S+'hwp5html.py:HTMLTransform')])
prop('C18', 'ODT conversion yields a valid, complete package',
 'For any document the ODT output is a zip package whose parts are well-formed, whose manifest lists exactly the content parts present, and whose content and styles validate against the OpenDocument schema whenever validation is enabled. It contains the text of the paragraphs of the body, table cells, text boxes and notes in order, every table cell with its spans, every style referred to, and each embedded image unchanged where it is referenced.',
 ['inputs', 'configurations'], 'all documents over text, shapes, tables, images, notes and sections; with and without embedded images; document/styles/content outputs',
 'tests convert a few fixtures; package consistency and text preservation are not compared',
 [S+'hwp5odt.py', S+'xsl/odt/', S+'plat/_lxml.py'], [('package assembly', S+'hwp5odt.py:ODTTransform'), ('stylesheets', S+'xsl/odt/content.xsl, styles.xsl, common.xsl')])
prop('C19', 'Alternative XML engines give the same result',
 'Transforming a document with the in-process XSLT engine and with the external xsltproc program gives equivalent documents, and both schema-validation engines return the same verdict, for valid and for invalid input. A failed transformation or validation is reported as a failure by both.',
 ['inputs', 'configurations'], 'all documents x stylesheets x engines, plus invalid inputs',
 'each engine is tested separately on one tiny stylesheet',
 [S+'plat/_lxml.py', S+'plat/xsltproc.py', S+'plat/xmllint.py', S+'plat/__init__.py'], [('engines', S+'plat/_lxml.py, '+S+'plat/xsltproc.py, '+S+'plat/xmllint.py')])
prop('C20', 'The OLE layer exposes exactly the streams of the container',
 'For any OLE compound file, listing the storage names each storage and stream once at its own level, and opening a stream gives exactly its bytes, for any sector size, short or long stream and nesting depth. Streams opened at the same time or repeatedly do not disturb one another, unknown names raise KeyError, and the available OLE backends agree.',
 ['inputs', 'histories', 'configurations'], 'all compound files: any tree of storages and streams, mini/normal sectors, 512/4096-byte sectors; any interleaving of opens, reads and seeks',
 'tests read one fixture per backend with a fixed set of names',
 [S+'plat/olefileio.py', S+'plat/gir_gsf.py', S+'storage/ole.py'], [('listing and lookup', S+'plat/olefileio.py:OleStorageItem/olefile_listdir'), ('gsf backend', S+'plat/gir_gsf.py')])
prop('C21', 'ls, cat and unpack agree on the streams of a document',
 'For any document, the stream paths printed by `hwp5proc ls` are exactly those of the container (plus the documented generated ones with the virtual or OLE options), `hwp5proc cat PATH` prints for each the bytes that the document API gives, and `hwp5proc unpack` writes the same bytes for every one of them under the corresponding path. Requests for missing items or for storages fail without output.',
 ['inputs', 'configurations'], 'all documents and stream trees; --ole, --vstreams and default modes',
 'tests check a handful of names on fixtures',
 [S+'storage/__init__.py', S+'proc/ls.py', S+'proc/cat.py', S+'proc/unpack.py', S+'filestructure.py'], [('enumeration', S+'storage/__init__.py:iter_storage_leafs/printstorage'), ('unpack', S+'storage/__init__.py:unpack'), ('virtual streams', S+'storage/__init__.py:ExtraItemStorage')])
prop('C22', 'Unpacking and converting never write outside the chosen output directory',
 'Whatever names the storages, streams and embedded items of a document carry, `hwp5proc unpack` and directory HTML conversion create and modify files only beneath the requested output directory. Every other file keeps its content.',
 ['inputs'], 'all documents including hostile names (dot segments, separators, control characters, absolute-looking names)',
 'fixtures only have ordinary names',
 [S+'storage/__init__.py', S+'hwp5html.py', S+'proc/unpack.py'], [('path construction', S+'storage/__init__.py:unpack, '+S+'hwp5html.py:extract_bindata_dir')])
prop('C23', 'Stream compression is transparent',
 'A document stored with compressed streams and the same document stored uncompressed give the same records, models, XML and conversions, and reading any compressed stream returns exactly the original bytes whatever its length, deflate block structure or content. Streams that are stored uncompressed inside a compressed document are returned as they are.',
 ['inputs', 'configurations'], 'all stream contents and sizes, all deflate encodings (levels, strategies, block splits, stored blocks), all mixtures of compressed and raw streams',
 'fixtures are produced by one encoder',
 [S+'compressed.py', S+'filestructure.py'], [('decompression with fallback', S+'compressed.py:decompress'), ('which items are compressed', S+'filestructure.py:Hwp5Compression')])
prop('C24', 'Distribution documents decode to the text that was protected',
 'For any distribution (copy-protected) document, the view text read through the API, `cat`, `diststream` and every conversion equals the protected section data, for every head-record seed and key and whether compressed or not; conversions use the view text and not the dummy body text. The SHA-1, key, head and tail views of a distribution stream are consistent with the data the file holds, and both AES engines decrypt alike. A stream that does not start with a complete head record is refused rather than decoded to made-up text.',
 ['inputs', 'configurations'], 'all seeds, keys, section contents and lengths; compressed or not; both AES engines',
 'one fixture with one seed, offset and key',
 [S+'distdoc.py', S+'filestructure.py', S+'proc/diststream.py', S+'plat/__init__.py'], [('key derivation', S+'distdoc.py:decode_head_to_key'), ('stream layering', S+'filestructure.py:Hwp5DistDoc/Hwp5DistDocStream'), ('AES', S+'plat/__init__.py:get_aes128ecb_decrypt')])
prop('C25', 'Raw-deflate codecs give the same result however data is fed',
 'The raw-deflate encoder, decoder, incremental codecs, stream reader and `hwp5proc rawunz` invert each other: decoding any encoded data gives the original bytes regardless of how the input is divided into pieces, how reads are sized and where the end falls. A codec object can be reset and reused with the same results as a fresh one.',
 ['inputs', 'histories'], 'all data, all divisions into chunks, all read sizes, all sequences of encode/decode/flush/reset',
 'tests feed one short string; inputs longer than the internal buffer and awkward divisions are not tried',
 [S+'zlib_raw_codec.py', S+'proc/rawunz.py', S+'compressed.py'], [('codec classes', S+'zlib_raw_codec.py'), ('CLI', S+'proc/rawunz.py'), ('incremental decompression', S+'compressed.py:decompress_gen')])
prop('C26', 'Generated streams behave like files',
 'Streams produced on the fly (decompressed data, JSON listings, transcoded text) return, over any sequence of read calls with any sizes, exactly the concatenation of the generated data: no sized call returns more than was asked for (transcoded text follows the stream semantics of the codec), nothing is lost or repeated, and after the end every read returns empty data. Transcoded previews equal a one-shot conversion even when multi-byte characters straddle buffer boundaries.',
 ['inputs', 'histories'], 'all chunk sequences (including empty chunks) and all sequences of read sizes, closes included',
 'tests use two or three chunks and a couple of reads',
 [S+'utils.py'], [('generator readers', S+'utils.py:GeneratorReader/GeneratorTextReader'), ('transcoding', S+'utils.py:transcoder'), ('JSON lists', S+'utils.py:JsonObjects')])
prop('C27', 'Any file is either opened as HWPv5 or rejected cleanly',
 'For any input file, is_hwp5file returns true or false and opening it either gives a document whose header has the HWPv5 signature or raises the documented invalid-file error; no other failure escapes. The command-line tools report such files and finish with a message instead of a crash.',
 ['inputs', 'fault_sequences'], 'all byte strings: arbitrary data, truncated or corrupted compound files, compound files without or with a malformed FileHeader, missing files',
 'tests try one non-OLE file and one OLE file without a header',
 [S+'filestructure.py', S+'plat/olefileio.py', S+'hwp5proc.py', S+'hwp5txt.py'], [('detection', S+'filestructure.py:is_hwp5file/storage_is_hwp5file/Hwp5FileBase'), ('OLE opening', S+'plat/olefileio.py:OleStorage')])
prop('C28', 'Summary information reports the stored property values',
 'For any summary information stream, every stored property is reported with its stored value - Unicode strings, 16- and 32-bit integers, booleans, dates to the microsecond, dictionary and code page - by the API, by `hwp5proc summaryinfo` and in the document XML. Properties that are absent are not invented.',
 ['inputs'], 'all property sets: any subset, order and padding of properties, any string lengths and dates',
 'one fixture per property',
 [S+'msoleprops.py', S+'summaryinfo.py', S+'filestructure.py', S+'proc/summaryinfo.py'], [('property set reader', S+'msoleprops.py'), ('named properties', S+'summaryinfo.py'), ('API', S+'filestructure.py:HwpSummaryInfo')])
prop('C29', 'File header, version and preview text are reported as stored',
 'For any valid document the version, signature and every header flag reported by the API, `hwp5proc version` and `hwp5proc header` equal the stored header fields, and the preview text equals the stored UTF-16 text in both its string and UTF-8 forms. The flags decide how the rest of the file is read: password-protected content is passed through untouched.',
 ['inputs', 'configurations'], 'all header flag combinations and versions, all preview texts',
 'fixtures cover a few versions and flags',
 [S+'filestructure.py', S+'proc/version.py', S+'proc/header.py'], [('header', S+'filestructure.py:FileHeader/HwpFileHeader'), ('preview', S+'filestructure.py:PreviewText'), ('layering', S+'filestructure.py:Hwp5File')])
prop('C30', 'find and models report exactly the matching records',
 '`hwp5proc find` lists exactly the records that satisfy the given tag, model and parse-state conditions, with the right file, stream and sequence number, over any set of files. `hwp5proc models` lists every model of the selected stream, tree group or sequence range in order, identically in its simple and JSON forms and from a file or standard input.',
 ['inputs', 'configurations'], 'all documents x filter and selection options x output modes',
 'tests run each command once on a fixture',
 [S+'proc/find.py', S+'proc/models.py'], [('filters', S+'proc/find.py'), ('selection and output', S+'proc/models.py')])
prop('C31', 'Failed conversions clean up and say so',
 'When a conversion fails part-way - unreadable or invalid input, a stream that breaks during reading, a full or unwritable destination - no temporary file or open descriptor is left behind and the failure is reported rather than returned as success. Successful conversions also leave no temporary files, and the input file is never modified, not even when it is named as the output.',
 ['fault_sequences', 'inputs'], 'every document x every injected failure point during reading, transforming and writing',
 'no test injects failures',
 [S+'utils.py', S+'transforms/__init__.py', S+'hwp5html.py', S+'hwp5odt.py', S+'hwp5txt.py', S+'plat/_lxml.py', S+'plat/xsltproc.py'], [('temporary files', S+'utils.py:mkstemp_open/hwp5_open'), ('context managers', S+'transforms/__init__.py, '+S+'utils.py')])
prop('C32', 'Output is a function of the document alone',
 'Converting the same document gives the same output every time: in a fresh process or a long-lived one, after any other documents, whatever the hash seed, file name or location, and whether it is read from a compound file or from an unpacked directory-like storage. Reading a document never changes it.',
 ['histories', 'configurations', 'inputs'], 'all documents x histories of other conversions x process environments x storage kinds',
 'tests run each conversion once in a fixed order',
 [S+'xmlmodel.py', S+'bintype.py', S+'utils.py', S+'hwp5txt.py', S+'hwp5html.py', S+'hwp5odt.py'], [('caches', S+'utils.py:cached_property, '+S+'bintype.py'), ('event pipeline', S+'xmlmodel.py')])
prop('C33', 'Level lists and event streams convert to trees and back exactly',
 'Converting a list of (level, item) pairs to start/end events, to ancestor chains, or to a subtree and back preserves items, order and nesting for every valid level sequence; every start has its matching end. Level sequences that skip a level are rejected with an error instead of producing a wrong tree.',
 ['inputs'], 'all level sequences, valid and invalid, and all ordered trees',
 'tests use one small example each',
 [S+'treeop.py'], [('event prefixing', S+'treeop.py:prefix_event/prefix_ancestors_from_level'), ('subtrees', S+'treeop.py:build_subtree/tree_events/iter_subevents')])
prop('C34', 'Bit fields, enumerations and unit types expose the stored bits',
 'For every flag type and every integer of its width, each bit field equals the named bits of the value and enumerated fields resolve to the defined name or to the plain number when undefined, without altering later lookups. Primitive types decode every byte pattern of their width to the value it denotes, and unit conversions are monotonic and accurate to their stated precision.',
 ['inputs', 'histories'], 'all flag types in the library and ad-hoc ones, all values of their width, any order of lookups',
 'tests check one or two flags',
 [S+'dataio.py', S+'binmodel/_shared.py'], [('flags and enums', S+'dataio.py:FlagsType/BitGroupDescriptor/EnumType'), ('primitives', S+'dataio.py:PrimitiveType')])
prop('C35', 'Language tokenising partitions text without loss',
 'Splitting text by script returns pieces that concatenate to the original text; every character that belongs to a script is in a piece labelled with that script\'s language class, and neighbouring pieces differ in label. Digits, spaces and control characters never start a new piece, and the text runs in the document XML are exactly the pieces of each formatted run.',
 ['inputs'], 'all Unicode strings, including characters on block boundaries and outside the BMP',
 'tests tokenise one short string',
 [S+'charsets.py', S+'xmlmodel.py'], [('tokeniser', S+'charsets.py:tokenize_unicode_by_lang'), ('application', S+'xmlmodel.py:tokenize_text_by_lang')])
prop('C36', 'Font lookups resolve ids across the per-language tables',
 'For any document information, the font tables are divided among the seven languages exactly as the id-mapping counts say, and looking up the font of a character shape for a language returns the face name at that language\'s own index (for languages that have fonts). Lookups of shapes, styles and mappings by id return the record with that ordinal.',
 ['inputs'], 'all distributions of fonts over languages (including none), all shapes and indexes',
 'tests look up one font of one fixture',
 [S+'binmodel/__init__.py'], [('lookups', S+'binmodel/__init__.py:DocInfo')])
prop('C37', 'Output to a terminal shows the same content',
 'When the standard output is a terminal, the commands that write text or XML (hwp5proc xml, hwp5html --css/--html, hwp5odt --styles/--content/--document) show through the pager and the syntax highlighter exactly the content they write to a file or a pipe: apart from colour sequences and XML indentation nothing is added, lost or changed. Leaving the pager before the end is not an error, the command does not end before its pager, and a missing pager or highlighter does not lose the output.',
 ['inputs', 'configurations', 'fault_sequences'], 'all convertible documents x commands x pagers, including one that stops reading at any point',
 'the suite never runs a command with a terminal as its output',
 [S+'cli.py', S+'utils.py', S+'hwp5html.py', S+'hwp5odt.py', S+'proc/xml.py'], [('pager', S+'utils.py:pager/output_thru_subprocess'), ('highlighting', S+'utils.py:syntaxhighlight/xmllint')])
prop('C38', 'HTML output states the formatting stored in the document',
 'For any document the style sheets and the inline styles of the HTML output give every paragraph shape, character shape, font, border, fill, bullet, style, page and section the alignment, spacing, indent, size, typeface, decoration, colour, margins and extent recorded in the document, and every table, cell, caption, shape and picture its recorded size and horizontal position. Nothing is declared that the document does not say.',
 ['inputs'], 'all documents over shapes, fonts, borders, fills, bullets, styles, page definitions, tables, captions, pictures and drawn shapes',
 'tests look at no style sheet of a conversion',
 [S+'hwp5html.py', S+'xsl/hwp5html.xsl', S+'xsl/hwp5css.xsl', S+'xsl/hwp5css-common.xsl'], [('style sheet', S+'xsl/hwp5css.xsl, hwp5css-common.xsl'), ('inline styles', S+'xsl/hwp5html.xsl')])
prop('C39', 'ODT output states the formatting stored in the document',
 'For any document the styles of the ODT output give every font, named style, paragraph and text run its recorded alignment, indent, margins, line spacing, typefaces, sizes, emphasis and decoration; every page its size, orientation and margins; every table and cell its size, margins, padding, borders and background; and every picture and drawn object its size, position, order, anchoring, wrapping, transformation, fill and stroke. Nothing is stated that the document does not say.',
 ['inputs'], 'all documents over shapes, fonts, styles, page definitions, tables, fills, pictures and drawn objects, in one document or in content and styles parts',
 'tests look at no style of a conversion',
 [S+'hwp5odt.py', S+'xsl/odt/common.xsl', S+'xsl/odt/content.xsl', S+'xsl/odt/styles.xsl'], [('styles and attributes', S+'xsl/odt/common.xsl'), ('parts', S+'xsl/odt/content.xsl, styles.xsl, document.xsl')])
prop('C40', 'Logging options change what is reported, never the result',
 'With any combination of --loglevel, --logfile, PYHWP_LOGLEVEL and PYHWP_LOGFILE every command gives the same exit status, standard output and output files for the same document, valid or damaged. Messages go to the named log file, appended, or else to standard error, never to the output; the options win over the environment; a level shows everything the levels above it show; and no message fails to be formatted.',
 ['inputs', 'configurations'], 'all documents, valid and damaged x commands x levels and destinations given as options or in the environment',
 'the suite uses no logging option',
 [S+'cli.py', S+'hwp5proc.py', S+'hwp5txt.py', S+'hwp5html.py', S+'hwp5odt.py', S+'dataio.py', S+'bintype.py', S+'xmlmodel.py'], [('set-up', S+'cli.py:init_logger'), ('messages', S+'dataio.py:ParseError.print_to_logger, '+S+'bintype.py:log_events')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
