TRUST = (' Trusts the reference written from the format description in lib/, Hypothesis and '
         'CPython; nothing beyond the generated cases is claimed.')
NOTES = {
 'C01': ('round trip against an independent record writer, API and CLI',
         'Random record lists (extended sizes, empty payloads, boundary sizes) are written, read and '
         're-written; all raw outputs are compared byte for byte.' + TRUST),
 'C02': ('reference partition of random record forests, API and CLI',
         'Every group, range and index of random streams is compared with slices of the generated '
         'list, including interleaved and partial consumption of lazy groups.' + TRUST),
 'C03': ('independent encoder of all record layouts, decode and compare',
         'Payloads are produced from random field values by a separately written layout table that '
         'covers every record type, control kind and version; all values are compared.' + TRUST),
 'C04': ('truncation and corruption fuzzing with an error oracle',
         'Records cut at random offsets must be reported for the right record; corrupted and '
         'random data must end in models or ParseError; the CLI must report it.' + TRUST),
 'C25': ('differential against zlib with random chunking and reuse',
         'All codec entry points are compared with zlib over random data, partitions, read sizes, '
         'and reset/reuse sequences.' + TRUST),
 'C26': ('model-based read sequences against a byte string',
         'Generated streams are read by random read-size sequences and compared with the '
         'concatenation of the generated data.' + TRUST),
}
NA = {}
NOTES.update({
 'C05': ('differential between views and random interleavings against one reference',
         'Models by list, group, index, JSON and events, and of several streams of different versions '
         'read interleaved, are all compared with the same generated values.' + TRUST),
 'C06': ('reference tokenizer over random UTF-16 code units',
         'Chunks of random (valid and malformed) text data are compared with a separately written '
         'tokenizer and the tiling is checked.' + TRUST),
 'C33': ('reference tree construction and inversion of random level sequences',
         'Random level lists (repeated items, deep chains, bases) are converted both ways; every '
         'subtree is cut out of the stream; invalid lists must be rejected.' + TRUST),
 'C34': ('arithmetic reference for bit fields, enums, primitives and units',
         'All flag types of the record models plus random declarations are compared with shift/mask '
         'arithmetic; primitives with int.from_bytes and exact fractions.' + TRUST),
})

DOC = ('documents built by an independent record-level document generator; '
       'projection of the XML output compared with a reference interpretation')
NOTES.update({
 'C07': (DOC,
         'Random documents (nested lists, controls, astral and illegal characters, line segments) are '
         'converted through CLI and API; every character and its shape and line is compared.' + TRUST),
 'C08': (DOC, 'Anchors of all controls in wild documents are compared with the generated controls.' + TRUST),
 'C09': (DOC, 'Tables of random declared rows, captions, nested tables and spans.' + TRUST),
 'C10': (DOC, 'Field start/end sequences matched, nested, unbalanced, across lines and lists.' + TRUST),
 'C11': (DOC, 'List contents and numbering in deeply nested lists across sections.' + TRUST),
 'C12': (DOC, 'Sections stored in any order; column definitions at any paragraph.' + TRUST),
 'C13': (DOC, 'Every attribute of every element is recomputed from the layout tables.' + TRUST),
})

NOTES.update({
 'C16': ('reference renderer over generated documents, metamorphic changes of formatting, API and CLI',
         'Plain text of random documents (nested lists, fields, tabs, sections stored in any order) is '
         'compared with a separately written renderer; shape and line cuts must not change it.' + TRUST),
 'C35': ('per-character reference classes, partition invariants over boundary and random code points',
         'Every piece and every boundary of the tokeniser is compared with reference Unicode ranges; '
         'document XML of several-language paragraphs likewise.' + TRUST),
 'C36': ('reference font and shape tables over generated document information; API, CSS and ODT output',
         'Random per-language font counts and indexes; lookups in random order, all CSS rules and '
         'ODT styles are compared with the tables.' + TRUST),
})
NOTES.update({
 'C17': ('reference HTML renderer over generated documents, invariants on the output directory, CLI',
         'The body structure (blocks, spans, tables, cells, images, headers, footers) of random documents is '
         'compared with a separately written renderer; every class, file and data URI is resolved and image '
         'bytes compared.' + TRUST),
})
NOTES.update({
 'C18': ('reference ODF renderer over generated documents, own schema validation, package invariants, CLI',
         'Body structure and used styles of random documents are compared with a separately written '
         'renderer, all parts validated, zip members, manifest and image bytes compared; documents with '
         'dangling references must give valid output or ValidationFailed.' + TRUST),
})
NOTES.update({
 'C14': ('independent layout table predicts every element of the flat XML; API and CLI',
         'Records of random documents and random record forests are laid out by a separate table; '
         'every record, item, offset, value and bit field of the flat XML is compared.' + TRUST),
})
NOTES.update({
 'C15': ('round trip of generated binary items through the XML, API and CLI',
         'Documents with random embedded, linked and storage items (compressed or not) are embedded; the '
         'base64 of every item is decoded and compared with the generated bytes and ids.' + TRUST),
 'C23': ('differential between compressed and uncompressed twins of generated documents, own deflate writer',
         'Every view and conversion of twins is compared; streams are deflated with a separate writer that '
         'chooses block types, and stream reads are compared byte for byte.' + TRUST),
 'C24': ('independent writer of distribution documents (generator, key, AES), API, CLI and conversions',
         'Protected documents are produced from generated ones; view text, diststream, head, key, SHA-1 and '
         'tail views and all conversions are compared; both AES engines are compared with an own AES.' + TRUST),
})

NOTES.update({
 'C20': ('reference container trees written by an own compound file writer, model-based stream operations',
         'Random containers (both sector sizes, scattered sectors, arbitrary directory trees, nested and empty '
         'storages) are listed and read through every available backend; interleaved operations on open '
         'streams are compared with byte strings.' + TRUST),
 'C21': ('reference container trees with independent layers; ls, cat, unpack and API compared',
         'Containers with compressed, protected and plain streams: every command is compared with the '
         'generated bytes; generated streams are compared with each other and with the records.' + TRUST),
 'C22': ('hostile names in generated documents, run as an unprivileged user, snapshot oracle',
         'Documents and storages with names that lead elsewhere are unpacked and converted in a child '
         'without privileges, through OLE files and other storages (any name); the scratch tree outside the '
         'output directory must not change.' + TRUST),
})
NOTES.update({
 'C28': ('own MS-OLEPS writer with random property sets; API, text, XML and CLI compared',
         'Random properties of all supported types in any order, with dictionaries, code pages and '
         'several sets are written and every view is compared with the generated values.' + TRUST),
 'C29': ('arithmetic reference for header fields, layered reference for stream access, random query order',
         'Random versions, flag words and preview texts; every accessor in random order, version and header '
         'commands and the layers chosen by the flags are compared with the stored values.' + TRUST),
})
NOTES.update({
 'C19': ('metamorphic and differential: transformations by every engine (API, xsltproc, xmllint), generated style '
         'sheets, parameters and grammars; the parsed result is the oracle',
         'Random XML documents, style sheets with computed results, parameters with quotes and non-ASCII text '
         'and RelaxNG grammars with generated valid and invalid instances; results of both engines and of the '
         'in-process reference are compared.' + TRUST),
 'C27': ('structure-aware fuzzing of files and storages: headers, container damage, foreign files; verdict oracle',
         'Files with valid, damaged, truncated and foreign contents and storages with every kind of header; '
         'is_hwp5file, opening and every command may only accept or reject them in the documented way.' + TRUST),
 'C30': ('reference search over generated documents, compared with hwp5proc find and the model/record selectors',
         'Random documents and search conditions; an own interpreter of the conditions over the decoded '
         'records says which lines must be printed.' + TRUST),
 'C31': ('fault injection at random read, transform and write positions; descriptors and temporary files counted',
         'Broken streams, corrupt data, full and unwritable destinations and failing external tools in a child '
         'without privileges; a failure must be reported and nothing may remain.' + TRUST),
 'C32': ('metamorphic: histories of conversions compared with isolated ones; storages, environments, interleavings',
         'Every output of a random history is compared with the same conversion in a fresh process of a storage '
         'in memory; other processes vary hash seed, locale, time zone and file name; several readers of one '
         'document are interleaved and dropped; documents which differ in a single part, or take each other\'s '
         'place in the file system, follow each other.' + TRUST),
 'C37': ('differential between a pseudo-terminal and a pipe with random documents, commands, pagers and exits',
         'Every command is run with a pipe and with a terminal through working, slow, failing, missing and '
         'leaving pagers, with and without the highlighter; the content must be the same.' + TRUST),
})
NOTES.update({
 'C38': ('generated documents against an independent model of every CSS rule and inline style of the HTML output',
         'Random shapes, fonts, fills, borders, bullets, page definitions and placed objects; the declarations '
         'of every rule and every style attribute are computed from the generated records in Python and '
         'compared with lengths to the printed precision; missing and extra declarations both count.' + TRUST),
})
NOTES.update({
 'C40': ('differential between runs with random logging options and a run without any',
         'Commands of every program on generated documents, whole and damaged in several ways, with levels and log '
         'files as options and in the environment: results must be equal, messages must be where they were asked for, '
         'old log files extended, levels nested, and nothing may be printed about failed logging.' + TRUST),
 'C39': ('generated documents against an independent model of every style and object attribute of the ODT output',
         'Random shapes, fonts, styles, pages, tables, pictures, groups, boxes and lines; the properties of every '
         'style and the attributes of every element are computed from the generated records in Python and '
         'compared with lengths to the printed precision; missing and extra ones both count.' + TRUST),
})
