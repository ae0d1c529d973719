FIXED += [
 ('C14', '5946502', 'hwp5proc xml --format=flat failed on Python 3, dumped sections in container order and failed on undefined enumeration values'),
 ('C07', 'c540013', 'characters not allowed in XML made the nested XML ill-formed'),
 ('C13', '75ec448', "byte values appeared as b'...' in XML attributes"),
 ('C34', 'a2e4b87', 'negative lengths were rounded toward zero'),
 ('C10', '95b6fb6', 'a field left open (or a stray field end) in a nested text list unbalanced the XML'),
 ('C09', 'cb8a2e9', 'a declared row of no cells took two cells of the following rows'),
 ('C07', '9c94a73', 'formatting positions after a supplementary character were misplaced; control characters were sliced at boundaries'),
 ('C16', 'fc1684d', 'plain text dropped tabs and line breaks, joining words and lines'),
 ('C17', '9a2fd2f', 'the content of a field (hyperlink, bookmark, memo ...) was dropped from HTML output'),
 ('C18', '79fd8dd', 'ODT text styles were not found and the content of fields was dropped'),
 ('C18', 'a7d554d', 'tabs and line breaks were dropped from ODT text'),
 ('C36', '61c9870', 'the ODT western font name was looked up with the Korean index'),
 ('C18', '5839de9', 'a font without Panose data made styles.xml invalid, so conversion failed'),
 ('C18', '7b2e0fc', 'a picture without embedded data (linked, dangling) made content.xml invalid, so conversion failed'),
 ('C18', 'e9f8445', 'a table row whose cells are all covered by row spans made content.xml invalid, so conversion failed'),
 ('C18', 'd527ae8', 'text in ellipses, polygons etc. and tables in text boxes made content.xml invalid, so conversion failed'),
 ('C18', '41d731e', 'a style name that is empty or starts with a digit made styles.xml invalid, so conversion failed'),
 ('C17', 'e9050fb', 'the CSS border style of long-dash borders was misspelled, so that browsers dropped the border'),
 ('C18', '786dcef', 'mimetype was the last file of the ODT package instead of the first one'),
 ('C13', '8262fea', "access state of binary data was read from bits 16-17 of a 16-bit field; it was always 'never'"),
 ('C20', '7c903b1', 'storages nested two or more levels deep and storages without streams were not listed (and so not unpacked)'),
 ('C20', '8ed5d1c', 'the Gsf backend could not list storages (xrange) and read(-1) returned nothing'),
 ('C22', 'cf662ac', "a storage named '..' was unpacked outside the output directory; storages named with \\x05 could not be unpacked"),
 ('C28', 'cbb6e36', 'a property set without a dictionary could not be read (any conversion failed)'),
 ('C28', '9eaefe0', 'dates lost their last microsecond to rounding; dates beyond the year 9999 broke the summary and XML output'),
 ('C28', '7a813b6', 'a code page (VT_I2), locale (VT_UI4) or boolean property broke reading the property set'),
 ('C28', 'a47a81e', 'hwp5proc summaryinfo failed when one of the listed properties was absent'),
 ('C28', 'b17de7d', 'text form of the summary failed once the propertySetStream property had been used (cached_property replaced the method of that name)'),
 ('C27', '4116f64', 'is_hwp5file and opening raised raw errors for files with the compound file signature but broken content'),
 ('C27', '009cf6f', 'is_hwp5file raised for a FileHeader that is a storage, short or unreadable'),
 ('C27', '1a46143', 'hwp5proc --ole crashed on a file that is not a compound file'),
 ('C31', '3306d71', 'a failed xsltproc run was returned as a successful conversion'),
 ('C19', '21b060a', 'xmllint validators had no validate() and did not raise ValidationFailed'),
 ('C15', '333f274', 'embedding took quadratic time: minutes for an image of some megabytes'),
 ('C19', 'e2953c5', 'documents with more than 10 MB of text (large embedded images) or deep nesting failed to transform and validate'),
 ('C31', 'b0ff446', 'hwp5txt, hwp5html and hwp5odt exited with success after a parse error'),
 ('C31', '1e14417', 'hwp5proc xml ignored a failure of xmllint and lost large embedded data'),
 ('C31', 'f0df331', 'hwp5html and the other converters deleted or overwrote their input when the output covers it'),
 ('C30', '239278c', 'find --tag=<number> crashed for tags without a name'),
 ('C30', 'd85b867', 'find --from-stdin cut the last character of a last line without newline'),
 ('C32', '863ef3d', 'the flat XML dump of a document opened through a storage whose streams are no context managers (GSF) failed with a TypeError'),
 ('C37', '9c6135c', 'leaving the pager early (or dropping an XML event reader) was logged as an error with a dump of the current record'),
 ('C37', '0cf9146', 'hwp5html --css on a terminal crashed: bytes were written to a temporary text file'),
 ('C37', '4a412ea', 'leaving the pager before the end of the output crashed with a broken pipe'),
 ('C38', '15499f1', 'HTML positions of objects on landscape pages were computed from the width of the page in portrait orientation'),
 ('C38', '11d9ff3', 'HTML position of an object centred in a paragraph ignored the margins of the paragraph'),
 ('C17', 'aee0fc4', 'paragraphs of headers and footers which start new columns were lost in HTML'),
 ('C18', 'dbc56b2', 'paragraphs of notes and text boxes which start new columns were lost in ODT'),
 ('C27', '84c1ddc', 'OverflowError escaped from is_hwp5file() for a damaged OLE file'),
 ('C12', '8c0ce45', "streams of BodyText with names like Section01 or 'Section 1' were taken for sections: Section1 appeared twice in the XML, or the document failed with a KeyError"),
 ('C25', 'a07eeab', 'a StreamReader over a stream whose reads give less than asked for (a pipe) took the first short read for the end and lost the rest'),
 ('C26', 'f8911fc', 'decompress_experimental() likewise lost everything after the first short read of its source'),
 ('C33', '5395b02', 'lists of more than some hundred levels raised RecursionError in build_subtree() and tree_events()'),
 ('C11', '402cc35', 'documents with about 200 nested text lists failed with RecursionError'),
 ('C07', '1ecd105', 'XML dumped in UTF-16 repeated the byte order mark in every chunk, and encodings without all the characters failed'),
 ('C31', '413711b', 'hwp5proc xml succeeded with truncated output when xmllint was killed by a signal (kill -9): only positive exit statuses were taken for failures'),
 ('C28', 'd370dce', 'a summary property of a type the reader does not support (e.g. a thumbnail or a vector) made every conversion fail and summaryinfo print nothing'),
 ('C24', 'd6ebeb4', 'a failing openssl was taken for success: truncated or empty text came out with no error'),
 ('C18', '3a74db8', 'a storage nested in BinData made the ODT conversion fail'),
]
OPEN = [
 ('C18', 'odt-spaces', 'several spaces in a row, and spaces at the ends of a paragraph, are written as plain spaces and not as text:s, so that ODF consumers collapse them (existing tests compare content.xml with the plain spaces)'),
 ('C18', 'odt-style-symbols', 'styles whose name contains symbols that are not allowed in an NCName, such as U+25A1, make the ODT invalid, so that the conversion fails with ValidationFailed (existing tests expect the names of styles; XSLT 1.0 has no character classes)'),
 ('C18', 'odt-ext-symbols', 'an embedded image whose file name extension contains characters that are not allowed in an IRI, such as "]", makes the ODT invalid, so that the conversion fails with ValidationFailed (XSLT 1.0 has no means to escape them)'),
 ('C17', 'html-title', 'the title of the HTML document is empty although the document has a title (the stylesheet looks for an older form of HwpSummaryInfo; an existing test expects the empty title)'),
 ('C17', 'html-notes', 'the text of footnotes, endnotes and hidden comments is not part of the HTML output'),
]
