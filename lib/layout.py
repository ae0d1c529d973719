# -*- coding: utf-8 -*-
'''Independent declarative table of the HWP5 record layouts.

Nothing here imports the code under test.  Types:

  'u8' 'i8' 'u16' 'i16' 'u32' 'i32' 'f64'      little-endian primitives
  'byte' 'word' 'hwpunit' 'shwpunit' 'hwpunit16' 'wchar' 'color' 'binid'
                                               primitives with a meaning in XML
  'chid'   4 bytes, reversed ASCII             'bstr'  u16 count + UTF-16LE
  ('hex', n)   n raw bytes as hex              'chunks' paragraph text
  Flags(base, (lsb, msb, name[, enum])...)     enum: {name: value}
  Struct(name, field...)                       field: (name, type[, opts])
  Arr(type, n) / NArr(counttype, type) / XArr(countfn, type)
  Sel(keyfn, {value: Struct})

opts: ver=(a,b,c,d) minimum file version, cond=f(vals, ctx)
'''
import struct as _s

PRIM = {
    'u8': '<B', 'i8': '<b', 'u16': '<H', 'i16': '<h', 'u32': '<I', 'i32': '<i',
    'f64': '<d', 'byte': '<B', 'word': '<H', 'hwpunit': '<I', 'shwpunit': '<i',
    'hwpunit16': '<h', 'wchar': '<H', 'color': '<i', 'binid': '<H',
}
PRIMNAME = {'u8': 'UINT8', 'i8': 'INT8', 'u16': 'UINT16', 'i16': 'INT16',
            'u32': 'UINT32', 'i32': 'INT32', 'f64': 'DOUBLE', 'byte': 'BYTE',
            'word': 'WORD', 'hwpunit': 'HWPUNIT', 'shwpunit': 'SHWPUNIT',
            'hwpunit16': 'HWPUNIT16', 'wchar': 'WCHAR', 'color': 'COLORREF',
            'binid': 'BinStorageId', 'chid': 'CHID', 'bstr': 'BSTR'}
SIZE = {k: _s.calcsize(v) for k, v in PRIM.items()}
RANGE = {}
for _k, _f in PRIM.items():
    _n = SIZE[_k] * 8
    if _f[1] == 'd':
        continue
    RANGE[_k] = (0, 2 ** _n - 1) if _f[1].isupper() else (-2 ** (_n - 1), 2 ** (_n - 1) - 1)


class Flags(object):
    def __init__(self, base, *bits):
        self.base = base
        self.bits = [b if len(b) == 4 else b + (None,) for b in bits]

    def split(self, value):
        '''{name: (int value, enum name or None, enum table or None)}'''
        out = {}
        for lsb, msb, name, enum in self.bits:
            v = (value >> lsb) & ((1 << (msb - lsb + 1)) - 1)
            en = None
            if enum:
                for k, x in enum.items():
                    if x == v:
                        en = k
                        break
            out[name] = (v, en, enum)
        return out


class Struct(object):
    def __init__(self, name, *fields):
        self.name = name
        self.fields = [(f[0], f[1], f[2] if len(f) > 2 else {}) for f in fields]


class Arr(object):
    def __init__(self, item, n):
        self.item, self.n = item, n


class NArr(object):
    def __init__(self, count, item):
        self.count, self.item = count, item


class XArr(object):
    def __init__(self, countfn, item):
        self.countfn, self.item = countfn, item


class Sel(object):
    def __init__(self, keyfn, table):
        self.keyfn, self.table = keyfn, table


def E(*names, **kw):
    d = {n: i for i, n in enumerate(names)}
    d.update(kw)
    return d


def bit(n, name, enum=None):
    return (n, n, name, enum)


def flag(field, name):
    def get(vals, ctx):
        t, v = ctx['types'][field], vals[field]
        return t.split(v)[name][0]
    return get


# ---------------------------------------------------------------- shared
Margin = Struct('Margin', ('left', 'hwpunit16'), ('right', 'hwpunit16'),
                ('top', 'hwpunit16'), ('bottom', 'hwpunit16'))
Coord = Struct('Coord', ('x', 'shwpunit'), ('y', 'shwpunit'))
Stroke = E('none', 'solid', 'dashed', 'dotted', 'dash-dot', 'dash-dot-dot',
           'long-dash', 'large-dot', 'double', 'double-2', 'double-3', 'triple',
           'wave', 'double-wave', 'inset', 'outset', 'groove', 'ridge')
StrokeType = Flags('u8', (0, 4, 'stroke_type', Stroke))
Widths = {'0.1mm': 0, '0.12mm': 1, '0.15mm': 2, '0.2mm': 3, '0.25mm': 4, '0.3mm': 5,
          '0.4mm': 6, '0.5mm': 7, '0.6mm': 8, '0.7mm': 9, '1.0mm': 10, '1.5mm': 11,
          '2.0mm': 12, '3.0mm': 13, '4.0mm': 14, '5.0mm': 15}
Width = Flags('u8', (0, 4, 'width', Widths))
Border = Struct('Border', ('stroke_flags', StrokeType), ('width_flags', Width),
                ('color', 'color'))
LineEnd = E('round', 'flat')
ArrowShape = E('none', 'arrow', 'arrow2', 'diamond', 'circle', 'rect',
               'diamondfilled', 'disc', 'rectfilled')
ArrowSize = E('smallest', 'smaller', 'small', 'abitsmall', 'normal', 'abitlarge',
              'large', 'larger', 'largest')
BorderLine = Struct('BorderLine', ('color', 'color'), ('width', 'i32'), ('flags', Flags(
    'u32', (0, 5, 'stroke', Stroke), (6, 9, 'line_end', LineEnd),
    (10, 15, 'arrow_start', ArrowShape), (16, 21, 'arrow_end', ArrowShape),
    (22, 25, 'arrow_start_size', ArrowSize), (26, 29, 'arrow_end_size', ArrowSize),
    bit(30, 'arrow_start_fill'), bit(31, 'arrow_end_fill'))))
FillColorPattern = Struct(
    'FillColorPattern', ('background_color', 'color'), ('pattern_color', 'color'),
    ('pattern_type_flags', Flags('u32', (0, 7, 'pattern_type', E(
        NONE=255, HORIZONTAL=0, VERTICAL=1, BACKSLASH=2, SLASH=3, GRID=4, CROSS=5)))))
FillImage = Struct(
    'FillImage', ('flags', Flags('byte', (0, 16, 'fillimage_type', E(
        'TILE_ALL', 'TILE_HORIZONTAL_TOP', 'TILE_HORIZONTAL_BOTTOM', 'TILE_VERTICAL_LEFT',
        'TILE_VERTICAL_RIGHT', 'RESIZE', 'CENTER', 'CENTER_TOP', 'CENTER_BOTTOM',
        'LEFT_MIDDLE', 'LEFT_TOP', 'LEFT_BOTTOM', 'RIGHT_MIDDLE', 'RIGHT_TOP',
        'RIGHT_BOTTOM', 'NONE')))),
    ('brightness', 'i8'), ('contrast', 'i8'),
    ('effect', Flags('u8', (0, 8, 'effect_type', E(
        'REAL_PIC', 'GRAY_SCALE', 'BLACK_WHITE', 'PATTERN8x8')))),
    ('bindata_id', 'u16'))
Coord32 = Struct('Coord32', ('x', 'u32'), ('y', 'u32'))
FillGradation = Struct(
    'FillGradation', ('type', Flags('byte', (0, 8, 'gradation_type', E(
        LINEAR=1, CIRCULAR=2, CONICAL=3, RECTANGULAR=4)))),
    ('shear', 'u32'), ('center', Coord32), ('blur', 'u32'),
    ('colors', NArr('u32', 'color')))

LANGS = ('ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user')


def lang_struct(name, t):
    return Struct(name, *[(l, t) for l in LANGS])


BEGIN = 0x10
RECORDS = {}      # tagid -> Struct
TAGNAMES = {}


def rec(off, tagname, name, *fields):
    RECORDS[BEGIN + off] = Struct(name, *fields)
    TAGNAMES[BEGIN + off] = 'HWPTAG_' + tagname
    return RECORDS[BEGIN + off]


# ---------------------------------------------------------------- DocInfo
rec(0, 'DOCUMENT_PROPERTIES', 'DocumentProperties',
    ('section_count', 'u16'), ('page_startnum', 'u16'), ('footnote_startnum', 'u16'),
    ('endnote_startnum', 'u16'), ('picture_startnum', 'u16'), ('table_startnum', 'u16'),
    ('math_startnum', 'u16'), ('list_id', 'u32'), ('paragraph_id', 'u32'),
    ('character_unit_loc_in_paragraph', 'u32'))
rec(1, 'ID_MAPPINGS', 'IdMappings', *([(n, 'u32') for n in (
    'bindata', 'ko_fonts', 'en_fonts', 'cn_fonts', 'jp_fonts', 'other_fonts',
    'symbol_fonts', 'user_fonts', 'borderfills', 'charshapes', 'tabdefs', 'numberings',
    'bullets', 'parashapes', 'styles')] + [('memoshapes', 'u32', dict(ver=(5, 0, 1, 7)))]))
BinDataLink = Struct('BinDataLink', ('abspath', 'bstr'), ('relpath', 'bstr'))
BinDataEmbedding = Struct('BinDataEmbedding', ('storage_id', 'binid'), ('ext', 'bstr'))
BinDataStorage = Struct('BinDataStorage', ('storage_id', 'binid'))
rec(2, 'BIN_DATA', 'BinData',
    ('flags', Flags('u16', (0, 3, 'storage', E(LINK=0, EMBEDDING=1, STORAGE=2)),
                    (4, 5, 'compression', E(STORAGE_DEFAULT=0, YES=1, NO=2)),
                    (8, 9, 'access', E(NEVER=0, OK=1, FAILED=2, FAILED_IGNORED=3)))),
    ('bindata', Sel(flag('flags', 'storage'),
                    {0: BinDataLink, 1: BinDataEmbedding, 2: BinDataStorage})))
rec(3, 'FACE_NAME', 'FaceName',
    ('flags', Flags('byte', (0, 1, 'font_file_type', E(UNKNOWN=0, TTF=1, HFT=2)),
                    bit(5, 'default'), bit(6, 'metric'), bit(7, 'alternate'))),
    ('name', 'bstr'),
    ('alternate_font', Struct('AlternateFont', ('kind', 'byte'), ('name', 'bstr')),
     dict(cond=flag('flags', 'alternate'))),
    ('panose1', Struct('Panose1', *[(n, 'byte') for n in (
        'family_type', 'serif_style', 'weight', 'proportion', 'contrast',
        'stroke_variation', 'arm_style', 'letterform', 'midline', 'x_height')]),
     dict(cond=flag('flags', 'metric'))),
    ('default_font', 'bstr', dict(cond=flag('flags', 'default'))))
rec(4, 'BORDER_FILL', 'BorderFill',
    ('borderflags', Flags('u16', bit(0, 'effect_3d'), bit(1, 'effect_shadow'),
                          (2, 4, 'slash'), (5, 6, 'backslash'))),
    ('left', Border), ('right', Border), ('top', Border), ('bottom', Border),
    ('diagonal', Border),
    ('fillflags', Flags('u32', bit(0, 'colorpattern'), bit(1, 'image'), bit(2, 'gradation'))),
    ('fill_colorpattern', FillColorPattern, dict(cond=flag('fillflags', 'colorpattern'))),
    ('fill_gradation', FillGradation, dict(cond=flag('fillflags', 'gradation'))),
    ('fill_image', FillImage, dict(cond=flag('fillflags', 'image'))),
    ('shape', 'u32', dict(cond=flag('fillflags', 'gradation'))),
    ('blur_center', 'byte', dict(cond=flag('fillflags', 'gradation'))))
rec(5, 'CHAR_SHAPE', 'CharShape',
    ('font_face', lang_struct('FontFace', 'word')),
    ('letter_width_expansion', lang_struct('LetterWidthExpansion', 'u8')),
    ('letter_spacing', lang_struct('LetterSpacing', 'i8')),
    ('relative_size', lang_struct('RelativeSize', 'i8')),
    ('position', lang_struct('Position', 'i8')),
    ('basesize', 'i32'),
    ('charshapeflags', Flags(
        'u32', bit(0, 'italic'), bit(1, 'bold'),
        (2, 3, 'underline', E(NONE=0, UNDERLINE=1, LINE_THROUGH=2, OVERLINE=3)),
        (4, 7, 'underline_style', E(SOLID=0, DASHED=1, DOTTED=2, DASH_DOT=3, DASH_DOT_DOT=4,
                                    LONG_DASHED=5, LARGE_DOTTED=6, DOUBLE=7,
                                    LOWER_WEIGHTED=8, UPPER_WEIGHTED=9, MIDDLE_WEIGHTED=10)),
        (8, 10, 'outline'), (11, 13, 'shadow'))),
    ('shadow_space', Struct('ShadowSpace', ('x', 'i8'), ('y', 'i8'))),
    ('text_color', 'color'), ('underline_color', 'color'), ('shade_color', 'color'),
    ('shadow_color', 'color'))
rec(6, 'TAB_DEF', 'TabDef',
    ('flags', Flags('u32', bit(0, 'autotab_left'), bit(1, 'autotab_right'))),
    ('tabs', NArr('u32', Struct('Tab', ('pos', 'hwpunit'), ('flags', Flags(
        'u32', (0, 7, 'kind', E(LEFT=0, RIGHT=1, CENTER=2, FLOAT=3)),
        (8, 15, 'fill_type')))))))
NumberingLevel = Struct(
    'NumberingLevel', ('flags', Flags(
        'u32', (0, 1, 'align', E(LEFT=0, CENTER=1, RIGHT=2, UNKNOWN=3)), bit(2, 'auto_width'),
        bit(3, 'auto_indent'), bit(4, 'space_type', E(RATIO=0, VALUE=1)))),
    ('width_correction', 'hwpunit16'), ('space', 'u16'), ('charshape_id', 'i32'),
    ('numbering_format', 'bstr'))
rec(7, 'NUMBERING', 'Numbering',
    ('levels', Arr(NumberingLevel, 7)), ('starting_number', 'u16'),
    ('unknown', Arr('u32', 7), dict(ver=(5, 0, 3, 0))))
rec(8, 'BULLET', 'Bullet',
    ('flags', Flags('u32', (0, 1, 'align', E(LEFT=0, CENTER=1, RIGHT=2)), bit(3, 'auto_indent'))),
    ('width', 'hwpunit16'), ('space', 'u16'), ('charshape_id', 'i32'), ('char', 'wchar'))
rec(9, 'PARA_SHAPE', 'ParaShape',
    ('parashapeflags', Flags(
        'u32', (0, 1, 'linespacing_type', E(RATIO=0, FIXED=1, SPACEONLY=2, MINIMUM=3)),
        (2, 4, 'align', E(BOTH=0, LEFT=1, RIGHT=2, CENTER=3, DISTRIBUTE=4, DISTRIBUTE_SPACE=5)),
        (5, 6, 'linebreak_alphabet', E(WORD=0, HYPHEN=1, CHAR=2)),
        bit(7, 'linebreak_hangul', E(WORD=0, CHAR=1)), bit(8, 'use_paper_grid'),
        (9, 15, 'minimum_space'), bit(16, 'protect_single_line'),
        bit(17, 'with_next_paragraph'), bit(18, 'protect'), bit(19, 'start_new_page'),
        (20, 21, 'valign', E(FONT=0, TOP=1, CENTER=2, BOTTOM=3)),
        bit(22, 'lineheight_along_fontsize'),
        (23, 24, 'head_shape', E(NONE=0, OUTLINE=1, NUMBER=2, BULLET=3)),
        (25, 27, 'level'), bit(28, 'linked_border'), bit(29, 'ignore_margin'),
        bit(30, 'tail_shape'))),
    ('doubled_margin_left', 'i32'), ('doubled_margin_right', 'i32'), ('indent', 'shwpunit'),
    ('doubled_margin_top', 'i32'), ('doubled_margin_bottom', 'i32'), ('linespacing', 'shwpunit'),
    ('tabdef_id', 'u16'), ('numbering_bullet_id', 'u16'), ('borderfill_id', 'u16'),
    ('border_left', 'hwpunit16'), ('border_right', 'hwpunit16'), ('border_top', 'hwpunit16'),
    ('border_bottom', 'hwpunit16'),
    ('flags2', Flags('u32', (0, 1, 'in_single_line'), (2, 3, 'reserved'),
                     bit(4, 'autospace_alphabet'), bit(5, 'autospace_number')),
     dict(ver=(5, 0, 1, 7))))
rec(10, 'STYLE', 'Style',
    ('local_name', 'bstr'), ('name', 'bstr'),
    ('flags', Flags('byte', (0, 1, 'kind', E(PARAGRAPH=0, CHAR=1)))),
    ('next_style_id', 'byte'), ('lang_id', 'i16'), ('parashape_id', 'u16'),
    ('charshape_id', 'u16'), ('unknown', 'u16'))
rec(11, 'DOC_DATA', 'DocData')
rec(12, 'DISTRIBUTE_DOC_DATA', 'DistributeDocData')
rec(14, 'COMPATIBLE_DOCUMENT', 'CompatibleDocument',
    ('flags', Flags('u32', (0, 1, 'target'))))
rec(15, 'LAYOUT_COMPATIBILITY', 'LayoutCompatibility',
    *[(n, 'u32') for n in ('char', 'paragraph', 'section', 'object', 'field')])
rec(16, 'BEGIN_PLUS_16', 'TagModel32')

# ---------------------------------------------------------------- BodyText
PARA_HEADER, PARA_TEXT, PARA_CHAR_SHAPE, PARA_LINE_SEG, PARA_RANGE_TAG = range(66, 71)
CTRL_HEADER, LIST_HEADER, PAGE_DEF, FOOTNOTE_SHAPE, PAGE_BORDER_FILL = range(71, 76)
SHAPE_COMPONENT, TABLE = 76, 77
SHAPE_LINE, SHAPE_RECT, SHAPE_ELLIPSE, SHAPE_ARC, SHAPE_POLYGON, SHAPE_CURVE = range(78, 84)
SHAPE_OLE, SHAPE_PICTURE, SHAPE_CONTAINER, CTRL_DATA, CTRL_EQEDIT = range(84, 89)

rec(50, 'PARA_HEADER', 'Paragraph',
    ('text', Flags('u32', bit(31, 'unknown'), (0, 30, 'chars'))),
    ('controlmask', Flags('u32', bit(2, 'unknown1'), bit(11, 'control'), bit(21, 'new_number'))),
    ('parashape_id', 'u16'), ('style_id', 'byte'),
    ('split', Flags('byte', bit(0, 'new_section'), bit(1, 'new_columnsdef'), bit(2, 'new_page'),
                    bit(3, 'new_column'))),
    ('charshapes', 'u16'), ('rangetags', 'u16'), ('linesegs', 'u16'), ('instance_id', 'u32'))
rec(51, 'PARA_TEXT', 'ParaText', ('chunks', 'chunks'))


def parent_count(name):
    return lambda vals, ctx: ctx['parent'][1][name]


LineSeg = Struct(
    'LineSeg', ('chpos', 'i32'), ('y', 'shwpunit'), ('height', 'shwpunit'),
    ('height_text', 'shwpunit'), ('height_baseline', 'shwpunit'), ('space_below', 'shwpunit'),
    ('x', 'shwpunit'), ('width', 'shwpunit'),
    ('lineseg_flags', Flags('u32', bit(17, 'line_head'), bit(18, 'line_tail'),
                            bit(20, 'indented'), bit(21, 'bullet'))))
rec(52, 'PARA_CHAR_SHAPE', 'ParaCharShape',
    ('charshapes', XArr(parent_count('charshapes'), Arr('u32', 2))))
rec(53, 'PARA_LINE_SEG', 'ParaLineSeg', ('linesegs', XArr(parent_count('linesegs'), LineSeg)))
rec(54, 'PARA_RANGE_TAG', 'ParaRangeTag',
    ('range_tags', XArr(parent_count('rangetags'), Struct(
        'RangeTag', ('start', 'u32'), ('end', 'u32'),
        ('tag', Flags('u32', (0, 23, 'data'), (24, 31, 'kind')))))))
rec(55, 'CTRL_HEADER', 'Control', ('chid', 'chid'))
rec(56, 'LIST_HEADER', 'ListHeader',
    ('paragraphs', 'u16'), ('unknown1', 'u16'),
    ('listflags', Flags('u32', (0, 2, 'textdirection'), (3, 4, 'linebreak'),
                        (5, 6, 'valign', E(TOP=0, MIDDLE=1, BOTTOM=2)))))
rec(57, 'PAGE_DEF', 'PageDef',
    *([(n, 'hwpunit') for n in ('width', 'height', 'left_offset', 'right_offset', 'top_offset',
                                'bottom_offset', 'header_offset', 'footer_offset',
                                'bookbinding_offset')]
      + [('attr', Flags('u32', bit(0, 'orientation', E(PORTRAIT=0, LANDSCAPE=1)),
                        (1, 2, 'bookbinding', E(LEFT=0, RIGHT=1, TOP=2, BOTTOM=3))))]))
rec(58, 'FOOTNOTE_SHAPE', 'FootnoteShape',
    ('flags', Flags('u32')), ('usersymbol', 'wchar'), ('prefix', 'wchar'), ('suffix', 'wchar'),
    ('starting_number', 'u16'), ('splitter_length', 'hwpunit16'),
    ('splitter_unknown', 'hwpunit16'), ('splitter_margin_top', 'hwpunit16'),
    ('splitter_margin_bottom', 'hwpunit16'), ('notes_spacing', 'hwpunit16'),
    ('splitter_stroke_type', StrokeType), ('splitter_width', Width), ('splitter_color', 'color'))
rec(59, 'PAGE_BORDER_FILL', 'PageBorderFill',
    ('flags', Flags('u32', bit(0, 'relative_to', E(BODY=0, PAPER=1)), bit(1, 'include_header'),
                    bit(2, 'include_footer'), (3, 4, 'fill', E(PAPER=0, PAGE=1, BORDER=2)))),
    ('margin', Margin), ('borderfill_id', 'u16'))
Matrix = Struct('Matrix', *[(n, 'f64') for n in 'acebdf'])
ScaleRotationMatrix = Struct('ScaleRotationMatrix', ('scaler', Matrix), ('rotator', Matrix))


def _gso(vals, ctx):
    return bool(ctx.get('parent')) and ctx['parent'][0] == 'GShapeObjectControl'


def _is(chid, fillbit=None):
    def c(vals, ctx):
        if vals['chid'] != chid:
            return False
        if fillbit:
            return bool(ctx['types']['fill_flags'].split(vals['fill_flags'])[fillbit][0])
        return True
    return c


rec(60, 'SHAPE_COMPONENT', 'ShapeComponent',
    ('chid0', 'chid', dict(cond=_gso)), ('chid', 'chid'),
    ('x_in_group', 'shwpunit'), ('y_in_group', 'shwpunit'), ('level_in_group', 'word'),
    ('local_version', 'word'), ('initial_width', 'shwpunit'), ('initial_height', 'shwpunit'),
    ('width', 'shwpunit'), ('height', 'shwpunit'), ('flags', Flags('u32', bit(0, 'flip'))),
    ('angle', 'word'), ('rotation_center', Coord), ('scalerotations_count', 'word'),
    ('translation', Matrix),
    ('scalerotations', XArr(lambda v, c: v['scalerotations_count'], ScaleRotationMatrix)),
    ('controls', NArr('word', 'chid'), dict(cond=_is('$con'))),
    ('border', BorderLine, dict(cond=_is('$rec'))),
    ('fill_flags', Flags('u16', bit(8, 'fill_colorpattern'), bit(9, 'fill_image'),
                         bit(10, 'fill_gradation')), dict(cond=_is('$rec'))),
    ('unknown', 'u16', dict(cond=_is('$rec'))), ('unknown1', 'u8', dict(cond=_is('$rec'))),
    ('fill_colorpattern', FillColorPattern, dict(cond=_is('$rec', 'fill_colorpattern'))),
    ('fill_gradation', FillGradation, dict(cond=_is('$rec', 'fill_gradation'))),
    ('fill_image', FillImage, dict(cond=_is('$rec', 'fill_image'))),
    ('fill_shape', 'u32', dict(cond=_is('$rec'))),
    ('fill_blur_center', 'byte', dict(cond=_is('$rec', 'fill_gradation'))),
    ('unknown2', ('hex', 5), dict(cond=_is('$rec'), ver=(5, 0, 2, 4))),
    ('unknown3', ('hex', 16), dict(cond=_is('$rec'), ver=(5, 0, 2, 4))),
    ('line', BorderLine, dict(cond=_is('$lin'))))
rec(61, 'TABLE', 'TableBody',
    ('flags', Flags('u32', (0, 1, 'split_page', E(NONE=0, BY_CELL=1, SPLIT=2)),
                    bit(2, 'repeat_header'))),
    ('rows', 'u16'), ('cols', 'u16'), ('cellspacing', 'hwpunit16'), ('padding', Margin),
    ('rowcols', XArr(lambda v, c: v['rows'], 'u16')), ('borderfill_id', 'u16'),
    ('validZones', NArr('u16', Struct('ZoneInfo', *[(n, 'u16') for n in (
        'starting_column', 'starting_row', 'end_column', 'end_row', 'borderfill_id')])),
     dict(ver=(5, 0, 0, 7))))
rec(62, 'SHAPE_COMPONENT_LINE', 'ShapeLine', ('p0', Coord), ('p1', Coord), ('attr', 'u16'))
rec(63, 'SHAPE_COMPONENT_RECTANGLE', 'ShapeRectangle', ('round', 'byte'), ('p0', Coord),
    ('p1', Coord), ('p2', Coord), ('p3', Coord))
rec(64, 'SHAPE_COMPONENT_ELLIPSE', 'ShapeEllipse',
    ('flags', Flags('u32', bit(0, 'arc_recalc_required'), bit(1, 'arc'), (2, 9, 'arc_kind'))),
    *[(n, Coord) for n in ('center', 'axis1', 'axis2', 'start1', 'end1', 'start2', 'end2')])
rec(65, 'SHAPE_COMPONENT_ARC', 'ShapeArc', ('center', Coord), ('axis1', Coord), ('axis2', Coord))
rec(66, 'SHAPE_COMPONENT_POLYGON', 'ShapePolygon', ('points', NArr('u16', Coord)))
rec(67, 'SHAPE_COMPONENT_CURVE', 'ShapeCurve', ('points', NArr('u16', Coord)))
rec(68, 'SHAPE_COMPONENT_OLE', 'ShapeOLE',
    ('flags', Flags('u32', (0, 7, 'dvaspect'), bit(8, 'moniker'), (9, 15, 'baseline'))),
    ('extent_x', 'i32'), ('extent_y', 'i32'), ('storage_id', 'binid'), ('border', BorderLine))
rec(69, 'SHAPE_COMPONENT_PICTURE', 'ShapePicture',
    ('border', BorderLine),
    ('rect', Struct('ImageRect', ('p0', Coord), ('p1', Coord), ('p2', Coord), ('p3', Coord))),
    ('clip', Struct('ImageClip', *[(n, 'shwpunit') for n in ('left', 'top', 'right', 'bottom')])),
    ('padding', Margin),
    ('picture', Struct('PictureInfo', ('brightness', 'i8'), ('contrast', 'i8'),
                       ('effect', 'byte'), ('bindata_id', 'u16'))),
    ('border_transparency', 'byte', dict(ver=(5, 0, 2, 2))),
    ('instance_id', 'u32', dict(ver=(5, 0, 2, 5))),
    ('picture_effect', Struct('PictureEffect', ('flags', Flags('u32'))),
     dict(ver=(5, 0, 3, 4))))
for _off, _tag, _name in (
        (70, 'SHAPE_COMPONENT_CONTAINER', 'ShapeContainer'), (71, 'CTRL_DATA', 'ControlData'),
        (72, 'CTRL_EQEDIT', 'EqEdit'), (74, 'SHAPE_COMPONENT_TEXTART', 'ShapeTextArt'),
        (75, 'FORM_OBJECT', 'FormObject'), (76, 'MEMO_SHAPE', 'MemoShape'),
        (77, 'MEMO_LIST', 'MemoList'), (78, 'FORBIDDEN_CHAR', 'ForbiddenChar'),
        (79, 'CHART_DATA', 'ChartData'), (99, 'SHAPE_COMPONENT_UNKNOWN', 'ShapeUnknown')):
    rec(_off, _tag, _name)

# ---------------------------------------------------------------- controls
CONTROLS = {}     # chid -> (model name, Struct of the fields after chid)


def ctl(chid, name, *fields):
    CONTROLS[chid] = Struct(name, *fields)


_common = [
    ('flags', Flags(
        'u32', bit(0, 'inline'), bit(2, 'affect_line_spacing'),
        (3, 4, 'vrelto', E(PAPER=0, PAGE=1, PARAGRAPH=2)),
        (5, 7, 'valign', E(TOP=0, MIDDLE=1, BOTTOM=2)),
        (8, 9, 'hrelto', E(PAPER=0, PAGE=1, COLUMN=2, PARAGRAPH=3)),
        (10, 12, 'halign', E(LEFT=0, CENTER=1, RIGHT=2, INSIDE=3, OUTSIDE=4)),
        bit(13, 'restrict_in_page'), bit(14, 'overlap_others'),
        (15, 17, 'width_relto', E(PAPER=0, PAGE=1, COLUMN=2, PARAGRAPH=3, ABSOLUTE=4)),
        (18, 19, 'height_relto', E(PAPER=0, PAGE=1, ABSOLUTE=2)),
        bit(20, 'protect_size_when_vrelto_paragraph'),
        (21, 23, 'flow', E(FLOAT=0, BLOCK=1, BACK=2, FRONT=3)),
        (24, 25, 'text_side', E(BOTH=0, LEFT=1, RIGHT=2, LARGER=3)),
        (26, 27, 'number_category', E(NONE=0, FIGURE=1, TABLE=2, EQUATION=3)))),
    ('y', 'shwpunit'), ('x', 'shwpunit'), ('width', 'hwpunit'), ('height', 'hwpunit'),
    ('z_order', 'i16'), ('unknown1', 'i16'), ('margin', Margin), ('instance_id', 'u32'),
    ('unknown2', 'i16', dict(ver=(5, 0, 0, 5))), ('description', 'bstr', dict(ver=(5, 0, 0, 5)))]
ctl('gso ', 'GShapeObjectControl', *_common)
ctl('tbl ', 'TableControl', *_common)
ctl('bokm', 'BookmarkControl')
ctl('cold', 'ColumnsDef',
    ('flags', Flags('u16', (0, 1, 'kind', E('normal', 'distribute', 'parallel')), (2, 9, 'count'),
                    (10, 11, 'direction', E('l2r', 'r2l', 'both')), bit(12, 'same_widths'))),
    ('spacing', 'hwpunit16'),
    ('column0', Struct('Column0', ('width', 'word')),
     dict(cond=lambda v, c: not flag('flags', 'same_widths')(v, c))),
    ('columns', XArr(lambda v, c: flag('flags', 'count')(v, c) - 1,
                     Struct('Column', ('spacing', 'word'), ('width', 'word'))),
     dict(cond=lambda v, c: not flag('flags', 'same_widths')(v, c))),
    ('attr2', 'u16'), ('splitter', Border))
ctl('tdut', 'Dutmal', ('maintext', 'bstr'), ('subtext', 'bstr'),
    ('position-flags', Flags('u32', (0, 31, 'position', E(ABOVE=0, BELOW=1, CENTER=2)))),
    ('fsizeratio', 'u32'), ('option', 'u32'), ('stylenumber', 'u32'),
    ('align-flags', Flags('u32', (0, 31, 'align', E(
        BOTH=0, LEFT=1, RIGHT=2, CENTER=3, DISTRIBUTE=4, DISTRIBUTE_SPACE=5)))))
_field = [('flags', Flags('u32', bit(0, 'editableInReadOnly'), (11, 14, 'visitedType'),
                          bit(15, 'modified'))),
          ('extra_attr', 'byte'), ('command', 'bstr'), ('id', 'u32')]
FIELDS = {
    '%unk': 'FieldUnknown', '%dte': 'FieldDate', '%ddt': 'FieldDocDate', '%pat': 'FieldPath',
    '%bmk': 'FieldBookmark', '%mmg': 'FieldMailMerge', '%xrf': 'FieldCrossRef',
    '%fmu': 'FieldFormula', '%clk': 'FieldClickHere', '%smr': 'FieldSummary',
    '%usr': 'FieldUserInfo', '%hlk': 'FieldHyperLink', '%sig': 'FieldRevisionSign',
    '%%*d': 'FieldRevisionDelete', '%%*a': 'FieldRevisionAttach',
    '%%*C': 'FieldRevisionClipping', '%%*S': 'FieldRevisionSawtooth',
    '%%*T': 'FieldRevisionThinking', '%%*P': 'FieldRevisionPraise',
    '%%*L': 'FieldRevisionLine', '%%*c': 'FieldRevisionSimpleChange',
    '%%*h': 'FieldRevisionHyperlink', '%%*A': 'FieldRevisionLineAttach',
    '%%*i': 'FieldRevisionLineLink', '%%*t': 'FieldRevisionLineTransfer',
    '%%*r': 'FieldRevisionRightMove', '%%*l': 'FieldRevisionLeftMove',
    '%%*n': 'FieldRevisionTransfer', '%%*e': 'FieldRevisionSimpleInsert',
    '%spl': 'FieldRevisionSplit', '%%mr': 'FieldRevisionChange', '%%me': 'FieldMemo',
    '%cpr': 'FieldPrivateInfoSecurity'}
for _c, _n in FIELDS.items():
    ctl(_c, _n, *_field)
_hf = [('flags', Flags('u32', (0, 1, 'places', E(BOTH_PAGES=0, EVEN_PAGE=1, ODD_PAGE=2))))]
ctl('head', 'Header', *_hf)
ctl('foot', 'Footer', *_hf)
ctl('tcmt', 'HiddenComment')
ctl('idxm', 'IndexMarker', ('keyword1', 'bstr'), ('keyword2', 'bstr'), ('dummy', 'u16'))
_note = [('number', 'u32'), ('unknown0', 'u32'), ('unknown1', 'u32'),
         ('unknown2', 'u16', dict(ver=(5, 0, 3, 0))), ('unknown3', 'u16', dict(ver=(5, 0, 3, 0)))]
ctl('fn  ', 'FootNote', *_note)
ctl('en  ', 'EndNote', *_note)
_num = [('flags', Flags('u32', (0, 3, 'kind', E(
    PAGE=0, FOOTNOTE=1, ENDNOTE=2, PICTURE=3, TABLE=4, EQUATION=5, UNKNOWN6=6)),
    (4, 11, 'footnoteshape'), bit(12, 'superscript'))), ('number', 'u16')]
ctl('atno', 'AutoNumbering', *(_num + [('usersymbol', 'wchar'), ('prefix', 'wchar'),
                                       ('suffix', 'wchar')]))
ctl('nwno', 'NewNumbering', *_num)
ctl('pghd', 'PageHide', ('flags', Flags('u32', *[bit(i, n) for i, n in enumerate(
    ('header', 'footer', 'basepage', 'pageborder', 'pagefill', 'pagenumber'))])))
ctl('pgnp', 'PageNumberPosition',
    ('flags', Flags('u32', (0, 7, 'shape'), (8, 11, 'position', E(
        'NONE', 'TOP_LEFT', 'TOP_CENTER', 'TOP_RIGHT', 'BOTTOM_LEFT', 'BOTTOM_CENTER',
        'BOTTOM_RIGHT', 'OUTSIDE_TOP', 'OUTSIDE_BOTTOM', 'INSIDE_TOP', 'INSIDE_BOTTOM')))),
    ('usersymbol', 'wchar'), ('prefix', 'wchar'), ('suffix', 'wchar'), ('dash', 'wchar'))
ctl('pgct', 'PageOddEven', ('flags', Flags('u32', (0, 1, 'pages', E(
    BOTH_PAGES=0, EVEN_PAGE=1, ODD_PAGE=2)))))
ctl('secd', 'SectionDef',
    ('flags', Flags('u32', *([bit(i, n) for i, n in enumerate((
        'hide_header', 'hide_footer', 'hide_page', 'hide_border', 'hide_background',
        'hide_pagenumber'))] + [
        bit(8, 'show_border_on_first_page_only'), bit(9, 'show_background_on_first_page_only'),
        (16, 18, 'text_direction'), bit(19, 'hide_blank_line'),
        (20, 21, 'pagenum_on_split_section'), bit(22, 'squared_manuscript_paper')]))),
    ('columnspacing', 'hwpunit16'), ('grid_vertical', 'hwpunit16'),
    ('grid_horizontal', 'hwpunit16'), ('defaultTabStops', 'hwpunit'),
    ('numbering_shape_id', 'u16'), ('starting_pagenum', 'u16'), ('starting_picturenum', 'u16'),
    ('starting_tablenum', 'u16'), ('starting_equationnum', 'u16'),
    ('unknown1', 'u32', dict(ver=(5, 0, 1, 7))), ('unknown2', 'u32', dict(ver=(5, 0, 1, 7))))
ctl('tcps', 'TCPSControl', ('textlength', 'bstr'))

_cap = [('flags', Flags('u32', (0, 1, 'position', E(LEFT=0, RIGHT=1, TOP=2, BOTTOM=3)),
                        bit(2, 'expand_to_margin'))),
        ('width', 'hwpunit'), ('separation', 'hwpunit16'), ('max_width', 'hwpunit')]
_hfl = [('width', 'hwpunit'), ('height', 'hwpunit'), ('textrefsbitmap', 'byte'),
        ('numberrefsbitmap', 'byte')]
# (parent model, table body seen before) -> list header specialisation
LISTS = {
    ('TableControl', False): Struct('TableCaption', *_cap),
    ('TableControl', True): Struct(
        'TableCell', ('col', 'u16'), ('row', 'u16'), ('colspan', 'u16'), ('rowspan', 'u16'),
        ('width', 'shwpunit'), ('height', 'shwpunit'), ('padding', Margin),
        ('borderfill_id', 'u16'), ('unknown_width', 'shwpunit')),
    ('GShapeObjectControl', False): Struct('GShapeObjectCaption', *_cap),
    ('ShapeComponent', False): Struct('TextboxParagraphList', ('padding', Margin),
                                      ('maxwidth', 'hwpunit')),
    ('Header', False): Struct('HeaderParagraphList', *_hfl),
    ('Footer', False): Struct('FooterParagraphList', *_hfl),
}
CTRLDATA = {
    'BookmarkControl': Struct('BookmarkControlData', ('unknown1', 'u32'), ('unknown2', 'u32'),
                              ('unknown3', 'u16'), ('name', 'bstr')),
    'FieldClickHere': Struct('FieldClickHereData'),
    'SectionDef': Struct('SectionDefData', ('unknown', ('hex', 280))),
}


def model_structs(tagid, parent, chid=None, seen_table=False):
    '''the list of Structs whose fields make up the record, and the model name'''
    base = RECORDS.get(tagid)
    if base is None:
        return 'UnknownTagModel', []
    if tagid == CTRL_HEADER:
        ext = CONTROLS.get(chid)
    elif tagid == LIST_HEADER and parent:
        ext = LISTS.get((parent[0], seen_table))
    elif tagid == CTRL_DATA and parent:
        ext = CTRLDATA.get(parent[0])
    else:
        ext = None
    if ext is None:
        return base.name, [base]
    return ext.name, [base, ext]


# ---------------------------------------------------------------- encoding
def enc_prim(t, v):
    return _s.pack(PRIM[t], v)


def encode(t, value, ctx):
    '''bytes of `value`; Struct values are dicts in field order'''
    if isinstance(t, str):
        if t in PRIM:
            return enc_prim(t, value)
        if t == 'chid':
            return value.encode('latin1')[::-1]
        if t == 'bstr':
            data = value.encode('utf-16-le', 'surrogatepass')
            return _s.pack('<H', len(data) // 2) + data
        if t == 'chunks':
            return b''.join(encode_chunk(c) for _, c in value)
    if isinstance(t, tuple) and t[0] == 'hex':
        return bytes.fromhex(value.decode('ascii'))
    if isinstance(t, Flags):
        return enc_prim(t.base, value)
    if isinstance(t, Struct):
        return encode_struct(t, value, ctx)
    if isinstance(t, (Arr, XArr)):
        return b''.join(encode(t.item, x, ctx) for x in value)
    if isinstance(t, NArr):
        return enc_prim(t.count, len(value)) + b''.join(encode(t.item, x, ctx) for x in value)
    if isinstance(t, Sel):
        return encode(t.table[t.keyfn(ctx['vals'], ctx)], value, ctx)
    raise TypeError(t)


def present(opts, vals, ctx):
    if opts.get('ver') and ctx['version'] < opts['ver']:
        return False
    c = opts.get('cond')
    return True if c is None else bool(c(vals, ctx))


def encode_struct(s, value, ctx):
    sub = dict(ctx, vals=value, types={n: t for n, t, _ in s.fields})
    out = b''
    for name, t, opts in s.fields:
        if present(opts, value, sub):
            out += encode(t, value[name], sub)
    return out


def encode_chunk(c):
    if isinstance(c, str):
        return c.encode('utf-16-le', 'surrogatepass')
    code = c['code']
    if 'param' not in c:
        return _s.pack('<H', code)
    if code == 9:
        p = c['param']
        body = (_s.pack('<IBB', p['width'], p['unknown0'], p['unknown1']) + p['unknown2'])
    else:
        body = c['chid'].encode('latin1')[::-1] + c['param']
    assert len(body) == 12
    return _s.pack('<H', code) + body + _s.pack('<H', code)


# control characters: code -> (name, kind)
CC = {0x00: ('NULL', 'CHAR'), 0x01: ('CTLCHR01', 'EXTENDED'),
      0x02: ('SECTION_COLUMN_DEF', 'EXTENDED'), 0x03: ('FIELD_START', 'EXTENDED'),
      0x04: ('FIELD_END', 'INLINE'), 0x05: ('CTLCHR05', 'INLINE'), 0x06: ('CTLCHR06', 'INLINE'),
      0x07: ('CTLCHR07', 'INLINE'), 0x08: ('TITLE_MARK', 'INLINE'), 0x09: ('TAB', 'INLINE'),
      0x0a: ('LINE_BREAK', 'CHAR'), 0x0b: ('DRAWING_TABLE_OBJECT', 'EXTENDED'),
      0x0c: ('CTLCHR0C', 'EXTENDED'), 0x0d: ('PARAGRAPH_BREAK', 'CHAR'),
      0x0e: ('CTLCHR0E', 'EXTENDED'), 0x0f: ('HIDDEN_EXPLANATION', 'EXTENDED'),
      0x10: ('HEADER_FOOTER', 'EXTENDED'), 0x11: ('FOOT_END_NOTE', 'EXTENDED'),
      0x12: ('AUTO_NUMBER', 'EXTENDED'), 0x13: ('CTLCHR13', 'INLINE'),
      0x14: ('CTLCHR14', 'INLINE'), 0x15: ('PAGE_CTLCHR', 'EXTENDED'),
      0x16: ('BOOKMARK', 'EXTENDED'), 0x17: ('CTLCHR17', 'EXTENDED'), 0x18: ('HYPHEN', 'CHAR'),
      0x1e: ('NONBREAK_SPACE', 'CHAR'), 0x1f: ('FIXWIDTH_SPACE', 'CHAR')}


def chunk_units(c):
    if isinstance(c, str):
        return len(c.encode('utf-16-le', 'surrogatepass')) // 2
    return 8 if 'param' in c else 1


def record_bytes(tagid, level, payload):
    n = len(payload)
    if n < 0xfff:
        return _s.pack('<I', (n << 20) | (level << 10) | tagid) + payload
    return _s.pack('<II', (0xfff << 20) | (level << 10) | tagid, n) + payload
