"""The properties, as written to properties.jsonl."""
W, R = "src/io/write.rs", "src/io/read.rs"
NA = {}
PROPS = [
    dict(
        id="P01", title="Cell text survives a write/read round trip unchanged",
        statement="Any text put into a cell - plain text of any characters, with line breaks, runs of spaces, markup characters, or rich text made of paragraphs and nested spans - is the text found in that cell after the workbook was written and read again. Neighbouring cells are not affected.",
        all="for every text: any characters, any number of lines, any length, plain or rich",
        why="The tests write a handful of literals; the property is over all strings, where escaping, entity handling, line splitting and white space handling meet.",
        files=[W, R, "src/io/xmlwriter.rs", "src/xmltree.rs"],
        mech=[("escaping of text", "src/io/xmlwriter.rs escape"), ("one paragraph per line", "src/io/write.rs write_cell"), ("text collection, entities", "src/io/read.rs read_text_or_tag, append_text")]),
    dict(
        id="P02", title="Typed cell values survive a round trip exactly",
        statement="Booleans, numbers, percentages, currency amounts with their code, dates, date-times down to the nanosecond and durations of either sign keep their type and exact value when a workbook is written and read again.",
        all="for every value of every cell type",
        why="Tests try single values per type; calendar arithmetic, fractions, signs and digit handling fail for particular values only.",
        files=[W, R, "src/io/format.rs", "src/io/parse.rs", "src/value_.rs"],
        mech=[("value attributes", "src/io/write.rs write_cell"), ("value parsing", "src/io/read.rs read_table_cell"), ("hand written tokenizers", "src/io/parse.rs"), ("duration format", "src/io/format.rs")]),
    dict(
        id="P03", title="Cells keep their row, column, repetition and merged area",
        statement="After writing and reading a workbook, exactly the cells that were set are there, at the same rows and columns with the same values, whatever the gaps between them, and the used area and the order of the sheets are the same. Merged areas keep their extent and the cells hidden below them, and no visible cell is marked as hidden; repeated cells and rows are expanded to the same number of copies, or kept with their repeat count when reading is told to keep them, and what follows them keeps its place.",
        all="for every set of occupied positions, every repeat count and every merged area",
        why="Tests use a few layouts; the run-length encoding of gaps, repeats and covered cells depends on every combination of neighbours.",
        files=[W, R, "src/sheet_.rs", "src/cell_.rs"],
        mech=[("gap encoding", "src/io/write.rs write_empty_cells, write_empty_rows_before"), ("covered cells", "src/io/write.rs split/remove outlooped spans"), ("repeat expansion", "src/io/read.rs read_table_cell, set_row_repeat")]),
    dict(
        id="P04", title="Everything attached to a cell survives a round trip",
        statement="A cell's formula, style, validation, merged and matrix extent, its annotation (visibility, name, creator, date, text, attributes) and its drawing frames (description, title, attributes, images with text and binary data) are the same after writing and reading the workbook, in every combination and for every text in them. Nothing of this appears on a cell that did not have it.",
        all="for every formula/name/text, every date, every matrix extent and every combination of the parts",
        why="Each part has its own writer and reader code; tests touch few of them with plain literals.",
        files=[W, R, "src/cell_.rs", "src/draw.rs"],
        mech=[("cell attributes", "src/io/write.rs write_cell"), ("cell reading", "src/io/read.rs read_table_cell"), ("annotations and frames", "src/io/read.rs read_annotation, read_draw_frame")]),
    dict(
        id="P05", title="Row and column headers survive a round trip",
        statement="Within the used area, the style, default cell style, visibility and size set for a row or a column are found at exactly that row or column after writing and reading the workbook, whichever other rows or columns carry headers or cells. Setting a header value of one row or column changes no other row or column.",
        all="for every combination of headers on rows and columns and every order of setting them",
        why="Runs of equal headers are merged, split along groups and expanded again, and empty rows take another code path; tests use isolated headers.",
        files=[W, R, "src/sheet_.rs"],
        mech=[("merging of headers", "src/sheet_.rs dedup_colheader, split of headers in the setters"), ("size styles", "src/io/write.rs calc_col_header_styles, calc_row_header_styles"), ("expansion", "src/io/read.rs read_table_col_attr, read_table_row_attr")]),
    dict(
        id="P06", title="Groups, header rows, print ranges and sheet flags survive a round trip",
        statement="Row and column groups that are nested or apart keep their extent and display state, repeated header rows and columns keep their extent, and print ranges, sheet name, display and print flag are unchanged when a workbook is written and read again. This holds whichever of the rows and columns have cells, and the cells themselves are not affected.",
        all="for every arrangement of groups, headers and occupied rows or columns, every print range and flag",
        why="Groups and headers are written as properly nested elements around runs of rows, which depend on every gap in the data; tests have two arrangements.",
        files=[W, R, "src/sheet_.rs"],
        mech=[("group elements", "src/io/write.rs write_table_columns, write_start_current_row, write_end_prev_row, write_empty_rows_before"), ("reading groups", "src/io/read.rs read_table")]),
    dict(
        id="P07", title="A formatted cell reference parses to the same reference",
        statement="The text form of a cell reference, cell range, column range, row range or list of ranges parses back to an equal value: same rows and columns, same absolute flags, same table names and document address, whatever characters the names contain. The form used in formulas is that text in brackets.",
        all="for every row and column, every combination of absolute flags, every table name and address",
        why="Quoting and the limits of rows and columns matter for particular names and numbers only; tests have a few literals.",
        files=["src/refs.rs", "src/refs/format.rs", "src/refs/parser.rs"],
        mech=[("formatting and quoting", "src/refs.rs format_refs"), ("parsing", "src/refs/parser.rs")],
        observe="Display and TryFrom of the reference types, parse functions of the refs module"),
    dict(
        id="P08", title="Row and column labels denote exactly their row and column",
        statement="Every column has exactly one label of upper case letters (A, B, ... Z, AA, ...), labels are ordered as the columns are (shorter before longer, then by letter), and every row's label is its number counted from one in decimal. Parsing a label gives that row or column, and a label that is malformed or beyond the last row or column is an error and never another row or column.",
        all="for every row and column number and every label",
        why="Base 26 without a zero has borrow cases at every Z; tests check some columns.",
        files=["src/refs/format.rs", "src/refs/parser.rs"],
        mech=[("column label", "src/refs/format.rs fmt_col_name"), ("label parsing", "src/refs/parser.rs try_u32_from_colname, try_u32_from_rowname")],
        observe="Display and TryFrom of the reference types"),
    dict(
        id="P09", title="Reference parsers answer for every text without crashing",
        statement="Parsing any text as a cell, range, column range, row range or list of ranges ends with a value or an error, never with a panic or endless loop. A text is only accepted as a cell or range if all of it has the form of one, and an accepted value formatted and parsed again is equal to itself.",
        all="for every text",
        why="Tests parse well-formed references and a few broken ones; the parser sees text from documents and users.",
        files=["src/refs.rs", "src/refs/parser.rs"],
        mech=[("parsers", "src/refs/parser.rs"), ("entry points", "src/refs.rs parse_cellref and others")],
        observe="parse functions of the refs module"),
    dict(
        id="P10", title="Value attributes of a document are taken exactly or refused",
        statement="A number, boolean, date, time, duration or count found in a document is read as exactly the value that text denotes, for every number of digits, sign and fraction. A text that does not denote such a value (an impossible date, digits out of range, stray characters) is an error and never another value, a panic or an endless loop.",
        all="for every text of a value attribute",
        why="The parsers are hand-written tokenizers over raw bytes; tests feed them the forms the writer itself produces.",
        files=["src/io/parse.rs", R],
        mech=[("tokenizers", "src/io/parse.rs"), ("use of the parsers", "src/io/read.rs read_table_cell")],
        observe="reading a flat document through the public API: the cell values found, or the error"),
    dict(
        id="P11", title="A damaged document is an error, never a crash or an endless loop",
        statement="Reading a document that is cut off, has an element lost, doubled, moved or renamed, or has a byte or an attribute value replaced by anything ends with a workbook or an error; it does not panic, loop or use up memory. A workbook obtained this way can be written again, and what was written can be read.",
        all="for every kind and place of the damage, in every part of a document",
        why="Tests read intact documents; readers meet files from other programs, truncated downloads and hostile input.",
        files=[R, W, "src/io/parse.rs", "src/sheet_.rs"],
        mech=[("event loops per element", "src/io/read.rs"), ("repeat and span handling", "src/io/read.rs, src/sheet_.rs")],
        observe="reading a flat document through the public API, writing the result"),
    dict(
        id="P12", title="Validations survive a round trip",
        statement="A content validation keeps its name, condition, base cell, display mode, empty-cell flag and its error and help messages (display flag, kind, title and text) when a workbook is written and read again, for every condition text, every reference and every combination of these. Each validation is there exactly once, and the cells referring to it still do.",
        all="for every condition and message text, every base cell, every combination of options",
        why="Tests have one validation with plain texts; parts are optional and each has its own default.",
        files=[W, R, "src/validation.rs", "src/condition.rs"],
        mech=[("writing", "src/io/write.rs write_content_validations"), ("reading", "src/io/read.rs read_validations, read_validation")]),
    dict(
        id="P13", title="Styles survive a round trip",
        statement="Every style of a workbook (table, row, column, cell, paragraph, text, ruby and graphic styles) is found under its name and family after writing and reading, with the same kind (automatic, common or default), the same attributes and properties, and its conditional style maps and tab stops in order; no style is lost, doubled or mixed up with one of the same name in another family. Sheets, rows, columns and cells still refer to their style, and a style added without a name gets one that no other style of its family has.",
        all="for every attribute text, every combination of property sets, kinds, places and families",
        why="Every family has its own writer, the reader decides family and kind from the surrounding element; tests write single styles and look at few attributes.",
        files=[W, R, "src/workbook_.rs", "src/style/mod.rs", "src/style/stylemap.rs"],
        mech=[("writing per family", "src/io/write.rs write_styles and write_*style"), ("reading", "src/io/read.rs read_style_style, read_styles_tag"), ("naming", "src/workbook_.rs add_*style")]),
    dict(
        id="P16", title="Document metadata survives a round trip",
        statement="Title, description, subject, keywords, creators, dates, language, editing cycles and duration, template, reload and hyperlink behaviour, statistics and user defined values of every type are the same after a workbook was written and read again, for every text, date and duration, whichever of them are set. The counts of tables and cells are those of the workbook that was written.",
        all="for every text, date, duration and every combination of fields",
        why="Tests write a few fields; each field has its own element, format and default.",
        files=[W, R, "src/metadata.rs", "src/io/format.rs", "src/io/parse.rs"],
        mech=[("writing", "src/io/write.rs write_metadata, write_office_meta, calc_metadata"), ("reading", "src/io/read.rs read_office_meta, read_metadata_value")]),
    dict(
        id="P17", title="Settings of workbook and sheets survive a round trip",
        statement="Active sheet, tab bar and display flags of a workbook and cursor, split or frozen panes, scroll positions, zoom and grid of every sheet are the same after writing and reading, and they stay with their sheet when sheets are moved, removed or renamed. Settings that the library does not know are written with the same structure, type and value as they were read.",
        all="for every setting, every combination of split modes and every foreign setting of the known types",
        why="Settings are kept in a tree of named items apart from the sheets and matched by name; tests look at one split.",
        files=[W, R, "src/config.rs", "src/sheet_.rs", "src/workbook_.rs"],
        mech=[("to the tree", "src/io/write.rs calc_config, write_config_*"), ("from the tree", "src/io/read.rs read_config_*, set_sheet_config"), ("splitting", "src/sheet_.rs split_col_header and others")]),
    dict(
        id="P14", title="Value formats survive a round trip and show what was asked for",
        statement="Every value format of a workbook (boolean, number, percentage, currency, text, date and time) is found under its name after writing and reading, with the same parts in the same order, each with its digits, texts, embedded texts, locale and other attributes, and with the same conditional sub-formats. The ready-made formats contain exactly the parts, digits, currency symbol and conditions their parameters ask for.",
        all="for every sequence of parts, every text and number in them, and every locale listed",
        why="Each kind of format has its own element with nested parts and optional attributes; tests compare a few formats by eye.",
        files=[W, R, "src/format/mod.rs", "src/format/create.rs", "src/format/builder.rs", "src/workbook_.rs", "src/macro_format.rs"],
        mech=[("writing", "src/io/write.rs write_valuestyles, write_format_part"), ("reading", "src/io/read.rs read_value_format, read_value_format_parts"), ("building", "src/format/builder.rs, src/format/create.rs")]),
    dict(
        id="P15", title="Page styles, master pages and fonts survive a round trip",
        statement="Page styles with their header and footer styles, master pages with their page style, following page, and the left, center, right or free content of all headers and footers of normal, first and left pages, and font declarations are the same after a workbook was written and read again, whichever of them are set. None is lost, doubled or attached to another page.",
        all="for every text, every combination of headers, footers, regions and display flags",
        why="Six headers and footers share one reader and have four places for content each; tests set one or two of them.",
        files=[W, R, "src/style/masterpage.rs", "src/style/pagestyle.rs", "src/style/fontface.rs"],
        mech=[("writing", "src/io/write.rs write_master_page, write_header_footer, write_pagestyles, write_office_font_face_decls"), ("reading", "src/io/read.rs read_master_page, read_headerfooter, read_page_style, read_office_font_face_decls")]),
    dict(
        id="P18", title="Parts of a document the library does not model are passed through",
        statement="Scripts and event listeners, elements of a workbook or sheet that the library keeps without interpreting them (named expressions, database ranges, data pilots, conditional formats, forms, shapes, change tracking and others) and further files of a package are written just as they were read or set: same content, same order, inside the same parent, with their namespaces declared. This holds for whatever texts, attributes and nested elements they contain.",
        all="for every pass-through element, place, text and combination, and every number of scripts, listeners and files",
        why="Losing a user's macros, names or pictures is silent; tests open and save files without comparing these parts.",
        files=[W, R, "src/xmltree.rs", "src/workbook_.rs", "src/manifest.rs", "src/sheet_.rs"],
        mech=[("pass-through elements", "src/io/read.rs read_office_body, read_table, read_xml; src/io/write.rs write_office_body, write_sheet, write_xmltag"), ("scripts", "read_scripts, write_office_scripts"), ("files", "read_ods_extras, write_ods_extra, write_ods_manifest")]),
    dict(
        id="P19", title="Cells, ranges, groups and sheets behave like a map and a list",
        statement="After any sequence of operations that set, add, copy, clear or remove parts of cells, every cell has exactly what was last set there, cells never touched are empty, and counting and iterating give every cell once and in order; iterating a range or a rectangle, row by row or column by column, gives exactly the cells inside and ends. Sheets keep their order and content through pushing, inserting, removing, detaching and attaching, and showing or hiding a group changes exactly its rows or columns.",
        all="for every sequence of operations, every position and every range",
        why="Tests run short fixed sequences; positions, aliasing of cells, bounds and order of operations decide.",
        files=["src/sheet_.rs", "src/cell_.rs", "src/workbook_.rs", "src/ds/detach.rs"],
        mech=[("cells", "src/sheet_.rs set_*, clear_*, add_cell, remove_cell; src/cell_.rs"), ("iterators", "src/sheet_.rs CellIter, Range, IterRows, IterCols"), ("sheets", "src/workbook_.rs, src/ds/detach.rs"), ("groups", "src/sheet_.rs set_row_group_displayed, set_col_group_displayed")]),
    dict(
        id="P20", title="The same document in another XML form is read alike",
        statement="Documents that are the same XML are read as the same workbook: it does not matter whether an element without content has an end tag, in which order and quotes attributes come, whether comments, processing instructions or line breaks stand between elements, whether there is an XML declaration, and whether text is written as it is, as CDATA, or by character references. This holds for flat documents and for the parts of a package.",
        all="for every element the library reads, every form and every text",
        why="Files come from other programs; the tests read files of one program. An element matched in one form only is skipped silently.",
        files=[R],
        mech=[("event matching", "src/io/read.rs read_table, read_table_cell, read_office_*, read_ods_manifest, read_text_or_tag"), ("text and entities", "src/io/read.rs append_text")]),
    dict(
        id="P21", title="What is written is well-formed and says what was set",
        statement="Every document the library writes, a flat document or a part of a package, is well-formed XML 1.0: one root, matching tags, no attribute twice, every prefix declared, special characters escaped. An XML parser that knows nothing of this library finds in it exactly the texts that were set (line breaks and tabs in attributes included), for every text of characters XML can represent, wherever a text can be set. The table has its columns before its rows, groups and headers nest, and rows have cells. A package has the media type first, every part once, every part listed in the manifest, and nothing listed that is not there; so does a package that was read and written again.",
        all="for every text in every place, every arrangement of rows, columns, groups and headers, every package",
        why="The tests read files back with the same library, which forgives what other programs refuse; and they use plain texts.",
        files=["src/io/write.rs", "src/io/xmlwriter.rs"],
        mech=[("escaping, tags, attributes", "src/io/xmlwriter.rs"), ("document parts", "src/io/write.rs write_ods_content, write_ods_styles, write_ods_manifest, write_fods_content"), ("table structure", "src/io/write.rs write_sheet, write_table_columns, write_empty_rows_before")]),
]
