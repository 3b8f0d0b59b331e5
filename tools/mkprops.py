"""Writes /verif/properties.jsonl (run by hand after editing this file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None}})

SMOKE = "The existing tests contain no assertion: they build a few seeded random documents and only fail on an exception. "

p("C01", "Every output is a structurally valid PDF file",
  "Whatever supported elements a document is built from, the bytes written form a valid PDF file: the header, every cross-reference offset, the trailer's Size, Root and ID, startxref and every stream length are exactly right, and every indirect reference resolves to an existing object. Every object, and every page and content stream, parses as well-formed PDF syntax, and every font and image a page uses is declared in that page's resources.",
  ["inputs", "histories"], "all documents built through the paragraph, image, table, content box and document interfaces, with any text (delimiters, backslashes, accented characters), labels, links and metadata",
  SMOKE + "No test reads back a file, so offsets, lengths, unescaped strings or dangling references are never noticed.",
  ["pdfme/base.py", "pdfme/parser.py", "pdfme/pdf.py", "pdfme/page.py"],
  [("PDFBase.output writes header, objects, xref, trailer", "pdfme/base.py"), ("parse_obj/parse_dict/parse_list/parse_stream", "pdfme/parser.py"), ("PDFPage resources", "pdfme/page.py")],
  ["bytes given to output(buffer)"], [{"name": "PDFBase.content", "meaning": "indirect objects in order", "where": "pdfme/base.py"}])

p("C02", "Values added to a PDF file read back as the same values",
  "Any supported Python value added to a low-level PDF file (nested dicts, lists and tuples, strings, booleans, integers, floats, raw bytes and references) is written as PDF syntax that, read by the rules of the PDF specification, denotes that same value. This holds for any nesting, and for strings with parentheses, backslashes, line ends and any latin-1 character.",
  ["inputs"], "all values built from the supported types, nested to any depth, and all custom trailers",
  SMOKE + "The serializer only sees the few dictionaries the library itself builds; strings with special characters never occur.",
  ["pdfme/parser.py", "pdfme/base.py"],
  [("parse_obj and its helpers", "pdfme/parser.py"), ("PDFBase.add / __getitem__ / __setitem__", "pdfme/base.py")],
  ["PDFBase.output bytes"])

p("C03", "Streams are stored losslessly and output is repeatable",
  "A stream object's bytes, given directly or as a dict of pieces, are recovered exactly by decoding the written stream with its declared Filter, or are stored untouched when encoding is skipped. Writing a document does not consume or change it: writing it again, also after adding more to it, yields all the same contents.",
  ["inputs", "histories"], "all byte strings and piece dicts, filtered, skipped or raw, and all sequences of add, modify and output on one file or document",
  SMOKE + "Each test writes each document once and never decodes a stream.",
  ["pdfme/parser.py", "pdfme/encoders.py", "pdfme/base.py", "pdfme/pdf.py"],
  [("parse_stream pops and restores the stream keys", "pdfme/parser.py"), ("encode_stream", "pdfme/encoders.py")],
  ["bytes of successive outputs"])

p("C04", "The page tree lists every page once, in order, at its size",
  "The pages of the written file are exactly the pages added to the document, in the order they were added, each reachable once from the page tree with consistent parents and counts. Each page has the size asked for it (by name, number or pair, swapped when rotated, with per-page arguments overriding the defaults only for that page), and content placed with default position starts at that page's margins.",
  ["inputs", "histories"], "all numbers of pages and all sequences of page setups, page sizes, rotations and margins in every accepted spelling",
  SMOKE + "Tests use one page size, no rotation and never look at the page tree.",
  ["pdfme/pdf.py", "pdfme/page.py", "pdfme/utils.py"],
  [("PDF.setup_page / add_page", "pdfme/pdf.py"), ("PDF._build_pages_tree", "pdfme/pdf.py"), ("get_page_size / parse_margin", "pdfme/utils.py")],
  ["page tree, MediaBox and text positions in the output"])

p("C05", "Every label is a destination at the labelled text",
  "For any set of labels used in a document, each label can be looked up in the written file's name tree, whose entries are sorted and whose limits bracket their subtrees, and it leads to the page and the left-top position where the labelled text begins. No destination is lost, duplicated or attached to other text, however many there are and wherever page breaks fall.",
  ["inputs"], "all sets of label names (any latin-1 characters, any number, any order) on any paragraphs, in any container, over any page breaks",
  SMOKE + "One test uses one label; a tree with more than one node is never built.",
  ["pdfme/pdf.py", "pdfme/text.py"],
  [("PDF._build_dests_tree", "pdfme/pdf.py"), ("PDF._add_text registers $label ids", "pdfme/pdf.py"), ("ids rectangles in add_line_to_stream", "pdfme/text.py")],
  ["Names/Dests tree of the output, text positions"], [{"name": "PDF.dests", "meaning": "label to destination", "where": "pdfme/pdf.py"}])

p("C06", "The outline panel mirrors the outlines in the text",
  "The outline tree of the written file contains each outline exactly once, in document order, nested by its level, with its title (given, or else the text of its part) and a destination at its text. Sibling and parent links are consistent, counts state the number of visible descendants, and entries are open exactly down to the document's outline level.",
  ["inputs", "configurations"], "all sequences of outlines whose level is at most one deeper than the previous one, any titles, and all outline levels to display",
  SMOKE + "No test uses outlines.",
  ["pdfme/pdf.py", "pdfme/text.py"],
  [("PDF._build_outlines_tree", "pdfme/pdf.py"), ("outline ids in PDFText", "pdfme/text.py")],
  ["Outlines tree of the output"], [{"name": "PDF.outlines", "meaning": "nested outline list", "where": "pdfme/pdf.py"}])

p("C07", "Link areas cover exactly the linked text",
  "For every text part with a web link or a reference, the written pages carry link areas that cover each visible fragment of that part's text, on the page and line where it is drawn, and no other text. Each area opens exactly the given address, or leads to exactly the given label.",
  ["inputs"], "all paragraphs with links and references on any parts, any alignment, indentation, wrapping and page breaks, in any container",
  SMOKE + "Two tests create links and references but look at no annotation.",
  ["pdfme/text.py", "pdfme/pdf.py", "pdfme/page.py"],
  [("add_line_to_stream records rectangles per id", "pdfme/text.py"), ("PDF._add_text creates annotations", "pdfme/pdf.py"), ("PDFPage.add_annot", "pdfme/page.py")],
  ["Annots of each page against drawn glyph positions"])

p("C08", "Paragraph text is conserved, in order, across pages",
  "Every word of a paragraph added to a document is shown exactly once, in reading order, with words neither split nor joined and forced line breaks kept, however many pages it takes. This holds for any nesting of parts and styles, any alignment, indentation, list text, line height, page size and starting position.",
  ["inputs", "configurations"], "all rich texts (nested parts, styles changing inside words, variables, runs of spaces, line breaks, special characters) and all paragraph options and page geometries that can hold one line",
  SMOKE + "Losing or repeating words at a page break or a style change would pass every test.",
  ["pdfme/text.py", "pdfme/pdf.py"],
  [("PDFTextLine.add_word / add_accumulated", "pdfme/text.py"), ("PDFTextBase.run, add_part, add_current_line keep last_part/last_word", "pdfme/text.py"), ("PDF.text loops over pages", "pdfme/pdf.py")],
  ["text shown by page content streams"], [{"name": "last_part/last_word", "meaning": "where the next fragment resumes", "where": "pdfme/text.py"}])

p("C09", "Lines fit their box, fill it greedily and are aligned",
  "Every drawn line of a paragraph lies within the box given for it, reduced by indentation and list indentation, unless it is a single word wider than the box, and a word only moves to the next line when it does not fit on the current one. Left aligned lines start at the left edge, right aligned lines end at the right edge, centered lines are centred, and justified lines other than the last of a paragraph (or before a forced break) reach both edges.",
  ["inputs", "configurations"], "all rich texts in standard fonts, all four alignments, any width, indent, list text and list indent, over any page breaks",
  SMOKE + "Positions are never looked at, so overflowing or misaligned lines pass.",
  ["pdfme/text.py", "pdfme/fonts.py"],
  [("PDFTextLine.add_word width test", "pdfme/text.py"), ("add_line_to_stream computes offsets and word spacing", "pdfme/text.py"), ("font width tables", "pdfme/fonts.py")],
  ["glyph positions in the output against independent font metrics"])

p("C10", "Lines step down by the line height and pages are filled",
  "The lines of a paragraph step down the page by the height of each line times the line height option, stay inside the vertical space available, and continue at the top of the next page only when the next line does not fit. Where page breaks fall does not change how the text is broken into lines, and the reported height of a finished paragraph is the vertical space its lines take, so that the next element starts below it.",
  ["inputs", "configurations"], "all rich texts, font sizes, rises, line heights, box heights and starting positions",
  SMOKE + "Tests set a line height once and never look at where lines are.",
  ["pdfme/text.py", "pdfme/pdf.py"],
  [("PDFTextLine.height/bottom", "pdfme/text.py"), ("add_current_line height accounting and Td offsets", "pdfme/text.py"), ("PDF._add_text moves the cursor", "pdfme/pdf.py")],
  ["baselines in the output, cursor and current_height"])

p("C11", "Every character is drawn in the style it was given",
  "Each visible character of a rich text is drawn with the font family and mode, size, colour and rise that result from cascading the styles of its enclosing parts, each part overriding what it sets and inheriting the rest, over the document's defaults. The style of one part, paragraph or list text never leaks into another.",
  ["inputs"], "all nested rich texts with any combination of bold, italics, size, family, colour and rise given in any of the accepted ways, in paragraphs, content boxes and table cells",
  SMOKE + "Drawn styles are never compared with requested ones.",
  ["pdfme/text.py", "pdfme/pdf.py", "pdfme/content.py", "pdfme/table.py", "pdfme/utils.py"],
  [("PDFText._recursive_content_parse cascades styles", "pdfme/text.py"), ("PDFState.compare emits differences only", "pdfme/text.py"), ("parse_style_str / process_style", "pdfme/utils.py")],
  ["font, size, fill colour and rise of every glyph in the output"])

p("C12", "Underlines and backgrounds cover exactly their text",
  "For every underlined part each visible fragment of its text has, in the text's colour, a line under it from its first to its last character; for every part with a background a rectangle of that colour lies behind its text, drawn before it. No other text is underlined or has a background.",
  ["inputs"], "all rich texts with underlines and backgrounds on any parts, any alignment, indentation, rise, wrapping and page breaks",
  SMOKE + "Random texts do use these styles, but nothing looks at where they are drawn.",
  ["pdfme/text.py", "pdfme/utils.py"],
  [("output_graphics", "pdfme/text.py"), ("get_paragraph_stream places graphics before text", "pdfme/utils.py")],
  ["lines and filled rectangles in the output against glyph positions"])

p("C13", "Equivalent ways of writing a style give the same document",
  "The same style written as a style string in the dot key, as a style dict or as a named format, and the same colour written as a name, hexadecimal code, number, list or string of numbers, give the same document. Accepted colours denote their documented red, green, blue or gray value, and malformed style strings and colours are rejected with an error instead of producing a document.",
  ["inputs"], "all styles and colours in every accepted spelling, and malformed spellings",
  SMOKE + "No two spellings are ever compared.",
  ["pdfme/utils.py", "pdfme/color.py", "pdfme/text.py", "pdfme/content.py", "pdfme/table.py"],
  [("parse_style_str / process_style", "pdfme/utils.py"), ("parse_color / PDFColor", "pdfme/color.py")],
  ["pages drawn by documents that differ only in spelling"])

p("C14", "Table text is conserved and stays in its own cell, in order",
  "Every cell's content is shown exactly once, in full and in order, inside the horizontal extent of its own column or merged columns, however many pages the table takes. Rows follow each other downwards in order, with no two cells' contents overlapping, and what does not fit on a page continues in the same column on the next.",
  ["inputs", "configurations"], "all tables of paragraphs, images, content boxes and nested tables, with any column widths, cell margins, column and row spans, over any page breaks",
  SMOKE + "Random tables are built, but a lost, repeated or misplaced cell would pass.",
  ["pdfme/table.py", "pdfme/pdf.py"],
  [("PDFTable.run / add_row / add_cell", "pdfme/table.py"), ("delayed cells continue on the next page", "pdfme/table.py"), ("is_span", "pdfme/table.py")],
  ["text and image positions per page"], [{"name": "PDFTable.delayed", "meaning": "unfinished cells of the current row", "where": "pdfme/table.py"}])

p("C15", "Table geometry: column widths, cell margins and row heights",
  "Column widths are the table width divided in the given proportions, and a cell's content starts at its column's left edge and its row's top edge plus the cell's margins and half the border widths there. Each row is as high as its highest cell needs, including margins and borders, merged rows included, and the next row starts exactly at its bottom.",
  ["inputs", "configurations"], "all tables with any widths, cell margins given per table or per cell and side, border widths and spans",
  SMOKE + "No position is ever checked.",
  ["pdfme/table.py"],
  [("get_cell_dimensions", "pdfme/table.py"), ("get_cell_style", "pdfme/table.py"), ("add_row max_height", "pdfme/table.py")],
  ["positions of text, lines and fills in the output"])

p("C16", "Table borders and fills are drawn exactly where asked",
  "Every cell edge whose border has a width is covered by a line of its width, colour and style, no line is drawn along an edge without border or inside merged cells, and later border definitions override earlier ones and the defaults. Every cell with a fill colour, its own or else the table's for its position, has exactly its area filled, and no other cell has.",
  ["inputs", "configurations"], "all tables, border and fill definitions with any row and column selectors, cell fills, spans and page breaks",
  SMOKE + "Tests draw borders and fills but look at none of them.",
  ["pdfme/table.py", "pdfme/utils.py"],
  [("setup_borders / setup_fills / parse_pos_string", "pdfme/table.py"), ("process_borders merges segments", "pdfme/table.py"), ("create_graphics", "pdfme/utils.py")],
  ["stroked lines and filled rectangles in the output"])

p("C17", "Content boxes show every element once, in reading order",
  "Every paragraph, table, image, group and nested box of a content box is shown exactly once and completely, with its lines and fills, in reading order: down each column, then the next column, then the next page. This holds for any nesting and number of columns, including the balancing of the last columns, where only images and groups, which flow unless placed normally, may be overtaken by later elements.",
  ["inputs", "configurations"], "all content boxes with any nesting, columns, gaps, margins and elements that can fit in an empty page",
  SMOKE + "Layouts with lost, doubled or stray elements pass; content boxes are retried and rolled back many times, which sampled inputs do not settle.",
  ["pdfme/content.py", "pdfme/pdf.py"],
  [("PDFContentPart.run/reset/next_section", "pdfme/content.py"), ("delayed elements and children_memory", "pdfme/content.py"), ("PDF.content loops over pages", "pdfme/pdf.py")],
  ["text, images and graphics per page"], [{"name": "section_element_index, delayed, children_memory", "meaning": "resume and roll-back state", "where": "pdfme/content.py"}])

p("C18", "Content box elements keep to their column and do not overlap",
  "Every element of a content box is drawn inside its column, whose width is the box width less the gaps shared equally, narrowed by the element's left and right margins, and within the vertical space available. Elements in a column never overlap and are separated by the bottom margin of the upper plus the top margin of the lower, except at the top of a column, where no top margin is added.",
  ["inputs", "configurations"], "all content boxes with any column counts, gaps, margins, nesting, and page geometry",
  SMOKE + "No position is ever checked.",
  ["pdfme/content.py"],
  [("update_dimensions / get_min_x", "pdfme/content.py"), ("process_text/process_image/process_table/process_child", "pdfme/content.py")],
  ["positions in the output"])

p("C19", "A group is never split between pages or columns",
  "All elements of a group are placed together, in order, in one column of one page, below each other. Images with a minimum height are shrunk to make the group fit, never below that height and keeping their proportions, and a group that cannot be placed raises an error instead of being split or cut.",
  ["inputs", "configurations"], "all groups of paragraphs, images and tables at any starting position in any columns, with and without minimum heights and shrinking",
  SMOKE + "One test adds one group and does not look at where it goes.",
  ["pdfme/content.py"],
  [("process_group / process_group_element", "pdfme/content.py")],
  ["positions in the output"])

p("C20", "Images are embedded intact and drawn undistorted where asked",
  "A JPEG image is embedded byte for byte, with its true pixel size, depth and colour space, and a PNG image as a picture of the same size and colours; the same image used many times is embedded once, and different images never stand in for each other. Images are drawn with their proportions kept, at the position and size asked or fitting the width available, and unusable image data is rejected with an error.",
  ["inputs"], "all image sizes, colour modes and JPEG variants, given as path or in memory, and all placements and sizes",
  SMOKE + "Tests use one JPEG file, at default size, and look at nothing.",
  ["pdfme/image.py", "pdfme/pdf.py", "pdfme/page.py", "pdfme/content.py"],
  [("PDFImage.parse_jpg / parse_png", "pdfme/image.py"), ("PDF.add_image reuses objects by name", "pdfme/pdf.py"), ("PDFPage.add_image", "pdfme/page.py")],
  ["image objects and Do operators in the output"])

p("C21", "Sections start new pages with their own layout",
  "Each section of a document starts on a new page and all its pages have the page size, rotation and margins of the section's style over the document's, changed on exactly the pages of each per-page range that sets them. Layout given for one section or page never affects another, and each page's contents stay within that page's margins.",
  ["inputs", "configurations"], "all documents with any number of sections, section styles, per-page ranges and lengths of content",
  SMOKE + "One test uses per-page margins and does not check any page.",
  ["pdfme/document.py", "pdfme/pdf.py", "pdfme/utils.py"],
  [("PDFDocument._process_section", "pdfme/document.py"), ("PDF.setup_page / add_page", "pdfme/pdf.py"), ("parse_range_string", "pdfme/utils.py")],
  ["page sizes and text positions in the output"])

p("C22", "Running sections appear on exactly the pages that ask for them",
  "Each page of a section shows each of the section's running sections once, in the listed order, with those a per-page range includes added and those it excludes left out, and no others. Each is drawn at the position and size its definition names relative to that page's own size and margins, and the page number variable shows that page's number.",
  ["inputs", "configurations"], "all sets of running sections with any symbolic or numeric position and size, any section lists and per-page includes and excludes, and any page layouts",
  SMOKE + "One test uses one header and does not check any page.",
  ["pdfme/document.py", "pdfme/pdf.py"],
  [("PDFDocument._set_running_sections", "pdfme/document.py"), ("PDF.add_page draws running sections", "pdfme/pdf.py")],
  ["text per page in the output"])

p("C23", "Page numbers follow the offset, style and resets",
  "The page number shown on a page is its position in the document plus the numbering offset in force, written in arabic or roman numerals as set, and restarts at 1 in sections that reset the numbering. Offset and style stay in force until a later section sets its own or, where it sets none, the document's style does. Roman numerals are the standard ones for every number from 1 to 3999, and numbers outside that range are rejected.",
  ["inputs", "configurations"], "all numbers, and all documents with any sections, offsets, styles and resets, through the document dict or the page-by-page interface",
  SMOKE + "No test shows a page number.",
  ["pdfme/pdf.py", "pdfme/document.py", "pdfme/utils.py"],
  [("PDF.get_page_number, page_index setter", "pdfme/pdf.py"), ("to_roman", "pdfme/utils.py"), ("PDFDocument._process_section", "pdfme/document.py")],
  ["text of the page number variable per page"], [{"name": "context['$page']", "meaning": "current page number", "where": "pdfme/pdf.py"}])

p("C24", "Footnotes are on the page of their mark, numbered in order",
  "Every footnote's text appears exactly once, at the bottom of the page where its mark is drawn, and marks and notes are numbered from 1 on each page in reading order, agreeing with each other. Footnotes and page content never overlap and stay within the margins, and no content is lost or repeated because of them.",
  ["inputs"], "all documents with any number of footnotes at any places in paragraphs, over any page breaks, that fit their pages",
  SMOKE + "No test uses footnotes.",
  ["pdfme/document.py"],
  [("PDFDocument._add_content runs the section twice per page", "pdfme/document.py"), ("_process_footnotes / _check_footnotes", "pdfme/document.py")],
  ["text per page in the output"], [{"name": "PDFDocument.footnotes", "meaning": "footnotes in document order", "where": "pdfme/document.py"}])

p("C25", "Documents do not influence each other or their inputs' meaning",
  "Building a document depends only on its own description: building the same description again, building other documents before it, or using one element object in several places gives the same pages as separate, fresh copies would. Nor does it depend on the documents built at the same time in other threads, on hash seeds or other run-to-run variation, apart from the file identifier.",
  ["histories", "inputs", "schedules"], "all sequences of documents built in one process, all reuses of one description or element object, all schedules of threads, and all hash seeds",
  SMOKE + "Each test builds from fresh inputs and never compares two documents.",
  ["pdfme/text.py", "pdfme/content.py", "pdfme/document.py", "pdfme/fonts.py", "pdfme/pdf.py"],
  [("copy()", "pdfme/utils.py"), ("element styles in content boxes", "pdfme/content.py"), ("font registry shared by all documents", "pdfme/fonts.py"), ("running sections order", "pdfme/document.py")],
  ["outputs of repeated builds"], [{"name": "PDFFont.registered_fonts / loaded_fonts", "meaning": "process-wide font registry", "where": "pdfme/fonts.py"}])

p("C26", "TrueType text is drawn, measured and extracted faithfully",
  "Text in a registered TrueType font is written as glyphs of that font for exactly its characters, the text extracted through the embedded character map is the original text, and the embedded glyph widths are the font's own. Lines are measured with those widths and the embedded font program is the registered one, in every document of a process and every mode registered. The font descriptor repeats the font's own metrics in thousandths of the em, and a font whose licence forbids embedding, or one never registered, is refused without harm to the rest of the document.",
  ["inputs", "histories"], "all texts over all characters of a font, all fonts with any glyph order, widths and character map, and any number of documents using any registered fonts and modes",
  SMOKE + "No test uses a TrueType font.",
  ["pdfme/fonts.py", "pdfme/text.py", "pdfme/utils.py"],
  [("PDFTrueTypeFont.encode_text / compute_char_widths / add_font", "pdfme/fonts.py"), ("PDFFonts.get_font", "pdfme/fonts.py"), ("output_text", "pdfme/text.py")],
  ["glyph codes, widths, ToUnicode and FontFile2 in the output"])

p("C27", "Saved layout state can be restored and gives the same result",
  "Saving the state of a paragraph, table or content box between two rectangles, laying out any number of further rectangles, restoring the state and laying out again gives the same result as if nothing had happened in between. Feeding the remainder through any sequence of rectangles shows all of the content exactly once.",
  ["histories"], "all paragraphs, tables and content boxes, all sequences of rectangles, and all points at which a state is saved and restored",
  SMOKE + "No test saves or restores a state.",
  ["pdfme/text.py", "pdfme/table.py", "pdfme/content.py"],
  [("PDFTextBase.get_state/set_state", "pdfme/text.py"), ("PDFTable.get_state/set_state", "pdfme/table.py"), ("PDFContent.get_state/set_state", "pdfme/content.py")],
  ["parts, lines and fills after each run"])

p("C28", "Elements placed one by one go where they are asked to",
  "Each paragraph, table, content box and image placed by a call on a PDF object is drawn on the current page inside the rectangle asked for, x, y, width and height defaulting to the page's position and margins, with the text defaults in force at that call. Afterwards the page position is moved below it, beside it or not at all, as asked; what did not fit is drawn by later calls in the rectangles they give, and the functions that add pages continue at the top margin of new default pages, showing all of the element once. Running sections are on every page created after they were added and do not move its position.",
  ["histories", "inputs"], "all sequences of calls that add pages, return to earlier ones, change defaults, and place or continue elements of any size at any position",
  SMOKE + "The tests place elements with text() and content() on a few pages; nothing compares their position with the arguments.",
  ["pdfme/pdf.py", "pdfme/page.py", "pdfme/text.py", "pdfme/table.py", "pdfme/content.py"],
  [("PDF._position_and_size", "pdfme/pdf.py"), ("PDF._text/_table/_content/add_image: move", "pdfme/pdf.py"), ("PDF.text/table/content: pages added until finished", "pdfme/pdf.py"), ("PDF.add_page: running sections, go_to_beginning", "pdfme/pdf.py"), ("PDFPage.x/y", "pdfme/page.py")],
  ["pages in the output", "page positions after each call"])

p("C29", "Styles pass from documents and containers to what is inside them",
  "A text, paragraph, margin, table or image property given in the style of a document, section, content box, group, table or cell applies to everything inside it, unless an element further inside gives its own, in its style or dot key, whose value then applies there. Giving a property to a container is the same as giving it to each of the elements in it, and a style given to one section, box or cell has no effect outside it.",
  ["inputs"], "all nestings of sections, boxes, groups, tables and cells, and all properties given at any of their levels as dicts, named formats or dot keys",
  SMOKE + "The tests use few styles on containers and compare nothing.",
  ["pdfme/content.py", "pdfme/table.py", "pdfme/document.py", "pdfme/pdf.py", "pdfme/text.py", "pdfme/utils.py"],
  [("PDFDocument._process_section: section style over the document's", "pdfme/document.py"), ("PDFContentPart.get_element_styles", "pdfme/content.py"), ("PDFTable.get_cell_style", "pdfme/table.py"), ("PARAGRAPH_PROPERTIES / PARAGRAPH_PROPS", "pdfme/content.py, pdfme/table.py"), ("PDF._default_content_style / _init_text", "pdfme/pdf.py")],
  ["glyphs, lines and fills of the pages"])

p("C30", "An element looks the same wherever it is placed",
  "A paragraph, image, table or content box that fits shows the same text, borders, fills, images, links and label positions, all in the same places with respect to each other, whether it is drawn on a page directly or, given the same width, as an element of content boxes, groups, table cells, sections and running sections, at any depth. Its left side is where the margins, widths, cell margins and borders around it leave it, and no fill of a container around it covers any part of it.",
  ["inputs"], "all elements in all nestings of content boxes, groups, table cells with or without spans, sections and running sections",
  SMOKE + "The tests nest few elements, and compare nothing with the same element elsewhere.",
  ["pdfme/content.py", "pdfme/table.py", "pdfme/pdf.py", "pdfme/document.py"],
  [("PDFContentPart.process_text/process_image/process_table/process_child", "pdfme/content.py"), ("PDFTable.process_text/process_image/process_content/process_table", "pdfme/table.py"), ("PDFTable.get_cell_dimensions", "pdfme/table.py"), ("PDF._add_graphics / _add_parts", "pdfme/pdf.py"), ("PDF.add_running_section", "pdfme/pdf.py")],
  ["contents and annotations of the pages"])

p("C31", "Containers with nothing in them leave no trace",
  "A content box, group or table with nothing in it (or with nothing but such elements) can stand at any place of a document: it draws nothing, takes no space, adds no page, and everything else is shown as if it was not there. The same holds for drawing one of them directly on a page.",
  ["inputs"], "all documents, and empty content boxes, groups and tables at any places of them",
  SMOKE + "The tests have no empty containers.",
  ["pdfme/content.py", "pdfme/table.py", "pdfme/pdf.py"],
  [("PDFContentPart.process_child / process_group / process_table", "pdfme/content.py"), ("PDFTable.__init__: content without rows or columns", "pdfme/table.py"), ("PDF.content / PDF.table", "pdfme/pdf.py")],
  ["pages of the output", "page position after each call"])

p("C32", "A document can be written at any moment, any number of times",
  "Writing a PDF object changes nothing of it: a document that is written after some calls, then goes on being built and is written again, gives each time the same pages, labels, links and outline (with the same titles, levels, openness and destinations) as one that was built by the calls made until then and written only once.",
  ["histories"], "all histories of calls on one PDF object, and all moments to write it",
  SMOKE + "No test writes a document twice.",
  ["pdfme/pdf.py", "pdfme/base.py"],
  [("PDF.output / _build_pages / _build_dests / _build_outlines", "pdfme/pdf.py"), ("PDFBase.output", "pdfme/base.py")],
  ["pages, labels, links and outline of each of the outputs"])

p("C33", "Variables show the value they have when they are drawn",
  "A variable in a paragraph, wherever it is (text, tables, boxes, groups, running sections, footnotes), shows exactly what its value written out as text would show there: same words, places, styles, links and outline titles. The value is the one it has when the element, or the page of the running section, is made; it may be any text or number, given to the PDF object or to build_pdf, and change between calls, also for the same description. Variables that are not defined show nothing.",
  ["inputs", "histories"], "all values and places of variables, and all histories of setting and showing them",
  SMOKE + "No test sets a variable.",
  ["pdfme/text.py", "pdfme/pdf.py", "pdfme/document.py"],
  [("PDFText.add_part", "pdfme/text.py"), ("PDF.context", "pdfme/pdf.py"), ("PDFDocument.__init__: context", "pdfme/document.py")],
  ["text and links of the pages"], [{"name": "PDF.context", "meaning": "values of the variables", "where": "pdfme/pdf.py"}])

p("C34", "Sections of a document do not affect one another",
  "The pages of a section of a document, with its layout, contents, running sections and footnotes, are the same as in a document that has only this section and begins to count its pages there; so are its links, labels and outlines. The pages of a document are those of its sections, in order.",
  ["inputs", "configurations"], "all documents of several sections with any contents and layouts",
  SMOKE + "The tests build documents with several sections and do not look at them.",
  ["pdfme/document.py", "pdfme/pdf.py", "pdfme/content.py"],
  [("PDFDocument._process_section / _add_content / _set_running_sections", "pdfme/document.py"), ("PDF.setup_page", "pdfme/pdf.py")],
  ["pages, links, labels and outlines of the output"])

p("C35", "Margins move what is between them without changing it",
  "What the pages of a document show depends on the size of the area between their margins, not on where on the page that area is. With other margins, on pages as much larger or smaller, each page has the same text, graphics, images, links, labels, footnotes and running sections placed relative to the margins, all moved as much as the margins. This holds for every section, per-page range, rotation and page added by a call.",
  ["inputs", "configurations"], "all documents and all margins",
  SMOKE + "The tests use one or two margins, and do not look at the positions.",
  ["pdfme/document.py", "pdfme/pdf.py", "pdfme/page.py", "pdfme/content.py", "pdfme/table.py", "pdfme/text.py"],
  [("PDFDocument._process_section / _set_running_sections / _add_content", "pdfme/document.py"), ("PDF.add_page / _position_and_size / _add_text / add_image", "pdfme/pdf.py"), ("PDFPage", "pdfme/page.py")],
  ["positions of everything on the pages of the output"])

p("C36", "Building ends: everything is shown, or an error is raised",
  "Building a document always ends, whatever the sizes of its elements. If something does not fit even in a whole page (or column), because of its size, font, margins, borders, list mark, rise or footnotes, an error is raised that says so. Otherwise each word, image and footnote of the document is shown, once, and no page is left with nothing on it. There is no error when nothing is large.",
  ["inputs"], "all documents, of elements of any size",
  SMOKE + "All that the tests add fits in its page.",
  ["pdfme/pdf.py", "pdfme/document.py", "pdfme/content.py", "pdfme/table.py", "pdfme/text.py"],
  [("PDF.text / table / content / _count_tries", "pdfme/pdf.py"), ("PDFDocument._process_section / _get_footnotes_obj / _check_footnote", "pdfme/document.py"), ("PDFContentPart.add_delayed / process_image", "pdfme/content.py"), ("PDFTable.process_image", "pdfme/table.py"), ("PDFText.run", "pdfme/text.py")],
  ["text and images of the pages", "the errors raised"])

p("C37", "A call that raises an error leaves the document and later calls as they were",
  "When a call on a PDF object raises an error because of what it was given (a wrong style, color, font, format name or page size, a character its font does not have, a missing or damaged image, a table with wrong rows, widths, borders or fills, at any depth of a content box), or because the file it writes to fails at any byte, the pages, the labels, links and outlines, the current page and the page defaults are as if the call had not been made, it raises again if made again, and later calls (with the cursor set again after a call that draws) and files are right. The same for build_pdf: a description that was refused and then corrected, or what it needed provided, gives the same document as one that was right from the beginning.",
  ["inputs", "histories", "fault_sequences"], "all sequences of calls and descriptions, and all the ways in which they can be wrong; contents that fit in the current page",
  SMOKE + "No test makes a call that fails.",
  ["pdfme/pdf.py", "pdfme/document.py", "pdfme/content.py", "pdfme/table.py", "pdfme/text.py", "pdfme/base.py", "pdfme/utils.py", "pdfme/image.py"],
  [("PDF.text / table / content / image / add_page / setup_page / output", "pdfme/pdf.py"), ("PDFBase.output", "pdfme/base.py"), ("PDFDocument.__init__ / _process_section", "pdfme/document.py"), ("parse_style_str / process_style", "pdfme/utils.py")],
  ["pages, links, labels and outlines of the files written later", "page_index and page sizes", "the errors raised"])

p("C38", "The columns of a box that ends are balanced",
  "Where a content box of several columns ends, it takes as little height as its elements, in order, allow: no rectangle that is lower by more than a point for each box of several columns in it could hold all of what is left of it. What it takes of a high rectangle it takes of one just as high too, and the position after the box is below its balanced columns. This holds on a page and in a rectangle, for the first and for the last of many, and with nested boxes of several columns.",
  ["inputs"], "all content boxes with several columns, or with boxes of several columns inside, of paragraphs, tables and images that do not flow or shrink, and all rectangles and pages",
  SMOKE + "How high a box is drawn is never looked at.",
  ["pdfme/content.py"],
  [("PDFContentPart.run / start_resetting / last_child_of_resetting / reset", "pdfme/content.py"), ("PDFContentPart.next_section", "pdfme/content.py")],
  ["current_height and finished of a content box, and the page position after it"])

p("C39", "Content boxes fill their columns, one after another",
  "A content box fills each column, from the top, with as much as fits: what comes in a rectangle or page of any height is what a high enough one shows in that height, at the same places, and a line, image, row or group goes on to the next column only when there is no room left for it. A box of several columns that goes on on another page shows in its columns, one after the other, exactly what pages of one such column would show, with any elements and nested boxes; images and groups that were delayed come first in the next column.",
  ["inputs"], "all content boxes of paragraphs, images, tables, groups and nested boxes, all page heights and starting positions",
  SMOKE + "Where elements go to another column or page is never looked at.",
  ["pdfme/content.py"],
  [("PDFContentPart.next_section / add_delayed / add_elements", "pdfme/content.py"), ("PDFContentPart.process_text / process_image / process_table / process_group", "pdfme/content.py")],
  ["page, column and position of every word, image, line and fill drawn"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
