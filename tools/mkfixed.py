"""Writes the "fixed" list of known_findings.json from /repo's fix: commits."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # start of the subject, property, what failed
 ('escape backslashes and carriage', 'C02', 'a string holding a backslash or a carriage return read back as another string'),
 ('write floats without exponent', 'C02', 'a float such as 1e-7 or 1e22 was written with an exponent, which PDF does not have'),
 ('escape special characters of dict keys', 'C02', 'a dict key with a space, delimiter or # was not escaped in its name'),
 ('accept b:1, i:0', 'C11', 'style strings with b:1, i:0 or spaces around attributes were misread'),
 ('lay out list paragraphs', 'C08', 'list paragraphs without text, with escapes in the list text or after a break raised errors or lost text'),
 ('place aligned and indented lines', 'C07', 'link areas, backgrounds and underlines of aligned or indented lines were offset from their text'),
 ("use the document's line height", 'C10', "PDF.text ignored the document's line height and indent"),
 ('collapse spaces at the boundary', 'C09', 'two parts meeting in spaces gave a doubled space, so lines were not filled greedily or aligned'),
 ('do not count a trailing space', 'C09', 'the last line of right or center aligned text was displaced by its trailing space'),
 ('keep the last line of justified', 'C09', 'the last line of a justified paragraph could leave its box'),
 ('justify the line before the last word', 'C09', 'the line before a last line of one word was not justified'),
 ('make the first line of a list', 'C10', 'a list text higher than its first line overlapped the text above'),
 ('keep the destination of a label', 'C05', 'a label whose text continued on another page led to where it continued'),
 ('outline text that continues', 'C06', 'an outline whose text continued on another page was listed twice'),
 ('write text strings beyond latin', 'C06', 'outline titles and metadata beyond latin-1 raised an error or read back wrong'),
 ('count the hidden children', 'C06', 'the Count of closed outlines was positive, as if open'),
 ('sort destinations by their encoded', 'C05', 'name tree entries were not sorted by the names written, so labels could not be looked up'),
 ('title outlines with the text of', 'C06', 'an outline on nested parts was given the text of its first part only'),
 ('accept numbers as elements', 'C17', 'a number as an element of a content box raised an error'),
 ('do not leave inherited styles', 'C11', 'a paragraph object used in two content boxes kept the style of the first'),
 ('remove lines and fills too', 'C17', 'balancing columns left doubled lines and fills of tables behind'),
 ('count only tries', 'C17', 'an element that fits an empty column was reported not to fit'),
 ('place groups where', 'C19', 'groups whose images are shrunk were placed with other heights than measured and overlapped'),
 ('restore the whole state of paragraphs', 'C17', 'rolled back paragraphs kept the state of a later fragment'),
 ('restore the delayed cells', 'C17', 'rolled back tables lost or repeated the contents of delayed cells'),
 ('content boxes whose state is restored', 'C17', 'a rolled back content box stayed finished, and its contents were lost'),
 ('move below tables and content boxes', 'C18', 'elements after tables and boxes were placed too low'),
 ('the position of images is their top', 'C20', 'an image drawn at y was placed with its bottom at another place than documented'),
 ('resume nested content boxes', 'C17', 'nested content boxes restarted or skipped elements after a page break'),
 ('keep the state of nested content boxes', 'C17', 'nested content boxes lost their state while a flow image was delayed'),
 ('keep rows that do not fit', 'C14', 'a row that did not fit was drawn below the end of the table'),
 ('keep merged cells merged', 'C14', 'rows merged across a page break came apart on the next page'),
 ('read ranges of borders', 'C16', 'ranges of rows and columns in borders and fills did not select like slices'),
 ('lay out groups in table cells', 'C14', 'a group in a table cell raised an error'),
 ('let fills overwrite', 'C16', 'fills were hidden by the default cell_fill'),
 ('draw no borders and fills of rows', 'C16', 'borders and fills were drawn for rows that moved to the next page'),
 ('accept margins given as a string of one', 'C04', 'margins given as a string of one number or a tuple of three numbers were misread'),
 ('scale the values of 16 bits PNG', 'C20', '16 bit PNG images came out white'),
 ('accept fill bytes', 'C20', 'JPEG files with fill bytes before markers were rejected'),
 ('from the beginning of their buffer', 'C20', 'JPEG images in a buffer not at its beginning were rejected'),
 ('do not invert the colors of CMYK', 'C20', 'CMYK JPEG images without an Adobe marker were shown inverted'),
 ('accept ranges of pages without', 'C21', 'per-page ranges such as 3: or ::2 raised an error'),
 ('layout of a section or page range not left', 'C21', "a section's or page's layout was left in later pages"),
 ('add the running sections in the order', 'C22', 'running sections were drawn in the order of a set, which varies with the hash seed'),
 ('accept None in the position', 'C22', 'running sections with x, y, width or height None raised an error'),
 ('accept named styles in footnotes', 'C24', 'a footnote with a named style raised an error'),
 ('footnotes and their marks agree', 'C24', 'marks and notes disagreed or overlapped content when content had to make room for notes'),
 ('use copies of the sections', 'C25', 'building a document with footnotes changed its description, so that a second build failed'),
 ('do not change the style of the paragraph', 'C25', 'PDF.text changed the style of the paragraph passed by the user, which leaked into other documents'),
 ('save and restore the state of content boxes before', 'C27', 'get_state and set_state of a content box raised AttributeError before its first run'),
 ('accept colors with commas and spaces', 'C13', 'a colour string such as "1, 0, 0" was silently ignored'),
 ('ignore the alpha of colors', 'C13', 'a colour of four numbers wrote None into the page content'),
 ('reject malformed colors and rises', 'C13', 'malformed colours (two or five numbers, nan, "# 12345") and rises were accepted'),
 ('draw TrueType text unescaped', 'C26', 'parentheses and backslashes of TrueType text were doubled or raised an error, and text with b or i false was drawn in bold or italics'),
 ('escape the carriage returns of glyph', 'C26', 'glyph codes with a byte 0D were read as 0A'),
 ('encode glyph codes in the range of the surrogates', 'C26', 'glyph ids D800 to DFFF raised an error'),
 ('load registered fonts in every document', 'C26', 'a registered font could be used in the first document of a process only, and the first mode loaded stood for the regular one'),
 ('take the name of a TrueType font', 'C26', 'the font name was the seventh name record, whatever it was, or an IndexError'),
 ('load TrueType fonts without the table OS/2', 'C26', 'fonts without OS/2 table raised an error'),
 ('write characters beyond the BMP', 'C26', 'characters beyond the BMP had malformed ToUnicode entries'),
 ('write the width of every glyph of a TrueType', 'C26', 'a glyph following a glyph of two characters got a wrong width'),
 ('stretch the spaces of justified TrueType', 'C26', 'justified TrueType text was not justified, or left its box'),
 ('do not use a text encoding with the fonts Symbol', 'C11', 'Symbol and ZapfDingbats text was declared in an encoding that has none of its glyphs'),
 ('fills inside of a cell are no longer hidden', 'C30', 'fills of tables inside a cell with a fill were hidden by it'),
 ('tables without rows or columns no longer fail', 'C31', 'adding a table without rows or columns raised AttributeError'),
 ('title outlines with the values of their variables', 'C33', 'outlines without a title on a variable were called 0, and variables in their text left out'),
 ('table cells without content no longer make', 'C14', 'a cell without content made a table endless'),
 ('raise an error instead of adding pages forever', 'C36', 'texts, tables and contents with something larger than a page added pages without end'),
 ('footnotes larger than a page raise', 'C36', 'a footnote larger than a page was silently lost'),
 ('balance the columns of a box before', 'C18', 'a delayed image before or around a last box of several columns was drawn over the bottom of the page, however high'),
 ('place delayed elements of a nested box', 'C39', 'an image or group delayed in a nested box missed the next columns of the page, and came only on the next page'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    m = [x for x in MAP if x[0] in s]
    assert len(m) == 1, (s, m)
    out.append('fixed: property=%s %s %s' % (m[0][1], h, m[0][2]))
path = os.path.join(ROOT, 'known_findings.json')
k = json.load(open(path))
k['fixed'] = out
json.dump(k, open(path, 'w'), indent=1)
print(len(out))
