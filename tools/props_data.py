p('P01', 'Table checksums, flag fields and tags are the values the format defines',
  'The checksum of a table that is padded to a multiple of four bytes is the sum modulo 2^32 of its big-endian 32-bit words, and computing it does not change the table. Flag fields unpack to and pack from exactly the bits of the number. A table tag is the four bytes of its 32-bit number.',
  'all byte strings and all 8, 16 and 32-bit numbers', 'Tests read a few fonts; odd lengths (1, 2 or 3 trailing bytes) and all flag patterns are not sampled.',
  ['util.go'], [('calcChecksum', 'util.go'), ('flag packing', 'util.go'), ('uint32ToString', 'util.go')])
p('P02', 'Header tables decode to the big-endian values at their specified offsets',
  'After a font is accepted, every value of its head, hhea, vhea and maxp tables is the big-endian number at the offset the OpenType specification gives it. A table that is too short or has an unsupported version or magic number is rejected with an error.',
  'all contents of these tables', 'Tests compare a few fields of a few well-formed fonts; swapped, mis-signed or shifted fields and malformed tables are not sampled.',
  ['sfnt.go'], [('parseHead', 'sfnt.go'), ('parseHhea', 'sfnt.go'), ('parseVhea', 'sfnt.go'), ('parseMaxp', 'sfnt.go')])
p('P03', 'Malformed font data never makes the parsers or lookups panic',
  'Whatever bytes a font consists of, parsing its head, hhea, vhea, maxp, hmtx, vmtx, loca, glyf, kern, cmap, OS/2, post and name tables, CFF INDEX data and EOT header, and querying glyph metrics, glyph data, kerning, glyph names and characters of the parsed tables, returns a value or an error and never panics.',
  'all byte contents and lengths of each table, all glyph IDs and runes', 'Tests parse valid fonts and a few W3C samples; panics need specific corrupt lengths, offsets or counts.',
  ['sfnt.go', 'sfnt_cmap.go', 'sfnt_cff.go', 'sfnt_truetype.go', 'sfnt_os2.go', 'sfnt_layout.go'],
  [('table parsers', 'sfnt.go'), ('cmap parser', 'sfnt_cmap.go'), ('glyf, loca and kern parsers', 'sfnt_truetype.go'), ('CFF parser', 'sfnt_cff.go'), ('OS/2 parser', 'sfnt_os2.go')])
p('P04', 'Glyph advances and side bearings follow the metrics tables',
  'The advance of a glyph is the value of its long metric, or of the last long metric for glyphs beyond them. Its side bearing is that of its long metric or the corresponding entry of the trailing array. Both decode from the table bytes at the positions the specification gives.',
  'all metrics tables, glyph counts and glyph IDs', 'Tests look up a few glyphs; the boundary between long metrics and trailing bearings and fonts without vertical metrics are not sampled.',
  ['sfnt.go'], [('hmtx/vmtx parsers', 'sfnt.go'), ('GlyphAdvance', 'sfnt.go'), ('GlyphVerticalAdvance', 'sfnt.go')])
p('P05', 'Glyph data is exactly the range between two location offsets',
  'The data of a glyph is the part of the glyph table between its own and the next location offset, where short offsets count half. Offsets outside the table or decreasing give no data, and other glyph IDs give no data.',
  'all location and glyph tables, all glyph IDs', 'Tests use valid fonts where offsets increase and are in range.',
  ['sfnt_truetype.go'], [('loca and glyf lookup', 'sfnt_truetype.go')])
p('P06', 'Tables that are written decode to the values they were written from',
  'The bytes written for a maxp, post or kern table have, at the offsets and in the order that the specification gives, exactly the values of the table that was written, and the counts, lengths and indices that describe them.',
  'all values of the table fields', 'Tests round-trip one or two fonts; extreme values and optional versions are not sampled.',
  ['sfnt.go'], [('maxp writer', 'sfnt.go'), ('post writer', 'sfnt.go'), ('kern writer', 'sfnt_truetype.go')])
p('P07', 'A character maps to the glyph of the first matching character-map segment',
  'Looking up a character gives the glyph that the first segment, group or entry containing the character assigns, with 16-bit arithmetic where the format says so, and the missing glyph when none contains it. This holds for each of the supported subtable formats. With several subtables, the first that assigns a glyph to the character decides. A parsed subtable has the segments, groups, deltas, offsets and glyph IDs of the font data.',
  'all subtables of each format and all characters', 'Tests look up some characters; segment edges, range offsets with glyph arrays, and 16-bit wrap-around are not sampled.',
  ['sfnt_cmap.go'], [('subtable lookups', 'sfnt_cmap.go'), ('parseCmap', 'sfnt_cmap.go')])
p('P08', 'A written character map maps every character to the glyph it was given',
  'Writing a character map from pairs of characters and glyphs and reading it back gives for every character that was passed its glyph, and the missing glyph for every other character.',
  'all sets of characters and glyph IDs', 'Tests subset a few fonts; run boundaries, 16-bit wrap-around and supplementary characters are not sampled.',
  ['sfnt_cmap.go'], [('cmapWriteFormat4', 'sfnt_cmap.go'), ('cmapWriteFormat12', 'sfnt_cmap.go')])
p('P09', 'Kerning of a pair combines the kerning subtables as their flags say',
  'The kerning of two glyphs is the accumulation over the subtables in order, where a subtable of kerning values adds the value of exactly that pair, or nothing if it does not list it, and a subtable of minimum values bounds the result from below. The pairs that a parsed table lists are those of the font data, and pairs that the font data does not list in order are put in order.',
  'all kerning tables and glyph pairs', 'Tests look up one or two pairs; binary search edges and override/minimum combinations are not sampled.',
  ['sfnt_truetype.go'], [('kern lookup', 'sfnt_truetype.go'), ('parseKern', 'sfnt_truetype.go')])
p('P10', 'CFF INDEX entries are the bytes between two increasing offsets',
  'An entry of an INDEX is exactly the bytes between its offset and the next. Reading an INDEX accepts only offsets that start at one, never decrease and end within the data, and leaves the reader right behind it. Adding or copying entries leaves all existing entries unchanged. The bytes written for an INDEX have its count, the smallest sufficient offset size, all offsets and all data.',
  'all INDEX contents, sizes and entry numbers', 'Tests use INDEXes of valid fonts; offset size boundaries, empty entries and corrupt offsets are not sampled.',
  ['sfnt_cff.go'], [('INDEX', 'sfnt_cff.go')])
p('P12', 'CFF subroutine numbers use the bias of the number of subroutines',
  'Subroutines are numbered with the bias 107, 1131 or 32768 that the format gives for the number of subroutines.',
  'all subroutine counts', 'Tests use fonts with few subroutines; the thresholds are not sampled.',
  ['sfnt_cff.go'], [('subroutine bias', 'sfnt_cff.go')])
p('P14', 'WOFF2 variable-length numbers decode as the specification defines',
  'A variable-length number of a WOFF2 file is read as the value that its one to five bytes define, and rejected when it has leading zeros, overflows or is truncated. A 255-number is read from one to three bytes. Reading a number that was written gives the number and consumes all bytes that were written.',
  'all byte strings and positions, all numbers', 'Tests read a few fonts; the boundaries between the encodings, leading zeros, overflow and truncation are not sampled.',
  ['woff2.go'], [('readUintBase128', 'woff2.go'), ('read255Uint16', 'woff2.go'), ('writers of both', 'woff2.go')])
p('P18', 'The font in an EOT file is the data behind its header, decoded as flagged',
  'Extracting the font of an EOT file gives exactly the number of bytes that the header says, taken behind all header fields of the version of the file, each combined with 0x50 if and only if the header says that the data is obfuscated. Unknown versions, a wrong magic number, compressed data and truncated files are rejected.',
  'all EOT files', 'There is one EOT file among the tests; other versions, lengths of names and truncation are not sampled.',
  ['eot.go'], [('ParseEOT', 'eot.go')])
p('P19', 'Parsing a container does not change the bytes that were passed in',
  'The byte slice that a caller passes to extract the font of an EOT file has the same contents afterwards, whether it succeeds or not.',
  'all inputs', 'Tests do not look at the input afterwards.',
  ['eot.go'], [('ParseEOT', 'eot.go')])
p('P20', 'The media type and file extension follow from the signature of the file',
  'The media type and extension of a font are those of its signature: WOFF, WOFF2, TrueType (including collections), OpenType with CFF outlines, and EOT by its magic number. Everything else, including data that is too short, is unknown.',
  'all byte strings', 'Tests pass one file of each type; short and near-miss inputs are not sampled.',
  ['font.go'], [('MediaType', 'font.go'), ('Extension', 'font.go')])

p('P21', 'Glyph names are those of the post table, in both directions',
  'The name of a glyph is the standard Macintosh name or the custom string that its index in the post table selects, and no name when there is none. Looking up a name gives a glyph that carries it, and reports that there is none exactly when no glyph carries it. An accepted post table has the fields, indices and custom names of the font data.',
  'all post tables, glyph IDs and names', 'Tests look up a few names; names out of range, duplicates, and the borders between standard and custom names are not sampled.',
  ['sfnt.go'], [('parsePost', 'sfnt.go'), ('postTable.Get', 'sfnt.go'), ('postTable.Find', 'sfnt.go')])
p('P22', 'Line metrics follow the typographic, Windows or hhea values as flagged',
  'The ascender, descender and line gap are the typographic metrics if the font asks for them and they are sensible, otherwise the Windows metrics with what remains of the hhea line spacing as the gap, otherwise the hhea metrics, and never wrap around.',
  'all values of the metrics fields, with and without OS/2 table', 'Tests look at one or two fonts; negative values, extreme values and fonts without OS/2 table are not sampled.',
  ['sfnt.go'], [('VerticalMetrics', 'sfnt.go')])
p('P23', 'OS/2 tables decode to the big-endian values at their specified offsets',
  'An OS/2 table is accepted exactly if its length is that of its version. Every field of the accepted table is the big-endian number at the offset the specification gives, and fields that the version lacks are zero.',
  'all contents and lengths of the table', 'Tests compare a few fields of a few fonts; old versions, malformed lengths and swapped fields are not sampled.',
  ['sfnt_os2.go'], [('parseOS2', 'sfnt_os2.go')])
p('P24', 'OS/2 Unicode range bits are those of the characters',
  'Of the Unicode range bits computed for a set of characters, a bit is set exactly if one of the characters lies in the principal (first listed) block that the OpenType specification gives for that bit, and bit 57 exactly if one of them is outside the basic multilingual plane.',
  'all characters and all sequences of characters', 'There are 122 ranges with two edges each; tests look at none of them.',
  ['sfnt_os2.go'], [('os2UlUnicodeRangeBit', 'sfnt_os2.go'), ('os2UlUnicodeRange', 'sfnt_os2.go')])
p('P29', 'Name records are those of the name table, and selected by their name ID',
  'An accepted name table has the platform, encoding, language, name ID and string of every record, and the string of every language tag, at the offsets the font data gives; strings outside the table are rejected. Selecting by name ID returns every record with that ID, in order, and no other.',
  'all contents of name tables and all name IDs', 'Tests use a few well-formed fonts; language tags, corrupt offsets and repeated IDs are not sampled.',
  ['sfnt.go'], [('parseName', 'sfnt.go'), ('nameTable.Get', 'sfnt.go')])
