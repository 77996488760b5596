prop("C01", "Attribute difference and merge form a consistent algebra",
 "Merging the difference between two attributes into the first always yields the look of the second, asking for a clear only when something has to be taken away. Merging accumulates flags, lets a set colour replace an earlier one, and lets a clear request forget everything before it, so merges may be batched. Setting, reading back and stripping foreground and background colours never disturbs the rest of the attribute.",
 ["inputs"], "every pair and triple of well formed 64-bit attribute values, and every colour",
 "The tests try a few dozen attribute pairs of the 2^118 possible ones; interactions between flags, clear and the two colour fields are not sampled.",
 ["ansi/sgr.go"], [("SGRAttr.Merge", "ansi/sgr.go"), ("SGRAttr.Diff", "ansi/sgr.go"), ("SGRColor.FG/BG, SGRAttr.SansFG/SansBG", "ansi/sgr.go")],
 TRUST + "64-bit vectors, no bound.")

prop("C02", "Attribute encoding is exact and its announced size is its length",
 "Writing an attribute appends exactly one select-graphic-rendition sequence that holds the parameters of the attribute, each once and in order, with standard, bright, indexed or 24-bit colour forms, and leaves the bytes before it unchanged. The announced size equals the number of bytes written. A colour is written with its shortest decimal digits.",
 ["inputs"], "every well formed attribute, every colour, every buffer content and capacity",
 "Tests encode a handful of attributes; digit boundaries, trailing separators and size agreement for all combinations are not covered.",
 ["ansi/sgr.go"], [("SGRAttr.AppendTo", "ansi/sgr.go"), ("SGRAttr.Size", "ansi/sgr.go"), ("SGRColor.appendFGTo/appendBGTo", "ansi/sgr.go")],
 TRUST + "Colour parameter writers and the size are proved for all inputs; the assembly of the whole sequence (SGRAttr.AppendTo, ControlString) is a BOUNDED stand-in, executed on generated inputs against the same contract.")

prop("C03", "Colours convert exactly and palette lookup finds the first nearest entry",
 "Packing components into a 24-bit colour and reading them back is lossless, palette colours read as the conventional 256 colour table, and upgrading a colour to 24-bit keeps its components. Looking a colour up in any palette gives the first of the entries at least distance, without arithmetic wrap-around. Combined colour models convert in series, and combining them never alters an earlier combination.",
 ["inputs", "histories"], "every colour value, every palette of any length, every combination of models",
 "Tests look at sample colours; the nearest-entry claim quantifies over all palettes and all colours.",
 ["ansi/colors.go", "ansi/sgr.go"], [("Palette.Index, Palette.Convert", "ansi/colors.go"), ("SGRColor.RGB, RGBA, To24Bit", "ansi/sgr.go"), ("ColorModels", "ansi/colors.go"), ("ColorTheme.Convert", "ansi/colors.go")],
 TRUST + "Canonical colour lookup (map based) and the combination of models (function values) are BOUNDED stand-ins executed on generated inputs.")

prop("C04", "Escape identifiers name, classify and encode themselves consistently",
 "Every escape or control identifier encodes to its documented byte form, arguments are placed where the terminal expects them (before the final byte, after a character set selector, between a string introducer and its terminator), and the announced size equals the bytes written. Naming an identifier and looking its name up are inverse, and no identifier is both an escape and a control sequence. Bytes already in the buffer are kept.",
 ["inputs"], "every 32-bit identifier value, every argument and buffer",
 "Tests cover a few identifiers; range boundaries of the identifier space are where encodings go wrong.",
 ["ansi/escape.go", "ansi/control.go"], [("Escape.AppendTo, AppendWith, Size", "ansi/control.go"), ("ESC, CSI, Escape.ESC, Escape.CSI", "ansi/escape.go"), ("Escape.String", "ansi/escape.go")],
 TRUST + "Only the human-readable String form is a BOUNDED stand-in.")

prop("C07", "Numeric arguments decode to exactly the number written or are rejected",
 "Decoding a decimal argument yields exactly the value of its digits with its sign, consumes exactly the separator, sign and digits, and reports numbers that are missing, malformed or out of range as errors rather than returning another number. Points, modes and cursor movements built from such arguments decode from exactly those numbers, and mode decoding always makes progress or fails.",
 ["inputs"], "every byte string of any length",
 "Tests decode a few literal strings; overflow boundaries, signs, and arbitrarily long digit strings are not reachable by sampling.",
 ["ansi/decode.go"], [("DecodeNumber", "ansi/decode.go"), ("DecodePoint", "ansi/decode.go"), ("DecodeMode", "ansi/decode.go"), ("DecodeCursorCardinal", "ansi/decode.go")],
 TRUST + "Loop invariant for arbitrary length; error paths with wrapped errors are checked only for being non-nil.")

prop("C09", "Mouse reports decode to exactly what the terminal sent",
 "An extended mouse report decodes to exactly its button state and one-based position with the final byte deciding press or release, anything malformed or out of range is an error, and foreign sequences are left alone. At most one of press, drag and release holds for a state, keyboard modifiers never change which, and buttons, modifiers and descriptions follow from the state bits alone.",
 ["inputs"], "every identifier and argument byte string, all 256 button states",
 "Tests sample a few reports; numeric boundaries and malformed reports of any length are not covered.",
 ["ansi/mouse.go"], [("DecodeXtermExtendedMouse", "ansi/mouse.go"), ("MouseState predicates", "ansi/mouse.go"), ("MouseState.String", "ansi/mouse.go")],
 TRUST + "The name of wheel buttons beyond two is left unspecified.")

prop("C10", "Screen geometry behaves as sets of one-based cells",
 "Membership, intersection, union, inclusion, overlap, equality, translation and inset of screen rectangles agree with the sets of cells they stand for, with an empty rectangle standing for no cells. Conversion between one-based screen points and zero-based image points is an exact inverse shift by one. Constructing or converting a point or rectangle below the origin panics and nothing else does.",
 ["inputs"], "every point and rectangle with coordinates below 2^40 in magnitude",
 "Tests use a few rectangles; empty, negative and degenerate rectangles interact in ways only a proof over all integers settles.",
 ["ansi/geom.go"], [("Rectangle methods", "ansi/geom.go"), ("Point methods", "ansi/geom.go"), ("RectFromImage, PtFromImage", "ansi/geom.go")],
 TRUST + "Coordinates are limited to 2^40 so that sums do not overflow.")

prop("C08", "Sequences hold exactly the arguments given and write them in order",
 "Adding argument bytes or integers to a sequence yields one that holds the earlier arguments followed by the new ones, with any number of arguments, and never changes the sequence it was made from or any other made from that one. Writing a sequence appends its introducer, its argument bytes, its integers in decimal separated by semicolons and its final byte, in no more bytes than its announced size, and keeps the bytes before it. Integer arguments are refused with a panic for anything but control sequences.",
 ["inputs", "histories"], "every sequence with any number of byte and integer arguments, every buffer content and capacity",
 "The tests build a few short sequences; argument counts across the inline storage boundary, chains of additions sharing storage, and extreme integers are not covered.",
 ["ansi/control.go"], [("Seq.With, Seq.WithInts, Seq.WithPoint", "ansi/control.go"), ("Escape.With, WithInts, WithPoint", "ansi/control.go"), ("Seq.AppendTo, appendArgBytes, appendArgNums", "ansi/control.go"), ("Seq.Size", "ansi/control.go")],
 TRUST + "strconv.AppendInt is assumed to write the decimal text of its argument, 1 to 20 bytes long. Arguments of modular calls are checked against contracts.")

prop("C05", "Decoding is safe on any bytes and keeps what follows",
 "Decoding a rune or an escape sequence from any bytes whatsoever ends, never panics, and consumes between none and all of the bytes given. A recognised sequence leaves the bytes after it unchanged; an unfinished sequence is left for later; only the documented rewrite of an introducer, or the shuffling of a control or foreign rune out of a broken sequence, changes bytes, and never past the rune that ended or interrupted it.",
 ["inputs"], "every byte string of any length",
 "Input from a terminal is arbitrary: the tests decode a few dozen literal strings, while panics and runaway consumption hide in odd prefixes, split runes and interrupted sequences.",
 ["ansi/decode.go"], [("DecodeRune", "ansi/decode.go"), ("DecodeEscape", "ansi/decode.go"), ("decodeESC", "ansi/decode.go")],
 TRUST + "unicode/utf8 rune decoding and encoding are modelled from their documentation.")

prop("C06", "Escape sequences are recognised exactly and written ones read back",
 "A control sequence is recognised exactly when a final byte is present and ends at the first one, with its argument bytes; control strings end at the string terminator; escape sequences are named by their final byte, or by the character set selector. Everything that the encoders write (control sequences with arguments, control strings, escape sequences with intermediates, character set selections, and attributes) decodes to the same identifier and argument whatever follows it. Attribute parameters decode to exactly the flags and colours they denote, and anything else is an error.",
 ["inputs"], "every byte string, identifier and argument of any length",
 "Encoder and decoder are tested separately on literals; agreement for all arguments with arbitrary following bytes is what a user relies on.",
 ["ansi/decode.go"], [("DecodeEscape, decodeCSI, decodeString, decodeESC", "ansi/decode.go"), ("DecodeSGR and its colour decoders", "ansi/decode.go"), ("Escape.AppendWith", "ansi/control.go")],
 TRUST + "Read back of control strings is stated for printable ASCII contents; reading a written attribute back is a BOUNDED stand-in on generated attributes, because its writer is.")

prop("C11", "Grid operations stay in bounds and keep cells and attributes paired",
 "Every cell operation of a grid keeps as many attributes as runes, addresses exactly the cells within its bounds, and never panics on a well formed grid. A sub-grid shares its parent's cells and lies within its bounds; resizing gives the grid exactly the asked size (a sub-grid at most up to its parent's edge) with storage for every cell, and reports whether the size changed; clearing affects the cells of the grid and no others, also in a sub-grid. Two grids are equal exactly when their sizes are and every cell has the same attribute and rune, with the zero rune standing for the given one.",
 ["inputs", "histories"], "every well formed grid and sub-grid with coordinates below 2^30, every rectangle and point",
 "The tests draw on a few small grids; sub-grid strides, empty bounds, and points just outside are where offsets go wrong.",
 ["grid.go"], [("Grid.CellOffset", "grid.go"), ("Grid.SubRect, Full, IsSub", "grid.go"), ("Grid.Resize, Clear", "grid.go"), ("Grid.Eq", "grid.go")],
 TRUST + "Coordinates are limited to 2^30 so that offsets do not overflow.")

prop("C12", "Drawing copies exactly the visible source cells",
 "Drawing a grid or a bitmap into a grid changes only the destination cells that correspond to a source cell within both bounds. Without styles each of those becomes the source cell; with styles it becomes what the styles make of the source and the prior cell at that destination point, or stays as it was when that is no rune. A bitmap contributes the braille rune of each two by four bits. Drawing never reads or writes outside the two, whatever their sizes, offsets and strides.",
 ["inputs"], "all pairs of well formed grids, bitmaps and sub-regions of either, any style that is a function of its arguments",
 "The tests draw a few fixed pictures; clipping, sub-grid offsets and partially covering styles for every combination of bounds need a proof.",
 ["draw.go"], [("DrawGrid, copyGrid", "draw.go"), ("DrawBitmap", "draw.go"), ("Styles", "style.go")],
 TRUST + "Source and destination share no memory. Calls of unknown styles are taken to be functions of their arguments. Coordinates are limited to 2^30.")

prop("C13", "Bitmaps map bits to braille runes exactly",
 "Setting a bit changes that bit and no other and reads back, and bits outside the bounds read as unset and cannot be set. The rune of a two by four block has exactly the braille dots of its set bits within the bounds. Loading keeps the given bits row by row and pads the last row, resizing clears, sub-bitmaps share bits within the parent's bounds, and the announced size in runes is the least that covers the bits.",
 ["inputs"], "every well formed bitmap and sub-bitmap, every point and block",
 "The tests load a few pictures; blocks that hang over an edge, odd sizes and sub-bitmaps are the cases that break.",
 ["bitmap.go"], [("Bitmap.Get, Set", "bitmap.go"), ("Bitmap.Rune, RuneSize", "bitmap.go"), ("Bitmap.Load, Resize", "bitmap.go"), ("Bitmap.SubRect, SubAt, SubSize", "bitmap.go")],
 TRUST + "Coordinates are limited to 2^30.")

prop("C25", "Styles compose in order and do only what they say",
 "Each style changes exactly the part of a cell it is about: zeroing or filling a given rune, defaulting the rune of attributed cells, setting the attribute of non-empty cells, or letting the prior rune, background or foreground show through where the new one has none. Combined styles act as each in turn, whatever the nesting; no style at all acts as the identity; combining never alters an existing combination and never yields nil.",
 ["inputs", "histories"], "every rune, attribute, prior cell and point, any list of styles",
 "Tests apply a few styles to sample cells; the masks involved span 64 bits and compositions are unlimited.",
 ["style.go"], [("Styles, styles.Style", "style.go"), ("ZeroRuneStyle, FillRuneStyle, DefaultRuneStyle, AttrStyle", "style.go"), ("transparentRuneStyle, transparentAttrStyle", "style.go")],
 TRUST + "Applying a combination is proved for any number of styles; that Styles builds the combination of its arguments in order is a BOUNDED stand-in on generated lists.")
