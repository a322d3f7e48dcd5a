#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording is editable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "The HDU walk reports exactly the HDUs of the file",
 "Iterating over a file yields exactly its HDUs, in file order: the primary first, then every IMAGE, BINTABLE and TABLE extension, and then ends. "
 "For each HDU the reported kind, data-unit byte offset, data-unit byte size (padding excluded), BITPIX, axis lengths, and row and column counts are those its header and position in the file define. "
 "This holds for any number, order and mix of HDUs, any header length, empty data units, data units that are or are not multiples of 2880 bytes, and offsets or sizes beyond 4 GiB.",
 ["inputs"], "every well-formed FITS file",
 "The tests open a handful of sample files (most of them not shipped) and look at a few headers; layout arithmetic must hold for every combination of header length, data size and HDU order, and for files far larger than any test file.",
 ["src/fits.rs", "src/hdu/mod.rs", "src/hdu/header/mod.rs", "src/hdu/header/extension/*.rs"],
 [("2880-byte block arithmetic", "Fits::consume_until_next_hdu, fits::HDU::new"), ("extension dispatch", "hdu::HDU::new_primary/new_xtension"),
  ("data-unit size", "Xtension::get_num_bytes_data_block")],
 [("pos_start_cur_du", "byte offset of the current data unit", "src/fits.rs"), ("num_bytes_in_cur_du", "its unpadded size", "src/fits.rs")],
 ["Fits::next", "HDU::get_data_unit_byte_offset/size", "get_xtension() accessors"])

prop("C02", "Reading data never changes which HDU comes next",
 "Whatever part of the data of the current HDU has been read - nothing, some values, everything, the same data unit several times, random accesses, a row seek, variable-length-array heap reads, tile decompression, raw reads on the file object - the next call to the iterator reports the same next HDU as an iteration that reads no data. "
 "Calling the iterator again after it has ended keeps reporting the end.",
 ["histories", "inputs"], "every file and every history of data accesses between calls of the HDU iterator",
 "Tests read each data unit either fully or not at all; the reader position left behind depends on the whole history of partial reads and seeks.",
 ["src/fits.rs", "src/hdu/data/iter.rs", "src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/tile_compressed/pixels.rs"],
 [("relative seek from the current position to the next block", "Fits::consume_until_next_hdu"), ("position restored after heap jumps", "TableData::jump_to_location")],
 [("stream position", "where the last data access left the reader", "reader")],
 ["Fits::next after get_data sessions", "Fits::get_position_data_unit"])

prop("C03", "Damaged files: correct prefix, at most one error, never a panic or hang",
 "For any byte sequence at all - truncated anywhere, corrupted, with hostile header values, or not FITS - iterating over HDUs and reading their data terminates without panicking. "
 "Every HDU whose header is completely and validly present before the damage is still reported correctly, and the first header that is not readable yields one error. "
 "After an error the iterator only reports the end.",
 ["inputs", "fault_sequences", "histories"], "every byte sequence, every truncation point, every call history",
 "Tests only feed valid sample files and a few truncated headers; totality is a statement about all byte sequences.",
 ["src/fits.rs", "src/hdu/mod.rs", "src/card.rs", "src/hdu/header/extension/*.rs", "src/hdu/data/**"],
 [("error latch", "Fits::error_parsing_encountered"), ("checked size arithmetic", "Xtension::parse"), ("short reads become None/Err", "It::next, TableData::next")],
 [("error_parsing_encountered", "iterator finished after an error", "src/fits.rs")],
 ["Fits::next", "data iterators"])

prop("C04", "Image pixels are delivered exactly, in order, in full",
 "Iterating over the pixels of an image data unit, primary or extension, delivers exactly the product of its axis lengths many values, in file order, each being the big-endian value of the type BITPIX names, bit for bit; no axis means no value. "
 "If the file ends early, exactly the values completely present are delivered. For in-memory sources the raw byte view is exactly the data unit's bytes.",
 ["inputs"], "every image data unit, BITPIX and shape",
 "Tests count pixels or compare a few values of sample images of some BITPIX; exact delivery must hold for every type, shape and truncation point.",
 ["src/hdu/data/image.rs", "src/hdu/data/iter.rs", "src/hdu/header/extension/image.rs"],
 [("typed iterator with item limit", "It::new, It::next"), ("BITPIX dispatch", "ImageData::new"), ("raw view", "ImageData::raw_bytes")],
 [("cur_idx/num_items", "items delivered and to deliver", "src/hdu/data/iter.rs")], ["Pixels iterators", "raw_bytes"])

prop("C05", "Random access to pixels is consistent with iteration",
 "Reading the pixel with index k gives the k-th pixel of the data unit and makes iteration continue with pixel k+1, for every k and every interleaving of random reads and sequential iteration. "
 "An index beyond the last pixel gives an error and does not move the iteration.",
 ["histories", "inputs"], "every image and every history of random and sequential pixel reads",
 "One test reads one value; the position bookkeeping must hold for every history.",
 ["src/hdu/data/iter.rs"], [("relative seek", "It::read_value")],
 [("cur_idx", "index of the next pixel", "src/hdu/data/iter.rs")], ["It::read_value", "It::next"])

prop("C06", "Every 80-byte header record becomes the card it encodes",
 "Each header record is reported as one card, in order, and none is dropped, reordered or merged: value cards with keyword, typed value (string with doubled quotes undone and insignificant trailing blanks removed, logical, 64-bit integer, floating point with E or D exponent, undefined) and comment; HIERARCH keywords; COMMENT, HISTORY, blank and CONTINUE records with their text; END. "
 "A record that cannot be interpreted is kept verbatim as an undefined card and does not disturb its neighbours.",
 ["inputs"], "every sequence of 80-byte records up to END",
 "The unit tests sample a few dozen records; the grammar (quotes, slashes in strings, signs, exponents, non-ASCII bytes, record boundaries) has to hold for all records.",
 ["src/card.rs", "src/hdu/mod.rs"],
 [("record lexer", "Card::try_from, split_value_and_comment, parse_*"), ("retention of unparsable records", "consume_cards")],
 (), ["Header::cards", "Card::try_from"])

prop("C07", "Long strings are reassembled across CONTINUE records",
 "A string value ending in '&' followed by CONTINUE records is reported as the concatenation of the pieces without the ampersands, over any number of records, with the comments of the pieces joined in order. "
 "The chain ends at the first piece without '&'; an ampersand with no CONTINUE record after it stays part of the value, and a CONTINUE record with nothing to continue changes no value. "
 "It works for ordinary and HIERARCH keywords, anywhere in the header, with several long strings in one header.",
 ["inputs", "histories"], "every sequence of value, CONTINUE, commentary and other records",
 "Tests contain a few fixed chains; the assembly is a state machine over arbitrary record sequences.",
 ["src/hdu/header/mod.rs", "src/card.rs"],
 [("assembly state machine", "process_cards"), ("splicing", "Value::append, Value::continued")],
 [("kw", "keyword whose string is still open", "process_cards")], ["Header::get", "Header::iter"])

prop("C08", "The header map holds the last value of every keyword, in order",
 "Looking up a keyword gives the value of its last occurrence in the header (HIERARCH keywords under their words joined by dots, XTENSION included), absent keywords give nothing, and iterating gives every keyword once in order of first appearance. "
 "Typed access succeeds exactly when the value has that type and range (integers only as integers that can hold them, numbers as floats, one-character strings as characters, undefined or absent as none) and then gives the same value; history lists all HISTORY texts in order.",
 ["inputs"], "every header and every requested type",
 "Tests request a few keywords of sample headers; duplicates, ranges and types form an unbounded space.",
 ["src/hdu/header/mod.rs", "src/card.rs"],
 [("ordered map", "process_cards, ValueMap"), ("typed access", "ValueMap::get_parsed, impl Deserializer for &Value")],
 [("values", "ordered keyword map", "Header")], ["Header::get", "get_parsed", "iter", "keywords", "history", "get_keyword"])

prop("C09", "Binary-table cells are decoded exactly, row by row",
 "Iterating over a binary table delivers, for every row and column in order, the cell's values exactly: every element of L (true only for 'T'), X (one value per packed byte), B, I, J, K, A, E, D, C and M columns with any repeat count including zero, labelled with the column and the element index. "
 "The row iterator delivers exactly NAXIS2 rows holding the same values, and if the file ends early only complete cells and rows are delivered.",
 ["inputs"], "every table layout (column types, repeat counts, rows) and content",
 "Tests read one or two sample tables with few column types; the cursor arithmetic must hold for every layout.",
 ["src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/row.rs", "src/hdu/header/extension/bintable.rs"],
 [("cell cursor", "TableData::next, read_value"), ("column widths", "BinTable::parse, TFormType")],
 [("row_idx/item_idx/col_idx", "cursor", "TableData")], ["TableData iteration", "TableRowData iteration"])

prop("C10", "Variable-length arrays deliver exactly the elements in the heap",
 "For a P or Q column each row delivers the array's elements - as many as the descriptor says, including none, from the descriptor's offset in the heap, of the element type - and then the following columns and rows as if the array had been stored inline. "
 "Arrays may be stored in any order, overlap, be shared, leave gaps, and the heap may start after a gap given by THEAP.",
 ["inputs"], "every descriptor, heap layout and element type",
 "Sample tables have one heap layout; the jump-and-return bookkeeping must hold for every layout.",
 ["src/hdu/data/bintable/data.rs", "src/hdu/header/extension/bintable.rs"],
 [("heap jump and return", "TableData::jump_to_location/heap iteration"), ("heap offset", "BinTable::get_theap")],
 (), ["TableData iteration", "TableRowData iteration"])

prop("C11", "Column selection and row seeking deliver the chosen cells only",
 "After selecting columns by index or name, iteration delivers exactly the cells of the selected columns of every row, with the same values as an unselected iteration; unknown columns are ignored. "
 "After seeking to a row, iteration continues with that row's first (selected) cell, from any state of the iteration and also when combined with selection, and an out-of-range row is refused without effect.",
 ["histories", "inputs"], "every table, every selection, every history of seeks and reads",
 "Tests select columns of one table once; positions depend on the history of selections, seeks and reads.",
 ["src/hdu/data/bintable/data.rs"], [("selection", "TableData::select_fields"), ("row seek", "TableData::seek_to_row")],
 [("cursor", "row/column/item position", "TableData")], ["TableData::select_fields", "TableData::seek_to_row"])

prop("C12", "Tile-compressed integer images decompress to the original pixels",
 "Reading a tile-compressed image whose pixels were compressed losslessly as 32-bit tile elements delivers exactly the original pixels: every pixel of every tile, tiles in order, for GZIP_1, GZIP_2 and RICE_1 (any block size up to 255), any column order and heap layout, any image shape and tile shape including border tiles smaller than the nominal tile. "
 "A tile that cannot be decoded, or a missing one, ends the pixels there, without made-up pixels, and the next HDU is still found.",
 ["inputs"], "every image, tiling and supported algorithm",
 "The compressed sample files are not all shipped and cover one tiling each; border tiles and algorithm/type combinations are a product space.",
 ["src/hdu/data/bintable/tile_compressed/*.rs", "src/hdu/header/extension/bintable.rs"],
 [("tile decoding", "TileCompressedData iterator"), ("gzip2 unshuffling", "pixels.rs"), ("tile shape", "TileCompressedImage")],
 (), ["tile_compressed::pixels iteration"])

prop("C13", "RICE decompression inverts RICE compression",
 "For every sequence of integers and every block size, decompressing its RICE_1 encoding gives back exactly that sequence, including constant, low-entropy and incompressible blocks, a last partial block, negative values and differences that wrap around 32 bits.",
 ["inputs"], "every integer sequence and block size",
 "Tests decode one or two fixed streams; the bit-level state machine has to be right for all streams.",
 ["src/hdu/data/bintable/tile_compressed/rice.rs"], [("bit buffer state machine", "RICEDecoder::decode")], (), ["tile pixel iteration", "RICEDecoder"])

prop("C14", "Quantized float images are restored with the declared scaling and dither",
 "Pixels of a tile-compressed float image are restored, in single precision, as (integer - dither + 0.5) * scale + zero with the scale and zero of their own tile ((integer * scale) + zero without dithering), with the dithering the header declares (none, subtractive 1 or 2) following the standard pseudo-random sequence from the declared seed for each tile; blank pixels are NaN and, for method 2, the reserved integer -2147483647 is exactly zero.",
 ["inputs"], "every tile content, scale, zero, dither method and seed",
 "Dither sequences are positional: an off-by-one only shows on particular tiles, seeds or lengths.",
 ["src/hdu/data/bintable/tile_compressed/pixels.rs", "src/hdu/data/bintable/tile_compressed/dithering.rs", "src/hdu/data/bintable/tile_compressed/mod.rs"],
 [("RAND sequence", "dithering.rs"), ("unquantization", "pixels.rs")], (), ["tile_compressed::pixels iteration"])

prop("C15", "The asynchronous reader agrees with the synchronous one",
 "For any file, however its bytes arrive - any chunk sizes and any number of not-ready polls at any point - the asynchronous reader reports the same HDUs, header values and pixel or byte values, and ends or fails where the synchronous reader does: a stream of values over a data unit that is cut short delivers the values that are there and then ends, at most after one error. "
 "Data left unread or partly read is skipped as in the synchronous case.",
 ["schedules", "inputs", "histories"], "every file, every chunking, every pattern of pending polls, every amount of data read per HDU",
 "The async tests use a reader that is always ready with whole files; arrival patterns are unbounded.",
 ["src/async_fits.rs", "src/hdu/mod.rs", "src/hdu/data/stream.rs", "src/hdu/data/mod.rs"],
 [("poll_next state", "AsyncFits Stream impl"), ("value streams", "St::poll_next"), ("skipping", "read_n_bytes_exact")],
 [("remaining bytes", "unread bytes of the data unit", "AsyncFits")], ["AsyncFits::next", "DataStream"])

prop("C16", "Gzipped files read the same as plain ones",
 "Opening a gzip-compressed file by path gives the same HDUs, headers and data, in every access order, as opening the uncompressed file, also when the gzip file consists of several members; a plain file opened by path reads as from any reader. "
 "A gzip stream that is cut short gives an error (on opening, or at the first HDU when too little is left to look like gzip) and never silently shortened data; a corrupt one gives an error unless the damage does not change the contents.",
 ["inputs", "histories"], "every file and every compression of it (level, header fields, block structure)",
 "The tests open one gzipped sample; equality must hold for all contents and access histories.",
 ["src/gz.rs", "src/file.rs"], [("magic detection and rewind", "GzReader::new"), ("in-memory inflation", "GzReader")], (), ["FITSFile::open"])

prop("C17", "Images opened through the image crate show the FITS pixels",
 "Decoding a FITS image through the image-crate integration gives an image of the FITS axes' width and height whose samples are the pixels of the first HDU with an image, in FITS (raster) order, flagged as stored bottom row first. One plane shows as grey, three as RGB. 8- and 16-bit integers become 8- and 16-bit samples of BZERO + BSCALE * pixel, rounded and limited to the sample's range; 32- and 64-bit integers become floats relative to the largest integer of their type; floats are kept. The same holds for tile-compressed images of any tiling. Images of other shapes, files without an image and images whose pixels are missing give an error.",
 ["inputs"], "every image shape, BITPIX and compression",
 "The hook is exercised by one sample file; sample conversion and ordering range over all shapes and types.",
 ["src/image_integration.rs"], [("decoder", "FitsDecoder"), ("sample conversion", "image_integration.rs")], (), ["ImageDecoder::dimensions/color_type/read_image"])

prop("C18", "The struct report of the CLI describes the file",
 "The struct command prints one entry per HDU of the file, in order, with its index, type, dimensions or row and column counts, and the data unit's starting byte and size, and nothing else; files that cannot be read give a non-zero exit instead of a report of something else.",
 ["inputs"], "every readable file",
 "The CLI has no tests.",
 ["crates/cli/src/struct.rs"], [("report", "Struct::exec")], (), ["stdout of `fits struct FILE`"])

prop("C19", "Headers that do not define a data unit are rejected, valid ones accepted",
 "An HDU is reported if and only if its header defines its data unit: first card SIMPLE = T or a supported XTENSION, BITPIX one of the six values, NAXIS and every NAXISn non-negative integers, and for tables BITPIX 8, NAXIS 2, PCOUNT, GCOUNT 1 and TFIELDS present and column widths adding up to the row length. "
 "Missing, mistyped, negative, contradictory or overflowing values give an error, never a wrong size; cards beyond these never affect acceptance.",
 ["inputs"], "every combination of mandatory keyword values",
 "A few tests drop one keyword; acceptance is a predicate on all headers.",
 ["src/hdu/header/extension/*.rs", "src/hdu/header/mod.rs", "src/hdu/mod.rs"],
 [("mandatory keyword checks", "Image/BinTable/AsciiTable::parse")], (), ["Fits::next"])

prop("C20", "Results do not depend on the kind of reader or on short reads",
 "The HDUs, headers, pixels, table cells and decompressed tiles reported for a file are the same whether it is read from memory, a file, a buffered reader with any capacity, or a reader that returns arbitrarily short reads, and a cloned file object continues independently of the original.",
 ["schedules", "configurations", "histories"], "every reader behaviour allowed by the Read and Seek contracts",
 "Tests use in-memory cursors and buffered files with full reads only.",
 ["src/fits.rs", "src/hdu/data/**", "src/gz.rs"], [("read_exact everywhere", "consume_next_card, It, TableData"), ("relative and absolute seeks", "fits.rs, data.rs")],
 (), ["Fits over different readers"])

prop("C21", "Table column descriptions are those of the header",
 "For binary tables the number of columns and rows, the column found under a name, the description of a compressed image (its BITPIX and axes, or that there is none), and the type, repeat count and position of every cell that is delivered are those the TFORMn, TTYPEn, THEAP and Z-keyword cards declare, in column order. For ASCII tables the row length, rows, field count and, for every field whose TBCOLn and TFORMn are valid, its first character and format (letter, width, decimals) are reported in order; fields that are not are left out without affecting the others.",
 ["inputs"], "every set of column keywords",
 "Tests look at the columns of a few sample tables.",
 ["src/hdu/header/extension/bintable.rs", "src/hdu/header/extension/asciitable.rs"],
 [("TFORM parsing", "BinTable::parse, AsciiTable::parse"), ("name lookup", "BinTable::find_field_by_ttype")], (), ["BinTable/AsciiTable accessors"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
