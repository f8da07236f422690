#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (harnesses decide what is claimed)."""

import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, quant, why, files, mech, observe=None, state=None):
    P.append(dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=over, text=quant),
        why_tests_cant=why,
        anchors=dict(files=["objutils/" + f for f in files], state=state or [], mechanism=[dict(name=n, where="objutils/" + w) for n, w in mech], observe_at=observe or [], hook_needed=None),
    ))


HF = [("row splitting, row length and address limits", "hexfile.py: Writer.dumps"), ("record matching, address handling, joining", "hexfile.py: Reader.read")]

prop("C01", "Intel HEX round trip preserves every byte over 32 bit addresses",
     "For every image whose sections lie in the 32 bit address range and every row length from 1 to 255, writing it as Intel HEX and reading the result gives an image with the same sections: same start addresses, same lengths, same bytes, including sections that lie in or cross different 64K pages in any arrangement. Writing does not change the image.",
     ["inputs"], "all section layouts (1-3 sections, up to 520 bytes), all byte values, all 32 bit addresses, row lengths 1/2/3/16/200/255",
     "The tests read and write a few fixed files below 64K; page changes depend on the address of every row relative to the rows before it, over 2^32 addresses.",
     ["ihex.py", "hexfile.py"], [("segment/linear address records and page tracking", "ihex.py: Writer.compose_row"), ("extended address state of the reader", "ihex.py: Reader.special_processing")] + HF, ["objutils.dumps('ihex')", "objutils.loads('ihex')"])
prop("C02", "Motorola S-record round trip preserves every byte, header and options",
     "For every image whose sections lie in the 32 bit address range, every row length that fits the record type, and every combination of record type, 16 bit record count, header text and start address, writing it as S-records and reading the result gives the same sections: same start addresses, lengths and bytes. A record type chosen by the writer is always wide enough for the highest address, and a header record reaches the reader as meta data.",
     ["inputs", "configurations"], "all layouts of 1-3 sections (up to 520 bytes), all bytes, all 32 bit addresses, record types automatic/1/2/3, count record on/off, symbolic start address, header of 1-40 bytes",
     "Tests use single fixed images; choice of the address width, count and termination records interact with every address and option value.",
     ["srec.py", "hexfile.py"], [("record type selection, S0/S5/S7-S9 records", "srec.py: Writer.pre_processing / compose_header / compose_footer"), ("checksum check and record count", "srec.py: Reader.check_line")] + HF, ["objutils.dumps('srec')", "objutils.loads('srec')"])
prop("C03", "MOS, Tektronix, Signetics, EMON52 and extended Tek files round trip",
     "For each of the formats mostec, tek, sig, emon52 and etek: every image inside the format's address range (16 bit, 20 bit for etek), written with any row length the format allows, reads back as the same sections with the same start addresses, lengths and bytes.",
     ["inputs"], "all layouts of 1-3 sections (up to 300 bytes), all bytes, the full address range of each format, row lengths 1/2/3/16/64/122/255",
     "Most of these writers are not run by any test; where they are it is on one small fixed image.",
     ["mostec.py", "tek.py", "sig.py", "emon52.py", "etek.py", "hexfile.py"], [("record composition and checksums", "mostec.py, tek.py, sig.py, emon52.py, etek.py: Writer.compose_row"), ("checksum checks", "same files: Reader.check_line")] + HF, ["objutils.dumps", "objutils.loads"])
prop("C04", "ASCII hex, TI-TXT, RCA and COSMAC files round trip",
     "For each of the formats ash, titxt, rca and cosmac: every image inside the 16 bit address range, written with any row length from 1 to 255, reads back as the same sections with the same start addresses, lengths and bytes. Sections that touch are joined, sections that do not touch stay separate.",
     ["inputs"], "all layouts of 1-3 sections (up to 300 bytes), all bytes, all 16 bit addresses, row lengths 1/2/3/16/64/255",
     "These formats carry addresses from line to line; which address a row gets depends on all lines before it. Tests use single sections or none of these writers.",
     ["ash.py", "titxt.py", "rca.py", "cosmac.py", "hexfile.py"], [("address lines and row composition", "hexfile.py: ASCIIHexWriter.compose_row; rca.py, cosmac.py: Writer.compose_row"), ("line parsing with carried address", "hexfile.py: ASCIIHexReader.read; cosmac.py: Reader.special_processing")], ["objutils.dumps", "objutils.loads"])
prop("C05", "FPC (base 85) files round trip",
     "Every image inside the 16 bit address range, written in the Four Packed Code format with any row length from 1 to 251, reads back as the same sections with the same start addresses, lengths and bytes.",
     ["inputs"], "one section of 1-4 arbitrary bytes at any 16 bit address; several sections up to 21 bytes (no leading zero words) in address windows; up to 300 bytes with 6 of them symbolic",
     "The base 85 coding with padding depends on every 32 bit group; the only test of the reader fails at the pinned commit.",
     ["fpc.py", "hexfile.py"], [("base 85 conversion and padding", "fpc.py: Writer.convert_quintuple, Writer.post_processing, Reader.convert_quintuple"), ("length field and checksum", "fpc.py: Writer.compose_row, Reader.check_line")], ["objutils.dumps('fpc')", "objutils.loads('fpc')"])
prop("C06", "SHF files round trip, and damaged blocks are dropped rather than misread",
     "Every image in the 32 bit range with non-empty sections written as S Hexdump Format reads back as the same sections. A block whose digest does not match its data, whose length does not match, whose word size is not 1, or that lacks a required attribute is not loaded, and the other blocks are loaded unchanged.",
     ["inputs", "fault_sequences"], "1-2 sections of 1-300 arbitrary bytes at any address; one arbitrary digit of digest or data replaced; all lengths and word sizes; each attribute missing. SHA-1 is an uninterpreted function, the XML parser a model",
     "Tests load and write one fixed file; each damage position and value is another input.",
     ["shf.py"], [("digest, length and word size checks", "shf.py: Reader.read"), ("block composition", "shf.py: Writer.dumps / dump")], ["objutils.dumps('shf')", "objutils.loads('shf')"])
prop("C07", "Flat binary files: gaps are filled, no byte is moved",
     "Writing an image as flat binary gives a file of exactly the distance from the first to the last address, with every byte at its address relative to the first section and the filler (one byte, default 0xFF) in the gaps; fillers that are not exactly one byte are refused. Reading a binary file gives one section holding all its bytes at the given address (default 0).",
     ["inputs", "configurations"], "1-3 sections of 1-5 arbitrary bytes, any 32 bit base address, gaps 0-12, every integer filler from -300 to 600, byte fillers of 0-3 bytes; files of 0-300 bytes",
     "Tests do not cover gaps together with fillers at all addresses; the tests that exist use one file.",
     ["binfile.py", "section.py"], [("gap filling", "binfile.py: Writer.dumps / dump"), ("filler check", "section.py: filler")], ["objutils.dumps('bin')", "objutils.loads('bin')"])
prop("C08", "Writers produce files that conform to the published format",
     "The files written for any image by the Intel HEX, S-record, MOS, Tektronix, extended Tektronix, Signetics, EMON52, ASCII hex, TI-TXT, RCA and COSMAC writers conform to the specification of the format: an independent reader written from the specification, which verifies record structure, length fields, checksums, address records, record counts and terminators, finds exactly the image's bytes at the image's addresses. No record carries more data bytes than the row length asked for.",
     ["inputs", "configurations"], "all layouts of 1-2 sections of 1-5 bytes (thorough 3 / 7+4), all byte values and addresses, row lengths 1/2/16, long rows up to 300 bytes, all S-record options",
     "A writer and reader that share a mistake round trip; tests compare with a handful of literal files.",
     ["ihex.py", "srec.py", "mostec.py", "tek.py", "etek.py", "sig.py", "emon52.py", "ash.py", "titxt.py", "rca.py", "cosmac.py", "checksums.py", "hexfile.py"], HF + [("record composition", "the Writer.compose_row / compose_header / compose_footer of each format")], ["objutils.dumps"])
prop("C09", "Readers load any well-formed file, not only the ones written here",
     "For every well-formed file of the Intel HEX, S-record, MOS, Tektronix, extended Tektronix, Signetics, EMON52, RCA, COSMAC, ASCII hex and TI-TXT formats, whatever the order and size of its records, its line ends, letter case of digits, blank lines or unrelated text lines, the reader gives exactly the bytes and addresses the records state, records that touch being joined. Intel HEX segment and linear address records, mixed S-record widths, header, count and start records and address-less continuation rows are interpreted as specified.",
     ["inputs", "histories"], "files of 1-3 records of 1-2 arbitrary bytes at arbitrary addresses in any order, six file styles, address record sequences of length 2 (ihex), all ASCII-hex separators",
     "Tests read one or two fixed files per format; order, case and mode combinations multiply.",
     ["hexfile.py", "ihex.py", "srec.py", "mostec.py", "tek.py", "etek.py", "sig.py", "emon52.py", "ash.py", "titxt.py", "rca.py", "cosmac.py"], [("format strings to regular expressions", "hexfile.py: FormatParser"), ("record loop", "hexfile.py: Reader.read, ASCIIHexReader.read"), ("special records", "special_processing of each Reader")], ["objutils.loads"])
prop("C10", "A wrong digit in a record never yields wrong data",
     "In a file of a checksummed format (Intel HEX, S-record, MOS, Tektronix, extended Tektronix, Signetics, EMON52), replacing one hexadecimal digit of a record's length, address, data or checksum (or record type of Intel HEX) by a different one never yields an image that differs from the original: the reader either raises a checksum or length error or does not load the record. The EMON52 address and the type digit of S-records and extended Tektronix are outside the formats' protection and excepted.",
     ["inputs", "fault_sequences"], "every digit position, every wrong digit, all bytes and addresses of a record of 1-2 bytes (thorough 4)",
     "Tests have a few literal bad checksums; detection is a claim about every position, digit and record content.",
     ["ihex.py", "srec.py", "mostec.py", "tek.py", "etek.py", "sig.py", "emon52.py", "checksums.py"], [("length and checksum checks", "Reader.check_line of each format"), ("checksum functions", "checksums.py: lrc, nibble_sum, rotatedXOR, xor")], ["objutils.loads"])
prop("C11", "What a format cannot hold is refused, never truncated",
     "Writing an image whose bytes do not fit the address range of the target format, a row length outside what the format's length field can hold (or below 1), or an S-record type too narrow for the addresses or start address raises an error, and whatever is accepted reads back completely. A refused image leaves an existing target file as it was. An image without sections gives an empty file, and unknown writer options are refused.",
     ["inputs", "configurations"], "sections of 1-3 bytes anywhere up to twice the address range; row lengths -2..1, limit-1..limit+3 and 400 on 300 bytes; record types 1-3 with all 33 bit addresses and start addresses",
     "Limits are off-by-one territory at the top of ten different ranges; tests check one format.",
     ["hexfile.py", "srec.py", "etek.py", "fpc.py"], [("address and row length limits", "hexfile.py: Writer.dumps, Writer.max_row_length, Writer.calculate_address_bits"), ("record type limits", "srec.py: Writer.pre_processing")], ["objutils.dumps"])
prop("C12", "Converting between formats and all I/O paths give the same content",
     "An image written in any format, read, written in any other and read again is the same image (within the common address range), and the two compare equal. dump() to a path or an open file writes exactly what dumps() returns, replacing an existing file; load() from a path or an open file gives what loads() gives for the content as bytes or str; writing twice gives the same file.",
     ["inputs", "programs"], "every ordered pair of 13 formats plus flat binary, two sections of 3 and 2 arbitrary bytes at arbitrary 16 bit addresses, all codecs for the I/O paths (FPC: 8 byte values)",
     "Tests exercise one or two conversions; there are over 150 pairs times all contents.",
     ["__init__.py", "hexfile.py", "shf.py", "binfile.py"], [("front end", "__init__.py: load, loads, dump, dumps"), ("file handling", "hexfile.py: Reader.load/loads, Writer.dump/dumps; shf.py; binfile.py")], ["objutils.load", "objutils.loads", "objutils.dump", "objutils.dumps"])
prop("C13", "Building an image sorts and joins sections without losing bytes",
     "An image built from non-overlapping sections in any order holds them in ascending address order; adjacent sections are joined when joining is asked for (the default) and only then, and the sections handed in are not modified. Joining a section list merges exactly the sections that directly follow their predecessor.",
     ["inputs"], "1-4 sections of 1-3 arbitrary bytes at arbitrary 32 bit addresses, every order of up to 3, four container types",
     "Adjacency and order depend on all addresses at once; tests use fixed lists.",
     ["image.py", "section.py"], [("construction, joining", "image.py: Image.__init__, Image.join_sections"), ("merge", "section.py: join_sections")], ["Image(...)", "Image.sections"])
prop("C14", "Inserting a section keeps all other bytes and never overlaps",
     "Inserting data at an address that collides with a section already present is refused and leaves the image unchanged; otherwise the image afterwards holds exactly the old bytes plus the new ones, sorted and joined as asked. Without an address the data goes directly behind the section inserted last, and the image keeps its own copy of the data.",
     ["inputs", "histories"], "0-2 (thorough 3) sections, 1-3 bytes inserted at any 32 bit address, sequences of 2-3 insertions, data as bytes/bytearray/list/str/array",
     "Overlap at both ends of every section for every address; tests insert at chosen addresses.",
     ["image.py", "section.py"], [("insertion", "image.py: Image.insert_section"), ("overlap check", "image.py: Image._address_contained")], ["Image.insert_section"])
prop("C15", "Raw reads, writes and searches touch exactly the addressed bytes",
     "Reading at an address returns exactly the bytes stored there if the whole range lies in one section and raises InvalidAddressError otherwise; writing changes exactly those bytes and nothing else, or raises and changes nothing. Searching a section for a byte string reports every non-overlapping occurrence from left to right with its address.",
     ["inputs"], "1-3 sections of 1-4 arbitrary bytes anywhere in 32 bits, access addresses up to 8 beyond the range, lengths 0-7; needles of 1-3 letters in 1-6 bytes",
     "Boundary conditions for every address/length/section combination.",
     ["image.py", "section.py"], [("access", "section.py: Section.read, Section.write, Section.find"), ("dispatch", "image.py: Image.read, Image.write, Image._call_address_function")], ["Image.read", "Image.write", "Section.find"])
prop("C16", "Numeric scalars are read and written exactly",
     "For every integer and float type and byte order, writing a value that the type can represent and reading it gives the value back, stored in the two's complement or IEEE 754 bytes of the named byte order, without touching other bytes; values out of the type's range and accesses not entirely inside a section are refused without changing anything. Reading with a bit mask returns the value with exactly the bits of the mask; unknown type names are refused.",
     ["inputs", "configurations"], "8 integer and 2 float types, both byte orders and the native default, every value from 2 below to 2 above the range, every address around the section, every mask of the type's width, every non-NaN bit pattern",
     "Tests check selected values; 64 bit value spaces and byte orders cannot be sampled exhaustively.",
     ["section.py", "image.py"], [("type table and struct formats", "section.py: FORMATS, Section._getformat, Section._verify_dtype"), ("access", "section.py: Section.read_numeric, Section.write_numeric, Section.apply_bitmask")], ["Image.read_numeric", "Image.write_numeric"])
prop("C17", "Numeric arrays are read and written exactly",
     "For every integer and float type and byte order, writing an array of representable values and reading it gives the same values, stored one after the other without touching other bytes; an array with a value out of range or a range not entirely inside a section is refused without changing anything. Empty arrays are valid.",
     ["inputs", "configurations"], "all types and byte orders, 0-3 elements (floats 1-2) of any value, one possibly out of range, list or tuple, every address around the section",
     "As for scalars; tests cover one type and order.",
     ["section.py", "image.py"], [("access", "section.py: Section.read_numeric_array, Section.write_numeric_array")], ["Image.read_numeric_array", "Image.write_numeric_array"])
prop("C18", "Strings are read up to their end and written without overrun",
     "Reading a string returns the characters up to the first NUL (or the given number of bytes) decoded as asked, and is refused if the start or the fixed length is not inside a section. Writing stores the encoded text, followed by a NUL, only if all of it fits into the section, and otherwise raises and changes nothing.",
     ["inputs", "configurations"], "sections of 1-6 arbitrary bytes, all addresses around them, lengths 0-7, strings of 0-4 arbitrary characters, latin1/ascii/utf-16, multi-byte texts",
     "Bounds depend on encoded length, terminator and address together.",
     ["section.py", "image.py"], [("access", "section.py: Section.read_string, Section.write_string")], ["Image.read_string", "Image.write_string"])
prop("C19", "Every address is looked up in the section that contains it",
     "Membership, section lookup and every access method agree for every address: an address inside a section (start included, end excluded) is served by that section, an address outside all sections is refused with InvalidAddressError.",
     ["inputs"], "1-3 (thorough 4) sections at any 32 bit addresses, any query address, all access methods",
     "Binary search edge cases for every address; tests probe a few.",
     ["image.py", "section.py"], [("lookup", "image.py: Image.get_section, Image.__contains__, Image._call_address_function"), ("membership", "section.py: Section.__contains__")], ["Image.get_section", "addr in image"])
prop("C20", "Images and sections compare by content and copies are independent",
     "Two images are equal exactly if they have the same sections (addresses and bytes), and unequal otherwise; sections compare and sort by start address first. A section made from any supported kind of data holds the same bytes, exports them as bytes and list, and does not share memory with its source.",
     ["inputs"], "images of 0-2 sections of 1-2 arbitrary bytes at any 16 bit addresses, sections of 0-3 bytes, data given as bytes, list, array, str or section",
     "Equality is a claim over all pairs of contents.",
     ["image.py", "section.py"], [("comparison", "image.py: Image.__eq__, Image.__ne__; section.py: Section attrs ordering"), ("conversion", "section.py: _data_converter")], ["Image.__eq__", "Section"])
prop("C21", "Hex dumps show every byte at its address",
     "The hexdump of a section or image shows each byte exactly once, as two hex digits at the address of its line and as its printable character (a dot otherwise); runs of identical lines may be abbreviated by a star line, but the first line, the last line and every line that differs from its predecessor are shown, so that the dump determines the data. The final line states the number of bytes.",
     ["inputs"], "sections of 0-70 bytes with symbolic bytes at any 32 bit address, runs of identical lines, two sections",
     "Tests compare with a few literal dumps.",
     ["hexdump.py", "section.py", "image.py"], [("dump", "hexdump.py: Dumper / CanonicalDumper"), ("entry points", "section.py: Section.hexdump, image.py: Image.hexdump")], ["Section.hexdump", "Image.hexdump"])
prop("C22", "Binary difference lists are complete and correct",
     "The difference of two byte strings classifies every byte: the listed pieces, in order, account for both inputs completely, positions reported as equal are equal, positions reported as different differ, and what only one input has is reported as surplus of that input. Identical inputs give no difference.",
     ["inputs"], "all pairs of byte strings of 0-5 bytes each (thorough 6)",
     "Run boundaries for every combination of equal and different bytes and lengths.",
     ["utils/diff.py"], [("comparison", "utils/diff.py: diff_bin")], ["diff_bin"])
prop("C23", "Checksum functions compute their published definitions",
     "The longitudinal redundancy checks (with their complements), nibble sum, XOR, rotated XOR, modular sums, word sums and all CRC-16 variants return the value of their mathematical definition (for CRCs: polynomial division with the stated initial value, reflection and final XOR) for every input, and CRC values depend on every bit of the data.",
     ["inputs", "configurations"], "all data of 0-4 bytes for each function (CRC 0-3 bytes, inductive step for any register value)",
     "Tests check the standard check string; a wrong table entry shows only for the data that reaches it.",
     ["checksums.py"], [("checksums", "checksums.py: lrc, xor, rotatedXOR, nibble_sum, adder, wordSum, Crc16, reflect, check")], ["objutils.checksums"])
prop("C24", "LEB128 numbers decode and encode exactly",
     "Both LEB128 readers give the integer a byte sequence encodes (signed and unsigned, any padding), consume exactly the bytes up to and including the first one without continuation bit, and the encoder's output decodes to the same value and is as short as possible.",
     ["inputs"], "all encodings of up to 10 bytes, all values up to 63/64 bits",
     "Sign extension at each of 7 bit boundaries; tests use textbook examples.",
     ["readers.py", "dwarf/encoding.py"], [("stream reader", "readers.py: PlainBinaryReader.uleb, sleb"), ("constructs", "dwarf/encoding.py: ULEB, SLEB")], ["PlainBinaryReader.uleb", "ULEB.parse", "SLEB.build"])
prop("C25", "The binary reader delivers consecutive values at exact positions",
     "Reading fixed-size integers, LEB128 numbers and NUL terminated strings one after the other from a byte string gives the values stored there in the requested byte order, advances the position by exactly the bytes consumed, and repositioning or resetting makes the following read start at that position; reading beyond the end is refused.",
     ["inputs", "histories"], "all contents of up to 12 bytes, sequences of 2-3 reads of any kind, both byte orders, every position",
     "State (position) across sequences of mixed reads.",
     ["readers.py"], [("reader", "readers.py: PlainBinaryReader")], ["PlainBinaryReader"])
prop("C26", "DWARF expressions decode to the operations they encode",
     "Every DWARF expression decodes into the sequence of operations and operands that the DWARF standard assigns to its bytes, for all opcodes, address sizes and byte orders.",
     ["inputs", "configurations"], "every opcode with all operand values, sequences of two operations, 4/8 byte addresses, both byte orders",
     "150 opcodes with operand formats; tests cover none.",
     ["dwarf/sm.py", "dwarf/encoding.py", "dwarf/constants.py"], [("decoder", "dwarf/sm.py: StackMachine.evaluate")], ["StackMachine.evaluate"])
prop("C27", "DWARF abbreviation tables decode exactly",
     "An abbreviation table decodes to its declarations: code, tag, children flag and the attribute/form list including signed implicit constants, each attributed to the offset of its table, for every sequence of declarations and tables.",
     ["inputs"], "tables of up to 2 declarations with up to 2 attributes, arbitrary codes, tags, names and forms",
     "No test covers it.",
     ["dwarf/__init__.py", "dwarf/encoding.py"], [("abbreviations", "dwarf/__init__.py: DwarfProcessor.do_abbrev")], ["DwarfProcessor"])
prop("C28", "DWARF blocks, addresses and strings decode to what was stored, and blocks and addresses encode back",
     "The block, address, flag, string and file name encodings used for debug information parse exactly the bytes they should (length prefixed blocks in every prefix size and byte order, addresses of every size, strings up to the NUL, string lists and file tables up to their end mark), leave what follows them alone and refuse data that is cut off; building a parsed block or address gives the bytes back.",
     ["inputs", "configurations"], "blocks of up to 4 arbitrary bytes and of 200/300 bytes, all prefix types, addresses of 1/2/4/8 bytes, string tables of up to 8 bytes",
     "No test covers them.",
     ["dwarf/encoding.py"], [("constructs", "dwarf/encoding.py: Block*, Address, StrP, One, ArrayOfCStrings, FilenameSequence")], ["parse", "build"])
prop("C29", "ELF files decode to the headers, sections, symbols, notes and comments they contain",
     "For every well-formed ELF file, 32 or 64 bit, little or big endian, the parser reports the file header, program header, section header, symbol, note and comment values stored in the file (names resolved through the string tables, section predicates such as debug, allocated or executable derived from the stored flags); data that is no ELF file or is cut off is refused.",
     ["inputs", "configurations"], "all header, section, segment and symbol fields arbitrary for both classes and byte orders (addresses below 2^63, standard entry sizes, up to three sections, segments, symbols; first note per section)",
     "Tests do not parse ELF files at all.",
     ["elf/__init__.py", "elf/defs.py", "elf/model.py"], [("parser", "elf/__init__.py: ElfParser"), ("structures", "elf/defs.py"), ("tables", "elf/model.py")], ["ElfParser"])
prop("C30", "ARM build attributes decode to the tags and values they contain",
     "The ARM attributes section decodes to its vendor subsections and, for every attribute in them, in order, its tag, the number or string stored for it and the description its value has in the table of that tag; tags and values newer than the tables are reported as plain numbers or strings and do not disturb the attributes that follow.",
     ["inputs"], "every tag with every one byte (and padded two byte) value or text of up to 3 characters, up to three vendors, both byte orders; first subsection of each vendor section",
     "Tests use one fixed section.",
     ["elf/arm/attributes.py"], [("parser", "elf/arm/attributes.py: parse")], ["attributes.parse"])
prop("C31", "Codec names resolve to exactly one codec, in any case",
     "Every registered codec is found under its name in any mixture of upper and lower case, by lookup and by the load and dump functions; unknown names are refused with CodecDoesNotExistError, registering a name a second time is refused and changes nothing, and asking for the registry again gives the same registry with the same codecs.",
     ["inputs", "histories"], "all names of 0, 1, 3, 4 characters, all case mixtures of the registered names, registration of new names",
     "The tests of the registry are disabled.",
     ["registry.py", "__init__.py", "utils/__init__.py"], [("registry", "registry.py: Registry.get, Registry.register"), ("singleton", "utils/__init__.py: SingletonBase")], ["registry.get", "registry.register"])
prop("C32", "No input text makes a reader invent data or fail internally",
     "For a line of a record format consisting of the record mark and arbitrary hexadecimal digits, data is loaded exactly if the line is a valid record, and then exactly the bytes and address it encodes. Arbitrary short text never makes a reader hang, fail with an internal error (anything but a refusal of the file), or deliver more bytes than there are digit pairs in the text.",
     ["inputs"], "record mark plus 8-16 arbitrary digits for 7 formats; files of 1-5 arbitrary 7 bit characters for all text formats",
     "Robustness over all inputs; tests read well-formed files only.",
     ["hexfile.py", "ihex.py", "srec.py", "mostec.py", "tek.py", "etek.py", "sig.py", "emon52.py", "ash.py", "titxt.py", "rca.py", "cosmac.py", "fpc.py"], [("record matching", "hexfile.py: FormatParser, Reader.read"), ("checks", "Reader.check_line of each format")], ["objutils.loads"])
prop("C33", "Format detection names the format that reads the file",
     "For files written in the ash, emon52, etek, fpc, mostec, sig, srec and tek formats, detection on the bytes and on an open file gives the name of the format, the file can be loaded afterwards with the codec found, and the content is the one written; up to three lines of other text in front of the first record of a mostec, sig, srec or tek file do not matter. Detection never fails on arbitrary bytes, and bytes with the top bit set are not taken for a text format.",
     ["inputs"], "files of one section of 1 or 5 arbitrary bytes at any address; 0-3 (thorough 4) arbitrary bytes",
     "Whether another format's pattern matches first depends on the digits of the file.",
     ["__init__.py", "hexfile.py", "fpc.py"], [("detection", "__init__.py: probe, probes; hexfile.py: Reader.probe, Reader.probes, Reader.maybe_binary_file")], ["objutils.probe", "objutils.probes"])
prop("C34", "Reader and writer objects can be reused without leftovers",
     "A Reader or Writer object that has processed one file, including a damaged or truncated one, treats the next file exactly as a new object would: no address, offset or other state is carried over.",
     ["inputs", "histories"], "sequences A, B, A of two images at arbitrary addresses for all 13 formats; a file cut after any of the first 24 characters followed by a good one",
     "State carried between files shows only for particular pairs of files; tests use a new object per file.",
     ["hexfile.py", "ihex.py", "srec.py", "cosmac.py", "ash.py", "titxt.py"], [("per file state", "hexfile.py: Reader.read, ASCIIHexReader.read, Writer.dumps; ihex.py, cosmac.py")], ["Reader.loads", "Writer.dumps"])
prop("C35", "Helper functions satisfy their definitions",
     "Splitting a sequence into slices loses and reorders nothing, integer to byte array conversion gives the shortest big-endian representation, flattening argument lists keeps order, find-first-set gives the lowest set bit, Cygwin paths map to the Windows path they denote, a filler is the requested number of copies of a byte (other requests are refused), the number ranges hold exactly the values of their types, partial application passes pending arguments before later ones and lets later keywords win, and extracting from a file gives the bytes at that offset.",
     ["inputs"], "sequences of up to 6 elements, all 64 bit integers, all paths of up to 6 characters, all values of 66 bits, files of up to 5 bytes",
     "Tests cover one helper.",
     ["utils/__init__.py", "section.py"], [("helpers", "utils/__init__.py: slicer, int_to_array, make_list, ffs, cygpath_to_win, Curry, bin_extractor"), ("fillers and ranges", "section.py: filler, signed_range, unsigned_range")], ["objutils.utils"])
prop("C36", "numpy arrays written to an image read back unchanged",
     "Writing a numeric array object of any supported type, shape and memory order to an image and reading it with the same type and shape gives an equal array; the elements are kept row by row in the byte order of their type, no other byte changes, an access that misses a byte is refused, and an array that was read does not change with later writes.",
     ["inputs"], "all element values; ten element types, both byte orders, shapes of up to six elements in one to three dimensions, arrays laid out by rows, by columns, with gaps or backwards; all addresses", "Tests use single arrays.",
     ["section.py", "image.py"], [("array access", "section.py: Section.write_ndarray, Section.read_ndarray")], ["Image.write_ndarray", "Image.read_ndarray"])
prop("C37", "Cached ELF databases are equivalent to a fresh parse",
     "Opening an ELF file for the second time, from the database kept beside it, gives the same headers, sections and symbols as parsing it anew; a file that has changed in between is parsed again, and a file that could not be loaded is never served from an incomplete database.",
     ["histories"], "two to three openings with the file unchanged, replaced by another one (any class and byte order), or defective in between; arbitrary field values (files are replaced, not overwritten in place)", "Tests never open an ELF file twice.",
     ["elf/__init__.py", "elf/model.py"], [("database cache", "elf/__init__.py: ElfParser.create_db_on_demand, elf/model.py")], ["ElfParser"])
prop("C38", "The image made from an ELF file holds exactly its loadable sections",
     "ElfParser.create_image yields exactly the bytes of the sections that are allocated and have contents in the file, each at its address, for any order of the sections and any join setting; include and exclude patterns select sections by name, and nothing else is in the image.",
     ["inputs", "configurations"], "three to four sections of 1-2 arbitrary bytes at arbitrary disjoint addresses with arbitrary flags; six combinations of name patterns",
     "Tests do not create images from ELF files.",
     ["elf/__init__.py"], [("image creation", "elf/__init__.py: ElfParser.create_image"), ("sections", "elf/__init__.py: SectionAPI.fetch")], ["create_image"])
prop("C39", "Symbol and section queries return exactly the matching entries, in order",
     "A query for symbols by section, binding, type, access and name pattern, or for sections by name, returns exactly the entries that meet all of the conditions (any of the listed alternatives of each), grouped by section and ordered by value or name as asked.",
     ["inputs", "configurations"], "three to five symbols in three sections with arbitrary values, bindings, types and section flags; query texts in upper and lower case with one to three alternatives",
     "Tests do not query symbols.",
     ["elf/__init__.py", "elf/model.py"], [("symbol queries", "elf/__init__.py: SymbolAPI.fetch"), ("section queries", "elf/__init__.py: SectionAPI.fetch"), ("patterns", "elf/model.py: regexer")], ["symbols.fetch", "sections.fetch"])
prop("C40", "DWARF debugging information decodes to the tree of entries it encodes",
     "For every well-formed .debug_info section with its abbreviation tables (DWARF 2 to 5, either byte order, any address size), decoding gives one tree per compilation unit in which every entry has the parent, order of children, tag and attributes the section encodes; every attribute has the value stored in its form, every entry is found at its section offset, references lead to the entry they denote in their own unit, and the database receives the same entries and values. A file without debugging information is refused.",
     ["inputs", "histories"], "every tree of up to four entries below a unit; two units with own tables; every supported form with arbitrary values; attributes without data in every position",
     "Tests do not decode .debug_info.",
     ["dwarf/__init__.py"], [("decoding", "dwarf/__init__.py: DwarfProcessor.do_dbg_info"), ("forms", "dwarf/__init__.py: DwarfProcessor.get_form_readers"), ("abbreviations", "dwarf/__init__.py: Abbrevations.get")], ["do_dbg_info"])

prop("C41", "A section is attributed to a segment exactly when it lies within it",
     "For every section and every segment of an ELF file, section_in_segment tells whether the section is part of the segment by the rules of the ELF specification: thread local sections belong only to TLS, RELRO and LOAD segments, and TLS and PHDR segments hold no other sections; a section with file contents lies within the file range of the segment; a section that occupies memory lies within its address range; thread local sections without contents take no space outside TLS segments; empty sections on the edge of a PT_DYNAMIC segment are not part of it. The strict variant demands in addition that the section begins before the segment ends.",
     ["inputs"], "any type, flags, addresses, offsets and sizes of section and segment (31, 32 and 63 bits), both variants; headers read from a file (both classes, both byte orders)",
     "Tests do not call it; six fields with edge conditions interact.",
     ["elf/__init__.py"], [("membership rules", "elf/__init__.py: ElfParser.section_in_segment1")], ["section_in_segment", "section_in_segment_strict"])
prop("C42", "ELF constants are shown under their standard names",
     "For every number of 32 bits, the classes of elf.defs (section types, segment types, symbol bindings and types, machines, OS ABIs, note types, ...) give the standard name when the ELF headers define the number, and never a standard name to another number; names of segment types and flags, of special section indexes and the description of the machine with the kind of AVR follow from the header fields.",
     ["inputs"], "all numbers of 32 bits for every table, all flags",
     "Tests do not look at them; tables of several hundred entries with ranges reserved for systems and processors.",
     ["elf/defs.py", "elf/__init__.py"], [("constants", "elf/defs.py"), ("names of segments and machines", "elf/defs.py: program_header_name, program_header_flags; machine data in elf/")], ["names of constants", "machine description"])
prop("C45", "DWARF constants are shown under their standard names",
     "For every number, the tables of the DWARF reader (tags, attributes, forms, operations, unit types, line number and macro operations, exception header encodings, languages, base type encodings and the other named values) give the name the DWARF standard or the vendor defines when they know the number, and never a standard name to another number; tags and attributes of abbreviation declarations and the values of attributes with named values are shown by these names, unknown ones by their number.",
     ["inputs"], "all numbers of 16 bits for every table and for tags and attributes of declarations, all values of 64 bits for attributes with named values",
     "Tests do not look at them; tables of several hundred entries, with aliases and gaps.",
     ["dwarf/constants.py", "dwarf/__init__.py"], [("tables", "dwarf/constants.py"), ("named values", "dwarf/__init__.py: encoding_repr, ENCODED_ATTRIBUTES"), ("tags and attributes of declarations", "dwarf/__init__.py: Abbrevations.get")], ["encoding_repr", "Abbrevations.get", "names of constants"])
prop("C46", "The JSON text of debugging information holds the whole tree",
     "For the debugging information of any well-formed file, and for every entry of it, toJSON gives a JSON text that, read by any JSON parser, holds exactly the tree that was decoded: for each entry its tag, its attributes in order with value and shown text (contents of blocks as hexadecimal digits), and its children; for the whole also the map from section offsets to entries.",
     ["inputs"], "one attribute in every supported form with an arbitrary value; lists, expressions and named values in blocks, numbers and implicit constants; every tree of up to three (thorough: four) entries below the first of two units",
     "Tests do not decode .debug_info or make JSON; a value of a type JSON does not know in any entry breaks the whole text.",
     ["dwarf/__init__.py"], [("JSON", "dwarf/__init__.py: DebugInformation.toJSON, DebugInformationEntry.toJSON"), ("values of attributes", "dwarf/__init__.py: DwarfProcessor.do_dbg_info")], ["DebugInformation.toJSON", "DebugInformationEntry.toJSON"])
prop("C43", "Command line tools report and write exactly what the files contain",
     "oj-hex-info prints address and length of every section, the total and, on request, the hex dump of any readable file; oj-elf-info prints header, sections, segments, comment and notes of an ELF file; oj-elf-syms lists the symbols that meet all given conditions, by section in the requested order; oj-elf-extract writes an image of the allocated sections with contents that the patterns select, in the requested format, and lists them; oj-elf-arm-attrs shows the build attributes. Missing files, files of another kind and other machines are refused with a message and an exit code other than 0, and no output file is written.",
     ["inputs", "configurations"], "files of all formats with arbitrary addresses and bytes; ELF files of both classes with arbitrary fields; the combinations of options listed in the cases",
     "Tests do not run the tools.",
     ["scripts/oj_hex_info.py", "scripts/oj_elf_info.py", "scripts/oj_elf_syms.py", "scripts/oj_elf_extract.py", "scripts/oj_elf_arm_attrs.py"], [("selection of symbols and sections", "scripts/oj_elf_syms.py, scripts/oj_elf_extract.py"), ("listing", "scripts/oj_elf_info.py, scripts/oj_hex_info.py")], ["main"])
prop("C44", "Any history of operations on an image behaves like a flat memory",
     "After every sequence of insertions (joined or not, with an address or following the last one), raw, numeric, string and array writes and joins on one image, the image holds exactly the sections and bytes that the accepted operations put there; an operation is refused exactly if it overlaps existing bytes (insertion) or misses a byte of a section (write), and then changes nothing; address tests, section lookup, reading and the number of bytes agree with that content.",
     ["histories", "inputs"], "36 sequences of two to four operations (thorough: more than 90), all 32 bit addresses, all bytes and values",
     "Tests use short fixed sequences; refused operations, touching and separate sections and the cursor of insertions interact.",
     ["image.py", "section.py"], [("insertion, cursor and joining", "image.py: Image.insert_section, Image.join_sections"), ("dispatch to sections", "image.py: Image._call_address_function"), ("joining", "section.py: join_sections")], ["Image.insert_section", "Image.write", "Image.join_sections", "Image.read"])

NA = {
}

LEVEL_NOTE = "Bounded symbolic execution of the implementation's own source with z3: every assertion is decided for all values within the harness bounds (listed in the evidence file), every path's model is replayed on the unmodified code and compared. Trusts z3 and the models of struct/re/io and other C builtins, which the replays cross-check."

TECH = "symbolic execution of the Python source (SMT, z3), bounded"


def claimed():
    found = set()
    d = os.path.join(VERIF, "harness")
    for f in os.listdir(d):
        if f.startswith("h_"):
            with open(os.path.join(d, f)) as fh:
                found.update(re.findall(r'@case\("(C\d\d)"', fh.read()))
                fh.seek(0)
                for m in re.findall(r"@case\(\[([^\]]*)\]", fh.read()):
                    found.update(re.findall(r'"(C\d\d)"', m))
    return found


def cases():
    """(property, harness function, bounds) of every case, from the decorators."""
    import ast

    d = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(d)):
        if not f.startswith("h_"):
            continue
        with open(os.path.join(d, f)) as fh:
            tree = ast.parse(fh.read())
        for fn in tree.body:
            for dec in getattr(fn, "decorator_list", []):
                if isinstance(dec, ast.Call) and getattr(dec.func, "id", "") == "case":
                    ids = [c.value for c in ast.walk(dec.args[0]) if isinstance(c, ast.Constant)]
                    kw = {k.arg: k.value for k in dec.keywords}
                    b = kw.get("bounds")
                    for i in ids:
                        yield i, f, fn.name, bound_text(b, tree)


def bound_text(b, tree):
    import ast

    names = {t.id: n.value.value for n in tree.body if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) for t in n.targets if isinstance(t, ast.Name)}
    return "" if b is None else str(eval(compile(ast.Expression(b), "bounds", "eval"), names))


def design(have):
    with open(os.path.join(VERIF, "tools", "design_head.md")) as f:
        out = [f.read()]
    by = {}
    for i, f, n, b in cases():
        by.setdefault(i, []).append((f, n, b))
    out.append("## Properties\n\nHow each property is decided: harness cases (all inputs named as arbitrary are solver variables), the oracle, and the bounds.\n")
    for p in P:
        i = p["id"]
        if i not in have or i in NA:
            continue
        out.append(f"\n### {i} {p['title']}\n\n{p['statement']}\n")
        out.append(f"*Oracle:* {ORACLE[i]}\n\n*Why tests cannot:* {p['why_tests_cant']}\n\n*Cases* (`harness/`):\n")
        for f, n, b in by[i]:
            out.append(f"- `{f[:-3]}.{n}`: {b}")
    sp = os.path.join(VERIF, "tools", "seeded.json")
    if os.path.exists(sp):
        with open(sp) as f:
            seeded = json.load(f)
        out.append("\n## Planted bugs (`seeded/`)\n\n| id | property | needs | caught by |\n|---|---|---|---|")
        for i in sorted(seeded):
            with open(os.path.join(VERIF, "seeded", i, "meta.json")) as f:
                m = json.load(f)
            out.append(f"| {i} | {m['property']} | {m['needs']} | {seeded[i]} |")
    with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


ORACLE = {
    "C01": "the image itself: sections of the image read back equal the joined sections of the one written.",
    "C02": "the image itself, plus header and record type read from the text by the harness.",
    "C03": "the image itself.", "C04": "the image itself.", "C05": "the image itself.",
    "C06": "the image itself; for damaged blocks the image without the block.",
    "C07": "the flat byte array defined by addresses and filler.",
    "C08": "an independent reader of each format's published layout (fields, counts, checksums) in the harness.",
    "C09": "an independent writer in the harness that lays out records freely (order, lengths, case, line ends).",
    "C10": "after one digit of a valid file is changed, the result is the original data or a refusal.",
    "C11": "the range limits of each format; accepted files must read back unchanged.",
    "C12": "equality of results between converting, dump/dumps, load/loads, file names, file objects.",
    "C13": "a byte map address -> value built from the input sections.",
    "C14": "a byte map before and after, and interval disjointness.",
    "C15": "a byte map; definition of substring for find.",
    "C16": "two's complement / IEEE-754 definition over the raw bytes.",
    "C17": "the scalar definition for every element.", "C18": "bytes up to the terminator; bytes around the written area unchanged.",
    "C19": "linear search over all sections.", "C20": "list equality of (address, bytes); originals unchanged after changes of copies.",
    "C21": "a parser of the printed lines in the harness.", "C22": "byte-wise comparison of both inputs, applying the list to one gives the other.",
    "C23": "the polynomial or sum definitions, bit by bit in the harness.", "C24": "the base 128 definition.", "C25": "struct-free byte arithmetic and running position.",
    "C26": "operand tables of the DWARF standard in the harness.", "C27": "the table encoded by the harness.", "C28": "the bytes encoded by the harness.",
    "C29": "the field values the harness stored when laying out the file.", "C30": "the values the harness stored; description = entry of the tag's table, samples from the ABI document.",
    "C31": "case-insensitive equality with the list of registered names.", "C32": "an independent record parser in the harness; size of the text.",
    "C33": "the readers: the format named must load the text to the image it was written from.", "C34": "a fresh reader or writer object.",
    "C35": "arithmetic definitions of the helpers.", "C36": "the bytes of the elements, row by row, in the byte order of their type, and the numbers they stand for.", "C37": "the field values the harness stored.", "C38": "a byte map of the stored sections.",
    "C39": "filter and order the stored entries in the harness.", "C40": "the tree the harness encoded.",
    "C41": "the rules of the specification (those of binutils' ELF_SECTION_IN_SEGMENT), written independently in the harness.",
    "C42": "the names in the system's elf.h and in binutils, listed in `harness/elfnames.py`.",
    "C46": "the decoded tree itself (checked against the file by C40); `json.dumps` is modelled as the structure `json.loads` returns for its text, and replays use the real module.",
    "C45": "the names in the headers of elfutils (dwarf.h) and LLVM (Dwarf.def), listed in `harness/dwarfnames.py`.",
    "C44": "a list of (address, bytes) the harness keeps up to date.",
    "C43": "the fields the harness put into the file, and the library's own reader for files the tools wrote.",
}


def main():
    have = claimed()
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in have and i not in NA:
            checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python check.py {i} --tier quick", thorough_cmd=f"/opt/venv/bin/python check.py {i} --tier thorough", technique=TECH, level="model_checking", level_note=LEVEL_NOTE))
        else:
            na.append(dict(property=i, reason=NA.get(i, "not built yet")))
    design(have)
    m = dict(version=1, setup_cmd="/opt/venv/bin/python selftest.py", checks=checks, not_applicable=na)
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed;", [x["property"] for x in na])


main()
