#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/vfbLib/"
TECH = ("symbolic execution of the real Python functions (loaded from /repo's source, inputs as bit-vector and "
        "floating-point variables), assertions decided by z3, counterexamples replayed on the unmodified code")
NOTE = ("Holds for every value within the bounds in the evidence file (record counts, string lengths and master counts are small and "
        "enumerated as parameters; all numbers, bytes and characters in them are symbolic). Trusted: the engine in sx/ (models of int, "
        "bytes, str, struct, BytesIO, float and containers), z3, and, on every path that was decided, one concrete run of the real "
        "code that has to agree with the symbolic one.")

P = []


def prop(id, title, statement, over, text, why, files, mechanism, note="", claim=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
                  mechanism=[{"name": a, "where": S + b} for a, b in mechanism], note=note, claim=claim))


prop("C01", "Encoded integers round-trip exactly",
     "Every integer that fits the signed (or, where asked for, unsigned) 32 bit range is written in the shortest of the format's number "
     "forms and reads back as itself, consuming exactly the bytes written; a sequence of such numbers stays in step. Every byte sequence "
     "either decodes to one number or is reported as end of data or bad data, and values out of range are refused, never written truncated.",
     ["inputs"], "every 32 bit value, every byte sequence of up to 6 bytes",
     "Tests sample a few dozen of the 2^32 values and none of the undefined lead bytes; the boundary values of the five forms matter.",
     ["compilers/value.py", "parsers/value.py", "value.py"],
     [("write_value, write_value_long", "compilers/value.py"), ("read_value", "parsers/value.py")])
prop("C02", "Fixed-size fields and strings round-trip and never truncate silently",
     "Integers of 1, 2 and 4 bytes, doubles, length-prefixed and padded strings are written in their defined little-endian layout and read "
     "back unchanged, consuming exactly their bytes. Values that do not fit are refused with an error; reading past the end of the data is "
     "an error where a fixed-size field is expected.",
     ["inputs"], "every value of each field, strings of every character of the file encoding up to a small length",
     "Sign and size of each field matter only for values above half of its range, which samples in tests rarely have.",
     ["parsers/base.py", "compilers/base.py", "helpers.py"],
     [("StreamReader", "parsers/base.py"), ("StreamWriter", "compilers/base.py")])
prop("C03", "The file container keeps every entry, in order, byte for byte",
     "Reading a file and writing it without changes gives the same bytes, whatever the ids, sizes and data of its entries: entries keep "
     "their order, ids and data, data longer than 65535 bytes uses the long form of the entry header, and the file header is kept. "
     "Files with an unsupported header are refused, and ids that the user asked to leave out are left out, and only those.",
     ["inputs", "programs"], "every id, every size up to 200000 bytes, every header field, files of up to three entries before the end entry",
     "The tests read a few fixed files; ids, sizes around 65535 and header fields are never varied.",
     ["vfb/entry.py", "vfb/header.py", "vfb/vfb.py"],
     [("VfbEntry.read, header", "vfb/entry.py"), ("VfbHeader", "vfb/header.py"), ("Vfb.read_stream, write_bytes", "vfb/vfb.py")])
prop("C04", "Decoding, encoding and replacing an entry's data in any order is safe",
     "For any sequence of decoding, encoding, replacing data and asking for the header of an entry, the bytes and the size written in the "
     "end are those of the data that was set last, with all changes that were made in it in place, however deep. Decoding and encoding are idempotent, and entries of unknown ids are kept byte for byte "
     "through any such sequence.",
     ["histories", "inputs"], "every sequence of up to four operations, over data with symbolic content",
     "Unit tests call each operation once, in the usual order; stale sizes and double conversion show only in other orders.",
     ["vfb/entry.py", "vfb/vfb.py"],
     [("VfbEntry.compile, decompile, header, size", "vfb/entry.py")])
prop("C05", "Glyph records round-trip for any number of masters",
     "A glyph record with any combination of name, metrics, outlines with all node types, components, guides, hints, kerning, binary parts "
     "and TrueType instructions is written in the format's layout with all coordinates of all masters and reads back as the same glyph. "
     "Coordinates are absolute in the decoded data and relative, per master, in the file.",
     ["inputs", "configurations"], "every coordinate and value in the 31 bit range, up to two or three nodes, components, hints and guides, up to 16 masters",
     "Node type combinations, master counts and value ranges multiply; the tests have a few dozen fixed glyphs, mostly with one master.",
     ["parsers/glyph.py", "compilers/glyph.py", "parsers/guides.py", "compilers/guides.py"],
     [("GlyphParser", "parsers/glyph.py"), ("GlyphCompiler", "compilers/glyph.py")])
prop("C06", "The other per-glyph records round-trip",
     "Anchors, anchor properties, GDEF data, links, sketches, guides and guide properties, masks with their metrics, code points, mark "
     "colours and origins of a glyph (and the global guides and masks of a font) are written in the format's layout and read back as the "
     "same values, for any number of masters.",
     ["inputs", "configurations"], "every value of every field, up to three records each, up to 16 masters",
     "Negative values, values above the signed range and several masters are hardly sampled by the tests.",
     ["parsers/glyph.py", "compilers/glyph.py", "parsers/guides.py", "compilers/guides.py"],
     [("per-entry parsers", "parsers/glyph.py"), ("per-entry compilers", "compilers/glyph.py")])
prop("C07", "Font-level records of numbers, names and binary data round-trip",
     "Single numbers, lists of numbers, doubles, strings, vendor ids, glyph encodings, version information, PostScript info, PCLT, Panose, "
     "custom cmaps and binary tables are written in the format's layout, with the sign and size that belongs to each field, and read back "
     "as the same values.",
     ["inputs"], "every value of every field, short strings over the whole Windows-1252 repertoire",
     "Each field has its own signedness and size; tests use typical values for which the wrong one makes no difference.",
     ["parsers/numeric.py", "compilers/numeric.py", "parsers/text.py", "compilers/text.py", "parsers/ps.py", "compilers/ps.py",
      "parsers/pclt.py", "compilers/pclt.py", "parsers/cmap.py", "compilers/cmap.py", "parsers/binary.py", "compilers/binary.py",
      "parsers/flversion.py", "compilers/flversion.py", "constants.py"],
     [("entry table", "constants.py"), ("parsers and compilers", "parsers/numeric.py")])
prop("C08", "TrueType records round-trip",
     "TrueType info with any subset of its keys, stems, stem rounding values, alignment zones, zone deltas, gasp and VDMX records are "
     "written in the format's layout and read back as the same values; the rounding values are assigned to the stems of the same file. "
     "A key that occurs twice in the TrueType info is an error, and zone deltas are written in ascending order.",
     ["inputs", "configurations"], "each key alone and all together with every 32 bit value; up to three stems, zones, deltas and records",
     "Tests have full records with ordinary values: partial records, sign, unnamed bits and orderings are not varied.",
     ["parsers/truetype.py", "compilers/truetype.py"],
     [("TrueTypeInfoParser and others", "parsers/truetype.py"), ("TrueTypeInfoCompiler and others", "compilers/truetype.py")])
prop("C09", "Options and bit fields keep every bit",
     "Bit fields (Unicode ranges, PostScript hinting options of font and glyph, export options, autohinting and kerning expansion flags) "
     "are decoded into exactly the set bits, named or not, and encoded back to the same value. Option records keep every key with its "
     "value, including keys without a known name, and mapping modes keep every mode.",
     ["inputs"], "all bit fields by windows of free bits with the other bits all zero or all one; every option key and value",
     "Tests use one or two bit patterns per field; unnamed bits and the sign bit are never set.",
     ["parsers/options.py", "compilers/options.py", "parsers/ps.py", "compilers/ps.py", "helpers.py", "parsers/base.py", "compilers/base.py"],
     [("binaryToIntList, intListToBinary", "helpers.py"), ("FontOptionsParser", "parsers/options.py"), ("FontOptionsCompiler", "compilers/options.py")])
prop("C10", "Bitmaps survive the run-length encoding",
     "A background or glyph bitmap of any pixels is written in run-length chunks that stand for exactly these pixels, within the limits of "
     "the format, and reads back as the same rows, metrics and preview, on both platforms (the files of one store the pixels inverted). "
     "Any valid run-length data reads as the picture it stands for, and writing that again keeps the picture.",
     ["inputs"], "pictures of up to eight runs of arbitrary byte values, runs of all lengths around the chunk limit",
     "Whether a run is split correctly depends on its length around 2, 127-131 and multiples, and on its neighbours; tests have a few pictures.",
     ["parsers/bitmap.py", "compilers/bitmap.py"],
     [("_read_bitmap, _decode_bitmap", "parsers/bitmap.py"), ("_encode_bitmap", "compilers/bitmap.py")])
prop("C11", "Name records, feature code and class flags keep their text",
     "Name records of every platform keep ids and characters, and characters that cannot be represented do not affect other records. "
     "Reading feature code keeps every line with content in order, with at most two empty lines in between, and reading what was written "
     "gives the same lines again. Class flags keep every class with all its flags.",
     ["inputs"], "every code of a name, feature code of up to four to six characters over letters, white space and line ends, every flag value",
     "The number of consecutive white space lines, the kind of line ends and the platform decide; tests sample a few texts.",
     ["parsers/text.py", "compilers/text.py", "parsers/base.py", "compilers/base.py"],
     [("NameRecordsParser, OpenTypeStringParser", "parsers/text.py"), ("NameRecordsCompiler, OpenTypeStringCompiler", "compilers/text.py")])
prop("C12", "Multiple master records round-trip",
     "Axis mapping counts, axis mappings, anisotropic interpolation mappings, master locations, primary instances and kerning pairs are "
     "written in the format's layout for the number of axes and masters of the font, and read back as the same values.",
     ["inputs", "configurations"], "every value of every field, up to 16 masters and four axes",
     "Sizes depend on the number of axes and masters; there are few multiple master fonts among the test data.",
     ["parsers/mm.py", "compilers/mm.py", "parsers/fl3.py", "compilers/fl3.py"],
     [("parsers", "parsers/mm.py"), ("compilers", "compilers/mm.py")])
prop("C13", "Decoding any data ends, with bounded effort, and never loses the data",
     "Whatever bytes an entry holds, decoding it ends: either with a value, after all bytes have been used, or with an error. The effort is "
     "bounded by the amount of data (record counts in the data cannot make it larger), and after an error the entry still holds its bytes.",
     ["inputs"], "every content of up to three bytes for every parser; in each section of the structured records, three free bytes or any 32 bit number",
     "Fonts come from other people and may be damaged: tests decode well-formed data only, so that a count that exceeds the data is never seen.",
     ["parsers/base.py", "parsers/glyph.py", "parsers/guides.py", "parsers/bitmap.py", "parsers/truetype.py", "vfb/entry.py"],
     [("VfbEntry.decompile", "vfb/entry.py"), ("BaseParser.parse", "parsers/base.py")])
prop("C14", "Damaged and truncated files are read up to the damage",
     "Reading a file that is cut off anywhere after its header, or that has arbitrary bytes after it, ends after bounded effort; every entry "
     "that is complete is read with its id and data, in order, and nothing is made up besides one incomplete entry at the end. Files "
     "without a valid signature are refused.",
     ["inputs", "crash_points"], "every cut position in files of up to three entries; every content of up to four bytes after the header",
     "A download or a crash of the application can cut a file anywhere; tests read complete files.",
     ["vfb/vfb.py", "vfb/entry.py", "vfb/header.py", "parsers/header.py"],
     [("Vfb.read_stream", "vfb/vfb.py"), ("VfbEntry._read_entry", "vfb/entry.py"), ("VfbHeaderParser.parse", "parsers/header.py")])

prop("C15", "The outlines of the UFO masters are those of the glyph",
     "For every master, the contours drawn from a glyph (and from its mask) have the same segments, in the same order and direction, as the "
     "VFB nodes describe: move, line, curve and quadratic nodes, open and closed contours, with the closing segment. The masters of a glyph "
     "stay compatible. Smooth flags and point labels stay with their points, every point that a hint or TrueType command refers to exists, "
     "and components keep their glyph, scale and offset.",
     ["inputs", "configurations", "programs"], "every sequence of up to four nodes and pairs of short contours, every coordinate, two masters",
     "The representation of closed contours depends on coincidence of coordinates in each master and on the types of first and last nodes; tests have few of the combinations.",
     ["ufo/paths.py", "ufo/glyph.py"],
     [("UfoMasterGlyph.build, drawPoints", "ufo/paths.py")])
prop("C16", "Kerning and glyph classes mean the same in the UFO masters",
     "For every pair of glyphs and every master, looking up the kerning in the UFO (with the lookup order of groups in the UFO "
     "specification) gives the value that the VFB has for that pair, through key glyphs of classes and exceptions, including exceptions "
     "of value zero. Every class keeps its members and its key glyph, is present once for each side it is flagged for, and is in the groups "
     "or in the feature code as requested; classes without any existing glyph are left out in minimal mode only.",
     ["inputs", "configurations"], "all pairs among five glyphs, every value and flag, several class layouts, one to four masters",
     "Whether a value comes from a class, an exception or a dropped zero depends on combinations of pairs, key glyphs and flags.",
     ["ufo/kerning.py", "ufo/groups.py", "ufo/builder.py"],
     [("UfoKerning", "ufo/kerning.py"), ("transform_groups", "ufo/groups.py"), ("add_ot_class, get_ufo_masters", "ufo/builder.py")])
prop("C17", "PostScript hints are those of the master and of the right points",
     "The stems of a master are the hints of this master followed by its links, each covering the interval between the linked nodes, with "
     "positive width unless it is a ghost hint. Hint replacement gives one set per replacement point with exactly the stems of its mask, "
     "at the point where it starts; without replacement there is one set, at the first point. Hints of missing index are ignored.",
     ["inputs", "programs"], "every coordinate, up to two hints and two links per direction, every hint mask of up to four items, two masters",
     "Directions of links, negative widths, ghost hints and order of mask items combine; tests cover a few glyphs with ordinary hints.",
     ["ufo/pshints.py", "vfb/glyph.py"],
     [("get_master_hints, build_ps_glyph_hints, normalize_hint", "ufo/pshints.py"), ("VfbGlyph.resolve_hints, resolve_hint_sets", "vfb/glyph.py")])
prop("C18", "TrueType hinting keeps its points, zones, stems and values",
     "In the UFO masters and in the export of vfb2tth, every TrueType command of a glyph is there once, in order, with its alignment, "
     "shift and sizes, and refers to the point, zone and stem that it refers to in the VFB; points of composites are those of their "
     "components. Every zone and every stem is present under a name of its own with its position, width, side or direction, deltas and "
     "rounding, also when several have the same name or none. If two stem widths share a size, the bigger one wins.",
     ["inputs", "configurations"], "every command with every point, zone, stem, alignment and shift; up to four zones or stems with and without equal names; every rounding size from 10 to 99",
     "Coincidences of names and rounding sizes, index values out of range and composites are rare in test fonts.",
     ["ufo/tth.py", "tth.py", "ufo/builder.py", "ufo/glyph.py"],
     [("TTGlyphHints, transform_stem_rounds", "ufo/tth.py"), ("extract_truetype_hinting", "tth.py"), ("set_tt_stems, set_tt_zones", "ufo/builder.py")])

prop("C19", "Font info of the UFO masters has the values of the font",
     "Each information entry of a font (names, numbers, metrics, TrueType values, panose, vendor, embedding, style, code page and Unicode range "
     "bits, gasp and name records, creation date, guides) sets the UFO attribute it is for to its value, and no other attribute. Bit fields "
     "become exactly the list of their set bits; the creation date is that of the time stamp and is converted back to it; weight and width classes "
     "are limited to the range that UFO allows, so that no value prevents the conversion; guides keep position, direction, and get their own name and colour.",
     ["inputs"], "every value of each of 50 entries, every combination of bits in a window of each bit field, every second of selected months and all earlier dates, up to 4 guides in 2 masters",
     "The tests compare the info of a few fonts; negative and extreme values, rare bits, time stamps beyond 2^31 and guide properties out of order are not among them.",
     ["ufo/info.py", "ufo/time.py", "ufo/guides.py", "ufo/builder.py", "helpers.py"],
     [("VfbToUfoInfo", "ufo/info.py"), ("convert_timestamp, datetime_to_fl", "ufo/time.py"), ("get_master_guides, apply_guide_properties", "ufo/guides.py")])

prop("C20", "UFO masters and designspace have all glyphs and masters; the VFB is unchanged",
     "Every glyph of a VFB is in every master once, in the order of the file, with the metrics, outline, components, code points, anchors, mask, kerning and PostScript values "
     "that the file has for that master; glyphs with equal names get different ones. There are as many masters as the axes "
     "require, with or without stored names. PostScript lists have the stored number of values. The designspace has each axis with its mappings and limits, each source "
     "at its location with a file name of its own, and each instance at its user location. A conversion does not change the VFB: "
     "a second conversion has the same result.",
     ["inputs", "configurations", "histories"], "0 to 4 axes (1 to 16 masters) with all, some or no names; up to 4 glyphs whose names collide in any way; every value of coordinates, metrics and locations within the stated ranges",
     "Test fonts have unique names, master names and complete data, and are converted once.",
     ["ufo/builder.py", "ufo/paths.py", "ufo/designspace.py"],
     [("VfbToUfoBuilder.build, get_ufo_master, get_master_info, get_designspace", "ufo/builder.py"), ("UfoMasterGlyph", "ufo/paths.py"), ("get_ds_location", "ufo/designspace.py")])

prop("C21", "Glyphs are accessed by unique names, drawn with all pens, and drawn into",
     "Each glyph of a VFB is found once under a name of its own that is derived from its name, with its own data and links, before and after compiling; unknown names are refused. "
     "Each master gives access to the same glyphs with its own outlines. Segment pens and point pens get the same contours: all points in order, open or closed as stored, "
     "no segment lost or misdirected, and each component with its base, scale and offset. Drawing does not change the glyph. "
     "Contours and components that are drawn into a glyph (present or new, with a point pen or a segment pen), or into its masters in any order, are drawn from it and are in the compiled entry with rounded coordinates, for each master its own. "
     "A glyph that is drawn into another one has the same outline there. "
     "Cubic curves and unknown base glyphs are refused and leave the glyph as it was.",
     ["inputs", "histories"], "every contour of up to 4 nodes and pairs of contours; 16 kinds of contours that are drawn into glyphs, every coordinate; 1, 2 and 4 masters; up to 3 glyphs whose names collide in any way",
     "Tests draw a few glyphs of one master, and never write what they draw.",
     ["vfb/glyph.py", "vfb/pens.py", "vfb/vfb.py", "vfb/entry.py", "compilers/glyph.py", "compilers/base.py"],
     [("VfbGlyph.drawPoints, draw, drawPointsDirect, clearContours", "vfb/glyph.py"), ("VfbGlyphPointPen", "vfb/pens.py"), ("Vfb.keys, __getitem__, getGlyphMaster, get_masters", "vfb/vfb.py"), ("GlyphCompiler.merge", "compilers/glyph.py")])

prop("C22", "Command-line tools write complete files to the right place, nothing else",
     "Writing a VFB writes the whole file, or reports an error and leaves an existing file as it was. Each tool writes exactly the files that its arguments ask for, "
     "where they ask for them (input file, output path, -p), never changes the input, and vfb3ufo and vfbcu2qu do not touch existing files without -fo, not even some of several. Each option of vfb3ufo, "
     "vfb2json, vfbcu2qu, vfb2tth, vfbdiff and yuri has its documented effect and no other: format, normalization, silence, groups, kerning "
     "groups, features, minimal, hints, Unicode strings, raw entries, header only, diff as text and HTML, conversion error, longest notation and signed numbers. vfb2json lists all entries in "
     "order, vfbcu2qu keeps everything but the outlines it converts, vfbdiff shows exactly the differing values. "
     "Input that is missing or cannot be decoded is reported; nothing is written then, and existing files are kept.",
     ["configurations", "inputs"], "every combination of the options of each tool, one and two masters, every set of files that exist before; writing: entries of any content that can or cannot be encoded",
     "Combinations of options, positions of the output and existing files multiply, and a failure in the middle is not tested at all.",
     ["cmdline.py", "vfb/vfb.py", "json.py", "cu2qu.py", "tth.py", "diff.py", "value.py", "ufo/builder.py", "helpers.py"],
     [("vfb2ufo, vfb2json", "cmdline.py"), ("Vfb.write", "vfb/vfb.py"), ("vfbcu2qu", "cu2qu.py"), ("diffvfb", "diff.py"), ("yuri", "value.py")],
     note="Files are kept in a scratch folder that the check creates; UFO and designspace writing of ufoLib2 and fontTools is replaced by a stand-in that records the call.")
prop("C23", "Whatever is decoded from a VFB can be written as JSON, raw data as hex",
     "The data of every entry that vfbLib decodes has a JSON form: dictionaries with keys, lists, texts, numbers in the range of JSON writers, booleans and nothing else; bytes never "
     "remain inside decoded data, and an entry's JSON form has the decoded data itself. The JSON form of an entry that is not decoded has its size and all its bytes as hexadecimal digits, "
     "and making it does not change the entry.",
     ["inputs"], "every content of every kind of entry within the bounds of C05 to C13, and every raw content of up to 8 bytes",
     "Types and ranges of decoded values depend on values, flags and commands in the records; tests save a few fonts.",
     ["vfb/entry.py", "vfb/vfb.py", "parsers", "json.py"],
     [("VfbEntry.as_dict, decompile", "vfb/entry.py"), ("parsers of all entries", "parsers")])

prop("C25", "TrueType programs, limits, bitmaps and features keep their meaning in the UFO",
     "Imported control values are in the UFO in order as signed numbers. The assembly of imported font, control value and glyph programs assembles to the imported bytes; a glyph with a program has an "
     "identification of its outline. A limit in pixels (stem snapping, zones, code, dropout) has in the UFO the value of the font, where missing ones stand for the defaults. Bitmaps keep all their rows, "
     "from top to bottom, sizes, advances and origins. Feature code is kept line by line; only references to kerning classes in positioning rules get the names of the UFO groups, "
     "for their side. Feature code that is split into parts (build_fea_dict) has all lines, in order, under the right tags. The VFB is not changed.",
     ["inputs", "programs"], "every program of up to 2 instructions out of 15, every value of limits, control values and bitmaps, every rule made of 24 parts, every sequence of 3 of 7 lines",
     "Indentation of blocks, default values and pieces of rules combine.",
     ["ufo/builder.py", "ufo/instructions.py", "ufo/features.py", "ufo/glyph.py", "parsers/text.py"],
     [("set_tt_cvt, set_tt_program, set_tt_pixel_snap, set_glyph_bitmaps", "ufo/builder.py"), ("format_assembly", "ufo/instructions.py"), ("rename_kern_classes_in_feature_code", "ufo/features.py"), ("build_fea_dict", "parsers/text.py")])

prop("C24", "A Vfb object shows the file it read last, whatever was done before",
     "A Vfb object that was used before (read, decompiled, compiled, written, edited, its glyphs or masters accessed, an error met) and then reads another file is in the state of a new object that reads "
     "this file: platform, encoding, number of masters and stems, units per em, hinting options, glyph names and order, links and options of each glyph, entries, error flag; and it writes this file. "
     "Any sequence of operations shows the file with the edits that were made, at once. Objects that are in use at the same time do not affect each other, nor does the option for Unicode strings "
     "of one. What an object knows about a file does not depend on which entries are dropped (drop_keys), and only these are dropped.",
     ["histories", "inputs", "configurations"], "every history of up to 3 operations on one object, 2 on two objects; second files with any of 6 kinds of entries and any values",
     "State that is left over shows only when objects are used again, in particular orders.",
     ["vfb/vfb.py", "vfb/info.py", "vfb/entry.py"],
     [("Vfb.clear, read, read_bytes, read_stream, _decompile_glyphs", "vfb/vfb.py"), ("VfbInfo.unitsPerEm", "vfb/info.py"), ("VfbEntry.decompile, compile", "vfb/entry.py")])

NA = []

if __name__ == "__main__":
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks")) if f[0] == "c" and f[1].isdigit()}
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mechanism"]},
            }) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [{"property": a, "reason": b} for a, b in NA],
         "notes": "No hooks in /repo are needed: the checks load its source through an import hook of their own."}
    for p in P:
        if not p["claim"]:
            continue
        assert p["id"] in have, p["id"]
        m["checks"].append({
            "property": p["id"], "quick_cmd": f"./check {p['id'].lower()}", "thorough_cmd": f"./check {p['id'].lower()} --thorough",
            "technique": TECH, "level": "model_checking", "level_note": (p["note"] + " " if p["note"] else "") + NOTE})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

    # DESIGN.md: the template, with one section per property and the seeded bugs
    props, seeded = [], []
    import importlib.util
    import sys

    sys.path[:0] = [HERE, "/repo/src"]
    sys.dont_write_bytecode = True
    for p in P:
        props.append(f"### {p['id']} {p['title']}\n")
        props.append(p["statement"] + "\n")
        mod = importlib.import_module("checks." + p["id"].lower()) if p["id"] in have else None
        if mod:
            props.append((mod.__doc__ or "").split("\n\n", 1)[-1].strip() + "\n" if "\n\n" in (mod.__doc__ or "") else "")
            for h in mod.HARNESSES:
                props.append(f"* {h.name}: {h.bounds}")
            for a in getattr(mod, "ASSUMPTIONS", []):
                props.append(f"* assumed: {a}")
        props.append("")
    for a, b in NA:
        props.append(f"### {a}: not applicable\n\n{b}\n")
    d = os.path.join(HERE, "seeded")
    for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        mf = os.path.join(d, n, "meta.json")
        if os.path.exists(mf):
            x = json.load(open(mf))
            seeded.append(f"* `{n}` ({x['property']}): {x['what_it_breaks']} Needs: {x['needs']} "
                          f"{'Caught by ' + x['caught_by'] if x.get('caught_by') else 'Not caught: ' + x.get('why_not', '-')}.")
    t = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
    open(os.path.join(HERE, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", "\n".join(props)).replace("@@SEEDED@@", "\n".join(seeded)))
