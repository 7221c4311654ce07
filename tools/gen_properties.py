#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay readable and reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

FIX = "The tests read a handful of fixture files and compare the rewritten text"

p("C01", "Footprint text is read faithfully",
  "Reading a footprint text built from the supported elements, in any order, with any whitespace, optional quoting or number spelling, gives exactly the values the text states: names, texts, positions, rotations, sizes, layers, pads, drills, nets, shapes, models, time stamps and flags, in order. "
  "Optional parts that are left out take their documented defaults and never disturb neighbouring parts.",
  ["inputs"], "every footprint document over the supported element grammar",
  FIX + " of three footprints; they never look at the parsed fields, and never vary order, spelling or optional parts.",
  ["src/footprint/de.rs", "src/footprint/data.rs", "src/footprint/mod.rs"],
  [("footprint reader", "src/footprint/de.rs"), ("layer names", "src/footprint/data.rs Layer::from_string")],
  ["public fields of the returned module"])
p("C02", "Footprints survive writing and re-reading",
  "Writing any footprint, whether read from text or edited afterwards through its public data, gives text that states exactly the footprint's data in the KiCad element order, and reading that text back gives an equal footprint. "
  "Writing the re-read footprint gives byte-identical text.",
  ["inputs", "histories"], "every footprint value over the supported elements, including values obtained by edits",
  FIX + " of three files; optional fields, rare enum values and edited values are never written.",
  ["src/footprint/ser.rs", "src/footprint/de.rs", "src/formatter.rs"],
  [("footprint writer", "src/footprint/ser.rs"), ("footprint reader", "src/footprint/de.rs")])
p("C03", "Board layout text is read faithfully",
  "Reading a board layout text gives exactly the values it states: version, host, general counts and area, page, layer table, setup and plot parameters, nets, net classes, footprints, drawings, dimensions, tracks, vias and zones, with elements kept in file order whatever order, whitespace or optional quoting the text uses. "
  "Optional parts that are left out take their documented defaults, and elements the library does not interpret are kept verbatim.",
  ["inputs"], "every board document over the supported grammar plus arbitrary uninterpreted elements",
  FIX + " of two layouts, without looking at fields; most optional parts and enum values do not occur in them.",
  ["src/layout/de.rs", "src/layout/data.rs", "src/footprint/de.rs"],
  [("layout reader", "src/layout/de.rs")])
p("C04", "Board layouts survive writing and re-reading",
  "Writing any board layout, whether read from text or edited afterwards through its public data, gives text that states exactly the board's data in the KiCad section order, including every uninterpreted element, and reading that text back gives an equal layout. "
  "Writing the re-read layout gives byte-identical text.",
  ["inputs", "histories"], "every layout value over the supported elements, including values obtained by edits",
  FIX + " of two layouts.",
  ["src/layout/ser.rs", "src/layout/de.rs", "src/footprint/ser.rs"],
  [("layout writer", "src/layout/ser.rs")])
p("C05", "Footprint library tables are read and rewritten faithfully",
  "Reading a footprint library table gives every library entry in order with exactly its name, type, URI, options and description. "
  "Writing any table and reading it back gives the same entries, and writing again gives byte-identical text.",
  ["inputs"], "every library table over arbitrary entry strings",
  "One fixture table is compared after rewriting.",
  ["src/fp_lib_table.rs"], [("table reader and writer", "src/fp_lib_table.rs")])
p("C06", "Schematic text is read faithfully",
  "Reading a schematic gives exactly the values it states: libraries, layer line, sheet description, components with their position, unit line, paths and fields, wires, junctions, no-connects, texts and labels, and sub-sheets with their labels, in file order. "
  "Lines it does not interpret outside component and sheet blocks are kept verbatim in place.",
  ["inputs"], "every schematic over the supported line grammar plus arbitrary uninterpreted lines",
  "One fixture schematic is compared after rewriting; no field of the parsed schematic is inspected.",
  ["src/schematic.rs", "src/lib.rs"], [("schematic reader", "src/schematic.rs parse"), ("quote-aware splitter", "src/lib.rs")])
p("C07", "Schematics are written back in KiCad's form, losing nothing",
  "A schematic in KiCad's own text form, with its sub-sheets last, is reproduced byte for byte when it is read and written again. "
  "A schematic changed through its public data is written with exactly the changed values and reads back as such.",
  ["inputs", "histories"], "every canonical schematic text, and every edit of the parsed value",
  "One fixture schematic is compared after rewriting.",
  ["src/schematic.rs"], [("schematic writer", "src/schematic.rs Display impls")])
p("C08", "Symbol library text is read faithfully",
  "Reading a symbol library gives every symbol in order with exactly the values the text states: definition line, fields, aliases, footprint filters, pins with their type, shape and visibility, rectangles, and all other drawing lines verbatim.",
  ["inputs"], "every symbol library over the supported line grammar",
  "One fixture library is compared after rewriting; fields are not inspected.",
  ["src/symbol_lib.rs", "src/lib.rs"], [("symbol library reader", "src/symbol_lib.rs parse_symbol, parse_field, parse_pin, parse_rect")])
p("C09", "Symbol libraries are written back in KiCad's form, losing nothing",
  "A symbol library in KiCad's own text form is reproduced byte for byte when it is read and written again. "
  "A library changed through its public data is written with exactly the changed values and reads back as such.",
  ["inputs", "histories"], "every canonical library text, and every edit of the parsed value",
  "One fixture library is compared after rewriting.",
  ["src/symbol_lib.rs"], [("symbol library writer", "src/symbol_lib.rs Display impls")])
p("C10", "Written footprints, boards and tables use KiCad's line layout",
  "A footprint, board or library table text that already uses KiCad's line breaks, indentation and quoting is reproduced byte for byte when read and written at the default indentation level. "
  "Writing at a deeper starting level only adds leading indentation, and two values with the same data always give the same bytes.",
  ["inputs", "configurations"], "every supported document and every starting indentation level",
  "Five fixture files fix the layout of the constructs they happen to contain (for example one wrap width each).",
  ["src/formatter.rs"], [("layout rules", "src/formatter.rs want_indent_*")])
p("C11", "Reading never crashes or hangs, whatever the input",
  "Reading any text as a footprint, layout, library table, schematic, symbol library, project or any-type file ends in a value or an error, never in a crash or an endless run. "
  "Whatever is accepted can also be written out, measured and checked without a crash.",
  ["inputs"], "every Unicode text; nesting depth is bounded in the search",
  "Tests only read well-formed files.",
  ["src/schematic.rs", "src/symbol_lib.rs", "src/footprint/de.rs", "src/layout/de.rs", "src/fp_lib_table.rs", "src/project.rs", "src/lib.rs"],
  [("readers", "parse functions of every format")])
p("C12", "Unknown or surplus content is never silently dropped",
  "When a footprint, layout or library table text contains a foreign item, one the format does not define at that place, anywhere inside its outer list, in addition to or in place of another item, the reader either reports an error or keeps the item so that it appears in the rewritten text. "
  "It is never accepted and lost.",
  ["inputs"], "every supported document with one foreign item inserted or substituted at any place",
  "No test feeds unexpected content.",
  ["src/footprint/de.rs", "src/layout/de.rs", "src/fp_lib_table.rs"],
  [("strict readers", "FromSexp impls"), ("uninterpreted elements", "src/layout/de.rs parse_other, Zone.other")])
p("C13", "File type identification is right for every file",
  "Reading a file of unknown type identifies valid footprint, schematic, layout, symbol library, project and library table files as what they are and anything else as unknown, with the same content the format's own reader gives. "
  "Asking for one type returns it when the file is of that type, and otherwise an error, never another type's data.",
  ["inputs", "configurations"], "every file content and every requested type",
  "No test calls the identifying reader with a mismatched or unknown file.",
  ["src/lib.rs", "src/project.rs"], [("type dispatch", "src/lib.rs read_kicad_file and read_*")])
p("C14", "Files are written completely or the failure is reported",
  "After a successful write of text, a footprint or a layout to a file, the file holds exactly the written text, replacing any older content, and reads back as the same data. "
  "If creating the file or writing any part of it fails, an error is returned, and reading a missing, unreadable or non-text file is an error too.",
  ["inputs", "fault_sequences"], "every content, every prior file state and a write failure after every number of bytes",
  "No test writes a file or makes a write fail.",
  ["src/util.rs", "src/lib.rs"], [("file helpers", "src/util.rs"), ("write_layout and write_module", "src/lib.rs")])
p("C15", "Moving a board moves everything by the same vector",
  "Moving a board, or any single board element, by a vector adds exactly that vector to every absolute position in it: footprints, texts, lines, arcs, circles, dimensions, tracks, vias and all zone outlines and fills. "
  "Nothing else changes: footprint-relative geometry, sizes, rotations, layers, names, counts and uninterpreted elements stay as they were.",
  ["inputs", "histories"], "every board and every sequence of moves",
  "No test moves anything.",
  ["src/layout/data.rs", "src/footprint/data.rs"], [("Adjust impls", "src/layout/data.rs, src/footprint/data.rs")])
p("C16", "Bounding boxes enclose their items and combine correctly",
  "The bounding box of an item is the tight box around its defining geometry with ordered corners: end points of lines, arcs and tracks, the full circle for circles, the pad rectangle turned by its quarter turns, all points of polygons, zones and dimensions, a point for texts; a via's box contains its copper. "
  "A footprint's box joins its anchor, pads and fabrication graphics and is shifted to its board position, a board's box joins all its elements, a schematic's box joins component positions and sheet rectangles (with a margin of at most 100 above and below a sheet), and items without extent never change a box.",
  ["inputs"], "every supported element, footprint and board",
  "Three unit tests cover one pad at two rotations and one footprint.",
  ["src/lib.rs", "src/layout/data.rs", "src/footprint/data.rs", "src/schematic.rs"],
  [("Bound", "src/lib.rs"), ("BoundingBox impls", "src/layout/data.rs, src/footprint/data.rs, src/schematic.rs")])
p("C17", "Flipping a footprint mirrors it to the other board side",
  "Flipping a footprint negates the vertical coordinate of every position and shape point, mirrors rotations and arc angles, swaps front and back layers while leaving all other layers alone, and toggles text mirroring while keeping left or right justification. "
  "It changes nothing else, and flipping twice restores the footprint.",
  ["inputs", "histories"], "every footprint",
  "No test flips anything.",
  ["src/footprint/data.rs"], [("Flip impls", "src/footprint/data.rs")])
p("C18", "Rotating a footprint turns every rotation by the same angle",
  "Rotating a footprint by an angle of at most one turn adds it to the rotation of the anchor, every pad and every text, keeping normalised rotations in the range from zero up to but not including 360 degrees. "
  "Positions, graphics and all other data stay unchanged, and rotating back restores it.",
  ["inputs", "histories"], "every footprint with normalised rotations and every angle within one turn",
  "No test rotates anything.",
  ["src/footprint/data.rs"], [("Rotate impls", "src/footprint/data.rs")])
p("C19", "Net renaming is complete and touches nothing else",
  "Renaming a net on a board, or applying a name update to all nets, changes that name everywhere it occurs: net list, net classes, pads and zones. "
  "Every other name, net number and all other data stay as they were, a renaming of an absent net changes nothing, and an error from the update is reported.",
  ["inputs", "histories"], "every board and every sequence of renamings",
  "No test renames nets on a board.",
  ["src/layout/data.rs", "src/footprint/data.rs"], [("rename", "src/layout/data.rs change_net_name, update_net_names; src/footprint/data.rs rename_net")])
p("C20", "Board queries and edits act on exactly the right items",
  "Listing nets, net classes and footprints, looking up and modifying a footprint by reference, reading and updating setup values, adding nets and net classes, and comparing net classes behave like the obvious operations on an ordered board, for any sequence of them. "
  "Each edit changes only its target, a failed lookup reports it, and the result survives being written and read back.",
  ["inputs", "histories"], "every board and every sequence of queries and edits",
  "No test calls these operations.",
  ["src/layout/data.rs"], [("Layout, Setup and NetClass methods", "src/layout/data.rs")])
p("C21", "Footprint queries and edits act on exactly the right items",
  "Looking up texts, reference, value, attributes, time stamps, position, rotation and side of a footprint, listing its pads and lines, changing its reference, moving it and setting or renaming pad nets behave like the obvious operations on the ordered element list, for any sequence of them. "
  "Each edit changes only its target and survives being written and read back.",
  ["inputs", "histories"], "every footprint and every sequence of queries and edits",
  "No test calls these operations apart from the bounding box.",
  ["src/footprint/data.rs"], [("Module methods", "src/footprint/data.rs")])
p("C22", "Schematic component queries and edits act on the right component",
  "Listing components, finding one by reference and modifying one or all components of a schematic act on exactly the matching components in file order, modify-by-reference on the first match only. "
  "Everything else in the schematic stays unchanged and the result survives being written and read back.",
  ["inputs", "histories"], "every schematic and every sequence of queries and edits",
  "No test calls these operations.",
  ["src/schematic.rs"], [("Schematic methods", "src/schematic.rs")])
p("C23", "Component fields behave like an ordered map across any edit history",
  "For any history of field additions, updates, reference and name changes, lookups return the last value written under each name, each edit reports whether it added, changed or kept the value, and added fields are hidden and get the index after the highest in use, at least 4. "
  "Changing reference or name keeps the matching standard field in step, other fields keep their values, and the outcome survives being written and read back.",
  ["histories", "inputs"], "every component and every sequence of field operations",
  "No test edits a component.",
  ["src/schematic.rs"], [("Component field methods", "src/schematic.rs Component")])
p("C24", "Hierarchical schematics are searched completely",
  "Collecting all components of a schematic file visits it and every sub-sheet, recursively, in order, resolving sheet files relative to the file that names them. "
  "Finding a component by reference searches the same hierarchy, the sheet itself first, and a missing sheet file or unknown reference is reported as an error instead of giving a partial answer.",
  ["inputs", "configurations"], "every finite tree of sheet files in nested directories, with and without missing files",
  "The fixture has no sub-sheet files.",
  ["src/schematic.rs"], [("sheet resolution", "src/schematic.rs all_components, component_by_reference, filename_for_sheet")])
p("C25", "Footprint convention check reports exactly the broken rules",
  "Checking a footprint reports exactly the library-convention rules it breaks, each once and under its rule number: reference, value and second-reference text content, layer, visibility, size and thickness against the given settings, missing courtyard, and placement type of surface-mount and through-hole parts. "
  "A footprint that keeps all of them gets an empty report, checking changes nothing, and the convention's sections have their numbers and titles.",
  ["inputs", "configurations"], "every footprint and every font setting",
  "No test runs the footprint check.",
  ["src/footprint/data.rs", "src/checkfix.rs"], [("CheckFix for Module", "src/footprint/data.rs")])
p("C26", "Symbol convention check reports exactly the broken rules",
  "Checking a symbol reports exactly the library-convention rules it breaks, each once and under its rule number: illegal name characters, field text size and visibility for normal, power and graphic symbols, pin grid (100 mil), length (50 mil steps, 100 to 300 mil), type, visibility and text sizes, and rectangle fill and line width. "
  "A conforming symbol gets an empty report, and pins and rectangles of power and graphic symbols are not checked.",
  ["inputs"], "every symbol over names, fields, pins and rectangles",
  "Two unit tests cover the name character check only.",
  ["src/symbol_lib.rs", "src/checkfix.rs"], [("CheckFix for Symbol and parts", "src/symbol_lib.rs"), ("name rule", "src/checkfix.rs")])
p("C27", "Automatic footprint repair fixes what it can and harms nothing else",
  "After automatic repair a footprint breaks no convention rule except a missing reference text, a missing value text or a wrongly set placement attribute, and repairing again changes nothing. "
  "Pads, graphics, models and other data are untouched, a second reference that was missing is added as %R on the front fabrication layer at the origin, and a generated courtyard is a closed rectangle of 0.05 wide front courtyard lines enclosing pads and fabrication graphics at the required distance.",
  ["inputs", "configurations"], "every footprint and every font setting",
  "No test runs the repair.",
  ["src/footprint/data.rs"], [("CheckFix::fix for Module", "src/footprint/data.rs")])
p("C28", "Component references sort by letter and number",
  "Sorting references by the library's key orders them by first character and then numerically, so that U2 comes before U10, for every mix of references. "
  "For a comma separated list only the first reference counts, and a reference without a number sorts as zero.",
  ["inputs"], "every collection of references",
  "No test calls it.",
  ["src/lib.rs"], [("reference_ord", "src/lib.rs")])
p("C29", "Net name helpers rewrite exactly the intended part",
  "An automatically generated net name of the form Net-(component-pad), where neither part contains dashes or parentheses, is recognised with its component and pad, and replacing the component keeps the pad, while any other name is rejected unchanged. "
  "Replacing a block name changes exactly the matching path elements, and a plain rename acts only on a full match.",
  ["inputs"], "every net name, block name and component name",
  "Two unit tests cover one name.",
  ["src/layout/data.rs"], [("NetName methods", "src/layout/data.rs")])
p("C30", "Footprint elements compare by design, not by placement details",
  "Two footprint elements compare equal exactly when they have the same kind and data, where layers compare by type regardless of side, pads compare regardless of net, and reference or value texts compare equal to any other text of that role. "
  "Any single difference in other data makes them unequal, and the comparison is symmetric.",
  ["inputs"], "every pair of footprint elements, in particular pairs differing in one datum",
  "No test compares elements.",
  ["src/footprint/data.rs"], [("PartialEq impls", "src/footprint/data.rs")])
p("C31", "Library URIs expand environment variables exactly",
  "Expanding a library URI substitutes every variable reference and a leading home-directory tilde with its current value and leaves all other text as it is. "
  "A reference to an unset variable is reported as an error, and the stored URI is not changed.",
  ["inputs", "configurations"], "every URI and every environment",
  "No test expands a URI.",
  ["src/fp_lib_table.rs", "src/error.rs"], [("expansion", "src/fp_lib_table.rs Lib::get_expanded_uri")])
p("C32", "Command line tools agree with the library",
  "For any input file the tools print exactly what the library computes: the rewritten footprint or layout, the layout moved by 100 units in x, the identified file type, or the complete list of convention findings with their rule numbers and severity. "
  "They fail with a non-zero exit status when the file cannot be read as the required type.",
  ["inputs"], "every valid and invalid input file, for each tool",
  "No test runs the tools.",
  ["src/bin/adjust_layout.rs", "src/bin/dump_footprint.rs", "src/bin/dump_layout.rs", "src/bin/identify.rs", "src/bin/klc_kicad_mod.rs", "src/bin/klc_symbol_lib.rs", "src/checkfix.rs"],
  [("command line tools", "src/bin"), ("report output", "src/checkfix.rs dump_on_logger")])
p("C33", "Symbol queries and renaming are right for every symbol",
  "Listing pins, finding the first symbol that satisfies a condition and classifying power, graphic and basic symbols follow the symbol's content exactly. "
  "Renaming a symbol changes its name, keeping an invisible-name mark, and its value field, nothing else, and the result survives being written and read back.",
  ["inputs", "histories"], "every symbol library and every sequence of renamings",
  "No test calls these operations.",
  ["src/symbol_lib.rs"], [("Symbol and SymbolLib methods", "src/symbol_lib.rs")])

p("C34", "Malformed schematics and symbol libraries are rejected, not misread",
  "A schematic or symbol library with one fault is refused with an error instead of being read as something else. "
  "Such faults are: a changed fixed keyword, something that is not a number where a number belongs, an unknown letter or word where one of a fixed set belongs, a required part or fixed line missing, fixed lines in the wrong order, a part too many on a line of fixed length, and a text that ends inside a block.",
  ["inputs", "faults"], "every valid document and every place where one such fault can be put",
  "The tests read well-formed files only.",
  ["src/schematic.rs", "src/symbol_lib.rs", "src/util.rs"],
  [("schematic parser", "src/schematic.rs parse_*"), ("symbol library parser", "src/symbol_lib.rs parse_*"), ("number parsing", "src/schematic.rs i64_from_string, f64_from_string")])
p("C35", "Malformed footprints, boards and tables are rejected, not misread",
  "A footprint, board or library table with one fault is refused with an error instead of being read with invented values. "
  "Such faults are: a text cut anywhere before its end, a non-number where a number belongs, a fraction or an overflow where an integer belongs, a missing number or required list, and an unknown pad type, pad shape, layer side, board layer kind, text justification, zone fill mode, keepout word or document head.",
  ["inputs", "faults"], "every valid document and every place where one such fault can be put",
  "The tests read well-formed files only.",
  ["src/footprint/de.rs", "src/layout/de.rs", "src/fp_lib_table.rs"],
  [("footprint parser", "src/footprint/de.rs FromSexp impls"), ("layout parser", "src/layout/de.rs FromSexp impls"), ("table parser", "src/fp_lib_table.rs")])
p("C36", "Documents made in code can be written and read back",
  "Constructors, defaults and conversions give exactly the documented initial values: empty or zero data, the arguments kept, points carrying the name their element needs. "
  "Footprints, boards, schematics and symbol libraries built from them, with any choice of fields set afterwards, can be written and read back to the same model.",
  ["inputs", "histories"], "every document assembled from library-made values with any subset of fields set",
  "The tests start from files only.",
  ["src/footprint/data.rs", "src/layout/data.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/lib.rs"],
  [("footprint constructors", "src/footprint/data.rs new, Default, from_string"), ("layout defaults", "src/layout/data.rs Default impls"), ("schematic defaults", "src/schematic.rs Default impls"), ("symbol constructors", "src/symbol_lib.rs Symbol::new, Default impls")])
p("C37", "Whatever is accepted survives rewriting",
  "If a text with missing, doubled or displaced parts is accepted at all, the text written from the result is accepted too, gives the same model again, and writing that once more gives the same bytes. "
  "This holds for footprints, boards, library tables, schematics and symbol libraries.",
  ["inputs"], "every text the parsers accept, in particular irregular ones",
  "The tests only rewrite a few regular files.",
  ["src/schematic.rs", "src/symbol_lib.rs", "src/footprint/ser.rs", "src/layout/ser.rs", "src/fp_lib_table.rs"],
  [("schematic writer", "src/schematic.rs Display impls"), ("symbol writer", "src/symbol_lib.rs Display impls"), ("s-expression writers", "src/footprint/ser.rs, src/layout/ser.rs")])
p("C38", "A failure says what went wrong",
  "Every error names its cause. A file that cannot be opened, read or decoded is reported as an I/O error of the operating system's own kind by all reading functions, also for a sub-sheet; a failed write names the path; a file recognised as another kind than the one asked for is reported with its path and the kind found. "
  "A number that is none or an unknown word in a schematic or symbol library, and an unknown word in a footprint, board or table, appears in the message (at least the letter at fault where single letters count), a wrong keyword is reported with the one expected or found. "
  "An unset environment variable, an unknown reference, and a net that is not an unnamed net are named; an error of a caller's renaming function comes back unchanged, and an error value shows the text or error it was made from. The wording is otherwise free.",
  ["inputs", "faults"], "every fault, file state, reference, variable and failing callback",
  "The tests have no failing case.",
  ["src/error.rs", "src/util.rs", "src/lib.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/layout/data.rs", "src/fp_lib_table.rs"],
  [("error type", "src/error.rs KicadError, From impls, Display"), ("file functions", "src/util.rs read_file, write_file; src/lib.rs read_*"), ("line parsers", "src/schematic.rs, src/symbol_lib.rs parse helpers"), ("lookups", "src/layout/data.rs modify_module, update_net_names, set_unnamed_net; src/schematic.rs component_by_reference")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
