//! The table of checks.
use crate::engine::Check;
use crate::*;
use std::path::Path;

pub fn prepare(id: &str, scratch: &Path) {
    if id == "C31" {
        std::env::set_var("HOME", scratch.join("home dir"))
    }
}

pub const CHECKS: &[Check] = &[
    Check {
        id: "C01",
        f: c_sexp::c01,
        quick: 1_800_000,
        thorough: 30_000_000,
        rule: "the footprint has at least two texts, pads, shapes or models",
        assumptions: "strings without line breaks and without unescaped quotes; numbers as decimal strings of at most fifteen significant digits and thirteen decimals; known layer sides",
        total: false,
    },
    Check {
        id: "C02",
        f: c_sexp::c02,
        quick: 1_200_000,
        thorough: 30_000_000,
        rule: "the footprint written has at least two texts, pads, shapes or models",
        assumptions: "as C01; drill heights without a width and negative font sizes are left out",
        total: false,
    },
    Check {
        id: "C03",
        f: c_sexp::c03,
        quick: 1_200_000,
        thorough: 20_000_000,
        rule: "the layout has elements of at least two kinds",
        assumptions: "as C01; sections occur at most once",
        total: false,
    },
    Check {
        id: "C04",
        f: c_sexp::c04,
        quick: 600_000,
        thorough: 15_000_000,
        rule: "the layout written has elements of at least two kinds",
        assumptions: "as C03",
        total: false,
    },
    Check {
        id: "C05",
        f: c_sexp::c05,
        quick: 1_200_000,
        thorough: 30_000_000,
        rule: "the table has at least two libraries",
        assumptions: "strings without line breaks and without unescaped quotes",
        total: false,
    },
    Check {
        id: "C06",
        f: c_line::c06,
        quick: 900_000,
        thorough: 15000000,
        rule: "the schematic has elements of at least two kinds",
        assumptions: "unquoted words without white space and quotes; quoted texts without line breaks and unescaped quotes; standard fields carry their standard names",
        total: false,
    },
    Check {
        id: "C07",
        f: c_line::c07,
        quick: 900_000,
        thorough: 15000000,
        rule: "the schematic written has elements of at least two kinds",
        assumptions: "as C06; sub-sheets are written after all other elements, so the byte-for-byte form has them last",
        total: false,
    },
    Check {
        id: "C08",
        f: c_line::c08,
        quick: 1_200_000,
        thorough: 20000000,
        rule: "a symbol with at least three fields and drawing lines",
        assumptions: "as C06; the unused number of the definition line is 0",
        total: false,
    },
    Check {
        id: "C09",
        f: c_line::c09,
        quick: 1_200_000,
        thorough: 20000000,
        rule: "a symbol with at least three fields and drawing lines",
        assumptions: "as C08; the title comment of a symbol is its second field's value",
        total: false,
    },
    Check {
        id: "C10",
        f: c_sexp::c10,
        quick: 800_000,
        thorough: 20_000_000,
        rule: "a footprint with two structured elements, a layout with two kinds of elements or a table with two libraries",
        assumptions: "the reference printer states KiCad's line layout as the unchanged library writes it",
        total: false,
    },
    Check {
        id: "C15",
        f: c_geo::c15,
        quick: 1_200_000,
        thorough: 20000000,
        rule: "a move by a non-zero vector of a board with at least two placed elements, or of one placed element",
        assumptions: "as C03",
        total: false,
    },
    Check {
        id: "C16",
        f: c_geo::c16,
        quick: 1_800_000,
        thorough: 30000000,
        rule: "at least two items with an extent",
        assumptions: "pad rotations in quarter turns; sizes that are not negative; the rotation of a footprint does not turn its box",
        total: false,
    },
    Check {
        id: "C17",
        f: c_geo::c17,
        quick: 1_800_000,
        thorough: 30000000,
        rule: "the footprint has at least two texts, pads, shapes or models",
        assumptions: "as C01; rotations compare modulo one turn",
        total: false,
    },
    Check {
        id: "C18",
        f: c_geo::c18,
        quick: 1_800_000,
        thorough: 30000000,
        rule: "a non-zero angle and at least one anchor, pad or text",
        assumptions: "as C01; angles of at most one turn; rotations compare modulo one turn",
        total: false,
    },
    Check {
        id: "C19",
        f: c_edit::c19,
        quick: 600_000,
        thorough: 10000000,
        rule: "an update that changes at least two names",
        assumptions: "as C03",
        total: false,
    },
    Check {
        id: "C20",
        f: c_edit::c20,
        quick: 300_000,
        thorough: 5000000,
        rule: "a history with at least two edits that apply",
        assumptions: "as C03",
        total: false,
    },
    Check {
        id: "C21",
        f: c_edit::c21,
        quick: 750_000,
        thorough: 12500000,
        rule: "at least one edit that applies, on a footprint with at least two texts, pads, shapes or models",
        assumptions: "as C01",
        total: false,
    },
    Check {
        id: "C22",
        f: c_edit::c22,
        quick: 450_000,
        thorough: 7500000,
        rule: "at least two components and a query or edit that applies",
        assumptions: "as C06",
        total: false,
    },
    Check {
        id: "C23",
        f: c_edit::c23,
        quick: 750_000,
        thorough: 12500000,
        rule: "a history of at least three edits",
        assumptions: "as C06; every field name of a component occurs once; fields are added under new names",
        total: false,
    },
    Check {
        id: "C28",
        f: c_edit::c28,
        quick: 3_000_000,
        thorough: 50000000,
        rule: "at least three references",
        assumptions: "references have one run of digits, of at most 18 digits",
        total: false,
    },
    Check {
        id: "C29",
        f: c_edit::c29,
        quick: 6_000_000,
        thorough: 100000000,
        rule: "an automatic or nearly automatic name, or a replacement or renaming that applies",
        assumptions: "components and pads are not empty and have none of the characters - ( ); block names have no /",
        total: false,
    },
    Check {
        id: "C30",
        f: c_edit::c30,
        quick: 12_000_000,
        thorough: 200000000,
        rule: "two different elements of one kind",
        assumptions: "as C01",
        total: false,
    },
    Check {
        id: "C31",
        f: c_edit::c31,
        quick: 1_200_000,
        thorough: 20000000,
        rule: "the URI has a variable reference or a leading tilde",
        assumptions: "variable names of letters, digits and underscore; no dollar sign outside of references",
        total: false,
    },
    Check {
        id: "C33",
        f: c_edit::c33,
        quick: 600_000,
        thorough: 10000000,
        rule: "the library has a symbol",
        assumptions: "as C08; the second field of a symbol is its value field; new names do not start with the invisible-name mark",
        total: false,
    },
    Check {
        id: "C13",
        f: c_file::c13,
        quick: 450_000,
        thorough: 7500000,
        rule: "a file of more than 20 characters",
        assumptions: "as C01, C03, C05, C06 and C08; project files begin with update=",
        total: false,
    },
    Check {
        id: "C14",
        f: c_file::c14,
        quick: 240_000,
        thorough: 4000000,
        rule: "a file of more than 20 characters is written, or a fault is injected",
        assumptions: "as C01 and C03; faults are a missing or wrong directory, a full device, a limit on the file size at a byte, invalid UTF-8",
        total: false,
    },
    Check {
        id: "C24",
        f: c_file::c24,
        quick: 160_000,
        thorough: 4000000,
        rule: "at least one sub-sheet and two components",
        assumptions: "as C06; no sheet contains itself",
        total: false,
    },
    Check {
        id: "C25",
        f: c_klc::c25,
        quick: 3_000_000,
        thorough: 50000000,
        rule: "a reference text and fewer than six findings",
        assumptions: "as C01",
        total: false,
    },
    Check {
        id: "C26",
        f: c_klc::c26,
        quick: 3_000_000,
        thorough: 50000000,
        rule: "fewer than six findings",
        assumptions: "as C08",
        total: false,
    },
    Check {
        id: "C27",
        f: c_klc::c27,
        quick: 1_500_000,
        thorough: 25000000,
        rule: "a footprint that breaks a rule and has at least two texts, pads, shapes or models",
        assumptions: "as C01; pads at quarter turns",
        total: false,
    },
    Check {
        id: "C32",
        f: c_file::c32,
        quick: 120_000,
        thorough: 2000000,
        rule: "a file the tool can work on",
        assumptions: "as C13",
        total: false,
    },
    Check {
        id: "C11",
        f: c_total::c11,
        quick: 2_400_000,
        thorough: 100000000,
        rule: "a text of more than 40 characters, or very deep nesting",
        assumptions: "texts of some kilobytes; nesting up to 262144; sheets do not contain themselves",
        total: true,
    },
    Check {
        id: "C12",
        f: c_total::c12,
        quick: 4_000_000,
        thorough: 100000000,
        rule: "the item is not directly in the outermost list",
        assumptions: "as C01, C03 and C05; the item is in the outermost list, not behind it",
        total: false,
    },
    Check {
        id: "C34",
        f: c_bad::c34,
        quick: 2_100_000,
        thorough: 35000000,
        rule: "the fault is not in the first three lines",
        assumptions: "one fault per document; lines of a component or sheet with an unknown first word, a surplus part behind a complete line of a title block, component or sheet and a missing last line are outside",
        total: false,
    },
    Check {
        id: "C35",
        f: c_bad::c35,
        quick: 2_100_000,
        thorough: 35000000,
        rule: "the fault is not directly in the outermost list, or the text is cut after more than ten characters",
        assumptions: "one fault per document; parts of footprints that have a default value may be missing; malformed outlines of zones are kept as they are",
        total: false,
    },
    Check {
        id: "C37",
        f: c_bad::c37,
        quick: 1_800_000,
        thorough: 30000000,
        rule: "the disturbed document is accepted",
        assumptions: "strings without line breaks, quotes only as backslash-quote, not ending in a backslash",
        total: false,
    },
    Check {
        id: "C36",
        f: c_make::c36,
        quick: 1_200_000,
        thorough: 20000000,
        rule: "the document has at least two elements (pins and rectangles for a symbol library)",
        assumptions: "strings without line breaks, quotes only as backslash-quote, not ending in a backslash; pins get a name and number, symbols their standard fields",
        total: false,
    },
    Check {
        id: "C38",
        f: c_err::c38,
        quick: 1_500_000,
        thorough: 15_000_000,
        rule: "the error is one whose message or kind is prescribed (a wrong number, word or keyword, a thing looked for, an unset variable, a file)",
        assumptions: "wording is free: a message only has to contain the thing at fault; as C34 and C35 for the faults",
        total: false,
    },
];
