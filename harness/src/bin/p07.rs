//! P07: a formatted reference parses to the same reference
use ods_harness::*;
use spreadsheet_ods::*;

/// any column: A..ZZZ or the last ones
fn any_col() -> u32 {
    match choose(3) {
        0 => range32(0, 701),
        1 => range32(702, 18_277),
        _ => range32(u32::MAX - 1, u32::MAX),
    }
}
fn small_col() -> u32 {
    range32(0, 701)
}
const NAMES: [&str; 14] = [
    "one", "x y", "it's", "'", "''", "a.b", "a-b", "$a", "1", "é", "[x]", "a:b", "#REF!", "日本",
];
fn name() -> Option<String> {
    let n = choose(NAMES.len() as u64 + 1) as usize;
    if n == 0 {
        None
    } else {
        Some(NAMES[n - 1].to_string())
    }
}
fn cellref(a: &CellRef) {
    let s = a.to_string();
    match CellRef::try_from(s.as_str()) {
        Ok(b) => {
            check(b.row() == a.row() && b.col() == a.col(), "row or column differ");
            check(b.row_abs() == a.row_abs() && b.col_abs() == a.col_abs(), "the $ differ");
            check(b.table() == a.table(), "table differs");
            check(b.iri() == a.iri(), "iri differs");
            check(b == *a, "reference differs");
        }
        Err(_) => check(false, "the reference does not parse"),
    }
}
fn cellrange(a: &CellRange) {
    let s = a.to_string();
    match CellRange::try_from(s.as_str()) {
        Ok(b) => {
            check(b.row() == a.row() && b.col() == a.col(), "row or column differ");
            check(b.to_row() == a.to_row() && b.to_col() == a.to_col(), "last row or column differ");
            check(b.table() == a.table() && b.to_table() == a.to_table(), "table differs");
            check(b == *a, "range differs");
        }
        Err(_) => check(false, "the range does not parse"),
    }
}

harnesses! {
    // a cell: every row of u32, every column up to ZZZ and the last two, all $ combinations
    fn p07_cell() {
        let (r, c) = (any_u32(), any_col());
        let a = CellRef::new_all(None, None, any_bool(), r, any_bool(), c);
        cellref(&a);
        cover("cell");
    }
    // iri and table: some names with special characters in all combinations
    fn p07_names() {
        let a = CellRef::new_all(name(), name(), any_bool(), range32(0, 1_048_575), any_bool(), 3);
        cellref(&a);
        cover("names");
    }
    // table: every name of 1 to 3 bytes UTF-8 without control characters
    fn p07_table() {
        let n = any_string(3);
        assume(!n.is_empty() && n.bytes().all(|b| b >= 0x20));
        let a = CellRef::new_all(None, Some(n), false, 5, any_bool(), 3);
        cellref(&a);
        cover("table");
    }
    // iri: every text of 1 to 2 bytes UTF-8, with and without a table
    fn p07_iri() {
        let n = any_string(2);
        assume(!n.is_empty());
        let t = if any_bool() { Some("it's".to_string()) } else { None };
        let a = CellRef::new_all(Some(n), t, false, 5, false, 3);
        cellref(&a);
        cover("iri");
    }
    // ranges: every row of u32, columns up to ZZ, all $ combinations
    fn p07_range() {
        let (r, c, r2, c2) = (any_u32(), small_col(), range32(0, 1_048_575), small_col());
        let a = CellRange::new_all(None, None, any_bool(), r, any_bool(), c, None, any_bool(), r2, any_bool(), c2);
        // from must not be after to
        assume(r <= r2 && c <= c2);
        cellrange(&a);
        cover("range");
    }
    // ranges: all combinations of iri, table and last table
    fn p07_range_names() {
        let a = CellRange::new_all(name(), name(), any_bool(), 1, false, 0, name(), false, 1_000, any_bool(), 30);
        cellrange(&a);
        cover("range names");
    }
    // column ranges
    fn p07_col_range() {
        let (c, c2) = (small_col(), any_col());
        assume(c <= c2);
        let a = ColRange::new_all(name(), None, any_bool(), c, name(), any_bool(), c2);
        let b = ColRange::try_from(a.to_string().as_str());
        check(b.is_ok(), "the column range does not parse");
        check(b.ok() == Some(a), "column range differs");
        cover("column range");
    }
    // row ranges
    fn p07_row_range() {
        let (r, r2) = (any_u32(), range32(0, 1_048_575));
        assume(r <= r2);
        let a = RowRange::new_all(None, name(), any_bool(), r, name(), any_bool(), r2);
        let b = RowRange::try_from(a.to_string().as_str());
        check(b.is_ok(), "the row range does not parse");
        check(b.ok() == Some(a), "row range differs");
        cover("row range");
    }
    // lists of 2 ranges
    fn p07_list() {
        let (r, r2) = (range32(0, 1_048_575), range32(0, 1_048_575));
        assume(r <= r2);
        let mut a = CellRange::local(r, 3, r2, 5);
        if let Some(n) = name() {
            a.set_table(n);
        }
        let b = CellRange::remote("x y", 1, 2, 3, 40);
        let t = if any_bool() { format!("{} {}", a, b) } else { format!("{} {}", b, a) };
        match refs::parse_cellranges(&t) {
            Ok(Some(v)) => {
                check(v.len() == 2, "two ranges");
                check((v[0] == a && v[1] == b) || (v[1] == a && v[0] == b), "ranges differ");
            }
            _ => check(false, "the list does not parse"),
        }
        cover("list");
    }
    // the form used in formulas is the reference in brackets
    fn p07_formula() {
        let (r, c) = (any_u32(), small_col());
        let a = CellRef::new_all(None, name(), any_bool(), r, any_bool(), c);
        check(a.to_formula() == format!("[{}]", a), "formula");
        let b = CellRange::new_all(None, name(), false, 1, any_bool(), 2, None, false, r.max(1), any_bool(), c.max(2));
        check(b.to_formula() == format!("[{}]", b), "formula");
        cover("formula");
    }
}
