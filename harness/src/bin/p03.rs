//! P03: cells keep their place
use ods_harness::*;
use spreadsheet_ods::*;

fn book(sh: Sheet) -> WorkBook {
    let mut wb = WorkBook::new_empty();
    wb.push_sheet(sh);
    wb
}
fn num(sh: &Sheet, r: u32, c: u32) -> Option<f64> {
    match sh.value(r, c) {
        Value::Number(n) => Some(*n),
        _ => None,
    }
}
/// exactly the cells of `a`, with the same values
fn same(a: &Sheet, b: &Sheet) {
    check(a.cell_count() == b.cell_count(), "number of cells differs");
    let mut n = 0;
    for ((r, c), v) in a.iter() {
        match b.cell_ref(r, c) {
            Some(w) => check(v.value() == w.value(), "value differs"),
            None => check(false, "cell is missing"),
        }
        n += 1;
    }
    check(n == a.cell_count(), "iterator is short");
    check(a.used_grid_size() == b.used_grid_size(), "used area differs");
}

/// only what lies in a merged area is marked as covered, all cells in it are
fn covered(wb: &mut WorkBook, areas: &[(u32, u32, u32, u32)]) {
    let Some(b) = write(wb) else { return };
    let sh = wb.sheet(0);
    for (r, c, cov, n) in written_cells(&b) {
        for c in c..c + n {
            let inside = areas
                .iter()
                .any(|a| r >= a.0 && r < a.0 + a.2 && c >= a.1 && c < a.1 + a.3 && (r, c) != (a.0, a.1));
            if inside {
                check(cov || sh.cell_ref(r, c).is_none(), "a cell below a merged area is not marked as covered");
            } else {
                check(!cov, "a visible cell is marked as covered");
            }
        }
    }
}

fn two(rows: u32, cols: u32) {
    let mut sh = Sheet::new("one");
    let (r0, c0) = (range32(0, rows), range32(0, cols));
    let (r1, c1) = (range32(0, rows), range32(0, cols));
    sh.set_value(r0, c0, 1);
    sh.set_value(r1, c1, 2);
    let mut wb = book(sh);
    let Some(w) = roundtrip(&mut wb) else { return };
    check(w.num_sheets() == 1, "one sheet");
    same(wb.sheet(0), w.sheet(0));
    cover("two");
}

harnesses! {
    // one cell in any of 1048576 rows and 8 columns
    fn p03_far() {
        let mut sh = Sheet::new("one");
        sh.set_value(range32(0, 1_048_575), range32(0, 7), 1);
        let mut wb = book(sh);
        let Some(w) = roundtrip(&mut wb) else { return };
        same(wb.sheet(0), w.sheet(0));
        cover("far");
    }
    // two cells in any of 1500 rows and 3 columns
    fn p03_two() { two(1499, 2); }
    // [thorough p03_two] two cells in any of 65536 rows and 5 columns
    fn p03_two_far() { two(65535, 4); }
    // far columns
    fn p03_wide() {
        let mut sh = Sheet::new("one");
        let c0 = *pick(&[0u32, 1, 25, 26, 1022]);
        let c1 = c0 + range32(1, 3);
        let r1 = range32(0, 2);
        sh.set_value(1, c0, 1);
        sh.set_value(r1, c1, 2);
        let mut wb = book(sh);
        let Some(w) = roundtrip(&mut wb) else { return };
        same(wb.sheet(0), w.sheet(0));
        cover("wide");
    }
    // every pattern of three cells in a small grid
    fn p03_three() {
        let mut sh = Sheet::new("one");
        for i in 1..=3 {
            sh.set_value(range32(0, 3), range32(0, 3), i);
        }
        let mut wb = book(sh);
        let Some(w) = roundtrip(&mut wb) else { return };
        same(wb.sheet(0), w.sheet(0));
        cover("three");
    }
    // every subset of a 3x3 grid
    fn p03_grid() {
        let mut sh = Sheet::new("one");
        for r in 0..3u32 {
            for c in 0..3u32 {
                if any_bool() {
                    sh.set_value(r, c, 1 + r * 3 + c);
                }
            }
        }
        let mut wb = book(sh);
        let Some(w) = roundtrip(&mut wb) else { return };
        same(wb.sheet(0), w.sheet(0));
        cover("grid");
    }
    // repeated cells: expanded when reading by default, kept on request
    fn p03_repeat() {
        let mut sh = Sheet::new("one");
        let (r0, c0, n) = (range32(0, 2), range32(0, 2), range32(1, 3));
        let gap = range32(0, 2);
        let dr = range32(0, 2);
        sh.set_value(r0, c0, 1);
        sh.set_cell_repeat(r0, c0, n);
        let (r1, c1) = if dr == 0 { (r0, c0 + n + gap) } else { (r0 + dr, gap) };
        sh.set_value(r1, c1, 2);
        let mut wb = book(sh);
        let keep = any_bool();
        let o = if keep { OdsOptions::default().use_repeat_for_cells() } else { OdsOptions::default() };
        let Some(w) = reread(&mut wb, o) else { return };
        let s = w.sheet(0);
        if keep {
            check(s.cell_count() == 2, "two cells");
            check(s.cell_repeat(r0, c0) == n, "repeat differs");
            check(num(s, r0, c0) == Some(1.0), "repeated cell differs");
            cover("kept");
        } else {
            check(s.cell_count() == n as usize + 1, "n + 1 cells");
            for i in 0..n {
                check(num(s, r0, c0 + i) == Some(1.0), "clone differs");
            }
            cover("expanded");
        }
        check(num(s, r1, c1) == Some(2.0), "following cell differs");
    }
    // repeated rows
    fn p03_row_repeat() {
        let mut sh = Sheet::new("one");
        let (r0, n) = (range32(0, 3), range32(1, 3));
        let gap = range32(0, 2);
        sh.set_value(r0, 0, 1);
        sh.set_value(r0, 2, 3);
        sh.set_row_repeat(r0, n);
        let r1 = r0 + n + gap;
        let last = any_bool();
        if !last {
            sh.set_value(r1, 1, 2);
        }
        let mut wb = book(sh);
        let keep = any_bool();
        let o = if keep { OdsOptions::default().use_repeat_for_cells() } else { OdsOptions::default() };
        let Some(w) = reread(&mut wb, o) else { return };
        let s = w.sheet(0);
        let more = if last { 0 } else { 1 };
        if keep {
            check(s.cell_count() == 2 + more, "cells");
            check(s.row_repeat(r0) == n, "repeat differs");
            check(num(s, r0, 0) == Some(1.0) && num(s, r0, 2) == Some(3.0), "repeated row differs");
            cover("kept");
        } else {
            check(s.cell_count() == 2 * n as usize + more, "cells");
            for i in 0..n {
                check(num(s, r0 + i, 0) == Some(1.0) && num(s, r0 + i, 2) == Some(3.0), "clone differs");
            }
            cover("expanded");
        }
        if !last {
            check(num(s, r1, 1) == Some(2.0), "following cell differs");
        }
    }
    // merged cells and what they cover
    fn p03_span() {
        let mut sh = Sheet::new("one");
        let (r0, c0) = (range32(0, 1), range32(0, 1));
        let (rs, cs) = (range32(1, 3), range32(1, 3));
        sh.set_value(r0, c0, 1);
        sh.set_row_span(r0, c0, rs);
        sh.set_col_span(r0, c0, cs);
        let (r1, c1) = (range32(0, 3), range32(0, 3));
        assume(r1 != r0 || c1 != c0);
        sh.set_value(r1, c1, 2);
        let mut wb = book(sh);
        let Some(w) = roundtrip(&mut wb) else { return };
        let s = w.sheet(0);
        same(wb.sheet(0), s);
        check(s.row_span(r0, c0) == rs && s.col_span(r0, c0) == cs, "span differs");
        check(s.row_span(r1, c1) == 1 && s.col_span(r1, c1) == 1, "span of the other cell differs");
        covered(&mut wb, &[(r0, c0, rs, cs)]);
        cover("span");
    }
    // a repeated cell that reaches into or out of a merged area
    fn p03_span_repeat() {
        let mut sh = Sheet::new("one");
        let (c0, rs, cs) = (range32(0, 1), range32(1, 2), range32(1, 3));
        sh.set_value(0, c0, 1);
        sh.set_row_span(0, c0, rs);
        sh.set_col_span(0, c0, cs);
        let (r1, c1, n) = (range32(0, 1), range32(0, 3), range32(1, 3));
        assume(r1 > 0 || c1 > c0);
        sh.set_value(r1, c1, 2);
        sh.set_cell_repeat(r1, c1, n);
        let gap = range32(0, 1);
        sh.set_value(r1, c1 + n + gap, 3);
        let mut wb = book(sh);
        let Some(w) = roundtrip(&mut wb) else { return };
        let s = w.sheet(0);
        check(s.cell_count() == n as usize + 2, "number of cells");
        check(num(s, 0, c0) == Some(1.0), "spanning cell");
        check(s.row_span(0, c0) == rs && s.col_span(0, c0) == cs, "span differs");
        for i in 0..n {
            check(num(s, r1, c1 + i) == Some(2.0), "repeated cell differs");
        }
        check(num(s, r1, c1 + n + gap) == Some(3.0), "following cell differs");
        covered(&mut wb, &[(0, c0, rs, cs)]);
        cover("span repeat");
    }
    // two merged areas
    fn p03_two_spans() {
        let mut sh = Sheet::new("one");
        sh.set_value(0, 0, 1);
        let (rs, cs) = (range32(1, 2), range32(1, 2));
        sh.set_row_span(0, 0, rs);
        sh.set_col_span(0, 0, cs);
        let (r1, c1) = (range32(0, 2), range32(0, 2));
        assume(r1 >= rs || c1 >= cs);
        let (rt, ct) = (range32(1, 2), range32(1, 2));
        sh.set_value(r1, c1, 2);
        sh.set_row_span(r1, c1, rt);
        sh.set_col_span(r1, c1, ct);
        let mut wb = book(sh);
        let Some(w) = roundtrip(&mut wb) else { return };
        let s = w.sheet(0);
        same(wb.sheet(0), s);
        check(s.row_span(0, 0) == rs && s.col_span(0, 0) == cs, "first span differs");
        check(s.row_span(r1, c1) == rt && s.col_span(r1, c1) == ct, "second span differs");
        covered(&mut wb, &[(0, 0, rs, cs), (r1, c1, rt, ct)]);
        cover("spans");
    }
    // cells of different sheets do not mix, sheets keep their order
    fn p03_sheets() {
        let mut wb = WorkBook::new_empty();
        let (r0, c0, r1, c1) = (range32(0, 3), range32(0, 3), range32(0, 3), range32(0, 3));
        let mut a = Sheet::new("one");
        let ea = any_bool();
        if !ea {
            a.set_value(r0, c0, 1);
        }
        let mut b = Sheet::new("two");
        b.set_value(r1, c1, 2);
        wb.push_sheet(a);
        wb.push_sheet(b);
        let Some(w) = roundtrip(&mut wb) else { return };
        check(w.num_sheets() == 2, "two sheets");
        check(w.sheet(0).name() == "one" && w.sheet(1).name() == "two", "sheet names");
        same(wb.sheet(0), w.sheet(0));
        same(wb.sheet(1), w.sheet(1));
        cover("sheets");
    }
    // the zip container
    fn p03_ods() {
        let mut sh = Sheet::new("one");
        sh.set_value(choose(2) as u32 * 3, choose(2) as u32 * 2, 1);
        sh.set_value(1, 1, "x<y");
        let mut wb = book(sh);
        let Some(w) = roundtrip_ods(&mut wb) else { return };
        same(wb.sheet(0), w.sheet(0));
        cover("ods");
    }
}
