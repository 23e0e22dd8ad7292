//! P05: row and column headers
use ods_harness::*;
use spreadsheet_ods::style::units::Length;
use spreadsheet_ods::style::*;
use spreadsheet_ods::sheet::Visibility;
use spreadsheet_ods::*;

const N: usize = 6;

#[derive(Clone, Copy, PartialEq)]
struct H {
    style: Option<&'static str>,
    cell: Option<&'static str>,
    vis: Visibility,
    len: Length,
}
const NO: H = H { style: None, cell: None, vis: Visibility::Visible, len: Length::Default };

const LEN: [Length; 4] = [Length::Cm(2.5), Length::Pt(10.0), Length::Mm(0.1), Length::In(1.25)];

/// one operation on row/column i
fn op(sh: &mut Sheet, m: &mut [H; N], cols: bool, i: u32, k: u64) {
    // decides which entry of the model changes, the row itself stays symbolic
    let h = &mut m[i as usize];
    match (k, cols) {
        (0, false) => sh.set_rowstyle(i, &RowStyleRef::from("ra")),
        (0, true) => sh.set_colstyle(i, &ColStyleRef::from("ra")),
        (1, false) => sh.set_row_cellstyle(i, &CellStyleRef::from("ca")),
        (1, true) => sh.set_col_cellstyle(i, &CellStyleRef::from("ca")),
        (2, false) => sh.set_row_visible(i, Visibility::Collapsed),
        (2, true) => sh.set_col_visible(i, Visibility::Collapsed),
        (3, false) => sh.set_row_height(i, LEN[0]),
        (3, true) => sh.set_col_width(i, LEN[0]),
        (4, false) => sh.clear_rowstyle(i),
        (4, true) => sh.clear_colstyle(i),
        (5, false) => sh.clear_row_cellstyle(i),
        (5, true) => sh.clear_col_cellstyle(i),
        (6, false) => sh.set_row_visible(i, Visibility::Filtered),
        (6, true) => sh.set_col_visible(i, Visibility::Filtered),
        _ => {}
    }
    match k {
        0 => h.style = Some("ra"),
        1 => h.cell = Some("ca"),
        2 => h.vis = Visibility::Collapsed,
        3 => h.len = LEN[0],
        4 => h.style = None,
        5 => h.cell = None,
        6 => h.vis = Visibility::Filtered,
        _ => {}
    }
}
fn same(sh: &Sheet, m: &[H; N], cols: bool, auto: bool) {
    for (i, h) in m.iter().enumerate() {
        let i = i as u32;
        if cols {
            if !auto || h.len == Length::Default {
                check(sh.colstyle(i).map(|s| s.as_str()) == h.style, "column style differs");
            }
            check(sh.col_cellstyle(i).map(|s| s.as_str()) == h.cell, "cell style of a column differs");
            check(sh.col_visible(i) == h.vis, "visibility of a column differs");
            check(sh.col_width(i) == h.len, "column width differs");
        } else {
            if !auto || h.len == Length::Default {
                check(sh.rowstyle(i).map(|s| s.as_str()) == h.style, "row style differs");
            }
            check(sh.row_cellstyle(i).map(|s| s.as_str()) == h.cell, "cell style of a row differs");
            check(sh.row_visible(i) == h.vis, "visibility of a row differs");
            check(sh.row_height(i) == h.len, "row height differs");
        }
    }
}
fn book(sh: Sheet) -> WorkBook {
    let mut wb = WorkBook::new_empty();
    wb.push_sheet(sh);
    wb
}
/// a sheet that was read, with headers that stand for several rows/columns
fn spanned() -> (Sheet, [H; N]) {
    let mut sh = Sheet::new("one");
    let mut m = [NO; N];
    for i in 1..=3 {
        m[i].style = Some("rb");
        sh.set_colstyle(i as u32, &ColStyleRef::from("rb"));
        sh.set_rowstyle(i as u32, &RowStyleRef::from("rb"));
    }
    sh.set_value(0, 0, 1);
    sh.set_value(5, 5, 1);
    let mut wb = match roundtrip(&mut book(sh)) {
        Some(w) => w,
        None => WorkBook::new_empty(),
    };
    (wb.remove_sheet(0), m)
}
fn history(cols: bool, n: usize) {
    let (mut sh, mut m) = if choose(2) == 0 { (Sheet::new("one"), [NO; N]) } else { spanned() };
    for _ in 0..n {
        let k = choose(5);
        let i = choose(5) as u32;
        op(&mut sh, &mut m, cols, i, k);
        same(&sh, &m, cols, false);
    }
}
fn headers(cols: bool, n: usize) {
    let mut sh = Sheet::new("one");
    sh.set_value(0, 0, 1);
    let (r, c) = *pick(&[(5u32, 5u32), (2, 3)]);
    let max = if cols { c } else { r };
    sh.set_value(r, c, 2);
    let mut m = [NO; N];
    for _ in 0..n {
        let k = *pick(&[0u64, 1, 2, 3, 6]);
        let i = choose(max as u64 + 1) as u32;
        // a named style would have to exist for the size
        if k == 0 {
            assume(m[i as usize].len == Length::Default);
        }
        if k == 3 {
            assume(m[i as usize].style.is_none());
        }
        op(&mut sh, &mut m, cols, i, k);
    }
    let Some(w) = roundtrip(&mut book(sh)) else { return };
    same(w.sheet(0), &m, cols, true);
    check(w.sheet(0).cell_count() == 2, "cells");
}

harnesses! {
    // every sequence of 3 header operations on 5 columns, on a new sheet and on one that was read
    fn p05_cols() {
        history(true, 3);
        cover("cols");
    }
    // the same for rows
    fn p05_rows() {
        history(false, 3);
        cover("rows");
    }
    // two header values anywhere in the used columns, written and read
    fn p05_cols_rt() {
        headers(true, 2);
        cover("cols written");
    }
    // the same for rows
    fn p05_rows_rt() {
        headers(false, 2);
        cover("rows written");
    }
    // [thorough] three header values
    fn p05_rt3() {
        let cols = choose(2) == 1;
        headers(cols, 3);
        cover("three");
    }
    // a row header at any row of a long run of empty rows
    fn p05_far() {
        let mut sh = Sheet::new("one");
        let last = *pick(&[3u32, 1000, 1_048_575]);
        let r = range32(1, last - 1);
        let other = *pick(&[0u32, 1, 2, last]);
        sh.set_value(last, 0, 1);
        if any_bool() {
            sh.set_value(0, 0, 1);
        }
        sh.set_row_visible(r, Visibility::Filtered);
        let mut wb = book(sh);
        let Some(w) = roundtrip(&mut wb) else { return };
        let s = w.sheet(0);
        check(s.row_visible(r) == Visibility::Filtered, "visibility differs");
        check((s.row_visible(other) == Visibility::Filtered) == (other == r), "visibility of another row differs");
        check(s.row_visible(r - 1) == Visibility::Visible, "visibility of the row before");
        check(s.row_visible(r + 1) == Visibility::Visible, "visibility of the row after");
        check(*s.value(last, 0) == Value::Number(1.0), "value");
        cover("far");
    }
    // style names: every text of 1 to 2 bytes UTF-8
    fn p05_names() {
        let mut sh = Sheet::new("one");
        let n = any_string(2);
        assume(n.len() > 0);
        let k = choose(5);
        sh.set_value(0, 0, 1);
        sh.set_value(2, 2, 1);
        match k {
            0 => sh.set_rowstyle(1, &RowStyleRef::from(n.as_str())),
            1 => sh.set_row_cellstyle(1, &CellStyleRef::from(n.as_str())),
            2 => sh.set_colstyle(1, &ColStyleRef::from(n.as_str())),
            3 => sh.set_col_cellstyle(1, &CellStyleRef::from(n.as_str())),
            _ => sh.set_style(&TableStyleRef::from(n.as_str())),
        }
        let Some(w) = roundtrip(&mut book(sh)) else { return };
        let s = w.sheet(0);
        check(s.rowstyle(1).map(|s| s.as_str()) == (k == 0).then_some(n.as_str()), "row style differs");
        check(s.row_cellstyle(1).map(|s| s.as_str()) == (k == 1).then_some(n.as_str()), "cell style of a row differs");
        check(s.colstyle(1).map(|s| s.as_str()) == (k == 2).then_some(n.as_str()), "column style differs");
        check(s.col_cellstyle(1).map(|s| s.as_str()) == (k == 3).then_some(n.as_str()), "cell style of a column differs");
        check(s.style().map(|s| s.as_str()) == (k == 4).then_some(n.as_str()), "table style differs");
        cover("names");
    }
    // sizes: changed after reading, written and read again; with a style of their own or none
    fn p05_sizes() {
        let mut wb = WorkBook::new_empty();
        let named = any_bool();
        let mut sh = Sheet::new("one");
        sh.set_value(2, 2, 1);
        if named {
            let r = wb.add_rowstyle(RowStyle::new("ra"));
            let c = wb.add_colstyle(ColStyle::new("ca"));
            sh.set_rowstyle(1, &r);
            sh.set_colstyle(1, &c);
        }
        let l = [Length::Default, LEN[0], LEN[1], LEN[2], LEN[3]];
        let (h0, w0) = (*pick(&l), *pick(&l[..3]));
        sh.set_row_height(1, h0);
        sh.set_col_width(1, w0);
        wb.push_sheet(sh);
        let Some(mut w) = roundtrip(&mut wb) else { return };
        check(w.sheet(0).row_height(1) == h0, "height differs");
        check(w.sheet(0).col_width(1) == w0, "width differs");
        check(w.sheet(0).row_height(2) == Length::Default, "another height differs");
        check(w.sheet(0).col_width(2) == Length::Default, "another width differs");
        let (h1, w1) = (*pick(&l[..3]), *pick(&l[..3]));
        w.sheet_mut(0).set_row_height(1, h1);
        w.sheet_mut(0).set_col_width(1, w1);
        let Some(w) = roundtrip(&mut w) else { return };
        check(w.sheet(0).row_height(1) == h1, "changed height differs");
        check(w.sheet(0).col_width(1) == w1, "changed width differs");
        check(!named || w.sheet(0).rowstyle(1).map(|s| s.as_str()) == Some("ra"), "row style differs");
        check(!named || w.sheet(0).colstyle(1).map(|s| s.as_str()) == Some("ca"), "column style differs");
        cover("sizes");
    }
}
