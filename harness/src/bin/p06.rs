//! P06: groups, repeated header rows/columns, print ranges, sheet attributes
use ods_harness::*;
use spreadsheet_ods::*;

fn book(sh: Sheet) -> WorkBook {
    let mut wb = WorkBook::new_empty();
    wb.push_sheet(sh);
    wb
}
type G = (u32, u32, bool);
fn sorted(mut v: Vec<G>) -> Vec<G> {
    v.sort();
    v
}
fn groups(sh: &Sheet, cols: bool) -> Vec<G> {
    if cols {
        sorted(sh.col_group_iter().map(|g| (g.from(), g.to(), g.display())).collect())
    } else {
        sorted(sh.row_group_iter().map(|g| (g.from(), g.to(), g.display())).collect())
    }
}
fn add(sh: &mut Sheet, cols: bool, g: G) {
    if cols {
        sh.add_col_group(g.0, g.1);
        sh.set_col_group_displayed(g.0, g.1, g.2);
    } else {
        sh.add_row_group(g.0, g.1);
        sh.set_row_group_displayed(g.0, g.1, g.2);
    }
}
/// data up to 4/4 and in an arbitrary choice of the rows/columns before
fn data(sh: &mut Sheet, cols: bool, n: u32) {
    for i in 0..n {
        if any_bool() {
            if cols {
                sh.set_value(0, i, i);
            } else {
                sh.set_value(i, 0, i);
            }
        }
    }
    if cols {
        sh.set_value(0, n, n);
    } else {
        sh.set_value(n, 0, n);
    }
}
fn values(a: &Sheet, b: &Sheet) {
    check(a.cell_count() == b.cell_count(), "number of cells differs");
    for ((r, c), v) in a.iter() {
        check(b.value(r, c) == v.value(), "value differs");
    }
}
fn two_groups(cols: bool, last: u32, fill: bool) {
    let mut sh = Sheet::new("one");
    let l = last as u64 + 1;
    let (a, b) = (choose(l) as u32, choose(l) as u32);
    assume(a <= b);
    let (c, d) = (choose(l) as u32, choose(l) as u32);
    assume(c <= d);
    // nested or apart
    assume(b < c || d < a || (a <= c && d <= b) || (c <= a && b <= d));
    assume((a, b) != (c, d));
    let (x, y) = (any_bool(), any_bool());
    add(&mut sh, cols, (a, b, x));
    add(&mut sh, cols, (c, d, y));
    if fill {
        data(&mut sh, cols, last);
    } else {
        sh.set_value(0, 0, 1);
        sh.set_value(last, last, 1);
    }
    let mut wb = book(sh);
    let want = groups(wb.sheet(0), cols);
    check(want == sorted(vec![(a, b, x), (c, d, y)]), "the groups are not what was set");
    let Some(w) = roundtrip(&mut wb) else { return };
    check(groups(w.sheet(0), cols) == want, "groups differ");
    values(wb.sheet(0), w.sheet(0));
}
fn header(cols: bool, last: u32, grp: bool) {
    let mut sh = Sheet::new("one");
    let l = last as u64 + 1;
    let (a, b) = (choose(l) as u32, choose(l) as u32);
    assume(a <= b);
    if cols {
        sh.set_header_cols(a, b);
    } else {
        sh.set_header_rows(a, b);
    }
    let mut want = vec![];
    if grp {
        let (c, d) = (choose(l) as u32, choose(l) as u32);
        assume(c <= d);
        add(&mut sh, cols, (c, d, true));
        want.push((c, d, true));
    }
    data(&mut sh, cols, last);
    let mut wb = book(sh);
    let Some(w) = roundtrip(&mut wb) else { return };
    let s = w.sheet(0);
    let h = if cols { s.header_cols() } else { s.header_rows() };
    check(h.map(|h| (h.from, h.to)) == Some((a, b)), "header differs");
    let o = if cols { s.header_rows() } else { s.header_cols() };
    check(o.is_none(), "a header appeared");
    check(groups(s, cols) == want, "groups differ");
    values(wb.sheet(0), s);
}

harnesses! {
    // two row groups, nested or apart, anywhere in 4 rows, any of the rows empty
    fn p06_row_groups() {
        two_groups(false, 3, true);
        cover("row groups");
    }
    // two column groups, the same
    fn p06_col_groups() {
        two_groups(true, 3, false);
        cover("column groups");
    }
    // [thorough] two groups in 5 rows/columns
    fn p06_groups5() {
        let cols = choose(2) == 1;
        two_groups(cols, 4, true);
        cover("groups");
    }
    // header rows anywhere in 5 rows, any of the rows empty
    fn p06_header_rows() {
        header(false, 4, false);
        cover("header rows");
    }
    // header columns anywhere in 5 columns
    fn p06_header_cols() {
        header(true, 4, false);
        cover("header columns");
    }
    // header rows together with a group in 4 rows
    fn p06_header_group() {
        let cols = choose(2) == 1;
        header(cols, 3, true);
        cover("header and group");
    }
    // three nested column groups with column widths inside
    fn p06_nested() {
        let mut sh = Sheet::new("one");
        let p = [(0u32, 4u32), (0, 2), (1, 2)];
        let order = *pick(&[[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]);
        let on = [any_bool(), any_bool(), any_bool()];
        let cols = choose(2) == 1;
        for i in order {
            add(&mut sh, cols, (p[i].0, p[i].1, on[i]));
        }
        sh.set_value(4, 4, 1);
        let c = choose(5) as u32;
        sh.set_col_cellstyle(c, &"s".into());
        sh.set_col_cellstyle((c + 1) % 5, &"s".into());
        let mut wb = book(sh);
        let want = groups(wb.sheet(0), cols);
        let Some(w) = roundtrip(&mut wb) else { return };
        let s = w.sheet(0);
        check(groups(s, cols) == want, "groups differ");
        for i in 0..5 {
            check(s.col_cellstyle(i).is_some() == (i == c || i == (c + 1) % 5), "column style differs");
        }
        cover("nested");
    }
    // print ranges: two ranges, any of 1048576 rows and 702 columns
    fn p06_print_ranges() {
        let mut sh = Sheet::new("one");
        sh.set_value(0, 0, 1);
        let (r, c) = (range32(0, 1_048_575), range32(0, 701));
        let (h, w) = (range32(0, 9), range32(0, 2));
        assume(r + h <= 1_048_575);
        let k = choose(3);
        let a = CellRange::remote("one", r, c, r + h, c + w);
        let b = CellRange::remote("two", 1, 1, 3, 4);
        match k {
            0 => sh.add_print_range(a.clone()),
            1 => {
                sh.add_print_range(a.clone());
                sh.add_print_range(b.clone());
            }
            _ => {
                sh.add_print_range(b.clone());
                sh.add_print_range(a.clone());
            }
        }
        let Some(w) = roundtrip(&mut book(sh)) else { return };
        let s = w.sheet(0);
        let Some(v) = s.print_ranges() else { return check(false, "print ranges are missing") };
        match k {
            0 => check(v.len() == 1 && v[0] == a, "print range differs"),
            1 => check(v.len() == 2 && v[0] == a && v[1] == b, "print ranges differ"),
            _ => check(v.len() == 2 && v[0] == b && v[1] == a, "print ranges differ"),
        }
        cover("print ranges");
    }
    // sheet attributes: names with every ASCII character (but control characters) between two
    // others or some Unicode names, display and print flag
    fn p06_sheet() {
        let n = if any_bool() {
            format!("a{}b", conc(range(0x20, 0x7e)) as u8 as char)
        } else {
            pick(&["x", "é", "日本", " a", "a ", "a  b", "😀", "2020-01", "a\u{a0}b"]).to_string()
        };
        let (d, p) = (any_bool(), any_bool());
        let mut sh = Sheet::new(n.clone());
        sh.set_display(d);
        sh.set_print(p);
        let Some(w) = roundtrip(&mut book(sh)) else { return };
        check(w.num_sheets() == 1, "one sheet");
        let s = w.sheet(0);
        check(*s.name() == n, "name differs");
        check(s.display() == d, "display differs");
        check(s.print() == p, "print differs");
        check(s.cell_count() == 0, "no cells");
        check(s.header_rows().is_none() && s.header_cols().is_none() && s.print_ranges().is_none(), "nothing else");
        cover("sheet");
    }
}
