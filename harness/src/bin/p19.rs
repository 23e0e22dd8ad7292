//! P19: cells and sheets as a map
use ods_harness::*;
use spreadsheet_ods::draw::{Annotation, DrawFrame};
use spreadsheet_ods::sheet::Visibility;
use spreadsheet_ods::style::*;
use spreadsheet_ods::validation::ValidationRef;
use spreadsheet_ods::*;
use std::ops::Bound;

type Pos = (u32, u32);
/// what a cell should have; numbers stand for names
#[derive(Clone, PartialEq, Debug)]
struct Model {
    value: Option<i32>,
    formula: Option<u8>,
    style: Option<u8>,
    valid: Option<u8>,
    repeat: u32,
    span: (u32, u32),
    matrix: (u32, u32),
    note: Option<u8>,
    frames: usize,
}
fn new() -> Model {
    Model { value: None, formula: None, style: None, valid: None, repeat: 1, span: (1, 1), matrix: (1, 1), note: None, frames: 0 }
}
const N: [&str; 5] = ["n0", "n1", "n2", "n3", "n4"];
fn no(s: &str) -> u8 {
    N.iter().position(|n| *n == s).unwrap_or(99) as u8
}
fn read(c: &CellContentRef<'_>) -> Model {
    Model {
        value: match c.value() {
            Value::Empty => None,
            Value::Number(n) => Some(*n as i32),
            _ => Some(-1),
        },
        formula: c.formula().map(|s| no(s)),
        style: c.style().map(|s| no(s.as_str())),
        valid: c.validation().map(|s| no(s.as_str())),
        repeat: c.repeat(),
        span: (c.row_span(), c.col_span()),
        matrix: (c.matrix_row_span(), c.matrix_col_span()),
        note: c.annotation().map(|a| no(a.name())),
        frames: c.draw_frames().map_or(0, |v| v.len()),
    }
}
fn by_getters(sh: &Sheet, p: Pos) -> Model {
    let (r, c) = p;
    Model {
        value: match sh.value(r, c) {
            Value::Empty => None,
            Value::Number(n) => Some(*n as i32),
            _ => Some(-1),
        },
        formula: sh.formula(r, c).map(|s| no(s)),
        style: sh.cellstyle(r, c).map(|s| no(s.as_str())),
        valid: sh.validation(r, c).map(|s| no(s.as_str())),
        repeat: sh.cell_repeat(r, c),
        span: (sh.row_span(r, c), sh.col_span(r, c)),
        matrix: (sh.matrix_row_span(r, c), sh.matrix_col_span(r, c)),
        note: sh.annotation(r, c).map(|a| no(a.name())),
        frames: sh.draw_frames(r, c).map_or(0, |v| v.len()),
    }
}
/// One operation on the cell and on the model: k of 0..22, v tells the operations apart.
fn step(sh: &mut Sheet, p: Pos, m: Option<Model>, k: u64, v: u8) -> Option<Model> {
    let (r, c) = p;
    let n = N[v as usize];
    let s = 2 + v as u32;
    let style = CellStyleRef::from(n);
    // the cell is created if there is none
    let mut x = m.clone().unwrap_or_else(new);
    match k {
        0 => {
            sh.set_value(r, c, v as i32);
            x.value = Some(v as i32);
        }
        1 => {
            sh.set_styled_value(r, c, v as i32, &style);
            x.value = Some(v as i32);
            x.style = Some(v);
        }
        2 => {
            sh.set_formula(r, c, n);
            x.formula = Some(v);
        }
        3 => {
            sh.set_cellstyle(r, c, &style);
            x.style = Some(v);
        }
        4 => {
            sh.set_validation(r, c, &ValidationRef::from(n));
            x.valid = Some(v);
        }
        5 => {
            sh.set_cell_repeat(r, c, s);
            x.repeat = s;
        }
        6 => {
            sh.set_row_span(r, c, s);
            x.span.0 = s;
        }
        7 => {
            sh.set_col_span(r, c, s);
            x.span.1 = s;
        }
        8 => {
            sh.set_matrix_row_span(r, c, s);
            x.matrix.0 = s;
        }
        9 => {
            sh.set_matrix_col_span(r, c, s);
            x.matrix.1 = s;
        }
        10 => {
            let mut a = Annotation::new_empty();
            a.set_name(n);
            sh.set_annotation(r, c, a);
            x.note = Some(v);
        }
        11 => {
            sh.add_draw_frame(r, c, DrawFrame::new());
            x.frames += 1;
        }
        // a new cell replaces everything
        12 => {
            let mut a = CellContent::new();
            a.set_value(v as i32);
            a.set_formula(n);
            x = new();
            x.value = Some(v as i32);
            x.formula = Some(v);
            if v % 2 == 1 {
                a.set_style(&style);
                a.set_validation(&ValidationRef::from(n));
                a.set_row_span(s);
                a.set_matrix_col_span(s);
                a.set_repeat(s);
                x.style = Some(v);
                x.valid = Some(v);
                x.span.0 = s;
                x.matrix.1 = s;
                x.repeat = s;
            }
            sh.add_cell(r, c, a);
        }
        // moved away and back
        13 => {
            let a = sh.cell(r, c);
            let b = sh.remove_cell(r, c);
            check(a.is_some() == m.is_some() && b.is_some() == m.is_some(), "cell found");
            check(sh.cell_ref(r, c).is_none(), "cell was removed");
            match (a, b) {
                (Some(a), Some(b)) => sh.add_cell(r, c, if v % 2 == 0 { a } else { b }),
                _ => return m,
            }
        }
        14 => {
            sh.remove_cell(r, c);
            return None;
        }
        // these change nothing where there is no cell
        15 => {
            sh.clear_formula(r, c);
            x.formula = None;
        }
        16 => {
            sh.clear_cellstyle(r, c);
            x.style = None;
        }
        17 => {
            sh.clear_validation(r, c);
            x.valid = None;
        }
        18 => {
            sh.clear_annotation(r, c);
            x.note = None;
        }
        19 => {
            sh.clear_draw_frames(r, c);
            x.frames = 0;
        }
        20 => {
            if let Some(a) = sh.annotation_mut(r, c) {
                a.set_name(n);
                check(x.note.is_some(), "annotation found");
                x.note = Some(v);
            }
        }
        _ => {
            let a = sh.cell_ref(r, c).map(|a| a.to_owned());
            check(a.is_some() == m.is_some(), "cell found");
            match a {
                Some(a) => sh.add_cell(r, c, a),
                None => return m,
            }
        }
    }
    if k >= 15 && m.is_none() {
        None
    } else {
        Some(x)
    }
}
fn look(sh: &Sheet, p: Pos, m: &Option<Model>) {
    check(sh.is_empty(p.0, p.1) == m.is_none(), "there is a cell");
    check(by_getters(sh, p) == m.clone().unwrap_or_else(new), "what the cell has");
    match (sh.cell_ref(p.0, p.1), m) {
        (None, None) => {}
        (Some(c), Some(m)) => check(read(&c) == *m, "what the cell has, by reference"),
        _ => check(false, "cell found"),
    }
}
fn history(n: usize, ops: u64) {
    let mut sh = Sheet::new("s");
    // two positions, the same or not
    let pos: [Pos; 2] = [(any_u32(), any_u32()), (any_u32(), any_u32())];
    let same = conc((pos[0] == pos[1]) as u64) == 1;
    let mut m: [Option<Model>; 2] = [None, None];
    for i in 0..n {
        let k = choose(ops);
        // first at the first one, last at the second
        let w = if same || i == 0 { 0 } else { choose(2) as usize };
        let p = pos[w];
        let r = step(&mut sh, p, m[w].clone(), k, i as u8);
        m[w] = r;
    }
    if same {
        m[1] = m[0].clone();
    }
    look(&sh, pos[0], &m[0]);
    look(&sh, pos[1], &m[1]);
    let (a, b) = (m[0].is_some() as usize, (m[1].is_some() && !same) as usize);
    check(sh.cell_count() == a + b, "number of cells");
    check(sh.iter().count() == a + b, "number of cells found");
    // a third position has nothing
    let q: Pos = (any_u32(), any_u32());
    assume(q != pos[0] && q != pos[1]);
    look(&sh, q, &None);
    cover("history");
}
/// n cells at any place
fn cells(n: i32, lim: u32) -> (Sheet, Vec<Pos>) {
    let mut sh = Sheet::new("s");
    let mut v = vec![];
    for i in 0..n {
        let p = (range32(0, lim), range32(0, lim));
        sh.set_value(p.0, p.1, i);
        v.push(p);
    }
    (sh, v)
}
/// the positions of v for which f holds, each once
fn distinct(v: &[Pos], f: impl Fn(&Pos) -> bool) -> Vec<(Pos, i32)> {
    let mut o: Vec<(Pos, i32)> = vec![];
    for (i, p) in v.iter().enumerate() {
        // the last value set there counts
        if f(p) && !v[i + 1..].contains(p) {
            o.push((*p, i as i32));
        }
    }
    o
}
fn same(it: impl Iterator<Item = (Pos, i32)>, want: &[(Pos, i32)], before: impl Fn(Pos, Pos) -> bool) {
    let mut n = 0;
    let mut last: Option<Pos> = None;
    for (p, v) in it {
        check(want.contains(&(p, v)), "a cell outside of the range, or with another value");
        if let Some(l) = last {
            check(before(l, p), "order of the cells");
        }
        last = Some(p);
        n += 1;
        if n > want.len() {
            break;
        }
    }
    check(n == want.len(), "number of cells in the range");
}
fn num(v: &Value) -> i32 {
    match v {
        Value::Number(n) => *n as i32,
        _ => -1,
    }
}
fn rect(rows: bool, n: i32) {
    let (sh, v) = cells(n, 3);
    let s = (choose(3) as u32, choose(3) as u32);
    let e = (choose(5) as u32, choose(5) as u32);
    let k = choose(3);
    let sb = if s == (0, 0) && e.0 == 0 { Bound::Unbounded } else { Bound::Included(s) };
    let s = if sb == Bound::Unbounded { (0, 0) } else { s };
    let eb = match k {
        0 => Bound::Included(e),
        1 => Bound::Excluded(e),
        _ => Bound::Unbounded,
    };
    assume(k < 2 || e == (0, 0));
    let inside = |p: &Pos| {
        p.0 >= s.0
            && p.1 >= s.1
            && match k {
                0 => p.0 <= e.0 && p.1 <= e.1,
                1 => p.0 < e.0 && p.1 < e.1,
                _ => true,
            }
    };
    let want = distinct(&v, inside);
    if rows {
        let it = sh.iter_rows((sb, eb));
        let (lo, hi) = it.size_hint();
        check(lo <= want.len() && hi.is_none_or(|h| h >= want.len()), "size hint");
        same(it.map(|(p, c)| (p, num(c.value()))), &want, |a, b| a < b);
    } else {
        let it = sh.iter_cols((sb, eb));
        let (lo, hi) = it.size_hint();
        check(lo <= want.len() && hi.is_none_or(|h| h >= want.len()), "size hint");
        same(it.map(|(p, c)| (p, num(c.value()))), &want, |a, b| (a.1, a.0) < (b.1, b.0));
    }
}

fn ordered(n: i32) {
    let (sh, v) = cells(n, u32::MAX - 1);
    let (s, e): (Pos, Pos) = ((any_u32(), any_u32()), (any_u32(), any_u32()));
    let (i, j) = (choose(3), choose(3));
    assume(i == 2 || j == 2 || s < e);
    let bound = |k: u64, p: Pos| match k {
        0 => Bound::Included(p),
        1 => Bound::Excluded(p),
        _ => Bound::Unbounded,
    };
    let inside = |p: &Pos| (i == 2 || *p > s || i == 0 && *p == s) && (j == 2 || *p < e || j == 0 && *p == e);
    let want = distinct(&v, inside);
    same(sh.range((bound(i, s), bound(j, e))).map(|(p, c)| (p, num(c.value()))), &want, |a, b| a < b);
    cover("range");
}

harnesses! {
    // any two operations of 22, at any two positions
    fn p19_history() {
        history(2, 22); // cover("history")
    }
    // any four operations of the first four kinds, at any two positions
    fn p19_history4() {
        history(4, 4); // cover("history")
    }
    // [thorough] any three operations of 22, at any two positions
    fn p19_history3() {
        history(3, 22); // cover("history")
    }
    // three cells anywhere: all of them, once and in order
    fn p19_iter() {
        let (sh, v) = cells(3, u32::MAX - 1);
        let want = distinct(&v, |_| true);
        let mut it = sh.iter();
        let mut out = vec![];
        for i in 0..4 {
            if conc((i % 2 == 0) as u64) == 1 {
                let (lo, hi) = it.size_hint();
                let n = want.len() - out.len();
                check(lo <= n && hi.is_none_or(|h| h >= n), "size hint");
            }
            let p = it.peek_cell();
            let n = it.next();
            check(p == n.as_ref().map(|(p, _)| *p), "the next cell is the one announced");
            match n {
                Some((p, c)) => out.push((p, num(c.value()))),
                None => break,
            }
        }
        check(it.next().is_none(), "end of the cells");
        same(out.into_iter(), &want, |a, b| a < b);
        let g = sh.used_grid_size();
        let r = v.iter().map(|p| p.0).max().unwrap_or(0);
        let c = v.iter().map(|p| p.1).max().unwrap_or(0);
        check(g == (r + 1, c + 1), "used area");
        cover("iter");
    }
    // two cells anywhere, any two positions as bounds of a range in reading order
    fn p19_range() {
        ordered(2); // cover("range")
    }
    // [thorough] same, three cells
    fn p19_range3() {
        ordered(3); // cover("range")
    }
    // two cells in 4 rows and columns, any rectangle there, row by row
    fn p19_rows() {
        rect(true, 2);
        cover("rows");
    }
    // same, column by column
    fn p19_cols() {
        rect(false, 2);
        cover("cols");
    }
    // [thorough] three cells, row by row
    fn p19_rows3() {
        rect(true, 3);
        cover("rows");
    }
    // [thorough] three cells, column by column
    fn p19_cols3() {
        rect(false, 3);
        cover("cols");
    }
    // display of a group: exactly the rows or columns of the group change
    fn p19_group() {
        let (rows, on) = (choose(2) == 1, choose(2) == 1);
        let (f, n, g, o) = (choose(4) as u32, choose(3) as u32, choose(4) as u32, choose(3) as u32);
        let (t, h) = (f + n, g + o);
        // nested or apart
        assume(f <= g && h <= t || g <= f && t <= h || t < g || h < f);
        assume((f, t) != (g, h));
        let mut sh = Sheet::new("s");
        for i in 0..9 {
            if i % 2 == 0 {
                if rows {
                    sh.set_row_visible(i, Visibility::Filtered);
                } else {
                    sh.set_col_visible(i, Visibility::Filtered);
                }
            }
        }
        if rows {
            sh.add_row_group(f, t);
            sh.add_row_group(g, h);
            sh.set_row_group_displayed(g, h, on);
        } else {
            sh.add_col_group(f, t);
            sh.add_col_group(g, h);
            sh.set_col_group_displayed(g, h, on);
        }
        for i in 0..9 {
            let v = if rows { sh.row_visible(i) } else { sh.col_visible(i) };
            let want = match (i >= g && i <= h, on) {
                (true, true) => "visible",
                (true, false) => "collapse",
                _ if i % 2 == 0 => "filter",
                _ => "visible",
            };
            check(v.to_string() == want, "visibility");
        }
        let all: Vec<(u32, u32, bool)> = if rows {
            sh.row_group_iter().map(|g| (g.from(), g.to(), g.display())).collect()
        } else {
            sh.col_group_iter().map(|g| (g.from(), g.to(), g.display())).collect()
        };
        check(all.len() == 2 && all.contains(&(f, t, true)) && all.contains(&(g, h, on)), "groups");
        if rows {
            sh.remove_row_group(f, t);
            check(sh.row_group_count() == 1 && sh.row_group(0).is_some_and(|x| (x.from(), x.to()) == (g, h)), "remaining group");
        } else {
            sh.remove_col_group(f, t);
            check(sh.col_group_count() == 1 && sh.col_group(0).is_some_and(|x| (x.from(), x.to()) == (g, h)), "remaining group");
        }
        cover("group");
    }
    // any history of four operations on the list of sheets
    fn p19_sheets() {
        let mut wb = WorkBook::new_empty();
        let mut m: Vec<(u64, i32)> = vec![];
        wb.push_sheet(Sheet::new("n0"));
        m.push((0, 0));
        for i in 1..5u64 {
            let mut sh = Sheet::new(N[i as usize]);
            sh.set_value(0, 0, i as i32);
            let k = choose(5);
            let at = |n: usize| choose(n as u64) as usize;
            match k {
                0 => {
                    wb.push_sheet(sh);
                    m.push((i, i as i32));
                }
                1 => {
                    let a = at(m.len() + 1);
                    wb.insert_sheet(a, sh);
                    m.insert(a, (i, i as i32));
                }
                2 if !m.is_empty() => {
                    let a = at(m.len());
                    let s = wb.remove_sheet(a);
                    let x = m.remove(a);
                    check(s.name() == N[x.0 as usize], "removed sheet");
                }
                3 if !m.is_empty() => {
                    let a = at(m.len());
                    let mut s = wb.detach_sheet(a);
                    s.set_value(0, 0, 10 * i as i32);
                    // the workbook changes meanwhile
                    wb.push_sheet(sh);
                    wb.attach_sheet(s);
                    m[a].1 = 10 * i as i32;
                    m.push((i, i as i32));
                }
                4 if !m.is_empty() => {
                    let a = at(m.len());
                    wb.sheet_mut(a).set_value(0, 0, 20 * i as i32);
                    m[a].1 = 20 * i as i32;
                }
                _ => {}
            }
        }
        check(wb.num_sheets() == m.len() && wb.iter_sheets().count() == m.len(), "number of sheets");
        for (i, s) in wb.iter_sheets().enumerate() {
            let n = N[m[i].0 as usize];
            check(s.name() == n && wb.sheet(i).name() == n, "order of the sheets");
            check(m[i].1 == 0 || num(s.value(0, 0)) == m[i].1, "content of the sheet");
            check(wb.sheet_idx(n) == Some(i), "sheet by name");
        }
        check(wb.sheet_idx("n9").is_none(), "no such sheet");
        cover("sheets");
    }
}
