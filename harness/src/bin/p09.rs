//! P09: the reference parsers answer for every text, and only what they understood completely
use ods_harness::*;
use spreadsheet_ods::refs::*;
use spreadsheet_ods::*;

fn all(s: &str) {
    if let Ok(a) = parse_cellref(s) {
        check(parse_cellref(&a.to_string()).ok() == Some(a), "cell reference is not stable");
        cover("cell");
    }
    if let Ok(a) = parse_cellrange(s) {
        check(parse_cellrange(&a.to_string()).ok() == Some(a), "cell range is not stable");
    }
    if let Ok(a) = parse_colrange(s) {
        check(parse_colrange(&a.to_string()).ok() == Some(a), "column range is not stable");
    }
    if let Ok(a) = parse_rowrange(s) {
        check(parse_rowrange(&a.to_string()).ok() == Some(a), "row range is not stable");
    }
    if let Ok(Some(a)) = parse_cellranges(s) {
        check(!a.is_empty(), "an empty list");
    }
}
/// `$`? letters `$`? digits: (column absolute, column, row absolute, row)
fn oracle(b: &[u8]) -> Option<(bool, u64, bool, u64)> {
    let mut i = 0;
    let mut ca = false;
    let mut ra = false;
    if i < b.len() && b[i] == b'$' {
        ca = true;
        i += 1;
    }
    let (mut c, i0) = (0u64, i);
    while i < b.len() && b[i] >= b'A' && b[i] <= b'Z' {
        c = c * 26 + (b[i] - b'A') as u64 + 1;
        i += 1;
    }
    if i == i0 {
        return None;
    }
    if i < b.len() && b[i] == b'$' {
        ra = true;
        i += 1;
    }
    let (mut r, i0) = (0u64, i);
    while i < b.len() && b[i] >= b'0' && b[i] <= b'9' {
        r = r * 10 + (b[i] - b'0') as u64;
        i += 1;
    }
    if i == i0 || i < b.len() || r == 0 {
        return None;
    }
    Some((ca, c - 1, ra, r - 1))
}
fn text<const N: usize>() -> ([u8; N], usize) {
    let n = choose(N as u64 + 1) as usize;
    let b: [u8; N] = any_bytes();
    for i in 0..n {
        assume(b[i] < 0x80);
    }
    (b, n)
}

harnesses! {
    // every UTF-8 text of at most 4 bytes, all parsers
    fn p09_any() {
        let s = any_string(4);
        all(&s);
        cover("any");
    }
    // [thorough] every UTF-8 text of at most 6 bytes, all parsers
    fn p09_any6() {
        let s = any_string(6);
        all(&s);
        cover("any");
    }
    // references with 2 arbitrary bytes UTF-8 inserted at some places
    fn p09_insert() {
        let t = *pick(&["'x'#$'y z'.$A$1", "'a''b'.B2:'c'.C3", ".A:.C", "y.1:z.3", ".A1:.B2 'x'.A1:.B2"]);
        let i = choose(t.len() as u64 + 1) as usize;
        let n = any_string(2);
        all(&format!("{}{}{}", &t[..i], n, &t[i..]));
        cover("insert");
    }
    // references with one part dropped: truncated anywhere or without one or two bytes
    fn p09_drop() {
        let t = *pick(&["'x'#$'y z'.$A$1", "'a''b'.B2:'c'.C3", "'x'#.A:$y.$C", "y.1:z.3", ".A1:.B2 'x'.A1:.B2"]);
        let i = choose(t.len() as u64 + 1) as usize;
        let j = *pick(&[i + 1, i + 2, t.len()]);
        assume(j <= t.len());
        all(&format!("{}{}", &t[..i], &t[j.max(i)..]));
        cover("drop");
    }
    // a dot and at most 5 ASCII bytes: a cell exactly if it has the form $A$1, with that row and
    // column
    fn p09_cell() {
        let (b, n) = text::<5>();
        let mut t = vec![b'.'];
        t.extend_from_slice(&b[..n]);
        let s = String::from_utf8(t).unwrap();
        match (parse_cellref(&s), oracle(&b[..n])) {
            (Ok(p), Some((ca, c, ra, r))) => {
                check(p.col() as u64 == c && p.row() as u64 == r, "row or column");
                check(p.col_abs() == ca && p.row_abs() == ra, "$");
                check(p.table().is_none() && p.iri().is_none(), "no table");
                cover("parsed");
            }
            (Err(_), None) => cover("error"),
            (Ok(_), None) => check(false, "not a cell but parsed"),
            (Err(_), Some(_)) => check(false, "cell does not parse"),
        }
    }
    // a range with 2 arbitrary ASCII bytes behind the first row and 2 behind the last: parsed
    // exactly if both cells are well-formed
    fn p09_range() {
        let b: [u8; 4] = any_bytes();
        for x in b {
            assume(x < 0x80 && x != b':');
        }
        let t = [b'A', b[0], b[1]];
        let u = [b'B', b[2], b[3]];
        let mut s = vec![b'.'];
        s.extend_from_slice(&t);
        s.extend_from_slice(b":.");
        s.extend_from_slice(&u);
        let s = String::from_utf8(s).unwrap();
        match (parse_cellrange(&s), oracle(&t), oracle(&u)) {
            (Ok(p), Some(x), Some(y)) => {
                check(p.col() as u64 == x.1 && p.row() as u64 == x.3 && p.to_col() as u64 == y.1 && p.to_row() as u64 == y.3, "row or column");
                check(p.col_abs() == x.0 && p.row_abs() == x.2 && p.to_col_abs() == y.0 && p.to_row_abs() == y.2, "$");
                check(p.table().is_none() && p.to_table().is_none(), "no table");
                cover("parsed range");
            }
            (Ok(_), _, _) => check(false, "not a range but parsed"),
            (Err(_), Some(_), Some(_)) => check(false, "range does not parse"),
            _ => cover("no range"),
        }
    }
}
