//! P08: column labels are the bijective base 26 numbers, row labels the 1-based decimals
use ods_harness::*;
use spreadsheet_ods::*;

/// (column label, row label) of a local cell reference without $
fn labels(r: u32, c: u32) -> (Vec<u8>, Vec<u8>) {
    let s = CellRef::local(r, c).to_string();
    let b = s.as_bytes();
    check(b[0] == b'.', "starts with a dot");
    let mut i = 1;
    while i < b.len() && (b[i] < b'0' || b[i] > b'9') {
        i += 1;
    }
    (b[1..i].to_vec(), b[i..].to_vec())
}
fn col_of(l: &[u8]) -> Option<u64> {
    if l.is_empty() {
        return None;
    }
    let mut v = 0u64;
    for &b in l {
        if b < b'A' || b > b'Z' {
            return None;
        }
        v = v.wrapping_mul(26).wrapping_add((b - b'A') as u64 + 1);
    }
    Some(v - 1)
}
fn parse(t: &[u8]) -> Option<CellRef> {
    CellRef::try_from(std::str::from_utf8(t).unwrap()).ok()
}

harnesses! {
    // the label of every column up to ZZZ has the value of the column
    fn p08_col_label() {
        let c = range32(0, 18_277);
        let (l, _) = labels(0, c);
        check(col_of(&l) == Some(c as u64), "label of the column");
        cover("column label");
    }
    // [thorough] the label of every column up to ZZZZ has the value of the column
    fn p08_col_label_all() {
        let c = range32(0, 475_253);
        let (l, _) = labels(0, c);
        check(col_of(&l) == Some(c as u64), "label of the column");
        cover("column label all");
    }
    // the label of every row of u32 is the decimal of the row plus one without leading zeros
    fn p08_row_label() {
        let r = any_u32();
        let (_, l) = labels(r, 0);
        let mut v = 0u64;
        let mut n = 1u64;
        check(!l.is_empty(), "digits");
        for (i, &b) in l.iter().enumerate() {
            check(b >= b'0' && b <= b'9', "digits");
            if i > 0 {
                n *= 10;
            }
            v = v * 10 + (b - b'0') as u64;
        }
        check(v == r as u64 + 1, "label of the row");
        check(r as u64 + 1 >= n, "no leading zeros");
        cover("row label");
    }
    // every label of 1 to 3 bytes: parsed exactly if it is A..Z only, to the column of that label
    fn p08_col_parse() {
        let n = choose(3) as usize + 1;
        let b: [u8; 3] = any_bytes();
        for i in 0..n {
            assume(b[i] >= 0x20 && b[i] < 0x7f && b[i] != b'$' && b[i] != b'.' && b[i] != b'\'' && b[i] != b'#');
            assume(b[i] < b'0' || b[i] > b'9');
        }
        let mut t = vec![b'.'];
        t.extend_from_slice(&b[..n]);
        t.push(b'7');
        let p = parse(&t);
        match (p, col_of(&b[..n])) {
            (Some(p), Some(c)) => {
                check(p.col() as u64 == c && p.row() == 6, "column of the label");
                check(!p.row_abs() && !p.col_abs() && p.table().is_none(), "nothing else");
                cover("parsed column");
            }
            (None, None) => cover("no column"),
            (Some(_), None) => check(false, "not a column label but parsed"),
            (None, Some(_)) => check(false, "column label does not parse"),
        }
    }
    // labels of 7 letters around the last column MWLQKWV, 3 of them any of A..Z: the column or an
    // error; an error for more letters
    fn p08_col_long() {
        let x: [u8; 3] = any_bytes();
        for i in 0..3 {
            assume(x[i] >= b'A' && x[i] <= b'Z');
        }
        let mut b = pick(&["AAAA", "MWLP", "MWLQ", "MWLR", "ZZZZ"]).as_bytes().to_vec();
        b.extend_from_slice(&x);
        let mut t = vec![b'.'];
        t.extend_from_slice(&b);
        if any_bool() {
            t.push(b'X');
            t.push(b'1');
            check(parse(&t).is_none(), "no column with 8 letters");
            return;
        }
        t.push(b'1');
        let c = col_of(&b).unwrap();
        match parse(&t) {
            Some(p) => {
                check(c <= u32::MAX as u64 && p.col() as u64 == c, "column of the label");
                cover("long column");
            }
            None => {
                check(c > u32::MAX as u64, "column label does not parse");
                cover("too long");
            }
        }
    }
    // row labels of 1 to 4 digits, also behind 42949, 999999999999999 or 0: the row or an error
    fn p08_row_parse() {
        let n = choose(4) as usize + 1;
        let b: [u8; 4] = any_bytes();
        let mut t = vec![b'.', b'A'];
        let mut v = 0u64;
        for x in pick(&["", "0", "42949", "429496", "999999999999999"]).bytes() {
            t.push(x);
            v = v * 10 + (x - b'0') as u64;
        }
        for i in 0..n {
            assume(b[i] >= b'0' && b[i] <= b'9');
            t.push(b[i]);
            v = v * 10 + (b[i] - b'0') as u64;
        }
        match parse(&t) {
            Some(p) => {
                check(v > 0 && p.row() as u64 == v - 1, "row of the label");
                cover("parsed row");
            }
            None => {
                check(v == 0 || v > 1 << 32, "row label does not parse");
                cover("no row");
            }
        }
    }
    // the labels are ordered as the columns: shorter before longer, then by letter
    fn p08_order() {
        let (c, d) = (range32(0, 18_277), range32(0, 18_277));
        assume(c < d);
        let ((l, _), (m, _)) = (labels(0, c), labels(0, d));
        check(l.len() < m.len() || (l.len() == m.len() && l < m), "order of the labels");
        cover("order");
    }
}
