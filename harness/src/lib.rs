//! Primitives of the harnesses. The symbolic executor gives them their symbolic meaning,
//! rt/sym.c the native one (replay).
pub mod xml;
mod raw {
    extern "C" {
        pub fn __sym_open(p: *const u8, n: usize);
        pub fn __sym_int(bits: u32) -> u64;
        pub fn __sym_range(lo: u64, hi: u64) -> u64;
        pub fn __sym_conc(v: u64) -> u64;
        pub fn __sym_bytes(p: *mut u8, n: usize);
        pub fn __sym_assume(b: bool);
        pub fn __sym_assert(b: bool, m: *const u8, n: usize);
        pub fn __sym_cover(m: *const u8, n: usize);
        pub fn __sym_known(m: *const u8, n: usize);
        pub fn __sym_trace(p: *const u8, n: usize);
        pub fn __sym_finish();
    }
}

/// any byte
pub fn any_u8() -> u8 {
    unsafe { raw::__sym_int(8) as u8 }
}
pub fn any_bool() -> bool {
    unsafe { raw::__sym_int(1) != 0 }
}
pub fn any_u16() -> u16 {
    unsafe { raw::__sym_int(16) as u16 }
}
pub fn any_u32() -> u32 {
    unsafe { raw::__sym_int(32) as u32 }
}
pub fn any_i32() -> i32 {
    unsafe { raw::__sym_int(32) as i32 }
}
pub fn any_u64() -> u64 {
    unsafe { raw::__sym_int(64) }
}
/// any value of lo..=hi
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { raw::__sym_range(lo, hi) }
}
pub fn range32(lo: u32, hi: u32) -> u32 {
    range(lo as u64, hi as u64) as u32
}
/// any of 0..n, decided: one path per value
pub fn choose(n: u64) -> u64 {
    unsafe { raw::__sym_conc(raw::__sym_range(0, n - 1)) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { raw::__sym_conc(v) }
}
pub fn any_bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { raw::__sym_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn assume(b: bool) {
    unsafe { raw::__sym_assume(b) }
}
pub fn check(b: bool, m: &str) {
    unsafe { raw::__sym_assert(b, m.as_ptr(), m.len()) }
}
pub fn cover(m: &str) {
    unsafe { raw::__sym_cover(m.as_ptr(), m.len()) }
}
/// What fails from here on is the recorded finding `id` of known-findings.json.
pub fn known(id: &str) {
    unsafe { raw::__sym_known(id.as_ptr(), id.len()) }
}
pub fn trace(b: &[u8]) {
    unsafe { raw::__sym_trace(b.as_ptr(), b.len()) }
}
/// a string of at most `max` bytes: any valid UTF-8
pub fn any_string(max: usize) -> String {
    let n = choose(max as u64 + 1) as usize;
    let mut b = vec![0u8; n];
    unsafe { raw::__sym_bytes(b.as_mut_ptr(), n) };
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
/// Same; the bytes that are escaped in XML are told apart, one path each.
pub fn any_text(max: usize) -> String {
    let s = any_string(max);
    for b in s.bytes() {
        for c in [b'<', b'>', b'&', b'"', b'\'', b'\r', b'\n', b'\t'] {
            if conc((b == c) as u64) == 1 {
                break;
            }
        }
    }
    s
}
/// a string of exactly n ASCII bytes out of lo..=hi
pub fn ascii_string(n: usize, lo: u8, hi: u8) -> String {
    let mut b = vec![0u8; n];
    unsafe { raw::__sym_bytes(b.as_mut_ptr(), n) };
    for c in &b {
        assume(*c >= lo && *c <= hi && *c < 0x80);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
/// one of the given values
pub fn pick<'a, T>(v: &'a [T]) -> &'a T {
    &v[choose(v.len() as u64) as usize]
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[no_mangle] #[inline(never)] pub extern "C" fn $n() $b )*
        fn main() {
            $crate::native_main(&[$((stringify!($n), $n as extern "C" fn())),*]);
        }
    };
}

pub fn native_main(h: &[(&str, extern "C" fn())]) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for (n, _) in h {
            println!("{}", n);
        }
        return;
    }
    unsafe { raw::__sym_open(a[2].as_ptr(), a[2].len()) };
    for (n, f) in h {
        if *n == a[1] {
            f();
            unsafe { raw::__sym_finish() };
            return;
        }
    }
    eprintln!("no harness {}", a[1]);
    std::process::exit(3);
}

/// Writes the workbook as flat XML.
pub fn write(wb: &mut spreadsheet_ods::WorkBook) -> Option<Vec<u8>> {
    match spreadsheet_ods::write_fods_buf(wb, Vec::new()) {
        Ok(b) => {
            trace(&b);
            Some(b)
        }
        Err(_) => {
            check(false, "the document cannot be written");
            None
        }
    }
}
/// Writes the workbook as flat XML and reads it again.
pub fn roundtrip(wb: &mut spreadsheet_ods::WorkBook) -> Option<spreadsheet_ods::WorkBook> {
    let b = write(wb)?;
    match spreadsheet_ods::read_fods_buf(&b) {
        Ok(b) => Some(b),
        Err(_) => {
            check(false, "the written document cannot be read");
            None
        }
    }
}
/// Same through the zip container.
pub fn roundtrip_ods(wb: &mut spreadsheet_ods::WorkBook) -> Option<spreadsheet_ods::WorkBook> {
    let b = match spreadsheet_ods::write_ods_buf(wb, Vec::new()) {
        Ok(b) => b,
        Err(_) => {
            check(false, "the document cannot be written");
            return None;
        }
    };
    trace(&b);
    match spreadsheet_ods::read_ods_buf(&b) {
        Ok(b) => Some(b),
        Err(_) => {
            check(false, "the written document cannot be read");
            None
        }
    }
}
/// reads with the given options
pub fn reread(wb: &mut spreadsheet_ods::WorkBook, o: spreadsheet_ods::OdsOptions) -> Option<spreadsheet_ods::WorkBook> {
    let b = write(wb)?;
    match o.read_fods(&b[..]) {
        Ok(b) => Some(b),
        Err(_) => {
            check(false, "the written document cannot be read");
            None
        }
    }
}

/// the value of an attribute inside of a start tag
pub fn attr_of<'a>(tag: &'a str, name: &str) -> Option<&'a str> {
    let mut s = tag;
    loop {
        let i = s.find(name)?;
        let r = &s[i + name.len()..];
        if s[..i].ends_with(' ') && r.starts_with("=\"") {
            let r = &r[2..];
            return Some(&r[..r.find('"')?]);
        }
        s = r;
    }
}
/// the cells of the first table as written: row, column, covered?, number of columns
pub fn written_cells(doc: &[u8]) -> Vec<(u32, u32, bool, u32)> {
    let s = std::str::from_utf8(doc).unwrap_or("");
    let mut out = vec![];
    let mut s = match s.find("<table:table ") {
        Some(i) => &s[i..],
        None => return out,
    };
    let (mut row, mut next, mut col) = (0u32, 0u32, 0u32);
    while let Some(i) = s.find('<') {
        s = &s[i + 1..];
        let Some(e) = s.find('>') else { break };
        let tag = &s[..e];
        let n = |a: &str| attr_of(tag, a).and_then(|v| v.parse::<u32>().ok()).unwrap_or(1);
        let name = &tag[..tag.find(|c: char| c == ' ' || c == '/').unwrap_or(tag.len())];
        match name {
            "table:table-row" => {
                row = next;
                next = row.saturating_add(n("table:number-rows-repeated"));
                col = 0;
            }
            "table:table-cell" | "table:covered-table-cell" => {
                let k = n("table:number-columns-repeated");
                out.push((row, col, name.len() > 16, k));
                col = col.saturating_add(k);
            }
            _ => {}
        }
        if tag.starts_with("/table:table") && tag.len() == 12 {
            break;
        }
        s = &s[e..];
    }
    out
}

/// a flat document with the given content of office:spreadsheet
pub fn flat(content: &[u8]) -> Vec<u8> {
    let mut v = br#"<?xml version="1.0" encoding="UTF-8"?><office:document office:mimetype="application/vnd.oasis.opendocument.spreadsheet" office:version="1.3"><office:body><office:spreadsheet>"#.to_vec();
    v.extend_from_slice(content);
    v.extend_from_slice(b"</office:spreadsheet></office:body></office:document>");
    v
}
/// reads a document with a single cell with these attributes
pub fn read_cell(attr: &[u8]) -> Option<(spreadsheet_ods::WorkBook, spreadsheet_ods::Value)> {
    let mut v = b"<table:table table:name=\"t\"><table:table-row><table:table-cell ".to_vec();
    v.extend_from_slice(attr);
    v.extend_from_slice(b"><text:p>x</text:p></table:table-cell></table:table-row></table:table>");
    let wb = spreadsheet_ods::read_fods_buf(&flat(&v)).ok()?;
    let x = wb.sheet(0).value(0, 0).clone();
    Some((wb, x))
}

use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
/// the content with adjacent texts joined
fn joined(t: &XmlTag) -> Vec<XmlContent> {
    let mut v: Vec<XmlContent> = vec![];
    for c in t.content() {
        match (v.last_mut(), c) {
            (_, XmlContent::Text(s)) if s.is_empty() => {}
            (Some(XmlContent::Text(a)), XmlContent::Text(s)) => a.push_str(s),
            _ => v.push(c.clone()),
        }
    }
    v
}
/// same name, attributes in any order, and content
pub fn same_tag(a: &XmlTag, b: &XmlTag) -> bool {
    let (x, y) = (joined(a), joined(b));
    a.name() == b.name()
        && a.attrmap().iter().count() == b.attrmap().iter().count()
        && a.attrmap().iter().all(|(k, v)| b.attrmap().attr(k.as_ref()) == Some(v))
        && x.len() == y.len()
        && x.iter().zip(&y).all(|(x, y)| match (x, y) {
            (XmlContent::Text(x), XmlContent::Text(y)) => x == y,
            (XmlContent::Tag(x), XmlContent::Tag(y)) => same_tag(x, y),
            _ => false,
        })
}
pub fn same_tags(a: &[XmlTag], b: &[XmlTag]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_tag(x, y))
}
