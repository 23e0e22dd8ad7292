//! P01: text written into cells is the text read back.
use ods_harness::*;
use spreadsheet_ods::text::*;
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
use spreadsheet_ods::*;

fn text(s: &str) {
    let mut wb = WorkBook::new_empty();
    let mut sh = Sheet::new("one");
    sh.set_value(0, 0, s);
    sh.set_value(0, 1, "after");
    wb.push_sheet(sh);
    let Some(wb2) = roundtrip(&mut wb) else { return };
    check(wb2.sheet(0).value(0, 0).as_cow_str_or("?") == s, "text differs");
    check(wb2.sheet(0).value(0, 1).as_cow_str_or("?") == "after", "the next cell differs");
    cover("text compared");
}
/// any text inside concrete text of several lines
fn embedded(s: &str) {
    let t = format!("l1  &lt;\n{}\n<l3> é", s);
    text(&t);
}

/// the text of a tree, tags as brackets
fn flat(t: &XmlTag, o: &mut String) {
    o.push('[');
    o.push_str(t.name());
    if let Some(a) = t.get_attr("text:style-name") {
        o.push('=');
        o.push_str(a);
    }
    o.push('|');
    for c in t.content() {
        match c {
            XmlContent::Text(t) => o.push_str(t),
            XmlContent::Tag(t) => flat(t, o),
        }
    }
    o.push(']');
}
fn all(v: &Value) -> String {
    let mut o = String::new();
    match v {
        Value::TextXml(v) => v.iter().for_each(|t| flat(t, &mut o)),
        Value::Text(t) => {
            for l in t.split('\n') {
                o.push_str("[text:p|");
                o.push_str(l);
                o.push(']');
            }
        }
        _ => o.push('?'),
    }
    o
}

harnesses! {
    // every UTF-8 string of at most 3 bytes
    fn p01_text3() { text(&any_string(3)); }
    // [thorough p01_text3] every UTF-8 string of at most 4 bytes
    fn p01_text4() { text(&any_string(4)); }
    // every UTF-8 string of at most 2 bytes between two lines of fixed text
    fn p01_embedded2() { embedded(&any_string(2)); }
    // [thorough p01_embedded2] every UTF-8 string of at most 3 bytes between two lines of fixed text
    fn p01_embedded3() { embedded(&any_string(3)); }
    // texts of up to 9000 bytes and 90 lines with any ASCII character inside
    fn p01_long() {
        let n = *pick(&[1usize, 7, 300, 9000]);
        let line = *pick(&[0usize, 100]);
        let s = ascii_string(1, 0, 127);
        let mut t = String::new();
        let at = *pick(&[0usize, n / 2, n]);
        for i in 0..n {
            if i == at {
                t.push_str(&s);
            }
            t.push(if line > 0 && i % line == line - 1 { '\n' } else { (b'a' + (i % 26) as u8) as char });
        }
        if at == n {
            t.push_str(&s);
        }
        text(&t);
        cover("long");
    }
    // [thorough] texts of 70000 bytes with any ASCII character inside
    fn p01_longer() {
        let s = ascii_string(1, 0, 127);
        let t = "0123456789abcdef".repeat(35_000 / 16);
        text(&format!("{t}{s}{t}"));
    }
    // a run of 0 to 40 spaces between any two ASCII characters
    fn p01_spaces() {
        let s = ascii_string(2, 0, 127);
        let n = range(0, 40) as usize;
        let n = conc(n as u64) as usize;
        text(&format!("{}{}{}", &s[..1], &"                                        "[..n], &s[1..]));
        cover("spaces");
    }
    // rich text: paragraphs with nested spans, any text of at most 2 bytes UTF-8 at one of six places
    fn p01_rich() {
        let s = any_string(2);
        let k = choose(6);
        let at = |i: u64, d: &str| if i == k { s.clone() } else { d.to_string() };
        let mut p = TextP::new().text(at(0, "a")).tag(TextSpan::new().text(at(1, "b")));
        p = p.text(at(2, "c"));
        let q = TextP::new().tag(TextSpan::new().tag(TextSpan::new().text(at(3, "d")))).text(at(4, "e"));
        let r = TextP::new().text(at(5, "f"));
        let mut v = vec![p.into_xmltag(), q.into_xmltag()];
        v.insert(choose(3) as usize, r.into_xmltag());
        let v = Value::TextXml(v);
        let want = all(&v);
        let mut wb = WorkBook::new_empty();
        let mut sh = Sheet::new("one");
        sh.set_value(0, 0, v);
        sh.set_value(0, 1, "after");
        wb.push_sheet(sh);
        let Some(wb2) = roundtrip(&mut wb) else { return };
        check(all(wb2.sheet(0).value(0, 0)) == want, "rich text differs");
        check(wb2.sheet(0).value(0, 1).as_cow_str_or("?") == "after", "the next cell differs");
        cover("rich");
    }
}
