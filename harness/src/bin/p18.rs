//! P18: what the library does not model is passed through
use ods_harness::xml::*;
use ods_harness::*;
use spreadsheet_ods::manifest::Manifest;
use spreadsheet_ods::workbook::{EventListener, Script};
use spreadsheet_ods::xlink::*;
use spreadsheet_ods::xmltree::*;
use spreadsheet_ods::*;

/// elements of the workbook before the sheets, after the sheets, of a sheet before and after the rows
const BEFORE: [&str; 8] = [
    "table:calculation-settings",
    "table:label-ranges",
    "table:tracked-changes",
    "text:alphabetical-index-auto-mark-file",
    "text:dde-connection-decls",
    "text:sequence-decls",
    "text:user-field-decls",
    "text:variable-decls",
];
const AFTER: [&str; 6] = ["table:named-expressions", "table:database-ranges", "table:data-pilot-tables", "table:consolidation", "table:dde-links", "calcext:conditional-formats"];
const TOP: [&str; 7] = ["table:title", "table:desc", "table:table-source", "office:dde-source", "table:scenario", "office:forms", "table:shapes"];
const END: [&str; 2] = ["table:named-expressions", "calcext:conditional-formats"];

fn node(name: &str, attr: &[(&str, &str)], kids: Vec<Kid>) -> Node {
    Node { name: name.into(), attr: attr.iter().map(|a| (a.0.to_string(), a.1.to_string())).collect(), kids }
}
fn el(n: Node) -> Kid {
    Kid::Node(n)
}
/// some content, by k, with the text t in it
fn content(name: &str, k: u64, t: &str) -> Node {
    let x = |s: &str| if s.is_empty() { vec![] } else { vec![Kid::Text(s.into())] };
    match k {
        0 => node(name, &[], vec![]),
        1 => node(name, &[("table:a", t), ("b", "1 & 2")], vec![]),
        2 => node(name, &[("table:a", "1")], x(t)),
        3 => node(name, &[], vec![el(node("x:y", &[("q", t)], vec![el(node("x:y", &[], x("in & <in>")))])), el(node("x:z", &[], vec![]))]),
        // an element of the same name inside
        4 => node(name, &[], vec![el(node(name, &[], x(t))), Kid::Text(" between ".into()), el(node(name, &[("a", "")], vec![])), Kid::Text("end".into())]),
        _ => node(name, &[], vec![el(node("text:p", &[], { let mut v = x(t); v.push(el(node("text:s", &[("text:c", "2")], vec![]))); v.extend(x(" b ")); v })), el(node("text:p", &[], vec![]))]),
    }
}
/// a document with these elements in the four places
fn doc(e: [Vec<Node>; 4]) -> Vec<u8> {
    let cell = node("table:table-cell", &[("office:value-type", "float"), ("office:value", "1")], vec![]);
    let [a, b, c, d] = e.map(|v| v.into_iter().map(Kid::Node).collect::<Vec<_>>());
    let mut t = c;
    t.push(el(node("table:table-column", &[], vec![])));
    t.push(el(node("table:table-row", &[], vec![el(cell)])));
    t.extend(d);
    let mut s = a;
    s.push(el(node("table:table", &[("table:name", "t")], t)));
    s.extend(b);
    let n = node("office:document", &[("office:version", "1.3"), ("office:mimetype", "application/vnd.oasis.opendocument.spreadsheet"), ("xmlns:x", "urn:x")], vec![el(node("office:body", &[], vec![el(node("office:spreadsheet", &[], s))]))]);
    print(&n, &Form::default()).into_bytes()
}
fn sorted(mut n: Node) -> Node {
    n.attr.sort();
    for k in &mut n.kids {
        if let Kid::Node(n) = k {
            *n = sorted(std::mem::take(n));
        }
    }
    n
}
/// the elements of the four places
fn found(doc: &[u8]) -> Option<[Vec<Node>; 4]> {
    let n = match parse(doc) {
        Ok(n) => n,
        Err(e) => {
            check(false, e);
            return None;
        }
    };
    let mut r: [Vec<Node>; 4] = Default::default();
    let s = n.at(&["office:body", "office:spreadsheet"])?;
    let mut after = 0;
    for k in s.nodes() {
        if k.name == "table:table" {
            after = 1;
            let mut end = 2;
            for k in k.nodes() {
                match k.name.as_str() {
                    "table:table-column" | "table:table-row" => end = 3,
                    _ => r[end].push(sorted(k.clone())),
                }
            }
        } else {
            r[after].push(sorted(k.clone()));
        }
    }
    Some(r)
}
fn kept(e: [Vec<Node>; 4], twice: bool) {
    let want = e.clone().map(|v| v.into_iter().map(sorted).collect::<Vec<_>>());
    let Ok(mut wb) = read_fods_buf(&doc(e)) else { return check(false, "document is refused") };
    let Some(mut v) = write(&mut wb) else { return };
    if twice {
        let Ok(mut wb) = read_fods_buf(&v) else { return check(false, "written document is refused") };
        let Some(w) = write(&mut wb) else { return };
        v = w;
    }
    let Some(r) = found(&v) else { return check(false, "no sheet written") };
    check(r[0] == want[0], "before the sheets");
    check(r[1] == want[1], "after the sheets");
    check(r[2] == want[2], "begin of the sheet");
    check(r[3] == want[3], "end of the sheet");
    check(wb.num_sheets() == 1 && wb.sheet(0).value(0, 0).as_i32_or(0) == 1, "cells");
}
fn place(p: u64) -> &'static [&'static str] {
    match p {
        0 => &BEFORE,
        1 => &AFTER,
        2 => &TOP,
        _ => &END,
    }
}
fn rt(wb: &mut WorkBook, ods: bool) -> Option<WorkBook> {
    if ods {
        roundtrip_ods(wb)
    } else {
        roundtrip(wb)
    }
}
fn book() -> WorkBook {
    let mut sh = Sheet::new("one");
    sh.set_value(0, 0, 1);
    let mut wb = WorkBook::new_empty();
    wb.push_sheet(sh);
    wb
}
fn ltype(k: u64) -> XLinkType {
    match k {
        0 => XLinkType::Simple,
        1 => XLinkType::Extended,
        2 => XLinkType::Locator,
        3 => XLinkType::Arc,
        4 => XLinkType::Resource,
        5 => XLinkType::Title,
        _ => XLinkType::None,
    }
}
fn listener(n: &str, on: bool, l: u64, t: [&str; 3]) -> EventListener {
    let mut e = EventListener::new();
    e.set_event_name(n.into());
    e.set_actuate(if on { XLinkActuate::OnLoad } else { XLinkActuate::OnRequest });
    e.set_link_type(ltype(l));
    e.set_script_lang(t[0].into());
    e.set_macro_name(t[1].into());
    e.set_href(t[2].into());
    e
}
fn same_listener(a: &WorkBook, b: &WorkBook, n: &str) {
    match (a.event_listener(n), b.event_listener(n)) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            check(x.event_name() == y.event_name(), "name of the event");
            check(x.script_lang() == y.script_lang(), "language of the event");
            check(x.macro_name() == y.macro_name(), "macro of the event");
            check(x.href() == y.href(), "link of the event");
            check(matches!(x.actuate(), XLinkActuate::OnLoad) == matches!(y.actuate(), XLinkActuate::OnLoad), "actuate of the event");
            check(x.link_type().to_string() == y.link_type().to_string(), "link type of the event");
        }
        _ => check(false, "event listener"),
    }
}
fn scripts(max: usize) {
    let t = any_text(max);
    let k = choose(5);
    let s = |i: u64| if i == k { t.as_str() } else { ["a & b", "c<d>", "x"][i as usize % 3] };
    let mut wb = book();
    wb.add_event_listener(listener("dom:load", true, 0, [s(0), s(1), s(2)]));
    let mut x = Script::new();
    x.set_script_lang(s(3).into());
    x.set_script(vec![XmlContent::Tag(XmlTag::new("ooo:libraries").attr("ooo:n", s(4)).tag(XmlTag::new("ooo:l").text(s(4))))]);
    wb.add_script(x);
    let Some(w) = roundtrip(&mut wb) else { return };
    same_listener(&wb, &w, "dom:load");
    check(w.scripts().len() == 1 && w.scripts()[0].script_lang() == s(3), "script");
    let tags = |w: &WorkBook| {
        w.scripts()[0].script().iter().filter_map(|c| match c {
            XmlContent::Tag(t) => Some(t.clone()),
            _ => None,
        }).collect::<Vec<_>>()
    };
    check(same_tags(&tags(&wb), &tags(&w)), "content of the script");
    cover("scripts");
}

harnesses! {
    // one element of the 23 that are passed through, in one of 6 shapes, read and written once or twice
    fn p18_each() {
        let p = choose(4);
        let n = *pick(place(p));
        let mut e: [Vec<Node>; 4] = Default::default();
        e[p as usize].push(content(n, choose(6), "a & <b>"));
        kept(e, choose(2) == 1);
        cover("each");
    }
    // any text of at most 2 bytes UTF-8 as attribute or text, in 5 shapes, in each of the four places
    fn p18_text() {
        let p = choose(4);
        let mut e: [Vec<Node>; 4] = Default::default();
        let k = 1 + choose(5);
        let t = any_text(2);
        assume(t.chars().all(|c| c > '\u{1f}' && c != '\u{fffe}' && c != '\u{ffff}'));
        e[p as usize].push(content(place(p)[0], k, &t));
        kept(e, false);
        cover("text");
    }
    // any two elements of the same place, and one in another place: all of them, in order
    fn p18_several() {
        let p = choose(4);
        let q = choose(4);
        let mut e: [Vec<Node>; 4] = Default::default();
        e[p as usize].push(content(pick(place(p)), 1, "first"));
        e[p as usize].push(content(pick(place(p)), 3, "second"));
        e[q as usize].push(content(place(q)[1], 2, "third"));
        kept(e, false);
        cover("several");
    }
    // scripts and event listeners: one of 5 texts any text of at most 2 bytes UTF-8
    fn p18_scripts() {
        scripts(2); // cover("scripts")
    }
    // [thorough p18_scripts] scripts and event listeners: one of 5 texts any text of at most 3 bytes UTF-8
    fn p18_scripts3() {
        scripts(3); // cover("scripts")
    }
    // up to 2 event listeners and up to 2 scripts, in every state, both formats
    fn p18_counts() {
        let mut wb = book();
        let ods = choose(2) == 1;
        let (n, m) = (choose(3), choose(3));
        for i in 0..n {
            let l = if i == 0 && !ods { choose(7) } else { 6 * choose(2) };
            let e = listener(["dom:load", "a & b"][i as usize], i == 1 || choose(2) == 1, l, ["ooo:script", "m", "vnd:x?a&b"]);
            wb.add_event_listener(e);
        }
        for i in 0..m {
            let mut s = Script::new();
            s.set_script_lang(["A", "B & C"][i as usize].into());
            if choose(2) == 1 {
                s.set_script(vec![XmlContent::Tag(XmlTag::new("ooo:x").text("a < b"))]);
            }
            wb.add_script(s);
        }
        let Some(w) = rt(&mut wb, ods) else { return };
        check(w.iter_event_listeners().count() == n as usize, "number of event listeners");
        same_listener(&wb, &w, "dom:load");
        same_listener(&wb, &w, "a & b");
        check(w.scripts().len() == m as usize, "number of scripts");
        for (x, y) in wb.iter_scripts().zip(w.iter_scripts()) {
            check(x.script_lang() == y.script_lang(), "language of the script");
            let t = |s: &Script| s.script().iter().filter_map(|c| match c {
                XmlContent::Tag(t) => Some(t.clone()),
                _ => None,
            }).collect::<Vec<_>>();
            check(same_tags(&t(x), &t(y)), "content of the script");
        }
        cover("counts");
    }
    // up to 3 further files of a package: names, types, versions and sizes from lists, written once or twice
    fn p18_files() {
        let mut wb = book();
        let n = choose(4);
        let mut v: Vec<Manifest> = vec![];
        for i in 0..n {
            // one of the files takes all the values
            let all = i == n - 1;
            let choose = |k: u64| if all { choose(k) } else { k - 1 };
            let name = ["Pictures/a.png", "Object 1/content.xml", "x & <y>.bin"][i as usize];
            let buf = match choose(3) {
                0 => vec![],
                1 => vec![0, 255, 10, 13, 60],
                _ => (0..40u8).map(|b| b ^ i as u8).collect(),
            };
            let mut m = Manifest::with_buf(name, ["", "image/png", "a & <b>"][choose(3) as usize], buf);
            if choose(2) == 1 {
                m.version = Some("1.2".into());
            }
            v.push(m.clone());
            wb.add_manifest(m);
        }
        let Some(mut w) = roundtrip_ods(&mut wb) else { return };
        if n < 2 && choose(2) == 1 {
            let Some(x) = roundtrip_ods(&mut w) else { return };
            w = x;
        }
        for m in &v {
            let Some(x) = w.manifest(&m.full_path) else { return check(false, "file is missing") };
            check(x.full_path == m.full_path && x.media_type == m.media_type && x.version == m.version, "entry of the file");
            check(x.buffer == m.buffer, "content of the file");
        }
        cover("files");
    }
}
