//! P21: written documents are XML that says what was set
use ods_harness::xml::*;
use ods_harness::*;
use spreadsheet_ods::condition::Condition;
use spreadsheet_ods::draw::*;
use spreadsheet_ods::format::ValueFormatTrait;
use spreadsheet_ods::manifest::Manifest;
use spreadsheet_ods::metadata::*;
use spreadsheet_ods::style::stylemap::StyleMap;
use spreadsheet_ods::style::*;
use spreadsheet_ods::text::*;
use spreadsheet_ods::validation::*;
use spreadsheet_ods::workbook::{EventListener, Script};
use spreadsheet_ods::xmltree::*;
use spreadsheet_ods::*;

/// where the texts of `book` are found: element and attribute, or its text
const WHERE: [(&str, &str); 34] = [
    ("table:table", "table:name"),
    ("text:p", ""),
    ("table:table-cell", "table:formula"),
    ("table:table-cell", "office:currency"),
    ("table:table-cell", "table:style-name"),
    ("table:table-cell", "table:content-validation-name"),
    ("office:annotation", "office:name"),
    ("dc:creator", ""),
    ("draw:frame", "draw:name"),
    ("svg:title", ""),
    ("draw:image", "xlink:href"),
    ("table:content-validation", "table:name"),
    ("table:help-message", "table:title"),
    ("table:error-message", "table:title"),
    ("style:style", "style:display-name"),
    ("style:table-cell-properties", "fo:background-color"),
    ("style:map", "style:apply-style-name"),
    ("style:font-face", "svg:font-family"),
    ("style:page-layout-properties", "fo:margin"),
    ("style:master-page", "style:display-name"),
    ("number:text", ""),
    ("number:currency-symbol", ""),
    ("dc:title", ""),
    ("meta:keyword", ""),
    ("meta:user-defined", "meta:name"),
    ("meta:user-defined", ""),
    ("meta:template", "xlink:href"),
    ("config:config-item", ""),
    ("script:event-listener", "xlink:href"),
    ("office:script", "script:language"),
    ("ooo:libraries", "ooo:name"),
    ("ooo:libraries", ""),
    ("table:table-row", "table:style-name"),
    ("style:header", ""),
];
const NONE: usize = 99;

/// a workbook with something of everything; the text number k is t
fn book(k: usize, t: &str) -> WorkBook {
    let s = |i: usize| if i == k { t.to_string() } else { format!("t{} & <x>", i) };
    let mut sh = Sheet::new(s(0));
    sh.set_value(0, 0, s(1));
    sh.set_formula(0, 1, s(2));
    sh.set_value(0, 2, Value::Currency(2.5, s(3).into()));
    sh.set_cellstyle(0, 3, &CellStyleRef::from(s(4).as_str()));
    sh.set_validation(0, 4, &ValidationRef::from(s(5).as_str()));
    sh.set_rowstyle(0, &RowStyleRef::from(s(32).as_str()));
    let mut a = Annotation::new_empty();
    a.set_name(s(6));
    a.set_creator(Some(s(7)));
    sh.set_annotation(1, 0, a);
    let mut f = DrawFrame::new();
    f.set_draw_name(s(8));
    f.set_title(s(9).as_str());
    let mut im = DrawImage::new();
    im.set_xlink_href(s(10));
    f.push_content(DrawFrameContent::Image(im));
    sh.add_draw_frame(1, 1, f);
    sh.set_value(2, 2, true);
    sh.set_value(3, 0, vec![TextP::new().text("a").tag(TextTag::new("text:span").text("b")).into_xmltag()]);
    let mut wb = WorkBook::new_empty();
    wb.push_sheet(sh);
    let mut v = Validation::new();
    v.set_name(&s(11));
    v.set_condition(Condition::content_gt(1));
    v.set_base_cell(CellRef::local(0, 0));
    let mut h = ValidationHelp::new();
    h.set_title(Some(s(12)));
    v.set_help(Some(h));
    let mut e = ValidationError::new();
    e.set_title(Some(s(13)));
    v.set_err(Some(e));
    wb.add_validation(v);
    let mut c = CellStyle::new_empty();
    c.set_name("c1");
    c.set_display_name(s(14));
    c.cellstyle_mut().set_attr("fo:background-color", s(15));
    c.push_stylemap(StyleMap::new(Condition::content_eq(1), AnyStyleRef::from(s(16).as_str()), Some(CellRef::local(0, 0))));
    wb.add_cellstyle(c);
    let mut f = FontFaceDecl::new("f1");
    f.attrmap_mut().set_attr("svg:font-family", s(17));
    wb.add_font(f);
    let mut p = PageStyle::new("p1");
    p.style_mut().set_attr("fo:margin", s(18));
    wb.add_pagestyle(p);
    let mut m = MasterPage::new("m1");
    m.set_display_name(s(19));
    m.set_pagestyle(&"p1".into());
    let mut h = HeaderFooter::new();
    h.add_content(XmlTag::new("text:p").text(s(33)));
    m.set_header(h);
    wb.add_masterpage(m);
    let mut n = format::ValueFormatNumber::new_empty();
    n.set_name("n1");
    n.part_number().decimal_places(2).build();
    n.part_text(s(20)).build();
    wb.add_number_format(n);
    let mut n = format::ValueFormatCurrency::new_empty();
    n.set_name("n2");
    n.part_currency().symbol(s(21)).build();
    wb.add_currency_format(n);
    let m = wb.metadata_mut();
    m.title = s(22);
    m.keyword = s(23);
    m.user_defined.push(MetaUserDefined { name: s(24), value: MetaValue::String(s(25)) });
    m.template.href = Some(s(26));
    wb.config_mut().active_table = s(27);
    let mut e = EventListener::new();
    e.set_event_name("dom:load".into());
    e.set_href(s(28));
    wb.add_event_listener(e);
    let mut x = Script::new();
    x.set_script_lang(s(29));
    x.set_script(vec![XmlContent::Tag(XmlTag::new("ooo:libraries").attr("ooo:name", s(30).as_str()).text(s(31)))]);
    wb.add_script(x);
    wb
}
/// all values found there
fn values(n: &Node, at: (&str, &str), o: &mut Vec<String>) {
    if n.name == at.0 {
        if at.1.is_empty() {
            let mut s = String::new();
            fn text(n: &Node, s: &mut String) {
                for k in &n.kids {
                    match k {
                        Kid::Text(t) => s.push_str(t),
                        Kid::Node(n) => text(n, s),
                    }
                }
            }
            text(n, &mut s);
            o.push(s);
        } else if let Some(v) = n.attr(at.1) {
            o.push(v.to_string());
        }
    }
    for k in n.nodes() {
        values(k, at, o);
    }
}
fn has(n: &Node, k: usize, t: &str) -> bool {
    let mut o = vec![];
    values(n, WHERE[k], &mut o);
    // elements around it may be followed by a line break
    o.iter().any(|v| v == t || (k == 33 && v.trim_matches('\n') == t.trim_matches('\n')))
}
fn xml(doc: &[u8]) -> Node {
    match parse(doc) {
        Ok(n) => n,
        Err(e) => {
            check(false, e);
            Node::default()
        }
    }
}
fn texts(lo: u64, n: u64, max: usize) {
    let k = (lo + choose(n)) as usize;
    let t = any_text(max);
    assume(!t.is_empty() && legal(&t));
    // lines of a cell are paragraphs
    assume(k != 1 || !t.bytes().any(|b| b == b'\n'));
    let mut wb = book(k, &t);
    let Some(d) = write(&mut wb) else { return };
    let n = xml(&d);
    check(has(&n, k, &t), "the text as an XML parser sees it");
    cover("texts");
}
/// the places of the parts of a sheet
fn table(n: &Node) {
    let mut stage = 0;
    for k in n.nodes() {
        let s = match k.name.as_str() {
            "table:table-column" | "table:table-column-group" | "table:table-header-columns" => 1,
            "table:table-row" | "table:table-row-group" | "table:table-header-rows" => 2,
            _ => {
                check(false, "not a part of a table");
                0
            }
        };
        check(s >= stage, "columns after rows");
        stage = s;
    }
    fn inner(n: &Node, group: &str, one: &str, head: &str) {
        check(n.nodes().count() > 0 || n.name == "table:table", "group without content");
        for k in n.nodes() {
            if k.name == group || k.name == head {
                inner(k, group, one, head);
            } else if n.name == group || n.name == head {
                check(k.name == one, "not a part of a group");
            }
            if k.name == "table:table-row" {
                check(k.nodes().count() > 0 && k.nodes().all(|c| c.name == "table:table-cell" || c.name == "table:covered-table-cell"), "cells of a row");
            }
        }
    }
    let part = |p: &str| Node { name: n.name.clone(), attr: vec![], kids: n.nodes().filter(|k| k.name.starts_with(p)).cloned().map(Kid::Node).collect() };
    let (r, c) = ("table:table-row", "table:table-column");
    let hr = part("table:table-header-rows");
    check(hr.nodes().all(|h| h.nodes().all(|k| k.name.starts_with(r))), "header rows");
    let mut x = part(r);
    x.kids.extend(hr.kids.clone());
    if !x.kids.is_empty() {
        inner(&x, "table:table-row-group", r, "table:table-header-rows");
    }
    let mut x = part(c);
    x.kids.extend(part("table:table-header-columns").kids);
    if !x.kids.is_empty() {
        inner(&x, "table:table-column-group", c, "table:table-header-columns");
    }
}

harnesses! {
    // one of 34 texts of a workbook is any text of at most 1 byte; flat document
    fn p21_texts() {
        texts(0, 34, 1); // cover("texts")
    }
    // [thorough] the first 12 of the texts: at most 2 bytes UTF-8
    fn p21_texts2() {
        texts(0, 12, 2); // cover("texts")
    }
    // [thorough] all of the texts: at most 3 bytes UTF-8
    fn p21_texts3() {
        texts(0, 34, 3); // cover("texts")
    }
    // rows, columns, groups and headers in any arrangement of few: the table has the parts in order
    fn p21_table() {
        let mut sh = Sheet::new("t");
        let n = choose(3);
        for i in 0..n {
            sh.set_value([0, 4][i as usize] + choose(2) as u32, choose(3) as u32, 1);
        }
        let (f, l) = (choose(3) as u32, choose(3) as u32);
        match choose(7) {
            0 => sh.set_header_rows(f, f + l),
            1 => sh.set_header_cols(f, f + l),
            2 => sh.add_row_group(f, f + l),
            3 => sh.add_col_group(f, f + l),
            4 => {
                sh.add_row_group(f, f + l);
                sh.add_row_group(f, f + l + 1);
                sh.set_header_rows(0, 0);
            }
            5 => {
                sh.add_col_group(f, f + l);
                sh.add_col_group(f, f + l + 1);
                sh.set_header_cols(0, 0);
            }
            _ => {
                sh.set_rowstyle(f + 2, &RowStyleRef::from("r"));
                sh.set_colstyle(l, &ColStyleRef::from("c"));
                sh.set_row_span(0, 0, 2);
            }
        }
        let mut wb = WorkBook::new_empty();
        wb.push_sheet(sh);
        let Some(d) = write(&mut wb) else { return };
        let n = xml(&d);
        let Some(t) = n.at(&["office:body", "office:spreadsheet", "table:table"]) else { return check(false, "no table") };
        table(t);
        cover("table");
    }
    // a package, with 0 or 2 further files, written once or twice: every part is XML, listed, and there once
    fn p21_package() {
        let mut wb = book(NONE, "");
        if choose(2) == 1 {
            wb.add_manifest(Manifest::with_buf("Pictures/a & b.png", "image/png", vec![1, 2, 3]));
            wb.add_manifest(Manifest::new("Pictures/", ""));
        }
        let twice = choose(2) == 1;
        if twice {
            let Some(w) = roundtrip_ods(&mut wb) else { return };
            wb = w;
        }
        let Ok(z) = write_ods_buf_uncompressed(&mut wb, vec![]) else { return check(false, "not written") };
        let parts = unzip(&z);
        check(parts.first().is_some_and(|p| p.0 == "mimetype" && p.1 == b"application/vnd.oasis.opendocument.spreadsheet"), "media type comes first");
        let Some(m) = parts.iter().find(|p| p.0 == "META-INF/manifest.xml") else { return check(false, "no manifest") };
        let m = xml(&m.1);
        let mut listed: Vec<&str> = m.nodes().filter_map(|n| n.attr("manifest:full-path")).collect();
        check(listed.len() == m.nodes().count(), "entries without name");
        check(m.nodes().find(|n| n.attr("manifest:full-path") == Some("/")).is_some_and(|n| n.attr("manifest:media-type") == Some("application/vnd.oasis.opendocument.spreadsheet")), "type of the package");
        for (i, p) in parts.iter().enumerate() {
            check(parts[i + 1..].iter().all(|q| q.0 != p.0), "part occurs twice");
            if p.0.ends_with(".xml") || p.0.ends_with(".rdf") {
                xml(&p.1);
            }
            if p.0 != "mimetype" && !p.0.starts_with("META-INF") {
                check(listed.contains(&p.0.as_str()), "part is not listed");
            }
        }
        let docs: Vec<Node> = parts.iter().filter(|p| p.0.ends_with(".xml")).map(|p| xml(&p.1)).collect();
        listed.retain(|n| *n != "/");
        for n in listed {
            check(parts.iter().any(|p| p.0 == n), "listed part is missing");
        }
        for k in 0..WHERE.len() {
            let t = format!("t{} & <x>", k);
            check(docs.iter().any(|n| has(n, k, &t)), "text is missing");
        }
        cover("package");
    }
    // all texts at once, in both documents, after reading again: the document stays well-formed and the same
    fn p21_again() {
        let mut wb = book(NONE, "");
        let Some(d) = write(&mut wb) else { return };
        let Ok(mut w) = read_fods_buf(&d) else { return check(false, "written document is refused") };
        let Some(e) = write(&mut w) else { return };
        let n = xml(&e);
        for k in 0..WHERE.len() {
            check(has(&n, k, &format!("t{} & <x>", k)), "text is missing");
        }
        cover("again");
    }
}
