//! P20: documents that are the same XML are read alike
use ods_harness::xml::*;
use ods_harness::*;
use spreadsheet_ods::*;

const NS: [&str; 21] = [
    "office", "table", "text", "style", "fo", "number", "draw", "svg", "xlink", "dc", "meta", "script", "config", "calcext", "ooo", "loext", "form", "chart", "presentation", "tableooo", "of",
];
fn doc(body: &str) -> Node {
    let mut s = String::from("<office:document office:version=\"1.3\" office:mimetype=\"application/vnd.oasis.opendocument.spreadsheet\"");
    for n in NS {
        s.push_str(" xmlns:");
        s.push_str(n);
        s.push_str("=\"urn:");
        s.push_str(n);
        s.push('"');
    }
    s.push('>');
    s.push_str(body);
    s.push_str("</office:document>");
    let r = parse(s.as_bytes());
    if let Err(e) = r {
        check(false, e);
    }
    r.unwrap_or_default()
}
fn sheet(s: &str) -> Node {
    doc(&["<office:body><office:spreadsheet>", s, "</office:spreadsheet></office:body>"].concat())
}
const CELLS: &str = r#"<table:table table:name="t 1" table:style-name="ta"><table:table-column table:number-columns-repeated="3"/><table:table-row table:style-name="r1"><table:table-cell office:value-type="float" office:value="1.5" table:style-name="c1"><text:p>1,5</text:p></table:table-cell><table:table-cell office:value-type="string" table:number-columns-spanned="2" table:number-rows-spanned="1"><text:p>a &amp; b</text:p></table:table-cell><table:covered-table-cell/><table:table-cell office:value-type="boolean" office:boolean-value="true" table:formula="of:=[.A1]&gt;1"><text:p>TRUE</text:p></table:table-cell></table:table-row><table:table-row table:number-rows-repeated="2"><table:table-cell table:number-columns-repeated="2" office:value-type="percentage" office:value="0.5"/><table:table-cell office:value-type="currency" office:currency="EUR" office:value="3"/></table:table-row><table:table-row><table:table-cell table:style-name="c1"/><table:table-cell/><table:table-cell office:value-type="date" office:date-value="2020-02-03"/><table:table-cell office:value-type="time" office:time-value="PT01H02M03S"/><table:covered-table-cell table:style-name="c1"/><table:covered-table-cell office:value-type="float" office:value="7"/></table:table-row></table:table>"#;
const TEXTS: &str = r#"<table:table table:name="t"><table:table-column/><table:table-row><table:table-cell office:value-type="string"><office:annotation office:display="true" draw:style-name="g" svg:width="1cm"><dc:creator>me &lt;x&gt;</dc:creator><dc:date>2020-01-02T03:04:05</dc:date><text:p>note</text:p><text:p/></office:annotation><text:p>one<text:s text:c="2"/>two<text:tab/>x<text:span text:style-name="s">in <text:s/>span</text:span><text:line-break/></text:p><text:p/><text:p>last<text:a xlink:href="u?a=1&amp;b">l</text:a></text:p></table:table-cell><table:table-cell office:value-type="string"><text:p>plain</text:p><text:p>second</text:p></table:table-cell><table:table-cell><draw:frame draw:z-index="1" svg:width="2cm"><draw:image xlink:href="Pictures/a.png" xlink:type="simple"><text:p/></draw:image><svg:title>ti</svg:title><svg:desc>de &amp; sc</svg:desc></draw:frame></table:table-cell></table:table-row></table:table>"#;
const HEADS: &str = r#"<table:table table:name="t" table:print="false" table:print-ranges="t.A1:t.B2"><table:table-column-group><table:table-column table:style-name="co1"/><table:table-column-group table:display="false"><table:table-column table:style-name="co2" table:visibility="collapse"/></table:table-column-group></table:table-column-group><table:table-header-columns><table:table-column table:default-cell-style-name="c1" table:number-columns-repeated="2"/></table:table-header-columns><table:table-column/><table:table-header-rows><table:table-row table:style-name="r1"><table:table-cell office:value-type="float" office:value="1"/><table:table-cell table:number-columns-repeated="3"/><table:table-cell office:value-type="float" office:value="1"/></table:table-row></table:table-header-rows><table:table-row-group><table:table-row table:visibility="filter"><table:table-cell office:value-type="float" office:value="2"/></table:table-row><table:table-row-group table:display="false"><table:table-row table:number-rows-repeated="2" table:default-cell-style-name="c1"><table:table-cell/></table:table-row></table:table-row-group></table:table-row-group><table:table-row><table:table-cell office:value-type="float" office:value="3"/></table:table-row></table:table>"#;
const EMPTY_ROW: &str = r#"<table:table table:name="t"><table:table-column/><table:table-row><table:table-cell office:value-type="float" office:value="1"/></table:table-row><table:table-row table:number-rows-repeated="3" table:style-name="r1"/><table:table-row/><table:table-row><table:table-cell office:value-type="float" office:value="2"/></table:table-row></table:table>"#;
const STYLES: &str = r#"<office:font-face-decls><style:font-face style:name="F" svg:font-family="F &amp; G"/></office:font-face-decls><office:styles><style:default-style style:family="table-cell"><style:text-properties fo:language="de"/><style:paragraph-properties style:tab-stop-distance="1cm"/></style:default-style><style:style style:name="Default" style:family="table-cell"/><number:number-style style:name="N1"><number:number number:decimal-places="2" number:min-integer-digits="1"/><number:text> x</number:text></number:number-style><style:style style:name="n1" style:display-name="n 1" style:family="table-cell" style:data-style-name="N1" style:parent-style-name="Default"><style:table-cell-properties fo:background-color="red"/><style:text-properties fo:font-weight="bold"/><style:map style:condition="cell-content()&gt;1" style:apply-style-name="Default" style:base-cell-address="t.A1"/></style:style></office:styles><office:automatic-styles><style:style style:name="co1" style:family="table-column"><style:table-column-properties style:column-width="2cm"/></style:style><style:style style:name="ro1" style:family="table-row"><style:table-row-properties style:row-height="1cm"/></style:style><style:style style:name="ta1" style:family="table" style:master-page-name="M"><style:table-properties table:display="true"/></style:style><style:style style:name="P1" style:family="paragraph"><style:paragraph-properties fo:margin="1cm"><style:tab-stops><style:tab-stop style:position="1cm"/></style:tab-stops></style:paragraph-properties></style:style><number:date-style style:name="N2" number:automatic-order="true"><number:day/><number:text>.</number:text><number:month number:style="long"/></number:date-style><number:text-style style:name="N3"><number:text-content/></number:text-style><number:boolean-style style:name="N4"><number:boolean/></number:boolean-style><number:currency-style style:name="N5"><number:currency-symbol number:language="de">EUR</number:currency-symbol><number:number number:grouping="true"><number:embedded-text number:position="1">-</number:embedded-text></number:number><style:map style:condition="value()&lt;0" style:apply-style-name="N1"/></number:currency-style><style:page-layout style:name="pm1"><style:page-layout-properties fo:margin="1cm"/><style:header-style><style:header-footer-properties fo:min-height="1cm"/></style:header-style><style:footer-style/></style:page-layout></office:automatic-styles><office:master-styles><style:master-page style:name="M" style:page-layout-name="pm1"><style:header><text:p>a<text:s/>b</text:p></style:header><style:header-left style:display="false"/><style:footer><style:region-left><text:p>l</text:p></style:region-left><style:region-right><text:p/></style:region-right></style:footer></style:master-page></office:master-styles><office:body><office:spreadsheet><table:table table:name="t" table:style-name="ta1"><table:table-column table:style-name="co1"/><table:table-row table:style-name="ro1"><table:table-cell office:value-type="float" office:value="1" table:style-name="n1"/></table:table-row></table:table></office:spreadsheet></office:body>"#;
const META: &str = r#"<office:meta><meta:generator>g</meta:generator><dc:title>ti &amp; tle</dc:title><meta:creation-date>2020-01-02T03:04:05</meta:creation-date><dc:date>2020-01-02T03:04:05</dc:date><meta:keyword>k</meta:keyword><dc:creator/><meta:editing-duration>PT1H</meta:editing-duration><meta:editing-cycles>3</meta:editing-cycles><meta:template xlink:href="a" xlink:type="simple" xlink:actuate="onRequest" xlink:title="x"/><meta:auto-reload xlink:href="b" meta:delay="PT1M"/><meta:hyperlink-behaviour office:target-frame-name="_blank" xlink:show="new"/><meta:document-statistic meta:table-count="1" meta:object-count="5"/><meta:user-defined meta:name="u 1" meta:value-type="float">1.5</meta:user-defined><meta:user-defined meta:name="u2">te&lt;xt</meta:user-defined><meta:user-defined meta:name="u3" meta:value-type="boolean">true</meta:user-defined></office:meta><office:settings><config:config-item-set config:name="ooo:view-settings"><config:config-item config:name="a" config:type="int">1</config:config-item><config:config-item config:name="e" config:type="string"/><config:config-item-map-indexed config:name="Views"><config:config-item-map-entry><config:config-item config:name="ActiveTable" config:type="string">t</config:config-item><config:config-item-map-named config:name="Tables"><config:config-item-map-entry config:name="t"><config:config-item config:name="CursorPositionX" config:type="int">4</config:config-item></config:config-item-map-entry></config:config-item-map-named></config:config-item-map-entry></config:config-item-map-indexed></config:config-item-set></office:settings><office:scripts><office:script script:language="ooo:Basic"><ooo:libraries><ooo:x ooo:a="1">c &lt; d</ooo:x><ooo:y/></ooo:libraries></office:script><office:event-listeners><script:event-listener script:language="ooo:script" script:event-name="dom:load" xlink:href="vnd:a?b&amp;c" xlink:type="simple"/></office:event-listeners></office:scripts><office:body><office:spreadsheet><table:calculation-settings table:case-sensitive="false"><table:iteration table:status="enable"/></table:calculation-settings><table:content-validations><table:content-validation table:name="v1" table:condition="of:cell-content()&gt;1" table:base-cell-address="t.A1"><table:help-message table:title="h"><text:p>he lp</text:p></table:help-message><table:error-message table:message-type="warning" table:title="e"/></table:content-validation><table:content-validation table:name="v2"/></table:content-validations><table:table table:name="t"><office:forms form:a="1"/><table:table-column/><table:table-row><table:table-cell office:value-type="float" office:value="1" table:content-validation-name="v1"/></table:table-row><table:named-expressions><table:named-range table:name="local" table:cell-range-address="t.A1"/></table:named-expressions></table:table><table:named-expressions><table:named-expression table:name="n" table:expression="of:=1"/></table:named-expressions><table:database-ranges><table:database-range table:name="d"/></table:database-ranges></office:spreadsheet></office:body>"#;

/// children that have no order of their own, and attributes, in a fixed order
fn canon(n: &mut Node) {
    n.attr.sort();
    for k in &mut n.kids {
        if let Kid::Node(n) = k {
            canon(n);
        }
    }
    if matches!(n.name.as_str(), "office:styles" | "office:automatic-styles" | "office:master-styles" | "office:font-face-decls" | "office:event-listeners" | "table:content-validations")
        || n.name.starts_with("config:")
    {
        n.kids.sort_by_key(|k| match k {
            Kid::Node(n) => (n.name.clone(), n.attr.first().cloned(), n.attr.get(1).cloned(), n.attr.last().cloned()),
            Kid::Text(t) => (t.clone(), None, None, None),
        });
    }
}
/// what the reader made of it
fn seen(doc: &[u8], what: &str) -> Node {
    match read_fods_buf(doc) {
        Err(_) => {
            check(false, what);
            Node::default()
        }
        Ok(mut wb) => {
            let Some(v) = write(&mut wb) else {
                check(false, "not written");
                return Node::default();
            };
            let Ok(mut n) = parse(&v) else {
                check(false, "not written as XML");
                return Node::default();
            };
            n.trim();
            canon(&mut n);
            n
        }
    }
}
fn alike(n: &Node, f: &Form) {
    let a = seen(print(n, &Form::default()).as_bytes(), "document is refused");
    let b = seen(print(n, f).as_bytes(), "document of another form is refused");
    check(a == b, "same document, other content");
}
/// one deviation from the default form, or all of them
fn form() -> Form {
    let mut f = Form::default();
    match choose(15) {
        0 => f.bare = true,
        1 => f.empty = 1,
        2 => f.empty = 2,
        3 => f.turn = true,
        4 => f.quote = true,
        5 => f.between = 1,
        6 => f.between = 2,
        7 => f.between = 3,
        8 => f.text = 1,
        9 => f.text = 2,
        10 => f.text = 3,
        11 => f.text = 4,
        12 => f = Form { bare: true, empty: 2, turn: true, quote: true, between: 1, text: 2 },
        13 => f = Form { bare: false, empty: 1, turn: true, quote: true, between: 2, text: 4 },
        _ => f = Form { bare: true, empty: 2, turn: true, quote: false, between: 3, text: 1 },
    }
    f
}
fn text(t: &str) {
    let p = |t: &str| Node { name: "text:p".into(), attr: vec![], kids: vec![Kid::Text(t.into())] };
    let mut n = sheet(r#"<table:table table:name="t"><table:table-column/><table:table-row><table:table-cell office:value-type="string"><office:annotation/></table:table-cell></table:table-row></table:table>"#);
    fn put(n: &mut Node, p: &Node, t: &str) {
        if n.name == "table:table" {
            n.attr[0].1 = t.to_string();
        }
        for k in &mut n.kids {
            if let Kid::Node(k) = k {
                put(k, p, t);
            }
        }
        if n.name == "office:annotation" || n.name == "table:table-cell" {
            n.kids.push(Kid::Node(p.clone()));
        }
    }
    put(&mut n, &p(t), t);
    let f = Form { text: choose(5) as u8, ..Form::default() };
    let Ok(w) = read_fods_buf(print(&n, &f).as_bytes()) else { return check(false, "document is refused") };
    let s = w.sheet(0);
    check(s.name() == t, "name of the sheet");
    check(s.value(0, 0).as_str_or("").as_bytes() == t.as_bytes(), "text of the cell");
    let a = s.annotation(0, 0).map(|a| {
        a.text().iter().flat_map(|t| t.content()).map(|c| match c {
            xmltree::XmlContent::Text(t) => t.clone(),
            _ => "?".to_string(),
        }).collect::<String>()
    });
    check(a.as_deref() == Some(t), "text of the annotation");
}

/// any form at all
fn any_form() -> Form {
    Form {
        bare: choose(2) == 1,
        empty: choose(3) as u8,
        turn: choose(2) == 1,
        quote: choose(2) == 1,
        between: choose(4) as u8,
        text: choose(5) as u8,
    }
}

harnesses! {
    // cells of every type, with repeats and spans: 12 changes of form and 3 combinations of them
    fn p20_cells() {
        alike(&sheet(CELLS), &form());
        cover("cells");
    }
    // cell texts, annotations and frames: 12 changes of form and 3 combinations of them
    fn p20_texts() {
        alike(&sheet(TEXTS), &form());
        cover("texts");
    }
    // columns, rows, groups and headers: 12 changes of form and 3 combinations of them
    fn p20_heads() {
        alike(&sheet(HEADS), &form());
        cover("heads");
    }
    // rows without cells: 12 changes of form and 3 combinations of them
    fn p20_rows() {
        alike(&sheet(EMPTY_ROW), &form());
        cover("rows");
    }
    // fonts, styles, formats, page styles and master pages: 12 changes of form and 3 combinations of them
    fn p20_styles() {
        alike(&doc(STYLES), &form());
        cover("styles");
    }
    // metadata, settings, scripts, validations and passed-through parts: 12 changes of form and 3 combinations of them
    fn p20_meta() {
        alike(&doc(META), &form());
        cover("meta");
    }
    // cell text, paragraph of an annotation and table name with any text of at most 2 bytes UTF-8, in 5 forms
    fn p20_text() {
        let t = any_text(2);
        assume(!t.is_empty() && t.chars().all(|c| c > '\u{1f}' && c != '\u{fffe}' && c != '\u{ffff}'));
        text(&t);
        cover("text");
    }
    // a cell text of a single character, any of them
    fn p20_char() {
        let c = char::from_u32(any_u32());
        let Some(c) = c else { return assume(false) };
        assume(c > '\u{1f}' && c != '\u{fffe}' && c != '\u{ffff}');
        text(&c.to_string());
        cover("char");
    }
    // parts of a package: 12 changes of form and 3 combinations of them
    fn p20_package() {
        let mut wb = WorkBook::new_empty();
        let mut sh = Sheet::new("a & b");
        sh.set_value(0, 0, "x");
        sh.set_value(3, 1, 7);
        sh.set_col_width(1, style::units::Length::Cm(3.0));
        wb.push_sheet(sh);
        wb.metadata_mut().title = "ti < tle".into();
        wb.add_manifest(manifest::Manifest::with_buf("a.txt", "text/plain", vec![1, 2, 3]));
        let Ok(z) = write_ods_buf_uncompressed(&mut wb, vec![]) else { return check(false, "not written") };
        let mut parts = unzip(&z);
        check(parts.len() > 6, "parts of the package");
        let f = form();
        for p in &mut parts {
            if p.0.ends_with(".xml") {
                match parse(&p.1) {
                    Ok(mut n) => {
                        n.trim();
                        p.1 = print(&n, &f).into_bytes()
                    }
                    Err(e) => check(false, e),
                }
            }
        }
        let Ok(mut w) = read_ods_buf(&zip(&parts)) else { return check(false, "package of another form is refused") };
        let s = w.sheet(0);
        check(s.name() == "a & b" && s.value(0, 0).as_str_or("") == "x" && s.value(3, 1).as_i32_or(0) == 7 && s.cell_count() == 2, "cells");
        check(s.col_width(1) == style::units::Length::Cm(3.0), "column width");
        check(w.metadata().title == "ti < tle", "title");
        check(w.manifest("a.txt").is_some_and(|m| m.media_type == "text/plain" && m.buffer.as_deref() == Some(&[1, 2, 3])), "extra file");
        let Ok(mut wb) = read_ods_buf(&z) else { return check(false, "package is refused") };
        let a = write(&mut wb).and_then(|v| parse(&v).ok());
        let b = write(&mut w).and_then(|v| parse(&v).ok());
        check(a.as_ref().and_then(|n| n.find("table:table")) == b.as_ref().and_then(|n| n.find("table:table")), "same sheet");
        cover("package");
    }
    // [thorough p20_cells] cells of every type: all 480 combinations of forms
    fn p20_cells_all() {
        alike(&sheet(CELLS), &any_form());
        cover("cells");
    }
    // [thorough p20_texts] cell texts, annotations and frames: all 480 combinations of forms
    fn p20_texts_all() {
        alike(&sheet(TEXTS), &any_form());
        cover("texts");
    }
    // [thorough p20_heads] columns, rows, groups and headers: all 480 combinations of forms
    fn p20_heads_all() {
        alike(&sheet(HEADS), &any_form());
        cover("heads");
    }
    // [thorough p20_rows] rows without cells: all 480 combinations of forms
    fn p20_rows_all() {
        alike(&sheet(EMPTY_ROW), &any_form());
        cover("rows");
    }
    // [thorough p20_styles] styles: all 480 combinations of forms
    fn p20_styles_all() {
        alike(&doc(STYLES), &any_form());
        cover("styles");
    }
    // [thorough p20_meta] metadata, settings, scripts, validations: all 480 combinations of forms
    fn p20_meta_all() {
        alike(&doc(META), &any_form());
        cover("meta");
    }
}
