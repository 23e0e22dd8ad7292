//! P11: no document makes the reader crash or hang
use ods_harness::*;
use spreadsheet_ods::*;

const HEAD: &str = r#"<?xml version="1.0" encoding="UTF-8"?><office:document office:version="1.3">"#;
const TAIL: &str = "</office:document>";
/// for the documents without tables
const ONE: &str = r#"<office:body><office:spreadsheet><table:table table:name="t"><table:table-row><table:table-cell office:value-type="float" office:value="1"/></table:table-row></table:table></office:spreadsheet></office:body>"#;
const TABLE: &str = r##"<office:body><office:spreadsheet><table:table table:name="t" table:style-name="ta" table:print-ranges="t.A1:t.B2" table:display="false"><table:title>x</table:title><office:forms/><table:table-column-group table:display="false"><table:table-header-columns><table:table-column table:style-name="co" table:number-columns-repeated="2" table:visibility="collapse"/></table:table-header-columns></table:table-column-group><table:table-column/><table:table-row-group><table:table-header-rows><table:table-row table:style-name="ro" table:number-rows-repeated="2" table:visibility="filter"><table:table-cell office:value-type="float" office:value="1.5" table:number-columns-repeated="2" table:number-columns-spanned="2" table:number-rows-spanned="2"/><table:covered-table-cell/></table:table-row></table:table-header-rows></table:table-row-group><table:table-row><table:table-cell table:number-columns-repeated="3"/></table:table-row></table:table></office:spreadsheet></office:body>"##;
const CELLS: &str = r##"<office:body><office:spreadsheet><table:table table:name="t"><table:table-row><table:table-cell office:value-type="string" table:formula="of:=1" table:content-validation-name="v" calcext:value-type="string"><office:annotation office:display="true" draw:name="n"><dc:creator>me</dc:creator><dc:date>2001-02-03T04:05:06</dc:date><text:p>note</text:p></office:annotation><draw:frame draw:name="f"><draw:image xlink:href="p"><office:binary-data>AAAA</office:binary-data><text:p>i</text:p></draw:image><svg:title>t</svg:title><svg:desc>d</svg:desc></draw:frame><text:p>a&lt;<text:s text:c="2"/>b<text:span text:style-name="T">c&#65;</text:span></text:p><text:p/></table:table-cell><table:table-cell office:value-type="date" office:date-value="2001-02-03"><text:p>d</text:p></table:table-cell><table:table-cell office:value-type="time" office:time-value="PT1H"/><table:table-cell office:value-type="currency" office:currency="EUR" office:value="2"/><table:table-cell office:value-type="boolean" office:boolean-value="true"/></table:table-row><table:named-expressions><table:named-range table:name="n"/></table:named-expressions></table:table></office:spreadsheet></office:body>"##;
const STYLES: &str = r##"<office:font-face-decls><style:font-face style:name="F" svg:font-family="F"/></office:font-face-decls><office:styles><style:default-style style:family="table-cell"><style:paragraph-properties style:tab-stop-distance="1cm"/><style:text-properties fo:font-size="10pt"/></style:default-style><style:style style:name="D" style:family="table-cell" style:data-style-name="N1"><style:table-cell-properties fo:padding="1mm"><style:background-image/></style:table-cell-properties><style:paragraph-properties fo:margin-left="1cm"><style:tab-stops><style:tab-stop style:position="1cm"/></style:tab-stops></style:paragraph-properties><style:text-properties fo:color="#ff0000"/><style:map style:condition="cell-content()&gt;1" style:apply-style-name="D" style:base-cell-address="t.A1"/></style:style></office:styles><office:automatic-styles><style:style style:name="co" style:family="table-column"><style:table-column-properties style:column-width="1cm"/></style:style><style:style style:name="ro" style:family="table-row"><style:table-row-properties style:row-height="1cm"/></style:style><style:style style:name="ta" style:family="table" style:master-page-name="M"><style:table-properties table:display="true"/></style:style><style:style style:name="G" style:family="graphic"><style:graphic-properties draw:stroke="none"/><style:paragraph-properties/><style:text-properties/></style:style><style:style style:name="P" style:family="paragraph"><style:paragraph-properties/><style:text-properties/></style:style><style:style style:name="T" style:family="text"><style:text-properties fo:font-weight="bold"/></style:style><style:style style:name="R" style:family="ruby"><style:ruby-properties style:ruby-align="left"/></style:style></office:automatic-styles>"##;
const FORMATS: &str = r##"<office:styles><number:number-style style:name="N1"><number:text>a&amp;</number:text><number:number number:decimal-places="2"><number:embedded-text number:position="1">x</number:embedded-text></number:number><style:map style:condition="value()&gt;=0" style:apply-style-name="N1"/></number:number-style><number:currency-style style:name="N2" style:volatile="true"><number:currency-symbol number:language="en">$</number:currency-symbol><number:number/></number:currency-style><number:percentage-style style:name="N3"><number:number/><number:text>%</number:text></number:percentage-style><number:date-style style:name="N4"><number:year number:style="long"/><number:month/><number:day/><number:day-of-week/><number:era/><number:quarter/><number:week-of-year/></number:date-style><number:time-style style:name="N5"><number:hours/><number:minutes/><number:seconds number:decimal-places="1"/><number:am-pm/></number:time-style><number:boolean-style style:name="N6"><number:boolean/></number:boolean-style><number:text-style style:name="N7"><style:text-properties fo:color="#000000"/><number:text-content/><number:fill-character>-</number:fill-character><loext:text>y</loext:text></number:text-style><number:number-style style:name="N8"><number:scientific-number number:min-exponent-digits="2"/><number:fraction number:denominator-value="4"/></number:number-style></office:styles>"##;
const PAGES: &str = r##"<office:automatic-styles><style:page-layout style:name="L" style:page-usage="all"><style:page-layout-properties fo:page-width="21cm"><style:background-image/></style:page-layout-properties><style:header-style><style:header-footer-properties fo:min-height="1cm"><style:background-image/></style:header-footer-properties></style:header-style><style:footer-style/></style:page-layout></office:automatic-styles><office:master-styles><style:master-page style:name="M" style:page-layout-name="L" style:display-name="m"><style:header style:display="false"><text:p>h<text:page-number>1</text:page-number></text:p><style:region-left><text:p>l</text:p></style:region-left></style:header><style:header-first><text:p/></style:header-first><style:header-left style:display="true"/><style:footer><style:region-center><text:p>c</text:p></style:region-center><style:region-right><text:p>r</text:p></style:region-right></style:footer><style:footer-first/><style:footer-left/></style:master-page></office:master-styles>"##;
const META: &str = r##"<office:meta><meta:generator>g</meta:generator><dc:title>t</dc:title><dc:description>d</dc:description><dc:subject>s</dc:subject><meta:keyword>k</meta:keyword><meta:initial-creator>i</meta:initial-creator><dc:creator>c</dc:creator><meta:printed-by>p</meta:printed-by><meta:creation-date>2001-02-03T04:05:06</meta:creation-date><dc:date>2001-02-03</dc:date><meta:print-date>2001-02-03</meta:print-date><dc:language>en</dc:language><meta:editing-cycles>3</meta:editing-cycles><meta:editing-duration>PT1H</meta:editing-duration><meta:template xlink:href="h" xlink:type="simple" meta:date="2001-02-03"/><meta:auto-reload meta:delay="PT1S" xlink:show="new"/><meta:hyperlink-behaviour office:target-frame-name="_b"/><meta:document-statistic meta:table-count="1" meta:cell-count="2" meta:object-count="3"/><meta:user-defined meta:name="u" meta:value-type="float">1.5</meta:user-defined><meta:user-defined meta:name="w" meta:value-type="boolean">true</meta:user-defined></office:meta>"##;
const SETTINGS: &str = r##"<office:settings><config:config-item-set config:name="ooo:view-settings"><config:config-item config:name="a" config:type="int">1</config:config-item><config:config-item config:name="b" config:type="string">x&amp;y</config:config-item><config:config-item-map-indexed config:name="Views"><config:config-item-map-entry><config:config-item config:name="ViewId" config:type="string">v</config:config-item><config:config-item-map-named config:name="Tables"><config:config-item-map-entry config:name="t"><config:config-item config:name="CursorPositionX" config:type="int">1</config:config-item><config:config-item config:name="ZoomType" config:type="short">0</config:config-item></config:config-item-map-entry></config:config-item-map-named></config:config-item-map-entry></config:config-item-map-indexed></config:config-item-set></office:settings>"##;
const MISC: &str = r##"<office:scripts><office:script script:language="ooo:Basic"><ooo:libraries xlink:href="x"/></office:script><office:event-listeners><script:event-listener script:language="ooo:script" script:event-name="dom:load" xlink:href="vnd" xlink:actuate="onLoad"/></office:event-listeners></office:scripts><office:body><office:spreadsheet><table:calculation-settings table:case-sensitive="false"><table:iteration/></table:calculation-settings><table:content-validations><table:content-validation table:name="v" table:condition="of:cell-content()&gt;1" table:display-list="none" table:base-cell-address="t.A1"><table:help-message table:title="h" table:display="true"><text:p>help</text:p></table:help-message><table:error-message table:message-type="stop" table:display="true"><text:p>err</text:p></table:error-message></table:content-validation></table:content-validations><table:table table:name="t"><table:table-row><table:table-cell/></table:table-row></table:table><table:named-expressions/><table:database-ranges><table:database-range/></table:database-ranges></office:spreadsheet></office:body>"##;
const DOCS: [&str; 8] = [TABLE, CELLS, STYLES, FORMATS, PAGES, META, SETTINGS, MISC];

/// the tags and texts of a document
fn tokens(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        if b[i] == b'<' {
            while b[j] != b'>' {
                j += 1;
            }
            j += 1;
        } else {
            while j < b.len() && b[j] != b'<' {
                j += 1;
            }
        }
        v.push(&s[i..j]);
        i = j;
    }
    v
}
fn is_start(t: &str) -> bool {
    t.starts_with('<') && !t.starts_with("</") && !t.ends_with("/>")
}
/// index of the end tag of the element that starts at i
fn end_of(v: &[&str], i: usize) -> usize {
    let mut d = 0;
    let mut j = i;
    loop {
        if is_start(v[j]) {
            d += 1;
        } else if v[j].starts_with("</") {
            d -= 1;
        }
        if d == 0 {
            return j;
        }
        j += 1;
    }
}
fn name_of(t: &str) -> &str {
    let t = &t[1..t.len() - 1];
    &t[..t.find([' ', '/']).unwrap_or(t.len())]
}
fn read(s: &str) {
    read_bytes(s.as_bytes())
}
fn read_bytes(s: &[u8]) {
    match read_fods_buf(s) {
        Ok(mut wb) => {
            // what was read can be used, written and read again
            for i in 0..wb.num_sheets() {
                wb.sheet(i).used_grid_size();
            }
            match write_fods_buf(&mut wb, Vec::new()) {
                Ok(b) => {
                    let w = read_fods_buf(&b);
                    check(w.is_ok(), "what was read and written cannot be read again");
                    check(w.map(|w| w.num_sheets()).ok() == Some(wb.num_sheets()), "number of sheets");
                }
                Err(_) => check(wb.num_sheets() == 0, "what was read cannot be written"),
            }
            cover("read");
        }
        Err(_) => {
            check(true, "refused");
            cover("refused");
        }
    }
}
fn doc(v: &[&str]) -> String {
    let mut s = HEAD.to_string();
    for t in v {
        s.push_str(t);
    }
    if !s.contains("<table:table ") {
        s.push_str(ONE);
    }
    s.push_str(TAIL);
    s
}
/// structural damage
fn damage(d: &str) {
    let v = tokens(d);
    let k = choose(v.len() as u64) as usize;
    let s = match choose(7) {
        0 => {
            // end of the file after this token or within the next
            let mut s = HEAD.to_string();
            for t in &v[..k] {
                s.push_str(t);
            }
            let t = v[k];
            let c = [0, 1, t.len() / 2, t.len() - 1];
            s.push_str(&t[..*pick(&c)]);
            s
        }
        1 => {
            // without this token
            let mut w = v.clone();
            w.remove(k);
            doc(&w)
        }
        2 => {
            // without content
            assume(is_start(v[k]));
            let e = end_of(&v, k);
            let mut w = v[..k].to_vec();
            let t = format!("{}/>", &v[k][..v[k].len() - 1]);
            w.push(&t);
            w.extend_from_slice(&v[e + 1..]);
            doc(&w)
        }
        3 => {
            // without attributes
            assume(v[k].starts_with('<') && v[k].contains(' '));
            let t = format!("<{}{}", name_of(v[k]), if v[k].ends_with("/>") { "/>" } else { ">" });
            let mut w = v.clone();
            w[k] = &t;
            doc(&w)
        }
        4 => {
            // something unexpected before it
            let t = *pick(&["x", "<!-- c -->", "<a:b/>", "<a:b><c>t</c></a:b>", "<![CDATA[x]]>", "<?p i?>", "&lt;", "&bogus;", "</x>", "<text:p>y</text:p>"]);
            let mut w = v.clone();
            w.insert(k, t);
            doc(&w)
        }
        5 => {
            // twice
            assume(v[k].starts_with('<') && !v[k].starts_with("</"));
            let e = if is_start(v[k]) { end_of(&v, k) } else { k };
            let mut w = v[..=e].to_vec();
            w.extend_from_slice(&v[k..]);
            doc(&w)
        }
        _ => {
            // an empty element with separate tags
            assume(v[k].ends_with("/>"));
            let t = format!("{}></{}>", &v[k][..v[k].len() - 2], name_of(v[k]));
            let mut w = v.clone();
            w[k] = &t;
            doc(&w)
        }
    };
    read(&s);
}
/// any byte; the ones with a meaning in XML are told apart
fn byte_of() -> u8 {
    let b = any_u8();
    for c in *b"<>&\"'=/!?; \n\r\t" {
        if b == c {
            return c;
        }
    }
    b
}
/// one attribute value replaced
fn attribute(d: &str, n: usize) {
    let mut at = vec![];
    for (i, _) in d.match_indices("=\"") {
        at.push(i + 2);
    }
    let i = at[choose(at.len() as u64) as usize];
    let e = i + d[i..].find('"').unwrap();
    let mut s = HEAD.to_string();
    s.push_str(&d[..i]);
    // names are keys of hash maps: no symbolic values
    let key = d[..i - 2].ends_with("name");
    if key || any_bool() {
        // avoid counts that would be expanded to large sheets
        s.push_str(*pick(&["", "0", "-1", "99999999999", "&#x110000;", "&bogus;"]));
    } else {
        for _ in 0..n {
            let b = byte_of();
            assume(b < 0x80 && b != b'"' && b != b'<');
            s.push(b as char);
        }
    }
    s.push_str(&d[e..]);
    if !s.contains("<table:table ") {
        s.push_str(ONE);
    }
    s.push_str(TAIL);
    read(&s);
}

const SMALL: &str = r#"<office:body><office:spreadsheet><table:table table:name="t"><table:table-row><table:table-cell office:value-type="float" office:value="1"><text:p>a&lt;</text:p></table:table-cell></table:table-row></table:table></office:spreadsheet></office:body>"#;
/// one byte replaced
fn byte(d: &str) {
    let mut v = HEAD.as_bytes().to_vec();
    let b = d.as_bytes();
    let k = choose(b.len() as u64) as usize;
    // names are keys of hash maps
    for (i, _) in d.match_indices("name=\"") {
        assume(k < i + 6 || k > i + 6 + d[i + 6..].find('"').unwrap());
    }
    v.extend_from_slice(b);
    let at = HEAD.len() + k;
    v[at] = byte_of();
    if !d.contains("<table:table ") {
        v.extend_from_slice(ONE.as_bytes());
    }
    v.extend_from_slice(TAIL.as_bytes());
    read_bytes(&v);
}

harnesses! {
    // damage of a table
    fn p11_table() {
        damage(TABLE); // cover("read") cover("refused")
    }
    // damage of cells
    fn p11_cells() {
        damage(CELLS);
    }
    // damage of styles
    fn p11_styles() {
        damage(STYLES);
    }
    // damage of value formats
    fn p11_formats() {
        damage(FORMATS);
    }
    // damage of page styles
    fn p11_pages() {
        damage(PAGES);
    }
    // damage of metadata
    fn p11_meta() {
        damage(META);
    }
    // damage of settings
    fn p11_settings() {
        damage(SETTINGS);
    }
    // damage of scripts, validations and others
    fn p11_misc() {
        damage(MISC);
    }
    // every attribute of a table replaced by any ASCII character or some texts
    fn p11_attr_table() {
        attribute(TABLE, 1);
    }
    // every attribute of cells replaced by any ASCII character or some texts
    fn p11_attr_cells() {
        attribute(CELLS, 1);
    }
    // [thorough] every attribute of styles replaced by any ASCII character or some texts
    fn p11_attr_styles() {
        attribute(STYLES, 1);
    }
    // [thorough] every attribute of formats and page styles replaced by any ASCII character or some texts
    fn p11_attr_formats() {
        attribute(if any_bool() { FORMATS } else { PAGES }, 1);
    }
    // every attribute of metadata replaced by any ASCII character or some texts
    fn p11_attr_meta() {
        attribute(META, 1);
    }
    // every attribute of settings replaced by any ASCII character or some texts
    fn p11_attr_settings() {
        attribute(SETTINGS, 1);
    }
    // [thorough] every attribute of scripts, validations and others replaced by any ASCII character or some texts
    fn p11_attr_misc() {
        attribute(MISC, 1);
    }
    // [thorough] every attribute replaced by any 2 ASCII characters
    fn p11_attributes2() {
        attribute(DOCS[choose(8) as usize], 2);
    }
    // one byte of a cell is any other byte
    fn p11_byte() {
        byte(SMALL);
    }
    // one byte anywhere in the smaller documents is any other byte
    // [thorough]
    fn p11_bytes() {
        byte(*pick(&[TABLE, MISC, META, SETTINGS]));
    }
}
