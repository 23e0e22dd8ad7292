//! P15: page styles, master pages and fonts
use ods_harness::*;
use spreadsheet_ods::style::units::MasterPageUsage;
use spreadsheet_ods::style::*;
use spreadsheet_ods::text::*;
use spreadsheet_ods::*;

fn book() -> WorkBook {
    let mut sh = Sheet::new("one");
    sh.set_value(0, 0, 1);
    let mut wb = WorkBook::new_empty();
    wb.push_sheet(sh);
    wb
}
fn rt(wb: &mut WorkBook, ods: bool) -> Option<WorkBook> {
    if ods {
        roundtrip_ods(wb)
    } else {
        roundtrip(wb)
    }
}
fn hf(m: &MasterPage, i: u64) -> &HeaderFooter {
    match i {
        0 => m.header(),
        1 => m.header_first(),
        2 => m.header_left(),
        3 => m.footer(),
        4 => m.footer_first(),
        _ => m.footer_left(),
    }
}
fn set_hf(m: &mut MasterPage, i: u64, h: HeaderFooter) {
    match i {
        0 => m.set_header(h),
        1 => m.set_header_first(h),
        2 => m.set_header_left(h),
        3 => m.set_footer(h),
        4 => m.set_footer_first(h),
        _ => m.set_footer_left(h),
    }
}
fn compare(a: &WorkBook, b: &WorkBook, n: &str) {
    let (Some(x), Some(y)) = (a.masterpage(n), b.masterpage(n)) else { return check(false, "master page is missing") };
    check(x.name() == y.name() && x.display_name() == y.display_name(), "name of the master page");
    check(x.pagestyle().map(|s| s.as_str().to_string()) == y.pagestyle().map(|s| s.as_str().to_string()), "page style of the master page");
    check(x.next_masterpage().map(|s| s.as_str().to_string()) == y.next_masterpage().map(|s| s.as_str().to_string()), "next master page");
    for i in 0..6 {
        let (u, v) = (hf(x, i), hf(y, i));
        check(same_tags(u.left(), v.left()), "left part");
        check(same_tags(u.center(), v.center()), "center part");
        check(same_tags(u.right(), v.right()), "right part");
        check(same_tags(u.content(), v.content()), "content");
        // first and left pages have a header or footer of their own only if there is something in it
        if !u.is_empty() || i % 3 == 0 {
            check(u.display() == v.display(), "display of the header or footer");
        }
    }
}
fn page_text(max: usize) {
    let t = any_text(max);
    let k = choose(5);
    let mut p = PageStyle::new("p1");
    match k {
        0 => p.style_mut().set_attr("fo:margin", t.as_str()),
        1 => p.headerstyle_mut().style_mut().set_attr("fo:margin", t.as_str()),
        2 => p.footerstyle_mut().style_mut().set_attr("fo:margin", t.as_str()),
        _ => {}
    }
    let mut wb = book();
    wb.add_pagestyle(p);
    let mut f = FontFaceDecl::new("f & <1>");
    if k == 3 {
        f.attrmap_mut().set_attr("svg:font-family", t.as_str());
    }
    wb.add_font(f);
    let mut m = MasterPage::new("m & 1");
    if k == 4 {
        m.set_display_name(t.clone());
    }
    wb.add_masterpage(m);
    let Some(w) = roundtrip(&mut wb) else { return };
    let Some(y) = w.pagestyle("p1") else { return check(false, "page style is missing") };
    let on = |i: u64| (k == i).then_some(t.as_str());
    check(y.style().attr("fo:margin") == on(0), "page style");
    check(y.headerstyle().style().attr("fo:margin") == on(1), "header of the page style");
    check(y.footerstyle().style().attr("fo:margin") == on(2), "footer of the page style");
    let Some(y) = w.font("f & <1>") else { return check(false, "font is missing") };
    check(y.attrmap().attr("svg:font-family") == on(3), "font");
    compare(&wb, &w, "m & 1");
    cover("text");
}
fn master_text(max: usize) {
    let t = any_text(max);
    let (i, k) = (choose(6), choose(4));
    let q = TextP::new().text("a").tag(TextSpan::new().style_name(&TextStyleRef::from("ts")).text(t.as_str())).text(t.as_str()).into_xmltag();
    let mut h = HeaderFooter::new();
    h.set_display(true);
    match k {
        0 => h.add_left(q),
        1 => h.add_center(q),
        2 => h.add_right(q),
        _ => h.add_content(q),
    }
    let mut m = MasterPage::new("m1");
    set_hf(&mut m, i, h);
    let mut wb = book();
    wb.add_masterpage(m);
    let Some(w) = roundtrip(&mut wb) else { return };
    compare(&wb, &w, "m1");
    cover("text");
}
/// 0 nothing, 1 one paragraph, 2 two paragraphs and a heading
fn paras(k: u64, s: &str) -> Vec<TextTag> {
    let mut v = vec![];
    if k > 0 {
        v.push(TextP::new().style_name(&ParagraphStyleRef::from("ps")).text(s).into_xmltag());
    }
    if k > 1 {
        v.push(TextH::new().outline_level(1).tag(MetaPageNumber::new()).text(" of ").tag(MetaPageCount::new()).into_xmltag());
        v.push(TextP::new().into_xmltag());
    }
    v
}

harnesses! {
    // any text of at most 2 bytes as a property of a page style or font, or as display name of a master page
    fn p15_page_text() {
        page_text(2); // cover("text")
    }
    // [thorough] same with at most 4 bytes
    fn p15_page_text4() {
        page_text(4); // cover("text")
    }
    // any text of at most 1 byte in each part of each header and footer
    fn p15_master_text() {
        master_text(1); // cover("text")
    }
    // [thorough] any text of at most 3 bytes in each part of each header and footer
    fn p15_master_text3() {
        master_text(3); // cover("text")
    }
    // page styles: any combination of the property sets and usage, next to a second one, in either kind of document
    fn p15_page() {
        let (m, u, ods) = (choose(8), choose(5), choose(2) == 1);
        let mut p = PageStyle::new("p & <1>");
        match u {
            1 => p.set_page_usage(MasterPageUsage::All),
            2 => p.set_page_usage(MasterPageUsage::Left),
            3 => p.set_page_usage(MasterPageUsage::Mirrored),
            4 => p.set_page_usage(MasterPageUsage::Right),
            _ => {}
        }
        for (i, a) in [p.style_mut()].into_iter().enumerate() {
            if m >> i & 1 == 1 {
                a.set_attr("fo:page-width", "1cm");
                a.set_attr("style:print-orientation", "landscape");
            }
        }
        if m & 2 != 0 {
            p.headerstyle_mut().style_mut().set_attr("fo:min-height", "2cm");
        }
        if m & 4 != 0 {
            p.footerstyle_mut().style_mut().set_attr("svg:height", "3cm");
        }
        let mut wb = book();
        let r = wb.add_pagestyle(p);
        check(r.as_str() == "p & <1>", "reference to the page style");
        let mut q = PageStyle::new("other");
        q.footerstyle_mut().style_mut().set_attr("fo:min-height", "9cm");
        wb.add_pagestyle(q);
        let Some(w) = rt(&mut wb, ods) else { return };
        check(w.iter_pagestyles().count() == 2, "number of page styles");
        for n in ["p & <1>", "other"] {
            let (Some(x), Some(y)) = (wb.pagestyle(n), w.pagestyle(n)) else { return check(false, "page style is missing") };
            check(x.name() == y.name(), "name");
            check(x.page_usage().ok().flatten().map(|u| u.to_string()) == y.page_usage().ok().flatten().map(|u| u.to_string()), "usage of the page");
            for a in ["fo:page-width", "style:print-orientation", "fo:min-height", "svg:height"] {
                check(x.style().attr(a) == y.style().attr(a), "page property");
                check(x.headerstyle().style().attr(a) == y.headerstyle().style().attr(a), "header property");
                check(x.footerstyle().style().attr(a) == y.footerstyle().style().attr(a), "footer property");
            }
        }
        cover("page");
    }
    // one header or footer: nothing, one or more paragraphs in each of its four parts, displayed or not
    fn p15_regions() {
        let (i, d) = (choose(6), choose(2) == 1);
        let (l, c, r, x) = (choose(3), choose(3), choose(3), choose(3));
        assume(i == 0 || i == 4 || l + c + r + x <= 2);
        let mut h = HeaderFooter::new();
        h.set_display(d);
        h.set_left(paras(l, "left"));
        h.set_center(paras(c, "center"));
        h.set_right(paras(r, "right"));
        h.set_content(paras(x, "content"));
        let mut m = MasterPage::new("m1");
        set_hf(&mut m, i, h);
        let mut wb = book();
        wb.add_masterpage(m);
        let Some(w) = roundtrip(&mut wb) else { return };
        compare(&wb, &w, "m1");
        cover("regions");
    }
    // any set of the six headers and footers, with and without names of other pages, in either kind of document
    fn p15_master() {
        let (set, o) = (choose(64), choose(8));
        let ods = o == 7;
        let d = set % 3 == 0;
        let mut m = MasterPage::new("m & <1>");
        if o & 1 != 0 {
            m.set_pagestyle(&PageStyleRef::from("p & <1>"));
        }
        if o & 2 != 0 {
            m.set_next_masterpage(&MasterPageRef::from("other"));
        }
        if o & 4 != 0 {
            m.set_display_name("name & <x>".to_string());
        }
        for i in 0..6 {
            let mut h = HeaderFooter::new();
            h.set_display(d == (i % 2 == 0));
            if set >> i & 1 == 1 {
                h.set_center(paras(1, ["a", "b", "c", "d", "e", "f"][i as usize]));
            }
            set_hf(&mut m, i, h);
        }
        let mut wb = book();
        check(wb.add_masterpage(m).as_str() == "m & <1>", "reference to the master page");
        let mut n = MasterPage::new("other");
        n.header_mut().set_right(paras(2, "x"));
        wb.add_masterpage(n);
        let Some(w) = rt(&mut wb, ods) else { return };
        check(w.iter_masterpages().count() == 2, "number of master pages");
        compare(&wb, &w, "m & <1>");
        compare(&wb, &w, "other");
        cover("master");
    }
    // up to three fonts, of either origin
    fn p15_fonts() {
        let (n, o, ods) = (choose(4), choose(8), choose(2) == 1);
        let mut wb = book();
        for i in 0..n {
            let mut f = FontFaceDecl::new(["f1", "a & <b>", "x y"][i as usize]);
            f.set_origin(if o >> i & 1 == 1 { StyleOrigin::Styles } else { StyleOrigin::Content });
            if i != 1 {
                f.attrmap_mut().set_attr("svg:font-family", ["one", "", "three 'x'"][i as usize]);
                f.attrmap_mut().set_attr("style:font-pitch", "fixed");
            }
            wb.add_font(f);
        }
        let Some(w) = rt(&mut wb, ods) else { return };
        check(w.iter_fonts().count() == n as usize, "number of fonts");
        for x in wb.iter_fonts() {
            let Some(y) = w.font(x.name()) else { return check(false, "font is missing") };
            check(x.name() == y.name(), "name of the font");
            for a in ["svg:font-family", "style:font-pitch"] {
                check(x.attrmap().attr(a) == y.attrmap().attr(a), "attribute of the font");
            }
            if ods {
                check(matches!(x.origin(), StyleOrigin::Content) == matches!(y.origin(), StyleOrigin::Content), "origin of the font");
            }
        }
        cover("fonts");
    }
}
