//! P13: styles
use ods_harness::*;
use spreadsheet_ods::condition::Condition;
use spreadsheet_ods::style::stylemap::StyleMap;
use spreadsheet_ods::style::tabstop::TabStop;
use spreadsheet_ods::style::*;
use spreadsheet_ods::*;

fn book() -> WorkBook {
    let mut sh = Sheet::new("one");
    sh.set_value(0, 0, 1);
    let mut wb = WorkBook::new_empty();
    wb.push_sheet(sh);
    wb
}
fn usage(k: u64) -> StyleUse {
    match k {
        0 => StyleUse::Automatic,
        1 => StyleUse::Named,
        _ => StyleUse::Default,
    }
}
fn usage_no(k: StyleUse) -> u64 {
    match k {
        StyleUse::Automatic => 0,
        StyleUse::Named => 1,
        StyleUse::Default => 2,
    }
}
fn origin(k: u64) -> StyleOrigin {
    match k {
        0 => StyleOrigin::Content,
        _ => StyleOrigin::Styles,
    }
}
/// same attributes, in any order
macro_rules! same {
    ($a:expr, $b:expr, $what:expr) => {
        let (a, b) = ($a, $b);
        let own = |k: &str| k != "style:family" && k != "style:name";
        let n = b.iter().filter(|(k, _)| own(k.as_ref())).count();
        check(a.iter().filter(|(k, _)| own(k.as_ref())).count() == n, $what);
        for (k, v) in a.iter() {
            check(!own(k.as_ref()) || b.attr(k.as_ref()) == Some(v), $what);
        }
    };
}
const NAMES: [&str; 3] = ["s1", "a & <b>", "x y"];

/// what there is of every family
macro_rules! families {
    ($( $no:literal $ty:ident $new:expr; $add:ident $get:ident $iter:ident [ $($map:ident $map_mut:ident $attr:literal),* ] ;)*) => {
        /// Style n of family f with the text in map m; other maps have the attribute if set in `maps`.
        fn add(wb: &mut WorkBook, f: u64, n: &str, u: u64, o: u64, m: u64, maps: u64, t: &str) -> String {
            match f {
                $($no => {
                    let mut s: $ty = $new;
                    s.set_name(n);
                    s.set_styleuse(usage(u));
                    s.set_origin(origin(o));
                    let mut i = 1;
                    if m == 0 {
                        s.attrmap_mut().set_attr("style:display-name", t);
                    } else if maps & 1 != 0 {
                        s.attrmap_mut().set_attr("style:display-name", "d");
                        s.attrmap_mut().set_attr("style:parent-style-name", "parent & <p>");
                    }
                    $(
                        if m == i {
                            s.$map_mut().set_attr($attr, t);
                        } else if maps & (1 << i) != 0 {
                            s.$map_mut().set_attr($attr, "v1");
                            s.$map_mut().set_attr("style:other", "v2");
                        }
                        i += 1;
                    )*
                    let _ = i;
                    wb.$add(s).as_str().to_string()
                })*
                _ => String::new(),
            }
        }
        fn compare(a: &WorkBook, an: &str, b: &WorkBook, bn: &str, f: u64) -> u64 {
            match f {
                $($no => {
                    let Some(x) = a.$get(an) else { return 99 };
                    let Some(y) = b.$get(bn) else {
                        check(false, "style is missing");
                        return 99;
                    };
                    check(y.name() == bn, "name");
                    check(usage_no(x.styleuse()) == usage_no(y.styleuse()), "use of the style");
                    same!(x.attrmap(), y.attrmap(), "attributes of the style");
                    $( same!(x.$map(), y.$map(), concat!("properties of the style: ", stringify!($map))); )*
                    match y.origin() {
                        StyleOrigin::Content => 0,
                        StyleOrigin::Styles => 1,
                    }
                })*
                _ => 99,
            }
        }
        /// number of styles, without those for the value types that reading adds
        fn count(a: &WorkBook, f: u64) -> usize {
            match f {
                $($no => a.$iter().filter(|s| !s.name().starts_with("default-")).count(),)*
                _ => 0,
            }
        }
    };
}
families! {
    0 CellStyle CellStyle::new_empty(); add_cellstyle cellstyle iter_cellstyles [cellstyle cellstyle_mut "style:rotation-align", paragraphstyle paragraphstyle_mut "fo:margin", textstyle textstyle_mut "fo:color"];
    1 ColStyle ColStyle::new_empty(); add_colstyle colstyle iter_colstyles [colstyle colstyle_mut "fo:break-before"];
    2 RowStyle RowStyle::new_empty(); add_rowstyle rowstyle iter_rowstyles [rowstyle rowstyle_mut "fo:background-color"];
    3 TableStyle TableStyle::new_empty(); add_tablestyle tablestyle iter_table_styles [tablestyle tablestyle_mut "table:display"];
    4 ParagraphStyle ParagraphStyle::new_empty(); add_paragraphstyle paragraphstyle iter_paragraphstyles [paragraphstyle paragraphstyle_mut "fo:margin", textstyle textstyle_mut "fo:color"];
    5 TextStyle TextStyle::new_empty(); add_textstyle textstyle iter_textstyles [textstyle textstyle_mut "fo:color"];
    6 RubyStyle RubyStyle::new_empty(); add_rubystyle rubystyle iter_rubystyles [rubystyle rubystyle_mut "style:ruby-align"];
    7 GraphicStyle GraphicStyle::new_empty(); add_graphicstyle graphicstyle iter_graphicstyles [graphicstyle graphicstyle_mut "draw:stroke", paragraphstyle paragraphstyle_mut "fo:margin", textstyle textstyle_mut "fo:color"];
}
/// number of property maps
fn maps(f: u64) -> u64 {
    [4, 2, 2, 2, 3, 2, 2, 4][f as usize]
}
const DEFAULT: &str = "style:default-style";

fn text(max: usize) {
    let f = choose(8);
    let m = choose(4);
    assume(m < maps(f));
    let t = any_text(max);
    let mut wb = book();
    let n = add(&mut wb, f, "s1", 1, 0, m, 0, &t);
    check(n == "s1", "reference to the style");
    let Some(w) = roundtrip(&mut wb) else { return };
    compare(&wb, "s1", &w, "s1", f);
    check(count(&w, f) == count(&wb, f), "number of styles");
    cover("text");
}
fn map_text(max: usize) {
    let s = any_text(max);
    let r = range32(0, 99_999);
    let k = choose(3);
    let c = if k == 0 { Condition::is_true_formula(&s) } else { Condition::content_eq("x") };
    let base = match choose(3) {
        0 => None,
        1 => Some(CellRef::remote("one", r, 3)),
        _ => Some(CellRef::remote("x y's", 1, 2)),
    };
    let applied = if k == 1 { s.as_str() } else { "other" };
    let mut st = CellStyle::new_empty();
    st.set_name("s1");
    st.set_styleuse(usage(choose(2)));
    st.push_stylemap(StyleMap::new(c.clone(), AnyStyleRef::from(applied), base.clone()));
    if k == 2 {
        st.push_stylemap(StyleMap::new(Condition::content_gt(1), AnyStyleRef::from("second"), None));
    }
    let mut wb = book();
    wb.add_cellstyle(st);
    let Some(w) = roundtrip(&mut wb) else { return };
    let Some(y) = w.cellstyle("s1") else { return check(false, "style is missing") };
    let Some(v) = y.stylemaps() else { return check(false, "style map is missing") };
    check(v.len() == if k == 2 { 2 } else { 1 }, "number of style maps");
    check(v[0].condition().to_string() == c.to_string(), "condition");
    check(v[0].applied_style().as_str() == applied, "applied style");
    check(v[0].base_cell() == base.as_ref(), "base cell");
    if k == 2 {
        check(v[1].condition().to_string() == Condition::content_gt(1).to_string(), "second condition");
        check(v[1].applied_style().as_str() == "second" && v[1].base_cell().is_none(), "second style map");
    }
    cover("map");
}

harnesses! {
    // every family and property set: any attribute text of at most 2 bytes
    fn p13_text() {
        text(2); // cover("text")
    }
    // [thorough] every family and property set: any attribute text of at most 4 bytes
    fn p13_text4() {
        text(4); // cover("text")
    }
    // every family, use, origin and combination of property sets with values, next to a second style
    fn p13_parts() {
        let f = choose(8);
        let (u, o) = (choose(3), choose(2));
        let p = choose(1 << maps(f));
        let mut wb = book();
        let n = add(&mut wb, f, "a & <b>", u, o, 9, p, "");
        add(&mut wb, f, "other", 1, 1, 9, 3, "");
        let Some(w) = roundtrip(&mut wb) else { return };
        compare(&wb, &n, &w, if u == 2 { DEFAULT } else { &n }, f);
        compare(&wb, "other", &w, "other", f);
        check(count(&w, f) == 2, "number of styles");
        cover("parts");
    }
    // same through the zip container: automatic styles also keep their origin
    fn p13_parts_ods() {
        let f = choose(8);
        let (u, o) = (choose(3), choose(2));
        let p = choose(3) * ((1 << maps(f)) - 1) / 2;
        let mut wb = book();
        let n = add(&mut wb, f, "a & <b>", u, o, 9, p, "");
        add(&mut wb, f, "other", 0, 1 - o, 9, 3, "");
        let Some(w) = roundtrip_ods(&mut wb) else { return };
        let k = compare(&wb, &n, &w, if u == 2 { DEFAULT } else { &n }, f);
        check(k == if u == 0 { o } else { 1 }, "origin");
        let k = compare(&wb, "other", &w, "other", f);
        check(k == 1 - o, "origin of the other style");
        check(count(&w, f) == 2, "number of styles");
        cover("ods");
    }
    // styles of the same name in every family stay apart, whichever of the families have one
    fn p13_families() {
        let set = choose(256);
        let mut wb = book();
        for f in 0..8 {
            if set & (1 << f) != 0 {
                add(&mut wb, f, "same", f % 2, 0, 0, 0, ["a", "b", "c", "d", "e", "f", "g", "h"][f as usize]);
            }
        }
        let Some(w) = roundtrip(&mut wb) else { return };
        for f in 0..8 {
            check(count(&w, f) == (set >> f & 1) as usize, "number of styles");
            compare(&wb, "same", &w, "same", f);
        }
        cover("families");
    }
    // a default style of every family together with common styles
    fn p13_default() {
        let f = choose(8);
        let mut wb = book();
        add(&mut wb, f, "default", 2, 1, 1, 0, "one");
        add(&mut wb, f, "s", 1, 1, 1, 0, "two");
        add(&mut wb, f, "t", 0, 0, 1, 0, "three");
        add(&mut wb, (f + 1) % 8, "default", 2, 1, 1, 0, "four");
        let ods = choose(2) == 1;
        let w = if ods { roundtrip_ods(&mut wb) } else { roundtrip(&mut wb) };
        let Some(w) = w else { return };
        compare(&wb, "default", &w, DEFAULT, f);
        compare(&wb, "default", &w, DEFAULT, (f + 1) % 8);
        compare(&wb, "s", &w, "s", f);
        compare(&wb, "t", &w, "t", f);
        // and once more
        let mut w = w;
        let v = if ods { roundtrip_ods(&mut w) } else { roundtrip(&mut w) };
        let Some(v) = v else { return };
        compare(&wb, "default", &v, DEFAULT, f);
        compare(&wb, "s", &v, "s", f);
        check(count(&v, f) == 3, "number of styles");
        cover("default");
    }
    // conditional style maps: any condition text or applied style of at most 2 bytes, any base row below 100000
    fn p13_map() {
        map_text(2); // cover("map")
    }
    // [thorough] same with at most 4 bytes
    fn p13_map4() {
        map_text(4); // cover("map")
    }
    // up to three tab stops in a paragraph style, with and without other properties
    fn p13_tabs() {
        let (n, p) = (choose(4), choose(8));
        let t = any_text(1);
        let mut s = ParagraphStyle::new_empty();
        s.set_name("s1");
        s.set_styleuse(usage(choose(2)));
        if p & 1 != 0 {
            s.paragraphstyle_mut().set_attr("fo:margin", "1cm");
        }
        if p & 2 != 0 {
            s.textstyle_mut().set_attr("fo:color", "#000000");
        }
        if p & 4 != 0 {
            s.attrmap_mut().set_attr("style:display-name", "d");
        }
        for i in 0..n {
            let mut ts = TabStop::new();
            ts.attrmap_mut().set_attr("style:position", format!("{}cm", i));
            if i == 1 {
                ts.attrmap_mut().set_attr("style:char", t.as_str());
            }
            s.add_tabstop(ts);
        }
        let mut wb = book();
        wb.add_paragraphstyle(s);
        let Some(w) = roundtrip(&mut wb) else { return };
        compare(&wb, "s1", &w, "s1", 4);
        let Some(y) = w.paragraphstyle("s1") else { return };
        let v: &[TabStop] = y.tabstops().map(|v| v.as_slice()).unwrap_or(&[]);
        check(v.len() == n as usize, "number of tab stops");
        for (i, ts) in v.iter().enumerate() {
            check(ts.attrmap().attr("style:position") == Some(format!("{}cm", i).as_str()), "position of tab stop");
            check(ts.attrmap().attr("style:char") == (i == 1).then_some(t.as_str()), "character of tab stop");
        }
        cover("tabs");
    }
    // styles without a name get names of their own: any order of named and unnamed styles, added before and after reading
    fn p13_names() {
        let f = choose(8);
        let mut wb = book();
        let mut refs: Vec<String> = vec![];
        for i in 0..4 {
            let t = ["one", "two", "three", "four"][i];
            if i == 2 {
                let Some(w) = roundtrip(&mut wb) else { return };
                wb = w;
            }
            // a name that could be given to an unnamed style, or none
            let k = choose(3);
            let n = if k == 2 && i > 0 { refs[0].clone() + "x" } else { ["", "named"][(k % 2) as usize].to_string() };
            if k == 1 && refs.iter().any(|r| r == "named") || k == 2 && refs.iter().any(|r| r == &n) {
                continue;
            }
            refs.push(add(&mut wb, f, &n, 0, 0, 1, 0, t));
            let r = refs[refs.len() - 1].clone();
            check(!r.is_empty(), "a style without a name");
            check(refs.iter().filter(|x| **x == r).count() == 1, "two styles of the same name");
        }
        check(count(&wb, f) == refs.len(), "a style was replaced");
        cover("names");
    }
    // the style of a sheet, row, column and cell refers to the same style after reading
    fn p13_used() {
        let n = NAMES[choose(3) as usize];
        let o = choose(2);
        let u = choose(2);
        let mut wb = book();
        for f in 0..4 {
            add(&mut wb, f, n, u, o, 1, 0, "t");
        }
        let sh = wb.sheet_mut(0);
        sh.set_style(&TableStyleRef::from(n));
        sh.set_cellstyle(0, 0, &CellStyleRef::from(n));
        sh.set_rowstyle(0, &RowStyleRef::from(n));
        sh.set_colstyle(0, &ColStyleRef::from(n));
        let w = if choose(2) == 1 { roundtrip_ods(&mut wb) } else { roundtrip(&mut wb) };
        let Some(w) = w else { return };
        let sh = w.sheet(0);
        check(sh.style().map(|s| s.as_str()) == Some(n), "style of the sheet");
        check(sh.cellstyle(0, 0).map(|s| s.as_str()) == Some(n), "style of the cell");
        check(sh.rowstyle(0).map(|s| s.as_str()) == Some(n), "style of the row");
        check(sh.colstyle(0).map(|s| s.as_str()) == Some(n), "style of the column");
        for f in 0..4 {
            if f != 1 && f != 2 {
                compare(&wb, n, &w, n, f);
            }
        }
        cover("used");
    }
}
