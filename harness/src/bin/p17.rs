//! P17: settings of the workbook and its sheets
use ods_harness::*;
use spreadsheet_ods::sheet::{SheetConfig, SplitMode};
use spreadsheet_ods::*;

fn book(n: usize) -> WorkBook {
    let mut wb = WorkBook::new_empty();
    for i in 0..n {
        let mut sh = Sheet::new(["one", "two & <2>", "x y"][i]);
        sh.set_value(0, 0, 1);
        wb.push_sheet(sh);
    }
    wb
}
fn split(k: u64) -> SplitMode {
    match k {
        0 => SplitMode::None,
        1 => SplitMode::Split,
        _ => SplitMode::Heading,
    }
}
fn split_no(k: SplitMode) -> u64 {
    match k {
        SplitMode::None => 0,
        SplitMode::Split => 1,
        SplitMode::Heading => 2,
    }
}
fn same(a: &SheetConfig, b: &SheetConfig, but: u64) {
    check(but == 0 || a.cursor_x == b.cursor_x, "cursor column");
    check(but == 1 || a.cursor_y == b.cursor_y, "cursor row");
    check(split_no(a.hor_split_mode) == split_no(b.hor_split_mode), "horizontal split mode");
    check(split_no(a.vert_split_mode) == split_no(b.vert_split_mode), "vertical split mode");
    check(but == 2 || a.hor_split_pos == b.hor_split_pos, "horizontal split position");
    check(but == 3 || a.vert_split_pos == b.vert_split_pos, "vertical split position");
    check(but == 4 || a.active_split_range == b.active_split_range, "active split range");
    check(but == 5 || a.position_left == b.position_left, "left position");
    check(but == 6 || a.position_right == b.position_right, "right position");
    check(but == 7 || a.position_top == b.position_top, "top position");
    check(but == 8 || a.position_bottom == b.position_bottom, "bottom position");
    check(but == 9 || a.zoom_type == b.zoom_type, "zoom type");
    check(but == 10 || a.zoom_value == b.zoom_value, "zoom");
    check(but == 11 || a.page_view_zoom_value == b.page_view_zoom_value, "page view zoom");
    check(a.show_grid == b.show_grid, "grid");
}
fn set(c: &mut SheetConfig, k: u64, v: i64) {
    match k {
        0 => c.cursor_x = v as u32,
        1 => c.cursor_y = v as u32,
        2 => c.hor_split_pos = v as u32,
        3 => c.vert_split_pos = v as u32,
        4 => c.active_split_range = v as i16,
        5 => c.position_left = v as u32,
        6 => c.position_right = v as u32,
        7 => c.position_top = v as u32,
        8 => c.position_bottom = v as u32,
        9 => c.zoom_type = v as i16,
        10 => c.zoom_value = v as i32,
        _ => c.page_view_zoom_value = v as i32,
    }
}
fn get(c: &SheetConfig, k: u64) -> i64 {
    match k {
        0 => c.cursor_x as i64,
        1 => c.cursor_y as i64,
        2 => c.hor_split_pos as i64,
        3 => c.vert_split_pos as i64,
        4 => c.active_split_range as i64,
        5 => c.position_left as i64,
        6 => c.position_right as i64,
        7 => c.position_top as i64,
        8 => c.position_bottom as i64,
        9 => c.zoom_type as i64,
        10 => c.zoom_value as i64,
        _ => c.page_view_zoom_value as i64,
    }
}
const SETTINGS: &str = r#"<?xml version="1.0" encoding="UTF-8"?>
<office:document xmlns:office="urn:oasis:names:tc:opendocument:xmlns:office:1.0" office:mimetype="application/vnd.oasis.opendocument.spreadsheet" office:version="1.3"><office:settings>@</office:settings><office:body><office:spreadsheet><table:table table:name="one"><table:table-row><table:table-cell office:value-type="float" office:value="1"/></table:table-row></table:table></office:spreadsheet></office:body></office:document>"#;

/// one value of every type with its text
const VALUES: [(&str, &str); 17] = [
    ("base64Binary", "qwer+/=="),
    ("base64Binary", ""),
    ("boolean", "true"),
    ("boolean", "false"),
    ("datetime", "2020-02-29T12:13:14"),
    ("double", "1.5"),
    ("double", "-1000000"),
    ("int", "0"),
    ("int", "-2147483648"),
    ("int", "2147483647"),
    ("long", "-9223372036854775808"),
    ("long", "9223372036854775807"),
    ("short", "-32768"),
    ("short", "32767"),
    ("string", ""),
    ("string", "a &amp; &lt;b&gt;"),
    ("string", " x "),
];
fn item(name: &str, k: usize) -> String {
    let (t, v) = VALUES[k];
    if v.is_empty() {
        format!("<config:config-item config:name=\"{name}\" config:type=\"{t}\"/>")
    } else {
        format!("<config:config-item config:name=\"{name}\" config:type=\"{t}\">{v}</config:config-item>")
    }
}
/// writes what was read
fn rewritten(s: &str) -> Option<String> {
    let doc = SETTINGS.replace('@', s);
    let mut w = match read_fods_buf(doc.as_bytes()) {
        Ok(w) => w,
        Err(_) => {
            check(false, "reading failed");
            return None;
        }
    };
    let o = write(&mut w)?;
    String::from_utf8(o).ok().map(|s| s.replace('\n', ""))
}

harnesses! {
    // one of the numbers of a sheet's settings: 1024 values around zero, and limits; the other sheet keeps its own
    fn p17_number() {
        let k = choose(12);
        let lim: (i64, i64) = match k {
            4 | 9 => (i16::MIN as i64, i16::MAX as i64),
            10 | 11 => (i32::MIN as i64, i32::MAX as i64),
            _ => (0, u32::MAX as i64),
        };
        let v = match choose(3) {
            0 => if lim.0 < 0 { range(0, 1023) as i64 - 512 } else { range(0, 1023) as i64 },
            1 => lim.0,
            _ => lim.1,
        };
        let at = choose(2) as usize;
        let mut wb = book(2);
        set(wb.sheet_mut(at).config_mut(), k, v);
        let Some(w) = roundtrip(&mut wb) else { return };
        check(get(w.sheet(at).config(), k) == v, "value differs");
        same(w.sheet(at).config(), &SheetConfig::default(), k);
        same(w.sheet(1 - at).config(), &SheetConfig::default(), 99);
        cover("number");
    }
    // split modes and grid of two sheets, flags of the workbook, through either kind of document
    fn p17_modes() {
        let mut wb = book(2);
        let ods = choose(2) == 1;
        let (g, p, t) = (any_bool(), any_bool(), any_bool());
        wb.config_mut().show_grid = g;
        wb.config_mut().show_page_breaks = p;
        wb.config_mut().has_sheet_tabs = t;
        let mut exp = vec![];
        for i in 0..2 {
            let mut c = SheetConfig::default();
            c.show_grid = any_bool();
            let s = choose(6);
            c.hor_split_mode = split(s % 3);
            c.vert_split_mode = split(if i == 0 { s / 2 } else { 2 - s % 3 });
            c.cursor_x = 7 + i;
            c.page_view_zoom_value = 40 + i as i32;
            *wb.sheet_mut(i as usize).config_mut() = c.clone();
            exp.push(c);
        }
        let w = if ods { roundtrip_ods(&mut wb) } else { roundtrip(&mut wb) };
        let Some(w) = w else { return };
        check(w.config().show_grid == g, "grid of workbook");
        check(w.config().show_page_breaks == p, "page breaks");
        check(w.config().has_sheet_tabs == t, "sheet tabs");
        for i in 0..2 {
            same(w.sheet(i).config(), &exp[i], 99);
        }
        cover("modes");
    }
    // the active table: none, each of them, any text of at most 2 bytes
    fn p17_active() {
        let mut wb = book(3);
        let k = choose(5);
        let s = if k == 4 { any_text(2) } else { String::new() };
        let exp = match k {
            0 => "",
            1 => "one",
            2 => "two & <2>",
            3 => "x y",
            _ => s.as_str(),
        };
        wb.config_mut().active_table = exp.to_string();
        let Some(w) = roundtrip(&mut wb) else { return };
        check(w.config().active_table == if exp.is_empty() { "one" } else { exp }, "active table");
        cover("active");
    }
    // any history of three calls of the splitting functions, then written
    fn p17_split() {
        let mut wb = book(1);
        let mut c = SheetConfig::default();
        for _ in 0..3 {
            let v = *pick(&[0u32, 3, 1048574]);
            let sh = wb.sheet_mut(0);
            match choose(4) {
                0 => {
                    sh.split_col_header(v);
                    c.hor_split_mode = SplitMode::Heading;
                    c.hor_split_pos = v + 1;
                    c.position_right = v + 1;
                    c.cursor_x = v + 1;
                }
                1 => {
                    sh.split_row_header(v);
                    c.vert_split_mode = SplitMode::Heading;
                    c.vert_split_pos = v + 1;
                    c.position_bottom = v + 1;
                    c.cursor_y = v + 1;
                }
                2 => {
                    sh.split_horizontal(v);
                    c.hor_split_mode = SplitMode::Split;
                    c.hor_split_pos = v;
                }
                _ => {
                    sh.split_vertical(v);
                    c.vert_split_mode = SplitMode::Split;
                    c.vert_split_pos = v;
                }
            }
        }
        let Some(w) = roundtrip(&mut wb) else { return };
        same(w.sheet(0).config(), &c, 99);
        cover("split");
    }
    // the settings of a sheet belong to the sheet: any two of three sheets exchanged, removed or renamed before writing
    fn p17_moved() {
        let mut wb = book(3);
        for i in 0..3 {
            wb.sheet_mut(i).config_mut().cursor_x = 10 + i as u32;
            wb.sheet_mut(i).config_mut().zoom_value = 50 + i as i32;
        }
        // written once, so that there are old settings around
        let Some(mut wb) = roundtrip(&mut wb) else { return };
        let (a, b) = (choose(3) as usize, choose(3) as usize);
        match choose(3) {
            0 => {
                let s = wb.remove_sheet(a);
                wb.insert_sheet(b, s);
            }
            1 => {
                wb.remove_sheet(a);
            }
            _ => {
                wb.sheet_mut(a).set_name(["new", "one ", "z"][b]);
                wb.sheet_mut(a).config_mut().cursor_x = 99;
            }
        }
        let Some(w) = roundtrip(&mut wb) else { return };
        check(w.num_sheets() == wb.num_sheets(), "number of sheets");
        for i in 0..w.num_sheets() {
            check(w.sheet(i).name() == wb.sheet(i).name(), "order of sheets");
            same(w.sheet(i).config(), wb.sheet(i).config(), 99);
        }
        cover("moved");
    }
    // settings of other programs: values of every type in sets, nested sets, lists and maps are written as they were read
    fn p17_foreign() {
        let (k, l) = (choose(17) as usize, choose(4) as usize);
        let l = (k + l * 5) % 17;
        let i1 = item("a &amp; b", k);
        let i2 = item("second", l);
        let s = match choose(5) {
            0 => format!("{i1}{i2}"),
            1 => format!("<config:config-item-set config:name=\"inner\">{i1}{i2}</config:config-item-set>"),
            2 => format!("<config:config-item-map-indexed config:name=\"list\"><config:config-item-map-entry>{i1}</config:config-item-map-entry><config:config-item-map-entry>{i2}</config:config-item-map-entry></config:config-item-map-indexed>"),
            3 => format!("<config:config-item-map-named config:name=\"map\"><config:config-item-map-entry config:name=\"x\">{i1}</config:config-item-map-entry><config:config-item-map-entry config:name=\"y&lt;\">{i2}</config:config-item-map-entry></config:config-item-map-named>"),
            _ => format!("<config:config-item-map-named config:name=\"map\"><config:config-item-map-entry config:name=\"x\"><config:config-item-set config:name=\"deep\">{i1}</config:config-item-set>{i2}</config:config-item-map-entry></config:config-item-map-named>"),
        };
        let s = format!("<config:config-item-set config:name=\"other:settings\">{s}</config:config-item-set>");
        let Some(o) = rewritten(&s) else { return check(false, "not written") };
        check(o.contains(&s), "settings differ");
        cover("foreign");
    }
    // foreign text settings with any text of at most 2 bytes, read from what was written
    fn p17_foreign_text() {
        let n = range(1, 3);
        let s = any_text(conc(n) as usize);
        assume(!s.is_empty());
        let mut e = String::new();
        for c in s.chars() {
            match c {
                '<' => e.push_str("&lt;"),
                '&' => e.push_str("&amp;"),
                c => e.push(c),
            }
        }
        let t = format!("<config:config-item-set config:name=\"ooo:view-settings\"><config:config-item-map-indexed config:name=\"Views\"><config:config-item-map-entry><config:config-item config:name=\"ActiveTable\" config:type=\"string\">{e}</config:config-item></config:config-item-map-entry></config:config-item-map-indexed></config:config-item-set>");
        let doc = SETTINGS.replace('@', &t);
        match read_fods_buf(doc.as_bytes()) {
            Ok(w) => check(w.config().active_table == s, "text setting differs"),
            Err(_) => check(false, "reading failed"),
        }
        cover("text");
    }
}
