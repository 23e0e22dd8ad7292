//! P16: document metadata
use chrono::{Duration, NaiveDate, NaiveDateTime};
use ods_harness::*;
use spreadsheet_ods::metadata::*;
use spreadsheet_ods::xlink::*;
use spreadsheet_ods::*;

fn book() -> WorkBook {
    let mut sh = Sheet::new("one");
    sh.set_value(0, 0, 1);
    let mut wb = WorkBook::new_empty();
    wb.push_sheet(sh);
    wb
}
/// the text fields, the generator is set when writing
fn texts(m: &mut Metadata) -> [&mut String; 8] {
    [
        &mut m.title,
        &mut m.description,
        &mut m.subject,
        &mut m.keyword,
        &mut m.initial_creator,
        &mut m.creator,
        &mut m.printed_by,
        &mut m.language,
    ]
}
fn dates(m: &mut Metadata) -> [&mut Option<NaiveDateTime>; 3] {
    [&mut m.creation_date, &mut m.date, &mut m.print_date]
}
fn actuate(k: u64) -> Option<XLinkActuate> {
    match k {
        0 => None,
        1 => Some(XLinkActuate::OnLoad),
        _ => Some(XLinkActuate::OnRequest),
    }
}
fn actuate_no(k: Option<XLinkActuate>) -> u64 {
    match k {
        None => 0,
        Some(XLinkActuate::OnLoad) => 1,
        Some(XLinkActuate::OnRequest) => 2,
    }
}
fn show(k: u64) -> Option<XLinkShow> {
    match k {
        0 => None,
        1 => Some(XLinkShow::New),
        _ => Some(XLinkShow::Replace),
    }
}
fn show_no(k: Option<XLinkShow>) -> u64 {
    match k {
        None => 0,
        Some(XLinkShow::New) => 1,
        Some(XLinkShow::Replace) => 2,
    }
}
fn ltype(k: u64) -> Option<XLinkType> {
    match k {
        0 => None,
        1 => Some(XLinkType::Simple),
        2 => Some(XLinkType::Extended),
        3 => Some(XLinkType::Locator),
        4 => Some(XLinkType::Arc),
        5 => Some(XLinkType::Resource),
        6 => Some(XLinkType::Title),
        _ => Some(XLinkType::None),
    }
}
fn ltype_no(k: Option<XLinkType>) -> u64 {
    match k {
        None => 0,
        Some(XLinkType::Simple) => 1,
        Some(XLinkType::Extended) => 2,
        Some(XLinkType::Locator) => 3,
        Some(XLinkType::Arc) => 4,
        Some(XLinkType::Resource) => 5,
        Some(XLinkType::Title) => 6,
        Some(XLinkType::None) => 7,
    }
}
fn day(n: i64) -> NaiveDateTime {
    NaiveDate::from_ymd_opt(2020, 1, 1).unwrap().and_hms_opt(1, 2, 3).unwrap() + Duration::days(n)
}
/// the fields that nobody touched
fn rest(m: &mut Metadata, but_text: usize, but_date: usize) {
    for (i, t) in texts(m).into_iter().enumerate() {
        if i != but_text {
            check(t.is_empty(), "a text appeared");
        }
    }
    for (i, t) in dates(m).into_iter().enumerate() {
        if i != but_date {
            check(t.is_none(), "a date appeared");
        }
    }
}

/// nanoseconds: every value of three digits in a row
fn nano() -> u32 {
    let v = range32(0, 999);
    v * pick(&[1u32, 1000, 1_000_000])
}
fn text(max: usize) {
    let k = choose(8) as usize;
    let s = any_text(max);
    let mut wb = book();
    *texts(wb.metadata_mut())[k] = s.clone();
    let Some(mut w) = roundtrip(&mut wb) else { return };
    check(*texts(w.metadata_mut())[k] == s, "text differs");
    rest(w.metadata_mut(), k, 9);
    check(w.metadata().generator == wb.metadata().generator, "generator");
    cover("text");
}
fn user(max: usize) {
    let s = any_text(max);
    let mut wb = book();
    let (a, b) = if choose(2) == 1 { (s.as_str(), "x") } else { ("x<", s.as_str()) };
    wb.metadata_mut().user_defined.push(MetaUserDefined { name: "first".into(), value: MetaValue::Boolean(true) });
    wb.metadata_mut().user_defined.push(MetaUserDefined { name: a.to_string(), value: MetaValue::String(b.to_string()) });
    wb.metadata_mut().user_defined.push(MetaUserDefined { name: "last".into(), value: MetaValue::String("".into()) });
    let Some(w) = roundtrip(&mut wb) else { return };
    let u = &w.metadata().user_defined;
    check(u.len() == 3, "number of user defined values");
    check(u[0].name == "first" && u[1].name == a && u[2].name == "last", "name of a user defined value");
    check(matches!(u[0].value, MetaValue::Boolean(true)), "first value");
    match &u[1].value {
        MetaValue::String(t) => check(t == b, "text of a user defined value"),
        _ => check(false, "type of a user defined value"),
    }
    match &u[2].value {
        MetaValue::String(t) => check(t.is_empty(), "empty user defined value"),
        _ => check(false, "type of an empty user defined value"),
    }
    cover("user");
}

harnesses! {
    // any text of at most 2 bytes in one of the text fields
    fn p16_text() {
        text(2); // cover("text")
    }
    // [thorough] any text of at most 4 bytes in one of the text fields
    fn p16_text4() {
        text(4); // cover("text")
    }
    // none, all, one or all but one of the fields set, through either kind of document
    fn p16_fields() {
        let k = choose(12);
        let mut n = if k == 11 { 0 } else { 1u64 << k };
        if choose(2) == 1 {
            n = 2047 - n;
        }
        let ods = choose(2) == 1;
        let mut wb = book();
        for (i, t) in texts(wb.metadata_mut()).into_iter().enumerate() {
            if n & (1 << i) != 0 {
                *t = format!("text & <{}>", i);
            }
        }
        for (i, t) in dates(wb.metadata_mut()).into_iter().enumerate() {
            if n & (256 << i) != 0 {
                *t = Some(day(i as i64));
            }
        }
        let w = if ods { roundtrip_ods(&mut wb) } else { roundtrip(&mut wb) };
        let Some(mut w) = w else { return };
        for (i, t) in texts(w.metadata_mut()).into_iter().enumerate() {
            check(*t == if n & (1 << i) != 0 { format!("text & <{}>", i) } else { String::new() }, "text differs");
        }
        for (i, t) in dates(w.metadata_mut()).into_iter().enumerate() {
            check(*t == if n & (256 << i) != 0 { Some(day(i as i64)) } else { None }, "date differs");
        }
        cover("fields");
    }
    // any second of a day, any of its fractions (three digit windows), or any day of three years, in one of the dates
    fn p16_date() {
        let k = choose(4) as usize;
        let (d, s, n) = match choose(3) {
            0 => (range(0, 1095) as i64, 45296, 0),
            1 => (60, range32(0, 86399), 0),
            _ => (59, 86399, nano()),
        };
        let Some(t) = chrono::NaiveTime::from_num_seconds_from_midnight_opt(s, n) else { return };
        let t = (NaiveDate::from_ymd_opt(2019, 1, 1).unwrap() + Duration::days(d)).and_time(t);
        let mut wb = book();
        match k {
            3 => wb.metadata_mut().template.date = Some(t),
            k => *dates(wb.metadata_mut())[k] = Some(t),
        }
        let Some(mut w) = roundtrip(&mut wb) else { return };
        let u = match k {
            3 => w.metadata().template.date,
            k => *dates(w.metadata_mut())[k],
        };
        check(u == Some(t), "date differs");
        rest(w.metadata_mut(), 9, k);
        cover("date");
    }
    // editing cycles below 100000 and three larger ones; durations of up to 200000 seconds and 8 with a fraction, of either sign
    fn p16_duration() {
        let mut wb = book();
        let k = choose(3);
        let (mut d, mut c) = (Duration::zero(), 0);
        if k == 0 {
            c = if choose(2) == 0 { range32(0, 99_999) } else { *pick(&[100_000, 1 << 31, u32::MAX]) };
        } else {
            d = match choose(3) {
                0 => Duration::try_seconds(range32(0, 200_000) as i64).unwrap(),
                1 => Duration::new(*pick(&[0i64, 86_399]), *pick(&[1, 10, 500_000_000, 999_999_999])).unwrap(),
                _ => -Duration::new(*pick(&[0i64, 86_399]), *pick(&[1, 10, 500_000_000, 999_999_999])).unwrap(),
            };
        }
        match k {
            0 => wb.metadata_mut().editing_cycles = c,
            1 => wb.metadata_mut().editing_duration = d,
            _ => wb.metadata_mut().auto_reload.delay = Some(d),
        }
        let Some(w) = roundtrip(&mut wb) else { return };
        let m = w.metadata();
        check(m.editing_cycles == if k == 0 { c } else { 0 }, "editing cycles");
        check(m.editing_duration == if k == 1 { d } else { Duration::zero() }, "editing duration");
        check(m.auto_reload.delay == if k == 2 { Some(d) } else { None }, "delay");
        match k {
            0 => cover("cycles"),
            1 => cover("duration"),
            _ => cover("delay"),
        }
    }
    // every combination of the link attributes; any text of at most 1 byte as address, title or frame
    fn p16_links() {
        let k = choose(3);
        let s = any_text(1);
        let mut wb = book();
        let (a, h, t, l) = (choose(3), choose(2) == 1, choose(if k == 2 { 1 } else { 3 }), choose(8));
        let o = h.then(|| s.clone());
        match k {
            0 => {
                let x = &mut wb.metadata_mut().template;
                x.actuate = actuate(a);
                x.href = o.clone();
                x.title = (t == 1).then(|| "t&\"".to_string());
                x.link_type = ltype(l);
            }
            1 => {
                let x = &mut wb.metadata_mut().auto_reload;
                x.actuate = actuate(a);
                x.href = o.clone();
                x.show = show(t);
                x.link_type = ltype(l);
            }
            _ => {
                let x = &mut wb.metadata_mut().hyperlink_behaviour;
                x.target_frame_name = o.clone();
                x.show = show(a);
            }
        }
        let Some(w) = roundtrip(&mut wb) else { return };
        let m = w.metadata();
        check(m.template.is_empty() || k == 0, "template appeared");
        check(m.auto_reload.is_empty() || k == 1, "reload appeared");
        check(m.hyperlink_behaviour.is_empty() || k == 2, "hyperlink behaviour appeared");
        match k {
            0 => {
                let x = &m.template;
                check(actuate_no(x.actuate) == a, "actuate of template");
                check(x.href == o, "address of template");
                check(x.title.as_deref() == (t == 1).then_some("t&\""), "title of template");
                check(ltype_no(x.link_type) == l, "link type of template");
                cover("template");
            }
            1 => {
                let x = &m.auto_reload;
                check(actuate_no(x.actuate) == a, "actuate of reload");
                check(x.href == o, "address of reload");
                check(show_no(x.show) == t, "show of reload");
                check(ltype_no(x.link_type) == l, "link type of reload");
                cover("reload");
            }
            _ => {
                let x = &m.hyperlink_behaviour;
                check(x.target_frame_name == o, "frame of hyperlink behaviour");
                check(show_no(x.show) == a, "show of hyperlink behaviour");
                cover("hyperlink");
            }
        }
    }
    // names and texts of user defined values: any text of at most 2 bytes
    fn p16_user() {
        user(2); // cover("user")
    }
    // [thorough] names and texts of user defined values: any text of at most 5 bytes
    fn p16_user5() {
        user(5); // cover("user")
    }
    // user defined values of every type, up to two, in any order
    fn p16_types() {
        let n = choose(3);
        let mut wb = book();
        let mut exp = vec![];
        for i in 0..n {
            let k = choose(5);
            let f = if k == 2 { *pick(&[0.0, -1.5, 1e300, 0.1, 123456789.0]) } else { 0.0 };
            let d = Duration::seconds(if k == 3 { *pick(&[0i64, -1, 86400]) } else { 0 });
            let b = k == 0 && any_bool();
            wb.metadata_mut().user_defined.push(MetaUserDefined {
                name: format!("n{}", i),
                value: match k {
                    0 => MetaValue::Boolean(b),
                    1 => MetaValue::Datetime(day(i as i64)),
                    2 => MetaValue::Float(f),
                    3 => MetaValue::TimeDuration(d),
                    _ => MetaValue::String(format!("text {}", i)),
                },
            });
            exp.push((k, b, f, d));
        }
        let Some(w) = roundtrip(&mut wb) else { return };
        let u = &w.metadata().user_defined;
        check(u.len() == n as usize, "number of user defined values");
        for i in 0..n as usize {
            check(u[i].name == format!("n{}", i), "name of a user defined value");
            let (k, b, f, d) = exp[i];
            match &u[i].value {
                MetaValue::Boolean(v) => check(k == 0 && *v == b, "boolean"),
                MetaValue::Datetime(v) => check(k == 1 && *v == day(i as i64), "date"),
                MetaValue::Float(v) => check(k == 2 && *v == f, "number"),
                MetaValue::TimeDuration(v) => check(k == 3 && *v == d, "duration"),
                MetaValue::String(v) => check(k == 4 && *v == format!("text {}", i), "text"),
            }
            cover("value");
        }
        rest(&mut w.metadata().clone(), 9, 9);
    }
    // the counts of tables and cells are those of the workbook
    fn p16_statistics() {
        let (n, c) = (choose(3) as usize, choose(4) as u32);
        let k = choose(2);
        let (o, l) = if k == 0 { (range32(0, 65535), u32::MAX) } else { (7, range32(0, 65535)) };
        let mut wb = book();
        for i in 0..n {
            wb.push_sheet(Sheet::new(format!("s{}", i)));
        }
        for i in 0..c {
            wb.sheet_mut(n).set_value(i, i, 1);
        }
        wb.metadata_mut().document_statistics.table_count = 77;
        wb.metadata_mut().document_statistics.object_count = o;
        wb.metadata_mut().document_statistics.ole_object_count = l;
        let Some(w) = roundtrip(&mut wb) else { return };
        let s = &w.metadata().document_statistics;
        let mut cells = 0;
        for i in 0..wb.num_sheets() {
            cells += wb.sheet(i).cell_count();
        }
        check(s.table_count == n as u32 + 1, "number of tables");
        check(s.cell_count as usize == cells, "number of cells");
        check(s.object_count == o, "number of objects");
        check(s.ole_object_count == l, "number of OLE objects");
        cover("statistics");
    }
}
