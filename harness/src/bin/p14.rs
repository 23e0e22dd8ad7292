//! P14: value formats
use icu_locale_core::{locale, Locale};
use ods_harness::*;
use spreadsheet_ods::condition::ValueCondition;
use spreadsheet_ods::defaultstyles::DefaultFormat;
use spreadsheet_ods::format::*;
use spreadsheet_ods::style::*;
use spreadsheet_ods::*;
use FormatPartType as P;

const PARTS: [FormatPartType; 19] = [
    P::Number,
    P::FillCharacter,
    P::ScientificNumber,
    P::Fraction,
    P::CurrencySymbol,
    P::Day,
    P::Month,
    P::Year,
    P::Era,
    P::DayOfWeek,
    P::WeekOfYear,
    P::Quarter,
    P::Hours,
    P::Minutes,
    P::Seconds,
    P::AmPm,
    P::Boolean,
    P::Text,
    P::TextContent,
];
fn has_content(t: FormatPartType) -> bool {
    matches!(t, P::Text | P::FillCharacter | P::CurrencySymbol)
}
fn book() -> WorkBook {
    let mut sh = Sheet::new("one");
    sh.set_value(0, 0, 1);
    let mut wb = WorkBook::new_empty();
    wb.push_sheet(sh);
    wb
}
/// attributes that are set somewhere
const ATTRS: [&str; 8] = [
    "number:title",
    "style:display-name",
    "style:volatile",
    "number:language",
    "number:country",
    "number:truncate-on-overflow",
    "fo:color",
    "fo:font-weight",
];
const PART_ATTRS: [&str; 18] = [
    "number:decimal-places",
    "number:min-decimal-places",
    "number:grouping",
    "number:min-integer-digits",
    "number:display-factor",
    "number:decimal-replacement",
    "number:exponent-interval",
    "number:forced-exponent-sign",
    "number:min-exponent-digits",
    "number:denominator-value",
    "number:max-denominator-value",
    "number:min-denominator-digits",
    "number:min-numerator-digits",
    "number:language",
    "number:country",
    "number:style",
    "number:calendar",
    "number:textual",
];
fn same_parts(a: &[FormatPart], b: &[FormatPart]) {
    check(a.len() == b.len(), "number of parts");
    for (x, y) in a.iter().zip(b) {
        check(x.part_type() == y.part_type(), "kind of part");
        check(x.position() == y.position(), "position of the embedded text");
        // no text and the empty text are written alike
        let e = String::new();
        check(x.content().unwrap_or(&e) == y.content().unwrap_or(&e), "text of part");
        for n in PART_ATTRS {
            check(x.attr_def(n, "\0") == y.attr_def(n, "\0"), "attribute of part");
        }
    }
}
fn same<T: ValueFormatTrait>(a: Option<&T>, b: Option<&T>) {
    let Some(x) = a else { return check(b.is_none(), "a format of another type") };
    let Some(y) = b else { return check(false, "format is missing") };
    check(x.name() == y.name(), "name");
    check(
        matches!(x.styleuse(), StyleUse::Named) == matches!(y.styleuse(), StyleUse::Named),
        "use of the format",
    );
    for n in ATTRS {
        check(x.attrmap().attr(n) == y.attrmap().attr(n), "attribute");
        check(x.textstyle().attr(n) == y.textstyle().attr(n), "text property");
    }
    same_parts(x.parts(), y.parts());
    let e = vec![];
    let (u, v) = (x.stylemaps().unwrap_or(&e), y.stylemaps().unwrap_or(&e));
    check(u.len() == v.len(), "number of style maps");
    for (u, v) in u.iter().zip(v) {
        check(u.condition().to_string() == v.condition().to_string(), "condition");
        check(u.applied_style() == v.applied_style(), "applied style");
    }
}
fn fill<T: ValueFormatTrait>(mut f: T, parts: Vec<FormatPart>, set: impl FnOnce(&mut dyn FnMut(u8, &str, &str)), maps: Vec<ValueStyleMap>, named: bool, origin: bool) -> T {
    f.set_name("f & <1>");
    f.set_styleuse(if named { StyleUse::Named } else { StyleUse::Automatic });
    f.set_origin(if origin { StyleOrigin::Styles } else { StyleOrigin::Content });
    set(&mut |k, n, v| {
        if k == 0 {
            f.attrmap_mut().set_attr(n, v);
        } else {
            f.textstyle_mut().set_attr(n, v);
        }
    });
    for p in parts {
        f.push_part(p);
    }
    for m in maps {
        f.push_stylemap(m);
    }
    f
}
/// adds the format to a workbook, as one of type t
fn add(wb: &mut WorkBook, t: u64, parts: Vec<FormatPart>, set: impl FnOnce(&mut dyn FnMut(u8, &str, &str)), maps: Vec<ValueStyleMap>, named: bool, origin: bool) {
    let r = match t {
        0 => wb.add_boolean_format(fill(ValueFormatBoolean::new_empty(), parts, set, maps, named, origin)),
        1 => wb.add_number_format(fill(ValueFormatNumber::new_empty(), parts, set, maps, named, origin)),
        2 => wb.add_percentage_format(fill(ValueFormatPercentage::new_empty(), parts, set, maps, named, origin)),
        3 => wb.add_currency_format(fill(ValueFormatCurrency::new_empty(), parts, set, maps, named, origin)),
        4 => wb.add_text_format(fill(ValueFormatText::new_empty(), parts, set, maps, named, origin)),
        5 => wb.add_datetime_format(fill(ValueFormatDateTime::new_empty(), parts, set, maps, named, origin)),
        _ => wb.add_timeduration_format(fill(ValueFormatTimeDuration::new_empty(), parts, set, maps, named, origin)),
    };
    check(r.as_str() == "f & <1>", "reference to the format");
}
fn compare(a: &WorkBook, b: &WorkBook, n: &str) {
    same(a.boolean_format(n), b.boolean_format(n));
    same(a.number_format(n), b.number_format(n));
    same(a.percentage_format(n), b.percentage_format(n));
    same(a.currency_format(n), b.currency_format(n));
    same(a.text_format(n), b.text_format(n));
    same(a.datetime_format(n), b.datetime_format(n));
    same(a.timeduration_format(n), b.timeduration_format(n));
}
fn text_part(t: FormatPartType, s: &str) -> FormatPart {
    let mut p = FormatPart::new(t);
    p.set_content(s);
    p
}
fn text(max: usize) {
    let t = any_text(max);
    let t = t.as_str();
    let k = choose(7);
    let mut parts = vec![FormatPart::new(P::Day), text_part(P::Text, "x")];
    let mut maps = vec![];
    match k {
        0 => parts.push(text_part(P::Text, t)),
        1 => parts.push(text_part(P::FillCharacter, t)),
        2 => {
            let mut p = text_part(P::CurrencySymbol, t);
            p.set_attr("number:language", "de".into());
            parts.push(p);
        }
        3 => {
            let mut p = text_part(P::Number, t);
            p.set_position(1);
            parts.push(p);
        }
        4 => {
            let mut p = FormatPart::new(P::Number);
            p.set_attr("number:decimal-replacement", t.to_string());
            parts.push(p);
        }
        5 => maps.push(ValueStyleMap::new(ValueCondition::value_lt(1), t)),
        _ => {}
    }
    parts.push(text_part(P::Text, "y"));
    let mut wb = book();
    add(
        &mut wb,
        [5, 1, 3, 2, 6, 1, 4][k as usize],
        parts,
        |set| {
            if k == 6 {
                set(0, "number:title", t);
                set(1, "fo:color", t);
            }
        },
        maps,
        true,
        true,
    );
    let Some(w) = roundtrip(&mut wb) else { return };
    compare(&wb, &w, "f & <1>");
    cover("text");
}
const LOCALES: [Locale; 6] =
    [locale!("en"), locale!("en-US"), locale!("de-AT"), locale!("cs-CZ"), locale!("fr-FR"), locale!("de")];

harnesses! {
    // any text of at most 2 bytes in a part, attribute or style map
    fn p14_text() {
        text(2); // cover("text")
    }
    // [thorough] any text of at most 4 bytes in a part, attribute or style map
    fn p14_text4() {
        text(4); // cover("text")
    }
    // formats of every type with any two of the 19 kinds of parts in sequence, with content or attributes
    fn p14_parts() {
        let t = choose(7);
        let (i, j) = (choose(19), choose(19));
        let k = (i + j + t) % 2;
        let mut parts = vec![];
        for x in [i, j] {
            let mut p = FormatPart::new(PARTS[x as usize]);
            if has_content(PARTS[x as usize]) && k == 1 {
                p.set_content("c");
            }
            if k == 0 {
                p.set_attr("number:style", "long".into());
            }
            parts.push(p);
        }
        let mut wb = book();
        add(&mut wb, t, parts, |_| {}, vec![], k == 0, true);
        let Some(w) = roundtrip(&mut wb) else { return };
        compare(&wb, &w, "f & <1>");
        cover("parts");
    }
    // position of embedded text: 0..2047, and limits
    fn p14_position() {
        let k = choose(3);
        let n = match choose(4) {
            0 => range32(0, 2047) as i32,
            1 => -1,
            2 => i32::MAX,
            _ => i32::MIN,
        };
        let mut p = FormatPart::new(P::Number);
        p.set_position(n);
        if k > 0 {
            p.set_content(["", "", "a b"][k as usize]);
        }
        let mut wb = book();
        add(&mut wb, 1, vec![p, FormatPart::new(P::Number)], |_| {}, vec![], true, true);
        let Some(w) = roundtrip(&mut wb) else { return };
        compare(&wb, &w, "f & <1>");
        cover("position");
    }
    // every type, use and origin of a format; any combination of attributes, text properties, parts and style maps, in either kind of document
    fn p14_whole() {
        let t = choose(7);
        let (named, origin) = (choose(2) == 1, choose(2) == 1);
        let m = choose(16);
        let ods = choose(2) == 1;
        assume(!ods || m % 5 == 0);
        let parts = if m & 1 != 0 { vec![FormatPart::new(P::Number), text_part(P::Text, " & ")] } else { vec![] };
        let maps = if m & 2 != 0 {
            vec![ValueStyleMap::new(ValueCondition::value_lt(1), "a"), ValueStyleMap::new(ValueCondition::value_eq(2), "b")]
        } else {
            vec![]
        };
        let mut wb = book();
        add(
            &mut wb,
            t,
            parts,
            |set| {
                if m & 4 != 0 {
                    set(0, "number:title", "t");
                    set(0, "style:volatile", "true");
                }
                if m & 8 != 0 {
                    set(1, "fo:color", "#000000");
                    set(1, "fo:font-weight", "bold");
                }
            },
            maps,
            named,
            origin,
        );
        let w = if ods { roundtrip_ods(&mut wb) } else { roundtrip(&mut wb) };
        let Some(w) = w else { return };
        compare(&wb, &w, "f & <1>");
        cover("whole");
    }
    // formats of the same name but different types, whichever of the seven there are
    fn p14_types() {
        let set = choose(128);
        let mut wb = book();
        for t in 0..7 {
            if set & (1 << t) != 0 {
                add(&mut wb, t, vec![text_part(P::Text, ["a", "b", "c", "d", "e", "f", "g"][t as usize])], |_| {}, vec![], t % 2 == 0, true);
            }
        }
        let Some(w) = roundtrip(&mut wb) else { return };
        compare(&wb, &w, "f & <1>");
        cover("types");
    }
    // what is asked of the builders is what the parts have: every builder, any of its options, any number below 256
    fn p14_builder() {
        let n = any_u8();
        let d = n.to_string();
        let d = d.as_str();
        let c = choose(8);
        let on = |i: u64| c >> i & 1 == 1;
        let set = |p: &FormatPart, i: u64, a: &str, v: &str| {
            let v = if on(i) { v } else { "\0" };
            check(p.attr_def(a, "\0") == v, "option of a part");
        };
        let mut f = ValueFormatNumber::new_named("f");
        let mut g = ValueFormatDateTime::new_named("g");
        let mut e = ValueFormatTimeDuration::new_named("e");
        let mut k = ValueFormatCurrency::new_named("k");
        match choose(16) {
            0 => {
                f.part_number().if_then(on(0), |p| p.decimal_places(n)).if_then(on(1), |p| p.grouping()).if_then(on(2), |p| p.min_integer_digits(n)).build();
                let p = &f.parts()[0];
                check(p.part_type() == P::Number, "kind of part");
                set(p, 0, "number:decimal-places", d);
                set(p, 1, "number:grouping", "true");
                set(p, 2, "number:min-integer-digits", d);
            }
            1 => {
                f.part_number().if_then(on(0), |p| p.min_decimal_places(n)).if_then(on(1), |p| p.decimal_replacement(n as char)).if_then(on(2), |p| p.embedded_text(d, n as i32)).build();
                let p = &f.parts()[0];
                set(p, 0, "number:min-decimal-places", d);
                set(p, 1, "number:decimal-replacement", &(n as char).to_string());
                check(p.position() == on(2).then_some(n as i32), "position of embedded text");
                check(p.content().map(|s| s.as_str()) == on(2).then_some(d), "embedded text");
            }
            2 => {
                f.part_number().if_then(on(0), |p| p.fixed_decimal_places(n)).build();
                let p = &f.parts()[0];
                set(p, 0, "number:decimal-places", d);
                set(p, 0, "number:min-decimal-places", d);
            }
            3 => {
                f.part_scientific().if_then(on(0), |p| p.decimal_places(n)).if_then(on(1), |p| p.expontent_interval(n)).if_then(on(2), |p| p.forced_exponent_sign(n > 7)).build();
                let p = &f.parts()[0];
                check(p.part_type() == P::ScientificNumber, "kind of part");
                set(p, 0, "number:decimal-places", d);
                set(p, 1, "number:exponent-interval", d);
                set(p, 2, "number:forced-exponent-sign", if n > 7 { "true" } else { "false" });
            }
            4 => {
                f.part_scientific().if_then(on(0), |p| p.min_decimal_places(n)).if_then(on(1), |p| p.min_exponent_digits(n)).if_then(on(2), |p| p.min_integer_digits(n).grouping()).build();
                let p = &f.parts()[0];
                set(p, 0, "number:min-decimal-places", d);
                set(p, 1, "number:min-exponent-digits", d);
                set(p, 2, "number:min-integer-digits", d);
                set(p, 2, "number:grouping", "true");
            }
            5 => {
                f.part_fraction().if_then(on(0), |p| p.denominator(n as i64)).if_then(on(1), |p| p.max_denominator(n as i64)).if_then(on(2), |p| p.min_denominator_digits(n)).build();
                let p = &f.parts()[0];
                check(p.part_type() == P::Fraction, "kind of part");
                set(p, 0, "number:denominator-value", d);
                set(p, 1, "number:max-denominator-value", d);
                set(p, 2, "number:min-denominator-digits", d);
            }
            6 => {
                f.part_fraction().if_then(on(0), |p| p.min_integer_digits(n)).if_then(on(1), |p| p.min_numerator_digits(n)).if_then(on(2), |p| p.grouping()).build();
                let p = &f.parts()[0];
                set(p, 0, "number:min-integer-digits", d);
                set(p, 1, "number:min-numerator-digits", d);
                set(p, 2, "number:grouping", "true");
            }
            7 => {
                g.part_month().if_then(on(0), |p| p.textual()).if_then(on(1), |p| p.possessive_form()).if_then(on(2), |p| p.long_style()).build();
                let p = &g.parts()[0];
                check(p.part_type() == P::Month, "kind of part");
                set(p, 0, "number:textual", "true");
                set(p, 1, "number:possessive-form", "true");
                set(p, 2, "number:style", "long");
            }
            8 => {
                e.part_seconds().if_then(on(0), |p| p.decimal_places(n)).if_then(on(1), |p| p.long_style()).build();
                e.part_hours().if_then(on(1), |p| p.short_style()).build();
                e.part_minutes().if_then(on(2), |p| p.long_style()).build();
                e.part_am_pm().build();
                let p = e.parts();
                check(p.len() == 4 && p[0].part_type() == P::Seconds && p[1].part_type() == P::Hours && p[2].part_type() == P::Minutes && p[3].part_type() == P::AmPm, "kind of part");
                set(&p[0], 0, "number:decimal-places", d);
                set(&p[0], 1, "number:style", "long");
                set(&p[1], 1, "number:style", "short");
                set(&p[2], 2, "number:style", "long");
            }
            9 => {
                g.part_day().if_then(on(0), |p| p.long_style()).if_then(on(1), |p| p.calendar(FormatCalendarStyle::Buddhist)).build();
                g.part_year().if_then(on(0), |p| p.short_style()).if_then(on(1), |p| p.calendar(FormatCalendarStyle::Gengou)).build();
                g.part_era().if_then(on(0), |p| p.long_style()).if_then(on(1), |p| p.calendar(FormatCalendarStyle::Roc)).build();
                let p = g.parts();
                check(p.len() == 3 && p[0].part_type() == P::Day && p[1].part_type() == P::Year && p[2].part_type() == P::Era, "kind of part");
                set(&p[0], 0, "number:style", "long");
                set(&p[1], 0, "number:style", "short");
                set(&p[2], 0, "number:style", "long");
                set(&p[0], 1, "number:calendar", "buddhist");
                set(&p[1], 1, "number:calendar", "gengou");
                set(&p[2], 1, "number:calendar", "ROC");
            }
            10 => {
                g.part_day_of_week().if_then(on(0), |p| p.long_style()).if_then(on(1), |p| p.calendar(FormatCalendarStyle::Jewish)).build();
                g.part_week_of_year().if_then(on(1), |p| p.calendar(FormatCalendarStyle::Hijri)).build();
                g.part_quarter().if_then(on(0), |p| p.long_style()).if_then(on(1), |p| p.calendar(FormatCalendarStyle::Hanja)).build();
                let p = g.parts();
                check(p.len() == 3 && p[0].part_type() == P::DayOfWeek && p[1].part_type() == P::WeekOfYear && p[2].part_type() == P::Quarter, "kind of part");
                set(&p[0], 0, "number:style", "long");
                set(&p[2], 0, "number:style", "long");
                set(&p[0], 1, "number:calendar", "jewish");
                set(&p[1], 1, "number:calendar", "hijri");
                set(&p[2], 1, "number:calendar", "hanja");
            }
            11 => {
                let l = LOCALES[choose(6) as usize].clone();
                k.part_currency().if_then(on(0), |p| p.locale(l.clone())).if_then(on(1), |p| p.symbol(d)).build();
                k.part_text(d).build();
                k.part_fill_character().if_then(on(2), |p| p.fill_char(n as char)).build();
                let p = k.parts();
                check(p.len() == 3 && p[0].part_type() == P::CurrencySymbol && p[1].part_type() == P::Text && p[2].part_type() == P::FillCharacter, "kind of part");
                set(&p[0], 0, "number:language", l.id.language.as_str());
                let r = l.id.region.map(|r| r.to_string());
                set(&p[0], 0, "number:country", r.as_deref().unwrap_or("\0"));
                check(p[0].content().map(|s| s.as_str()) == on(1).then_some(d), "currency symbol");
                check(p[1].content().map(|s| s.as_str()) == Some(d), "text");
                check(p[2].content().cloned() == on(2).then(|| (n as char).to_string()), "fill character");
            }
            12 => {
                f = create_number_format("f", n, on(0));
                let p = &f.parts()[0];
                check(f.parts().len() == 1 && p.part_type() == P::Number, "number format");
                check(p.attr_def("number:decimal-places", "") == d, "decimal places");
                set(p, 0, "number:grouping", "true");
                f = create_number_format_fixed("f", n, on(1));
                let p = &f.parts()[0];
                check(f.parts().len() == 1 && p.part_type() == P::Number, "number format");
                check(p.attr_def("number:decimal-places", "") == d && p.attr_def("number:min-decimal-places", "") == d, "decimal places");
                set(p, 1, "number:grouping", "true");
            }
            13 => {
                let l = locale!("de-AT");
                f = create_loc_number_format("f", l.clone(), n, on(0));
                let p = &f.parts()[0];
                check(f.parts().len() == 1 && p.part_type() == P::Number, "number format");
                check(f.locale() == Some(l.clone()), "locale of the format");
                check(p.attr_def("number:decimal-places", "") == d, "decimal places");
                set(p, 0, "number:grouping", "true");
                let h = create_loc_percentage_format("f", l.clone(), n);
                check(h.locale() == Some(l.clone()), "locale of the format");
                check(h.parts().len() == 2 && h.parts()[0].attr_def("number:decimal-places", "") == d, "percentage format");
                check(h.parts()[1].content().map(|s| s.as_str()) == Some("%"), "percentage format");
            }
            // a currency format shows the amount and the symbol once, in their order
            14 => {
                let (l, m) = (locale!("de-AT"), locale!("en-US"));
                let (pre, v) = (on(0), on(1));
                k = match (pre, v) {
                    (true, true) => create_loc_currency_prefix("k", l, m, d),
                    (true, false) => create_currency_prefix("k", m, d),
                    (false, true) => create_loc_currency_suffix("k", l, m, d),
                    (false, false) => create_currency_suffix("k", m, d),
                };
                let p: Vec<&FormatPart> = k.parts().iter().filter(|p| p.part_type() != P::Text).collect();
                check(p.len() == 2, "number of parts of a currency format");
                let (s, a) = if pre { (p[0], p[1]) } else { (p[1], p[0]) };
                check(s.part_type() == P::CurrencySymbol && a.part_type() == P::Number, "order of a currency format");
                check(s.content().map(|s| s.as_str()) == Some(d), "currency symbol");
                check(s.attr_def("number:country", "") == "US", "locale of the symbol");
                check(a.attr_def("number:decimal-places", "") == "2", "decimal places of the amount");
            }
            // dates and times have their parts in order
            _ => {
                let want: &[FormatPartType] = match c {
                    0 => &[P::Year, P::Month, P::Day],
                    1 | 4 => &[P::Day, P::Month, P::Year],
                    2 | 5 => &[P::Month, P::Day, P::Year],
                    3 => &[P::Year, P::Month, P::Day, P::Hours, P::Minutes, P::Seconds],
                    6 => &[P::Day, P::Month, P::Year, P::Hours, P::Minutes, P::Seconds],
                    _ => &[P::Hours, P::Minutes, P::Seconds],
                };
                let l = locale!("de-AT");
                let parts = match c {
                    0 => create_date_iso_format("g").parts().clone(),
                    1 => create_date_dmy_format("g").parts().clone(),
                    2 => create_date_mdy_format("g").parts().clone(),
                    3 => create_datetime_format("g").parts().clone(),
                    4 => create_loc_date_dmy_format("g", l).parts().clone(),
                    5 => create_loc_date_mdy_format("g", l).parts().clone(),
                    6 => create_loc_datetime_format("g", l).parts().clone(),
                    _ => {
                        check(create_time_interval_format("e").truncate_on_overflow() == Some(false), "interval");
                        check(create_loc_time_interval_format("e", l).truncate_on_overflow() == Some(false), "interval");
                        create_time_of_day_format("e").parts().clone()
                    }
                };
                let p: Vec<FormatPartType> = parts.iter().map(|p| p.part_type()).filter(|p| *p != P::Text).collect();
                check(p == want, "parts of a date");
            }
        }
        cover("builder");
    }
    // a workbook of any supported locale: every value type has a default style whose format exists, is of that type and survives a round trip
    fn p14_locale() {
        let l = LOCALES[choose(6) as usize].clone();
        let known = l != locale!("fr-FR") && l != locale!("de");
        let mut wb = WorkBook::new(l.clone());
        let mut sh = Sheet::new("one");
        let vals: [Value; 6] = [
            Value::Boolean(true),
            Value::Number(1.5),
            Value::Percentage(0.5),
            Value::Currency(2.0, "EUR".into()),
            Value::DateTime(chrono::NaiveDate::from_ymd_opt(2020, 1, 2).unwrap().and_hms_opt(3, 4, 5).unwrap()),
            Value::TimeDuration(chrono::Duration::seconds(100)),
        ];
        for (i, v) in vals.iter().enumerate() {
            sh.set_value(0, i as u32, v.clone());
        }
        wb.push_sheet(sh);
        let w = if choose(2) == 1 { roundtrip_ods(&mut wb) } else { roundtrip(&mut wb) };
        let Some(w) = w else { return };
        for (b, again) in [(&wb, false), (&w, true)] {
            for (i, v) in vals.iter().enumerate() {
                let t = v.value_type();
                let Some(s) = b.def_style(t) else { return check(false, "no default style") };
                let Some(c) = b.cellstyle(s.as_str()) else { return check(false, "default style is missing") };
                let Some(f) = c.value_format() else { return check(false, "default style without format") };
                let there = [
                    b.boolean_format(f).is_some(),
                    b.number_format(f).is_some(),
                    b.percentage_format(f).is_some(),
                    b.currency_format(f).is_some(),
                    b.datetime_format(f).is_some(),
                    b.timeduration_format(f).is_some(),
                ];
                check(there[i] || !known, "format of the default style is missing or of another type");
                if again && known {
                    compare(&wb, &w, f);
                    check(w.sheet(0).cellstyle(0, i as u32).map(|s| s.as_str()) == Some(s.as_str()), "cell without a style gets the default style of its type");
                }
            }
        }
        if known {
            for f in [DefaultFormat::date(), DefaultFormat::datetime(), DefaultFormat::time_of_day()] {
                check(wb.datetime_format(f.as_str()).is_some(), "default format is missing");
            }
            // a date shows the date, a time of day the time
            let has = |f: ValueFormatRef, t: FormatPartType| wb.datetime_format(f.as_str()).is_some_and(|f| f.parts().iter().any(|p| p.part_type() == t));
            check(has(DefaultFormat::date(), P::Day) && has(DefaultFormat::date(), P::Month) && has(DefaultFormat::date(), P::Year) && !has(DefaultFormat::date(), P::Hours), "date format");
            check(has(DefaultFormat::datetime(), P::Day) && has(DefaultFormat::datetime(), P::Hours) && has(DefaultFormat::datetime(), P::Seconds), "format of date and time");
            check(has(DefaultFormat::time_of_day(), P::Hours) && !has(DefaultFormat::time_of_day(), P::Day), "time of day");
            check(wb.number_format("num1").is_some_and(|f| f.locale() == Some(l.clone())), "locale of the format");
        }
        cover("locale");
    }
}
