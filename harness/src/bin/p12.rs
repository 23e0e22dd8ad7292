//! P12: content validations
use ods_harness::*;
use spreadsheet_ods::condition::Condition;
use spreadsheet_ods::text::*;
use spreadsheet_ods::validation::*;
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
use spreadsheet_ods::*;

fn book() -> WorkBook {
    let mut sh = Sheet::new("one");
    sh.set_value(0, 0, 1);
    let mut wb = WorkBook::new_empty();
    wb.push_sheet(sh);
    wb
}
/// the text of a paragraph
fn text(a: &XmlTag) -> Option<String> {
    if a.name() != "text:p" {
        return None;
    }
    let mut r = String::new();
    for c in a.content() {
        match c {
            XmlContent::Text(t) => r.push_str(t),
            _ => return None,
        }
    }
    Some(r)
}
fn display(k: u64) -> ValidationDisplay {
    match k {
        0 => ValidationDisplay::NoDisplay,
        1 => ValidationDisplay::Unsorted,
        _ => ValidationDisplay::SortAscending,
    }
}
fn display_no(k: ValidationDisplay) -> u64 {
    match k {
        ValidationDisplay::NoDisplay => 0,
        ValidationDisplay::Unsorted => 1,
        ValidationDisplay::SortAscending => 2,
    }
}
fn msg(k: u64) -> MessageType {
    match k {
        0 => MessageType::Error,
        1 => MessageType::Warning,
        _ => MessageType::Info,
    }
}
fn msg_no(k: &MessageType) -> u64 {
    match k {
        MessageType::Error => 0,
        MessageType::Warning => 1,
        MessageType::Info => 2,
    }
}
fn para(s: &str) -> TextTag {
    TextP::new().text(s).into()
}

fn condition(max: usize) {
    let s = any_string(max);
    let c = match choose(3) {
        0 => Condition::is_true_formula(&s),
        1 => Condition::content_eq(s.as_str()),
        _ => Condition::content_is_date_and(Condition::is_true_formula(&s)),
    };
    let t = c.to_string();
    let mut wb = book();
    let mut v = Validation::new();
    v.set_name("v");
    v.set_condition(c);
    wb.add_validation(v);
    let Some(w) = roundtrip(&mut wb) else { return };
    let Some(u) = w.validation("v") else { return check(false, "validation is missing") };
    check(u.condition().to_string() == t, "condition differs");
    check(w.iter_validations().count() == 1, "number of validations");
    cover("condition");
}
fn messages(max: usize) {
    // 0: no message, 1: empty, 2: title, 3: text, 4: both
    let ek = choose(5);
    let hk = choose(5);
    // the symbolic text is in one of them
    let n = any_string(max);
    let err_sym = any_bool();
    let (es, hs) = if err_sym { (n.as_str(), "help") } else { ("err", n.as_str()) };
    if ek >= 3 && err_sym || hk >= 3 && !err_sym {
        assume(!n.is_empty());
    }
    let (ed, hd) = (any_bool(), any_bool());
    let mt = choose(3);
    let mut v = Validation::new();
    v.set_name("v");
    if ek > 0 {
        let mut e = ValidationError::new();
        e.set_display(ed);
        e.set_msg_type(msg(mt));
        if ek == 2 || ek == 4 {
            e.set_title(Some(es.to_string()));
        }
        if ek > 2 {
            e.set_text(Some(para(es)));
        }
        v.set_err(Some(e));
    } else {
        v.set_err(None);
    }
    if hk > 0 {
        let mut h = ValidationHelp::new();
        h.set_display(hd);
        if hk == 2 || hk == 4 {
            h.set_title(Some(hs.to_string()));
        }
        if hk > 2 {
            h.set_text(Some(para(hs)));
        }
        v.set_help(Some(h));
    }
    let mut wb = book();
    wb.add_validation(v);
    let Some(w) = roundtrip(&mut wb) else { return };
    check(w.iter_validations().count() == 1, "number of validations");
    let Some(u) = w.validation("v") else { return check(false, "validation is missing") };
    match u.err() {
        // a validation always has an error message after reading
        None => check(ek == 0, "error message is missing"),
        Some(e) if ek == 0 => check(e.text().is_none() && e.title().is_none(), "error message appeared"),
        Some(e) => {
            check(e.display() == ed, "display of error");
            check(msg_no(e.msg_type()) == mt, "message type");
            check(e.title() == (ek == 2 || ek == 4).then_some(es), "title of error");
            check(e.text().is_some() == (ek > 2), "text of error");
            if let Some(t) = e.text() {
                check(text(t).as_deref() == Some(es), "text of error differs");
            }
            cover("error");
        }
    }
    match u.help() {
        None => check(hk == 0, "help message is missing"),
        Some(h) => {
            check(hk != 0, "help message appeared");
            check(h.display() == hd, "display of help");
            check(h.title() == (hk == 2 || hk == 4).then_some(hs), "title of help");
            check(h.text().is_some() == (hk > 2), "text of help");
            if let Some(t) = h.text() {
                check(text(t).as_deref() == Some(hs), "text of help differs");
            }
            cover("help");
        }
    }
}

harnesses! {
    // conditions with any text of at most 2 bytes
    fn p12_condition() {
        condition(2); // cover("condition")
    }
    // [thorough] conditions with any text of at most 4 bytes
    fn p12_condition4() {
        condition(4); // cover("condition")
    }
    // every combination of parts of the messages, any text of at most 1 byte in one of them
    fn p12_messages() {
        messages(1); // cover("error") cover("help")
    }
    // [thorough] same with at most 3 bytes
    fn p12_messages3() {
        messages(3); // cover("error") cover("help")
    }
    // two validations: flags, display of the list, any base cell, references from cells
    fn p12_flags() {
        let names = ["v", "a&b<"];
        let (r, c) = (range32(0, 1048575), choose(2) as u32);
        let mut wb = book();
        let mut exp = vec![];
        for (i, n) in names.iter().enumerate() {
            let (e, d) = (any_bool(), choose(3));
            let mut v = Validation::new();
            v.set_name(n);
            v.set_allow_empty(e);
            v.set_display(display(d));
            v.set_base_cell(if i == 0 { CellRef::remote("one", r, c) } else { CellRef::remote("x y", 1, 2) });
            let vr = wb.add_validation(v);
            check(vr.as_str() == *n, "reference to the validation");
            wb.sheet_mut(0).set_validation(0, i as u32, &vr);
            exp.push((e, d));
        }
        let Some(w) = roundtrip(&mut wb) else { return };
        check(w.iter_validations().count() == 2, "number of validations");
        for (i, n) in names.iter().enumerate() {
            let Some(u) = w.validation(n) else { return check(false, "validation is missing") };
            check(u.allow_empty() == exp[i].0, "allow empty");
            check(display_no(u.display()) == exp[i].1, "display of the list");
            let b = u.base_cell();
            if i == 0 {
                check(b.row() == r && b.col() == c && b.table().map(|s| s.as_str()) == Some("one"), "base cell");
            } else {
                check(b.row() == 1 && b.col() == 2 && b.table().map(|s| s.as_str()) == Some("x y"), "base cell");
            }
            check(w.sheet(0).validation(0, i as u32).map(|s| s.as_str()) == Some(*n), "validation of the cell");
        }
        cover("flags");
    }
    // validations without a name get one that is free, whatever names are there
    fn p12_names() {
        let mut wb = book();
        let mut refs: Vec<String> = vec![];
        for i in 0..4u32 {
            let mut v = Validation::new();
            let n = *pick(&["", "val0", "val1", "val2"]);
            assume(n.is_empty() || !refs.iter().any(|r| r == n));
            v.set_name(n);
            v.set_base_cell(CellRef::local(i, 0));
            let r = wb.add_validation(v);
            check(!r.as_str().is_empty(), "no name");
            check(n.is_empty() || r.as_str() == n, "other name");
            check(!refs.iter().any(|x| x == r.as_str()), "the same name again");
            refs.push(r.as_str().to_string());
        }
        let Some(w) = roundtrip(&mut wb) else { return };
        check(w.iter_validations().count() == 4, "number of validations");
        for (i, n) in refs.iter().enumerate() {
            check(w.validation(n).map(|v| v.base_cell().row()) == Some(i as u32), "another validation");
        }
        cover("names");
    }
    // read from a document with any number of paragraphs in the messages
    fn p12_read() {
        let (ne, nh) = (choose(4), choose(4));
        let ws = if any_bool() { "\n " } else { "" };
        let long = any_bool();
        let mut d = String::from("<table:content-validations>");
        let m = |d: &mut String, e: &str, n: u64| {
            d.push_str(&format!("<table:{} table:display=\"true\"", e));
            if n == 0 && !long {
                d.push_str("/>");
            } else {
                d.push('>');
                for i in 0..n {
                    d.push_str(ws);
                    d.push_str(&format!("<text:p>{}{}</text:p>", e, i));
                }
                if n > 0 {
                    d.push_str(ws);
                }
                d.push_str(&format!("</table:{}>", e));
            }
        };
        d.push_str("<table:content-validation table:name=\"v\" table:condition=\"of:is-true-formula(1)\">");
        m(&mut d, "help-message", nh);
        m(&mut d, "error-message", ne);
        d.push_str("</table:content-validation>");
        // another one after it
        d.push_str("<table:content-validation table:name=\"w\" table:condition=\"is-true-formula(2)\"/>");
        d.push_str("</table:content-validations><table:table table:name=\"t\"><table:table-row><table:table-cell office:value-type=\"float\" office:value=\"1\"/></table:table-row></table:table>");
        let Ok(mut wb) = read_fods_buf(&flat(d.as_bytes())) else { return check(false, "not read") };
        for _ in 0..2 {
            check(wb.iter_validations().count() == 2, "number of validations");
            let (Some(v), Some(u)) = (wb.validation("v"), wb.validation("w")) else { return check(false, "validation is missing") };
            check(v.condition().to_string() == "is-true-formula(1)", "condition");
            check(u.condition().to_string() == "is-true-formula(2)", "condition");
            check(u.help().is_none(), "help appeared");
            let mut b = String::new();
            if let Some(t) = v.help().and_then(|h| h.text()) {
                t.extract_text(&mut b);
            }
            b.retain(|c| !c.is_whitespace());
            let mut e = String::new();
            for i in 0..nh {
                e.push_str(&format!("help-message{}", i));
            }
            check(b == e, "help text");
            let mut b = String::new();
            if let Some(t) = v.err().and_then(|h| h.text()) {
                t.extract_text(&mut b);
            }
            b.retain(|c| !c.is_whitespace());
            let mut e = String::new();
            for i in 0..ne {
                e.push_str(&format!("error-message{}", i));
            }
            check(b == e, "error text");
            let Some(w) = roundtrip(&mut wb) else { return };
            wb = w;
        }
        cover("read");
    }
}
