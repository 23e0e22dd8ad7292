//! P04: what is attached to a cell
use chrono::*;
use ods_harness::*;
use spreadsheet_ods::draw::*;
use spreadsheet_ods::style::CellStyleRef;
use spreadsheet_ods::text::*;
use spreadsheet_ods::validation::ValidationRef;
use spreadsheet_ods::*;

fn val() -> Value {
    match choose(4) {
        0 => Value::Empty,
        1 => Value::Number(1.5),
        2 => Value::Text("t".into()),
        _ => Value::Boolean(true),
    }
}
fn book(sh: Sheet) -> WorkBook {
    let mut wb = WorkBook::new_empty();
    wb.push_sheet(sh);
    wb
}
/// the text of the only paragraph
fn text(a: &[XmlTag]) -> Option<String> {
    if a.len() != 1 || a[0].name() != "text:p" {
        return None;
    }
    let mut r = String::new();
    for c in a[0].content() {
        match c {
            XmlContent::Text(t) => r.push_str(t),
            _ => return None,
        }
    }
    Some(r)
}
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};

fn names(max: usize) {
    let mut sh = Sheet::new("one");
    let n = any_string(max);
    assume(n.len() > 0);
    let v = val();
    let k = choose(3);
    sh.set_value(0, 1, v.clone());
    if k != 1 {
        sh.set_cellstyle(0, 1, &CellStyleRef::from(n.as_str()));
    }
    if k != 0 {
        sh.set_validation(0, 1, &ValidationRef::from(n.as_str()));
    }
    let Some(w) = roundtrip(&mut book(sh)) else { return };
    let s = w.sheet(0);
    check(s.cellstyle(0, 1).map(|s| s.as_str()) == (k != 1).then_some(n.as_str()), "style differs");
    check(s.validation(0, 1).map(|s| s.as_str()) == (k != 0).then_some(n.as_str()), "validation differs");
    check(*s.value(0, 1) == v, "value differs");
    cover("names");
}

fn annotation(max: usize) {
    let mut sh = Sheet::new("one");
    let n = any_string(max);
    let k = choose(4);
    let disp = any_bool();
    let mut a = Annotation::new_empty();
    a.set_display(disp);
    match k {
        0 => a.set_name(n.clone()),
        1 => a.set_creator(Some(n.clone())),
        2 => {
            assume(n.len() > 0);
            a.push_text_str(n.clone())
        }
        _ => a.attrmap_mut().set_attr("svg:x", n.clone()),
    }
    let v = val();
    sh.set_value(2, 1, v.clone());
    sh.set_annotation(2, 1, a);
    let Some(w) = roundtrip(&mut book(sh)) else { return };
    let s = w.sheet(0);
    check(*s.value(2, 1) == v, "value differs");
    let Some(b) = s.annotation(2, 1) else { return check(false, "annotation is missing") };
    check(b.display() == disp, "display differs");
    check(b.name() == if k == 0 { n.as_str() } else { "" }, "name differs");
    check(b.creator().map(|s| s.as_str()) == (k == 1).then_some(n.as_str()), "creator differs");
    check(b.date().is_none(), "date appeared");
    if k == 2 {
        check(text(b.text()).as_deref() == Some(n.as_str()), "text differs");
    } else {
        check(b.text().is_empty(), "text appeared");
    }
    check(b.attrmap().attr("svg:x") == (k == 3).then_some(n.as_str()), "attribute differs");
    cover("annotation");
}

fn frame(max: usize) {
    let mut sh = Sheet::new("one");
    let n = any_string(max);
    let k = choose(5);
    let two = choose(2) == 1;
    let mut f = DrawFrame::new();
    let mut im = DrawImage::new();
    match k {
        0 => f.set_desc(n.clone()),
        1 => f.set_title(n.clone()),
        2 => f.attrmap_mut().set_attr("draw:name", n.clone()),
        3 => im.attrmap_mut().set_attr("xlink:href", n.clone()),
        _ => {
            assume(n.len() > 0);
            im.push_text_str(n.clone());
        }
    }
    f.push_content(DrawFrameContent::Image(im));
    sh.set_value(0, 1, 1);
    sh.add_draw_frame(0, 1, f);
    if two {
        let mut g = DrawFrame::new();
        g.set_desc("second");
        sh.add_draw_frame(0, 1, g);
    }
    let Some(w) = roundtrip(&mut book(sh)) else { return };
    let s = w.sheet(0);
    check(*s.value(0, 1) == Value::Number(1.0), "value differs");
    let Some(v) = s.draw_frames(0, 1) else { return check(false, "frame is missing") };
    check(v.len() == 1 + two as usize, "number of frames differs");
    let f = &v[0];
    check(f.desc().map(|s| s.as_str()) == (k == 0).then_some(n.as_str()), "description differs");
    check(f.title().map(|s| s.as_str()) == (k == 1).then_some(n.as_str()), "title differs");
    check(f.attrmap().attr("draw:name") == (k == 2).then_some(n.as_str()), "attribute differs");
    check(f.content_ref().len() == 1, "number of images differs");
    let DrawFrameContent::Image(im) = &f.content_ref()[0];
    check(im.attrmap().attr("xlink:href") == (k == 3).then_some(n.as_str()), "image attribute differs");
    if k == 4 {
        check(text(im.get_text()).as_deref() == Some(n.as_str()), "image text differs");
    } else {
        check(im.get_text().is_empty(), "image text appeared");
    }
    if two {
        check(v[1].desc().map(|s| s.as_str()) == Some("second"), "second frame differs");
    }
    cover("frame");
}

harnesses! {
    // every formula of at most 3 bytes UTF-8 on four kinds of values, next to other cells
    fn p04_formula() {
        let mut sh = Sheet::new("one");
        let f = any_string(3);
        let v = val();
        sh.set_formula(1, 0, "of:=1");
        sh.set_value(1, 1, v.clone());
        sh.set_formula(1, 1, f.clone());
        sh.set_value(1, 2, 7);
        let Some(w) = roundtrip(&mut book(sh)) else { return };
        let s = w.sheet(0);
        check(s.formula(1, 1) == Some(&f), "formula differs");
        check(*s.value(1, 1) == v, "value differs");
        check(s.formula(1, 0).map(|f| f.as_str()) == Some("of:=1"), "other formula differs");
        check(s.formula(1, 2).is_none(), "a formula appeared");
        cover("formula");
    }
    // every style and validation name of at most 2 bytes UTF-8
    fn p04_names() {
        names(2); //cover("names")
    }
    // [thorough p04_names] every style and validation name of at most 3 bytes UTF-8
    fn p04_names3() {
        names(3); //cover("names")
    }
    // every matrix span of 1 to 1048576 rows and 1 to 16384 columns
    fn p04_matrix() {
        let mut sh = Sheet::new("one");
        let (r, c) = (range32(1, 1_048_576), range32(1, 16_384));
        sh.set_value(0, 0, 1);
        sh.set_formula(0, 0, "of:=A");
        sh.set_matrix_row_span(0, 0, r);
        sh.set_matrix_col_span(0, 0, c);
        sh.set_value(1, 1, 2);
        let Some(w) = roundtrip(&mut book(sh)) else { return };
        let s = w.sheet(0);
        check(s.matrix_row_span(0, 0) == r, "matrix row span differs");
        check(s.matrix_col_span(0, 0) == c, "matrix column span differs");
        check(s.row_span(0, 0) == 1 && s.col_span(0, 0) == 1, "a cell span appeared");
        check(s.matrix_row_span(1, 1) == 1 && s.matrix_col_span(1, 1) == 1, "a matrix span appeared");
        check(s.cell_count() == 2, "cells");
        cover("matrix");
    }
    // annotations: display, name, creator, text, further attributes: one of them any text of at most 2 bytes UTF-8
    fn p04_annotation() {
        annotation(2); //cover("annotation")
    }
    // [thorough p04_annotation] annotations: display, name, creator, text, further attributes: one of them any text of at most 3 bytes UTF-8
    fn p04_annotation3() {
        annotation(3); //cover("annotation")
    }
    // date of an annotation: every time of a day
    fn p04_annotation_date() {
        let mut sh = Sheet::new("one");
        let d = NaiveDate::from_ymd_opt(2024, 2, 29)
            .unwrap()
            .and_hms_opt(range32(0, 23), range32(0, 59), range32(0, 59))
            .unwrap();
        let mut a = Annotation::new("x");
        a.set_date(Some(d));
        sh.set_annotation(0, 0, a);
        let Some(w) = roundtrip(&mut book(sh)) else { return };
        let Some(b) = w.sheet(0).annotation(0, 0) else { return check(false, "annotation is missing") };
        check(b.date() == Some(&d), "date differs");
        check(b.display(), "display differs");
        check(text(b.text()).as_deref() == Some("x"), "text differs");
        cover("date");
    }
    // one or two frames: description, title, attribute, text of the image: one of them any text of at most 2 bytes UTF-8
    fn p04_frame() {
        frame(2); //cover("frame")
    }
    // [thorough p04_frame] one or two frames: description, title, attribute, text of the image: one of them any text of at most 3 bytes UTF-8
    fn p04_frame3() {
        frame(3); //cover("frame")
    }
    // every embedded image of at most 4 bytes
    fn p04_image() {
        let mut sh = Sheet::new("one");
        let n = choose(5) as usize;
        let b = any_bytes::<4>();
        let b = &b[..n];
        let mut f = DrawFrame::new();
        let mut im = DrawImage::new();
        im.set_binary(b);
        f.push_content(DrawFrameContent::Image(im));
        sh.add_draw_frame(0, 0, f);
        let Some(w) = roundtrip(&mut book(sh)) else { return };
        let Some(v) = w.sheet(0).draw_frames(0, 0) else { return check(false, "frame is missing") };
        check(v.len() == 1, "one frame");
        check(v[0].content_ref().len() == 1, "one image");
        let DrawFrameContent::Image(im) = &v[0].content_ref()[0];
        match im.get_binary() {
            Ok(d) => check(d == b, "image differs"),
            Err(_) => check(false, "image cannot be decoded"),
        }
        cover("image");
    }
    // formula, style, validation, spans, annotation and frame together
    fn p04_all() {
        let mut sh = Sheet::new("one");
        let on = [any_bool(), any_bool(), any_bool(), any_bool(), any_bool(), any_bool()];
        let v = val();
        sh.set_value(1, 1, v.clone());
        if on[0] {
            sh.set_formula(1, 1, "of:=A1");
        }
        if on[1] {
            sh.set_cellstyle(1, 1, &CellStyleRef::from("ce1"));
        }
        if on[2] {
            sh.set_validation(1, 1, &ValidationRef::from("val1"));
        }
        if on[3] {
            sh.set_matrix_row_span(1, 1, 2);
            sh.set_col_span(1, 1, 3);
        }
        if on[4] {
            sh.set_annotation(1, 1, Annotation::new("note"));
        }
        if on[5] {
            let mut g = DrawFrame::new();
            g.set_desc("d");
            sh.add_draw_frame(1, 1, g);
        }
        sh.set_value(1, 5, 1);
        let Some(w) = roundtrip(&mut book(sh)) else { return };
        let s = w.sheet(0);
        check(*s.value(1, 1) == v, "value differs");
        check(s.formula(1, 1).is_some() == on[0], "formula");
        check(s.cellstyle(1, 1).is_some() == on[1], "style");
        check(s.validation(1, 1).is_some() == on[2], "validation");
        check(s.matrix_row_span(1, 1) == if on[3] { 2 } else { 1 }, "matrix");
        check(s.col_span(1, 1) == if on[3] { 3 } else { 1 }, "span");
        check(s.row_span(1, 1) == 1, "row span");
        check(s.annotation(1, 1).is_some() == on[4], "annotation");
        check(s.draw_frames(1, 1).map(|v| v.len()).unwrap_or(0) == on[5] as usize, "frame");
        check(*s.value(1, 5) == Value::Number(1.0), "neighbour");
        cover("all");
    }
}
