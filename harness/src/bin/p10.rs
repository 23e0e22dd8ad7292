//! P10: attribute values are read as what they denote, or refused
use chrono::{NaiveDate, NaiveDateTime};
use ods_harness::*;
use spreadsheet_ods::*;

/// bytes for an attribute value
fn raw<const N: usize>(n: usize) -> Vec<u8> {
    let b: [u8; N] = any_bytes();
    for i in 0..n {
        assume(b[i] >= 0x20 && b[i] < 0x7f && b[i] != b'"' && b[i] != b'&' && b[i] != b'<' && b[i] != b'>');
    }
    b[..n].to_vec()
}
fn digits(n: usize) -> (String, u64) {
    let s = ascii_string(n, b'0', b'9');
    let mut v = 0u64;
    for b in s.bytes() {
        v = v * 10 + (b - b'0') as u64;
    }
    (s, v)
}
fn cell(kind: &str, name: &str, v: &[u8]) -> Option<Value> {
    let mut a = format!("office:value-type=\"{}\" {}=\"", kind, name).into_bytes();
    a.extend_from_slice(v);
    a.push(b'"');
    read_cell(&a).map(|v| v.1)
}
fn date(v: &str) -> Option<Value> {
    cell("date", "office:date-value", v.as_bytes())
}
fn dur(v: &str) -> Option<Value> {
    cell("time", "office:time-value", v.as_bytes())
}
fn num(b: &[u8]) -> Option<u64> {
    if b.is_empty() {
        return None;
    }
    let mut v = 0u64;
    for &c in b {
        if c < b'0' || c > b'9' {
            return None;
        }
        v = v * 10 + (c - b'0') as u64;
    }
    Some(v)
}
fn epoch() -> NaiveDateTime {
    NaiveDateTime::default()
}

harnesses! {
    // counts: every text of at most 3 ASCII characters, also behind 429496 and 0
    fn p10_count() {
        let n = choose(4) as usize;
        let pre = *pick(&["", "0", "429496", "4294967"]);
        let b = raw::<3>(n);
        let mut v = pre.as_bytes().to_vec();
        v.extend_from_slice(&b);
        let mut a = b"office:value-type=\"string\" table:number-matrix-rows-spanned=\"".to_vec();
        a.extend_from_slice(&v);
        a.push(b'"');
        match (read_cell(&a), num(&v)) {
            (Some((wb, _)), Some(x)) => {
                check(x <= u32::MAX as u64, "count too large");
                // a span of 0 rows is one row
                check(wb.sheet(0).matrix_row_span(0, 0) as u64 == x.max(1), "count differs");
                cover("count");
            }
            (Some(_), None) => check(false, "not a count but accepted"),
            (None, Some(x)) => check(x > u32::MAX as u64, "count refused"),
            (None, None) => cover("no count"),
        }
    }
    // booleans: every text of 3 to 5 ASCII characters
    fn p10_bool() {
        let n = choose(3) as usize + 3;
        let b = raw::<5>(n);
        let v = cell("boolean", "office:boolean-value", &b);
        match v {
            Some(Value::Boolean(true)) => {
                check(b == b"true", "true");
                cover("true");
            }
            Some(Value::Boolean(false)) => {
                check(b == b"false", "false");
                cover("false");
            }
            Some(_) => check(false, "not a boolean"),
            None => {
                check(b != b"true" && b != b"false", "boolean refused");
                cover("no boolean");
            }
        }
    }
    // numbers: some texts
    fn p10_float() {
        let (t, x) = *pick(&[
            ("0", Some(0.0)), ("1.5", Some(1.5)), ("-1.5", Some(-1.5)), ("1e3", Some(1000.0)), ("1E-3", Some(0.001)), ("+1", Some(1.0)),
            (".5", Some(0.5)), ("5.", Some(5.0)), ("0.1", Some(0.1)), ("123456789.125", Some(123456789.125)),
            ("9007199254740993", Some(9007199254740992.0)), ("1e400", Some(f64::INFINITY)), ("5e-324", Some(5e-324)),
            ("", None), ("x", None), ("1x", None), ("1 ", None), (" 1", None), ("1,5", None), ("--1", None), ("1e", None), ("0x10", None),
        ]);
        let k = *pick(&["float", "percentage", "currency"]);
        match (cell(k, "office:value", t.as_bytes()), x) {
            (Some(Value::Number(v)), Some(x)) => check(k == "float" && v == x, "number differs"),
            (Some(Value::Percentage(v)), Some(x)) => check(k == "percentage" && v == x, "percentage differs"),
            (Some(Value::Currency(v, _)), Some(x)) => check(k == "currency" && v == x, "currency differs"),
            (None, None) => {}
            (Some(_), None) => check(false, "not a number but accepted"),
            _ => check(false, "number refused or of another type"),
        }
        cover("float");
    }
    // dates: some years, any two digits as month and day
    fn p10_date() {
        let (ys, y) = *pick(&[("2023", 2023), ("2000", 2000), ("1900", 1900), ("-44", -44), ("12345", 12345)]);
        let (ms, m) = digits(2);
        let (ds, d) = digits(2);
        let v = date(&format!("{}-{}-{}{}", ys, ms, ds, if y == 2023 { "Z" } else { "" }));
        let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let len = match m {
            1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
            4 | 6 | 9 | 11 => 30,
            2 if leap => 29,
            2 => 28,
            _ => 0,
        };
        let ok = d >= 1 && d <= len;
        match v {
            Some(Value::DateTime(t)) => {
                if ok {
                    // day number relative to the first of the month
                    let first = NaiveDate::from_ymd_opt(y, conc(m) as u32, 1).unwrap();
                    let days = t.date().signed_duration_since(first).num_days();
                    check(days == d as i64 - 1, "date differs");
                    check(t.time() == chrono::NaiveTime::MIN, "midnight");
                    cover("date");
                } else {
                    check(t == epoch(), "an impossible date was read as another date");
                    cover("impossible date");
                }
            }
            None => check(!ok, "date refused"),
            _ => check(false, "not a date"),
        }
    }
    // times of day: any two digits each
    fn p10_time() {
        let (hs, h) = digits(2);
        let (ms, m) = digits(2);
        let (ss, s) = digits(2);
        let v = date(&format!("2001-02-03T{}:{}:{}", hs, ms, ss));
        let ok = h < 24 && m < 60 && s < 60;
        match v {
            Some(Value::DateTime(t)) => {
                if ok {
                    let d = t.signed_duration_since(NaiveDate::from_ymd_opt(2001, 2, 3).unwrap().and_hms_opt(0, 0, 0).unwrap());
                    check(d.num_seconds() == (h * 3600 + m * 60 + s) as i64, "time differs");
                    check(d.subsec_nanos() == 0, "no fraction");
                    cover("time");
                } else if s != 60 {
                    // 60 is the leap second
                    check(t == epoch(), "an impossible time was read as another time");
                    cover("impossible time");
                }
            }
            None => check(!ok, "time refused"),
            _ => check(false, "not a date"),
        }
    }
    // fractions of a second: 1 to 11 digits, the last 4 of them symbolic
    fn p10_fraction() {
        let pre = *pick(&["", "0", "00000", "1234567"]);
        let n = choose(4) as usize + 1;
        let (fs, f) = digits(n);
        let k = pre.len() + n;
        let mut want = num(pre.as_bytes()).unwrap_or(0) * 10u64.pow(n as u32) + f;
        let mut i = k;
        while i < 9 {
            want *= 10;
            i += 1;
        }
        while i > 9 {
            want /= 10;
            i -= 1;
        }
        if any_bool() {
            let v = date(&format!("2001-02-03T04:05:06.{}{}", pre, fs));
            let Some(Value::DateTime(t)) = v else { return check(false, "fraction refused") };
            check(t.and_utc().timestamp_subsec_nanos() as u64 == want, "fraction differs");
        } else {
            let v = dur(&format!("PT6.{}{}S", pre, fs));
            let Some(Value::TimeDuration(t)) = v else { return check(false, "fraction refused") };
            check(t.num_seconds() == 6 && t.subsec_nanos() as u64 == want, "fraction differs");
        }
        cover("fraction");
    }
    // numbers that do not fit are not taken for others
    fn p10_large() {
        let n = *pick(&["4294967297", "4294967296", "18446744073709551617", "9223372036854775807", "99999999999999999999", "2147483648"]);
        let k = choose(7);
        let t = match k {
            0 => format!("{}-01-01", n),
            1 => format!("-{}-01-01", n),
            2 => format!("2000-{}-01", n),
            3 => format!("2000-01-{}", n),
            4 => format!("2000-01-01T{}:00:00", n),
            5 => format!("2000-01-01T00:{}:00", n),
            _ => format!("2000-01-01T00:00:{}", n),
        };
        match date(&t) {
            Some(Value::DateTime(t)) => check(t == epoch(), "an impossible date was read as another date"),
            Some(_) => check(false, "not a date"),
            None => {}
        }
        cover("large");
    }
    // durations: any combination of parts, any of them with 2 symbolic digits, either sign
    fn p10_duration() {
        let mut t = String::new();
        let neg = any_bool();
        if neg {
            t.push('-');
        }
        t.push('P');
        let mut want = 0i64;
        let mask = choose(16);
        let sym = choose(4);
        assume(mask >> sym & 1 == 1 || (mask == 0 && sym == 0));
        for (i, (c, k)) in [('D', 86_400i64), ('H', 3600), ('M', 60), ('S', 1)].into_iter().enumerate() {
            if mask >> i & 1 == 1 {
                if i > 0 && !t.contains('T') {
                    t.push('T');
                }
                let (s, v) = if i as u64 == sym { digits(2) } else { ("107".to_string(), 107) };
                t.push_str(&s);
                t.push(c);
                want += v as i64 * k;
            }
        }
        let Some(Value::TimeDuration(d)) = dur(&t) else { return check(false, "duration refused") };
        check(d.num_seconds() == if neg { -want } else { want }, "duration differs");
        check(d.subsec_nanos() == 0, "no fraction");
        cover("duration");
    }
    // durations near the limit: days of 13 to 19 digits
    fn p10_duration_large() {
        let t = *pick(&[
            "P99999999999D", "P106751991167D", "P106751991168D", "P9223372036854775807D", "PT9223372036854775807H", "PT9223372036854775S",
            "PT9223372036854776S", "P106751991167DT99999H", "PT99999999999999999999S", "PT153722867280912M",
        ]);
        let neg = any_bool();
        let s = if neg { format!("-{}", t) } else { t.to_string() };
        match dur(&s) {
            Some(Value::TimeDuration(d)) => check((d < chrono::Duration::zero()) == neg, "sign of a large duration"),
            Some(_) => check(false, "not a duration"),
            None => cover("refused"),
        }
        cover("large duration");
    }
    // every text of at most 3 ASCII characters as date, duration, visibility: an error
    fn p10_garbage() {
        let n = choose(4) as usize;
        let b = raw::<3>(n);
        match choose(3) {
            0 => check(cell("date", "office:date-value", &b).is_none(), "not a date but accepted"),
            1 => {
                let v = cell("time", "office:time-value", &b);
                let ok = b == b"P" || b == b"-P" || b == b"PT" || b == b"-PT" || (b.len() == 3 && b[0] == b'P' && num(&b[1..2]).is_some() && b[2] == b'D');
                check(v.is_some() == ok, "not a duration but accepted, or refused");
            }
            _ => {
                let mut v = b"<table:table table:name=\"t\"><table:table-column table:visibility=\"".to_vec();
                v.extend_from_slice(&b);
                v.extend_from_slice(b"\"/></table:table>");
                check(read_fods_buf(&flat(&v)).is_err(), "not a visibility but accepted");
            }
        }
        cover("garbage");
    }
    // the value type decides which attribute is the value; unknown types are refused
    fn p10_type() {
        let n = choose(3) as usize;
        let b = raw::<2>(n);
        let t = format!("{}{}", pick(&["", "floa", "str", "bool", "d", "ti"]), String::from_utf8(b).unwrap());
        let mut a = b"office:value=\"1\" office:boolean-value=\"true\" office:date-value=\"2001-02-03\" office:time-value=\"PT1H\" office:string-value=\"s\" office:value-type=\"".to_vec();
        a.extend_from_slice(t.as_bytes());
        a.push(b'"');
        let v = read_cell(&a).map(|v| v.1);
        match v {
            Some(Value::Number(x)) => {
                check(t == "float" && x == 1.0, "number");
                cover("number");
            }
            Some(Value::Boolean(_)) => check(t == "boolean", "boolean"),
            Some(Value::DateTime(_)) => check(t == "date", "date"),
            Some(Value::TimeDuration(_)) => {
                check(t == "time", "time");
                cover("time type");
            }
            Some(Value::Text(_)) => check(t == "string", "text"),
            Some(_) => check(false, "another type"),
            None => {
                check(t != "float" && t != "string" && t != "boolean" && t != "date" && t != "time", "type refused");
                cover("unknown type");
            }
        }
    }
}
