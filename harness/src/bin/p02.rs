//! P02: typed values
use chrono::*;
use ods_harness::*;
use spreadsheet_ods::*;

const F: [f64; 16] = [
    0.0, -0.0, 1.0, -1.0, 0.1, 0.30000000000000004, 1e21, -1.5e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e-7,
    123456789.123456789, 4503599627370497.5, 9007199254740993.0, -2147483648.0,
];

fn rt(v: Value) -> Value {
    let mut wb = WorkBook::new_empty();
    let mut sh = Sheet::new("one");
    sh.set_value(0, 0, v);
    wb.push_sheet(sh);
    match roundtrip(&mut wb) {
        Some(w) => w.sheet(0).value(0, 0).clone(),
        None => Value::Empty,
    }
}

// a three digit window of the nine digits of a fraction
fn nano() -> u32 {
    let w = *pick(&[1u32, 1_000, 1_000_000]);
    range32(0, 999) * w
}

harnesses! {
    // both booleans
    fn p02_bool() {
        let b = any_bool();
        check(rt(Value::Boolean(b)) == Value::Boolean(b), "boolean differs");
        cover("bool");
    }
    // 16 numbers, as number and as percentage
    fn p02_number() {
        let f = *pick(&F);
        let k = choose(2);
        let v = if k == 0 { Value::Number(f) } else { Value::Percentage(f) };
        check(rt(v.clone()) == v, "number differs");
        cover("number");
    }
    // every currency code of at most 3 bytes UTF-8
    fn p02_currency() {
        let f = *pick(&F[..4]);
        let c = any_string(3);
        let v = Value::Currency(f, c.clone().into_boxed_str());
        check(rt(v.clone()) == v, "currency differs");
        cover("currency");
    }
    // every date of the years 1 to 9999
    fn p02_date() {
        let y = range32(1, 9999) as i32;
        let m = range32(1, 12);
        let d = range32(1, 31);
        let Some(date) = NaiveDate::from_ymd_opt(y, m, d) else { return assume(false) };
        let dt = date.and_hms_opt(0, 0, 0).unwrap();
        let v = rt(Value::DateTime(dt));
        check(v == Value::DateTime(dt), "date differs");
        cover("date");
    }
    // every time of day in milliseconds
    fn p02_time() {
        let date = NaiveDate::from_ymd_opt(2020, 2, 29).unwrap();
        let h = range32(0, 23);
        let m = range32(0, 59);
        let s = range32(0, 59);
        let ms = range32(0, 999);
        let dt = date.and_hms_milli_opt(h, m, s, ms).unwrap();
        let v = rt(Value::DateTime(dt));
        check(v == Value::DateTime(dt), "datetime differs");
        cover("time");
    }
    // every duration of 0..200000 whole seconds
    fn p02_duration_sec() {
        let s = range32(0, 200_000);
        let d = Duration::try_seconds(s as i64).unwrap();
        let v = rt(Value::TimeDuration(d));
        check(v == Value::TimeDuration(d), "duration differs");
        cover("duration");
    }
    // every nanosecond fraction (three digit windows) on 3 second counts, both signs
    fn p02_duration_nano() {
        let n = nano();
        let neg = choose(2) == 1;
        let mut d = Duration::new(*pick(&[0i64, 86_399, 1_000_000_000]), n).unwrap();
        if neg {
            d = -d;
        }
        let v = rt(Value::TimeDuration(d));
        check(v == Value::TimeDuration(d), "duration differs");
        cover("fraction");
    }
    // every nanosecond fraction (three digit windows) on 5 dates
    fn p02_datetime_nano() {
        let n = nano();
        let date = NaiveDate::from_ymd_opt(*pick(&[-44i32, 0, 1, 1970, 2024]), 2, 28).unwrap();
        let dt = date.and_hms_nano_opt(23, 59, 59, n).unwrap();
        let v = rt(Value::DateTime(dt));
        check(v == Value::DateTime(dt), "datetime differs");
        cover("nano");
    }
}
