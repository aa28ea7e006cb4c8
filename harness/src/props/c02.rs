//! C02: adding and subtracting periods.
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{date::Date, period::Period, timeunit::TimeUnit};

/// `date + n months` keeps the day of the month, or falls back to the last day of the month.
fn check_months(e: &Date, d: u32, total: i32) {
    let y = e.year();
    let m = e.month() as i32;
    prop!(y * 12 + m == total, "month of date + n months");
    let len = month_len(y, m);
    let day = if d > len { len } else { d };
    prop!(e.day_of_month() == day, "day of date + n months is kept or clamped to the end of month");
    prop!(e.serial_number() == serial_of(y, m, day), "serial number of date + n months");
}

/// `date + n months` for one way of writing it
fn months(form: u8, lo: i32, hi: i32, y0: i32, y1: i32) {
    let (y, m, d) = ymd(y0, y1);
    let n = nd::int(lo, hi);
    let total = if form < 4 { y * 12 + m + n } else { y * 12 + m - n };
    nd::assume(total > 1900 * 12 && total <= 2199 * 12 + 12);
    let dt = Date::new(d, m.into(), y);
    let p = Period::new(n, TimeUnit::Months);
    witness!(d == 31 && (n == lo || n == hi), "as far as possible from a 31st");
    let mut x = dt;
    let e = match form {
        0 => dt + p,
        1 => &dt + &p,
        2 => &dt + p,
        3 => {
            x += p;
            x
        }
        4 => dt - p,
        5 => &dt - p,
        _ => {
            x -= p;
            x
        }
    };
    check_months(&e, d, total);
}

/// `date + n days or weeks`, `date - n days or weeks`
fn days(form: u8, len: i32) {
    let (y, m, d) = ymd(1900, 2199);
    let s = serial_of(y, m, d);
    let n = nd::int(-109572, 109572);
    let t = if form == 0 { s + len * n } else { s - len * n };
    nd::assume(t >= MIN_SERIAL && t <= MAX_SERIAL);
    let dt = Date::new(d, m.into(), y);
    let p = Period::new(n, if len == 7 { TimeUnit::Weeks } else { TimeUnit::Days });
    witness!(n == -3 && d == 1, "three units before the first of a month");
    let e = if form == 0 { dt + p } else { dt - p };
    prop!(e.serial_number() == t, "date + n days or weeks moves by that many days");
    prop!(serial_of(e.year(), e.month() as i32, e.day_of_month()) == t, "fields of date + n days");
}

harnesses! {
    c02_months_forward(14) { months(0, 0, 120, 1900, 2199) }
    c02_months_back(14) { months(0, -120, 0, 1900, 2199) }
    c02_months_minus(14) { months(4, 0, 120, 1900, 2199) }
    c02_months_minus_back(4) { months(4, -24, 0, 1900, 2199) }
    c02_months_ref_ref(4) { months(1, -24, 24, 1900, 2199) }
    c02_months_ref(4) { months(2, -24, 24, 1900, 2199) }
    c02_months_assign(4) { months(3, -24, 24, 1900, 2199) }
    c02_months_minus_ref(4) { months(5, -24, 24, 1900, 2199) }
    c02_months_minus_assign(4) { months(6, -24, 24, 1900, 2199) }
    //@ tier=thorough timeout=800
    c02_months_long_forward(52) { months(0, 120, 600, 1900, 2199) }
    //@ tier=thorough timeout=800
    c02_months_long_back(52) { months(0, -600, -120, 1900, 2199) }

    c02_years(2) {
        let (y, m, d) = ymd(1900, 2199);
        let n = nd::int(-299, 299);
        let back = nd::bool();
        let y2 = if back { y - n } else { y + n };
        nd::assume(y2 >= 1900 && y2 < 2200);
        let dt = Date::new(d, m.into(), y);
        let p = Period::new(n, TimeUnit::Years);
        witness!(d == 29 && m == 2 && !leap(y2), "leap day to a common year");
        let e = if back { dt - p } else { dt + p };
        check_months(&e, d, y2 * 12 + m);
    }

    c02_days(2) { days(0, 1) }
    c02_weeks(2) { days(0, 7) }
    c02_minus_days(2) { days(1, 1) }
    c02_minus_weeks(2) { days(1, 7) }

    //@ rejects
    c02_rejects_out_of_range(27) {
        let (y, m, d) = ymd(1900, 2199);
        let n = nd::int(-300, 300);
        let total = y * 12 + m + n;
        nd::assume(total <= 1900 * 12 || total > 2199 * 12 + 12);
        witness!(n > 0, "beyond the last date");
        witness!(n < 0, "before the first date");
        let dt = Date::new(d, m.into(), y);
        rejects!(dt + Period::new(n, TimeUnit::Months), "adding months leaves the date range");
    }
    //@ rejects
    c02_rejects_years(2) {
        let (y, m, d) = ymd(1900, 2199);
        let n = nd::int(-1000, 1000);
        nd::assume(y + n < 1900 || y + n > 2199);
        witness!(n > 0, "beyond the last date");
        let dt = Date::new(d, m.into(), y);
        rejects!(dt + Period::new(n, TimeUnit::Years), "adding years leaves the date range");
    }
    //@ rejects
    c02_rejects_days(2) {
        let s = nd::int(MIN_SERIAL, MAX_SERIAL);
        let n = nd::int(-200000, 200000);
        let weeks = nd::bool();
        let t = if weeks { s + 7 * n } else { s + n };
        nd::assume(t < MIN_SERIAL || t > MAX_SERIAL);
        witness!(n > 0, "beyond the last date");
        let dt = Date::from_serial(s);
        let u = if weeks { TimeUnit::Weeks } else { TimeUnit::Days };
        rejects!(dt + Period::new(n, u), "adding days leaves the date range");
    }
    //@ rejects
    c02_rejects_intraday_units(2) {
        let dt = date();
        let n = nd::i32();
        let u = match nd::choice(5) {
            0 => TimeUnit::Hours,
            1 => TimeUnit::Minutes,
            2 => TimeUnit::Seconds,
            3 => TimeUnit::Milliseconds,
            _ => TimeUnit::Microseconds,
        };
        witness!(n == 1, "one hour");
        rejects!(dt + Period::new(n, u), "dates have no intraday units");
    }
}
