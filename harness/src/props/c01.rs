//! C01: the date core - Gregorian fields, serial numbers, weekdays, and the accepted range.
//! Run against the real chrono as well as the chrono model.
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{date::Date, months::Month, weekday::Weekday};

fn check_fields(dt: &Date, y: i32, m: i32, d: u32) {
    prop!(dt.serial_number() == serial_of(y, m, d), "serial number counts the days since 1899-12-30");
    prop!(dt.year() == y, "year of the date");
    prop!(dt.month() as i32 == m, "month of the date");
    prop!(dt.day_of_month() == d, "day of month of the date");
    prop!(dt.day_of_year() == month_start(y, m) + d, "day of year of the date");
}

fn new_fields(y0: i32, y1: i32) {
    let (y, m, d) = ymd(y0, y1);
    witness!(m == 2 && d == 29, "leap day");
    witness!(m == 12 && d == 31 && y == y1, "last day");
    let dt = Date::new(d, m.into(), y);
    check_fields(&dt, y, m, d);
}

fn from_serial_fields(s0: i32, s1: i32) {
    let s = nd::int(s0, s1);
    witness!(s == s1, "last serial");
    let dt = Date::from_serial(s);
    let y = dt.year();
    let m = dt.month() as i32;
    let d = dt.day_of_month();
    prop!(dt.serial_number() == s, "from_serial keeps the serial number");
    prop!((1900..2200).contains(&y), "year in range");
    prop!(d >= 1 && d <= month_len(y, m), "day within its month");
    prop!(serial_of(y, m, d) == s, "fields of from_serial(s) are those of day s");
    prop!(dt.day_of_year() == month_start(y, m) + d, "day of year of from_serial(s)");
}

harnesses! {
    //@ crate=both
    c01_new_fields_1900_1999(2) { new_fields(1900, 1999) }
    //@ crate=both
    c01_new_fields_2000_2099(2) { new_fields(2000, 2099) }
    //@ crate=both
    c01_new_fields_2100_2199(2) { new_fields(2100, 2199) }
    //@ crate=both
    c01_from_serial_a(2) { from_serial_fields(2, 27394) }
    //@ crate=both
    c01_from_serial_b(2) { from_serial_fields(27395, 54788) }
    //@ crate=both
    c01_from_serial_c(2) { from_serial_fields(54789, 82181) }
    //@ crate=both
    c01_from_serial_d(2) { from_serial_fields(82182, 109574) }

    // weekday, end of month and leap years
    c01_weekday(2) {
        let (y, m, d) = ymd(1900, 2199);
        let dt = Date::new(d, m.into(), y);
        // 1900-01-01, serial 2, was a Monday
        let w = (serial_of(y, m, d) - 2) % 7;
        witness!(w == 6, "a Sunday");
        let expected = match w {
            0 => Weekday::Monday,
            1 => Weekday::Tuesday,
            2 => Weekday::Wednesday,
            3 => Weekday::Thursday,
            4 => Weekday::Friday,
            5 => Weekday::Saturday,
            _ => Weekday::Sunday,
        };
        prop!(dt.weekday() == expected, "weekday of the date");
    }
    c01_end_of_month(2) {
        let (y, m, d) = ymd(1900, 2199);
        let dt = Date::new(d, m.into(), y);
        witness!(m == 2 && d == 29, "leap day");
        prop!(Date::is_leap(y) == leap(y), "leap years are the Gregorian ones");
        prop!(dt.is_end_of_month() == (d == month_len(y, m)), "is_end_of_month");
        let e = dt.end_of_month();
        check_fields(&e, y, m, month_len(y, m));
    }
    //@ rejects
    c01_new_rejects_day(2) {
        let y = nd::int(1900, 2199);
        let m = nd::int(1, 12);
        let d = nd::u32();
        nd::assume(d == 0 || d > month_len(y, m));
        witness!(d == 29, "29 February of a common year");
        rejects!(Date::new(d, m.into(), y), "Date::new accepts a day outside the month");
    }
    //@ rejects
    c01_new_rejects_year(2) {
        let y = nd::i32();
        nd::assume(y < 1900 || y > 2199);
        let m = nd::int(1, 12);
        let d = nd::u32();
        nd::assume(d >= 1 && d <= 28);
        witness!(y == 2200, "2200");
        witness!(y == 1899, "1899");
        rejects!(Date::new(d, m.into(), y), "Date::new accepts a year outside 1900..2199");
    }
    //@ rejects
    c01_month_rejects(2) {
        let m = nd::i32();
        nd::assume(m < 1 || m > 12);
        witness!(m == 0, "month zero");
        rejects!(Month::from(m), "Month::from accepts a number outside 1..12");
    }
    //@ rejects
    c01_from_serial_rejects(2) {
        let s = nd::i32();
        nd::assume(s < MIN_SERIAL || s > MAX_SERIAL);
        witness!(s == MAX_SERIAL + 1, "the day after the last date");
        rejects!(Date::from_serial(s), "Date::from_serial accepts a serial number out of range");
    }
    c01_month_numbers(2) {
        let m = nd::int(1, 12);
        witness!(m == 12, "December");
        let k: Month = m.into();
        let i: i32 = k.into();
        let u: u32 = k.into();
        let s: usize = k.into();
        prop!(i == m && u as i32 == m && s as i32 == m, "month number round trip");
        let k2: Month = (m as u32).into();
        prop!(k2 == k, "month from unsigned number");
    }
    c01_range_ends(2) {
        let a = Date::min_date();
        let b = Date::max_date();
        check_fields(&a, 1900, 1, 1);
        check_fields(&b, 2199, 12, 31);
        check_fields(&Date::default(), 1900, 1, 1);
        let d = date();
        witness!(d == b, "last date");
        prop!(a <= d && d <= b, "min_date and max_date bound every date");
        prop!(a.serial_number() == MIN_SERIAL && b.serial_number() == MAX_SERIAL, "serial range");
    }
}
