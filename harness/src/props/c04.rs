//! C04: the n-th weekday of a month.
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{date::Date, weekday::Weekday};

fn wd(k: i32) -> Weekday {
    match k {
        1 => Weekday::Sunday,
        2 => Weekday::Monday,
        3 => Weekday::Tuesday,
        4 => Weekday::Wednesday,
        5 => Weekday::Thursday,
        6 => Weekday::Friday,
        _ => Weekday::Saturday,
    }
}

harnesses! {
    c04_nth_weekday(2) {
        let y = nd::int(1900, 2199);
        let m = nd::int(1, 12);
        let k = nd::int(1, 7);
        let n = nd::int(1, 5);
        // weekday of the first of the month; serial 1 (1899-12-31) was a Sunday
        let first = (serial_of(y, m, 1) + 6) % 7 + 1;
        let skip = if k >= first { k - first } else { k + 7 - first };
        let day = 1 + skip + 7 * (n - 1);
        nd::assume(day <= month_len(y, m) as i32);
        witness!(n == 5 && m == 2, "fifth weekday of a February");
        let r = Date::nth_weekday(n as usize, wd(k), m.into(), y);
        prop!(r.year() == y && r.month() as i32 == m, "the n-th weekday lies in the given month");
        prop!(r.day_of_month() == day as u32, "day of the n-th weekday");
        prop!(r.serial_number() == serial_of(y, m, day as u32), "serial of the n-th weekday");
        prop!(r.weekday() == wd(k), "the n-th weekday is that weekday");
    }
    //@ rejects
    c04_rejects_missing_fifth(2) {
        let y = nd::int(1900, 2199);
        let m = nd::int(1, 12);
        let k = nd::int(1, 7);
        let first = (serial_of(y, m, 1) + 6) % 7 + 1;
        let skip = if k >= first { k - first } else { k + 7 - first };
        nd::assume(29 + skip > month_len(y, m) as i32);
        witness!(m == 1, "a January");
        rejects!(Date::nth_weekday(5, wd(k), m.into(), y), "there is no fifth such weekday in the month");
    }
    //@ rejects
    c04_rejects_bad_n(2) {
        let y = nd::int(1900, 2199);
        let m = nd::int(1, 12);
        let k = nd::int(1, 7);
        let n = nd::usize();
        nd::assume(n == 0 || n > 5);
        witness!(n == 6, "sixth");
        rejects!(Date::nth_weekday(n, wd(k), m.into(), y), "n-th weekday with n outside 1..5");
    }
}
