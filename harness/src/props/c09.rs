//! C09: rolling a date to a business day.
//@ engine=symx
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{
    businessdayconvention::BusinessDayConvention::{self, *},
    calendar::Calendar,
    date::Date,
    holidays::nilholiday::NilHoliday,
};

/// A calendar whose holidays are `K` arbitrary distinct days, and their serial numbers
pub fn calendar<const K: usize>(lo: i32, hi: i32) -> (Calendar, [i32; K]) {
    let mut c = NilHoliday::new();
    let mut h = [0; K];
    let mut prev = lo - 1;
    let mut i = 0;
    while i < K {
        h[i] = nd::int(lo, hi);
        nd::assume(h[i] > prev);
        prev = h[i];
        c.add_holiday(Date::from_serial(h[i]));
        i += 1;
    }
    (c, h)
}

/// A calendar with `K` distinct holidays among the `n` days from `base` on
pub fn near<const K: usize>(base: i32, n: u8) -> (Calendar, [i32; K]) {
    let mut c = NilHoliday::new();
    let mut h = [0; K];
    let mut prev = 0;
    let mut i = 0;
    while i < K {
        let o = nd::choice(n);
        nd::assume(i == 0 || o > prev);
        prev = o;
        h[i] = base + o as i32;
        c.add_holiday(Date::from_serial(h[i]));
        i += 1;
    }
    (c, h)
}

pub fn hol<const K: usize>(h: &[i32; K], s: i32) -> bool {
    let mut r = false;
    let mut i = 0;
    while i < K {
        r |= h[i] == s;
        i += 1;
    }
    r
}

/// First business day from `s` on
pub fn next<const K: usize>(h: &[i32; K], s: i32) -> i32 {
    let mut r = s;
    let mut i = 0;
    while i < K {
        // the holidays are in increasing order
        r += (h[i] == r) as i32;
        i += 1;
    }
    r
}

/// Last business day up to `s`
pub fn prev<const K: usize>(h: &[i32; K], s: i32) -> i32 {
    let mut r = s;
    let mut i = K;
    while i > 0 {
        i -= 1;
        r -= (h[i] == r) as i32;
    }
    r
}

const K: usize = 4;
const LO: i32 = MIN_SERIAL + 8;
const HI: i32 = MAX_SERIAL - 8;

fn setup() -> (Calendar, [i32; K], Date) {
    let (c, h) = calendar::<K>(LO, HI);
    let d = Date::from_serial(nd::int(LO, HI));
    (c, h, d)
}

harnesses! {
    c09_following(2) {
        let (c, h, d) = setup();
        let s = d.serial_number();
        let r = c.adjust(d, Following).serial_number();
        prop!(r == next(&h, s), "Following gives the first business day from the date on");
        prop!(c.adjust_with_following(d).serial_number() == r, "adjust_with_following is Following");
        witness!(r == s + 4, "four holidays skipped");
        witness!(r == s, "a business day stays");
    }
    c09_preceding(2) {
        let (c, h, d) = setup();
        let s = d.serial_number();
        let r = c.adjust(d, Preceding).serial_number();
        prop!(r == prev(&h, s), "Preceding gives the last business day up to the date");
        witness!(r == s - 4, "four holidays skipped");
        witness!(r == s, "a business day stays");
    }
    c09_unadjusted(2) {
        let (c, _, d) = setup();
        prop!(c.adjust(d, Unadjusted) == d, "Unadjusted leaves the date");
        witness!(c.is_holiday(&d), "a holiday stays");
    }
    c09_modified_following(2) {
        let (c, h, d) = setup();
        let s = d.serial_number();
        // what Following and Preceding give is the subject of the harnesses above
        let (f, p) = (c.adjust(d, Following), c.adjust(d, Preceding));
        let r = c.adjust(d, ModifiedFollowing).serial_number();
        let e = if f.month() == d.month() { f.serial_number() } else { p.serial_number() };
        prop!(r == e, "ModifiedFollowing goes back when Following leaves the month");
        witness!(r == s - 3, "three days back");
        witness!(r == s + 4, "four days on");
    }
    c09_modified_preceding(2) {
        let (c, h, d) = setup();
        let s = d.serial_number();
        let (f, p) = (c.adjust(d, Following), c.adjust(d, Preceding));
        let r = c.adjust(d, ModifiedPreceding).serial_number();
        let e = if p.month() == d.month() { p.serial_number() } else { f.serial_number() };
        prop!(r == e, "ModifiedPreceding goes on when Preceding leaves the month");
        witness!(r == s + 3, "three days on");
        witness!(r == s - 4, "four days back");
    }
    c09_half_month(2) {
        let (c, h, d) = setup();
        let s = d.serial_number();
        let (f, p) = (c.adjust(d, Following), c.adjust(d, Preceding));
        let r = c.adjust(d, HalfMonthModifiedFollowing).serial_number();
        let stays = f.month() == d.month() && !(d.day_of_month() <= 15 && f.day_of_month() > 15);
        prop!(r == if stays { f.serial_number() } else { p.serial_number() },
            "HalfMonthModifiedFollowing crosses neither the month end nor the 15th");
        witness!(r == s - 2 && d.day_of_month() == 15, "back from the 15th");
        witness!(r == s - 1 && d.day_of_month() == 31, "back from the month end");
        witness!(r == s + 4, "four days on");
    }
    c09_nearest(2) {
        let (c, h, d) = setup();
        let s = d.serial_number();
        let r = c.adjust(d, Nearest).serial_number();
        let (n, p) = (next(&h, s), prev(&h, s));
        prop!(r == if n - s <= s - p { n } else { p }, "Nearest gives the nearest business day, the later one of two");
        witness!(r == s - 1, "backwards");
        witness!(r == s + 2, "a tie goes forwards");
    }
    c09_end_of_month(2) {
        let (c, _, d) = setup();
        let last = c.adjust(d.end_of_month(), Preceding);
        prop!(c.end_of_month(&d) == last, "end_of_month is the last business day up to the month end");
        witness!(c.end_of_month(&d) < d, "before the date");
        witness!(c.end_of_month(&d) > d, "after the date");
    }
    c09_is_end_of_month(2) {
        let (c, _, d) = setup();
        let left = month_len(d.year(), d.month() as i32) - d.day_of_month();
        let later = c.adjust(d + 1, Following).serial_number() - d.serial_number();
        let r = c.is_end_of_month(&d);
        prop!(r == (later > left as i32), "is_end_of_month: the next business day is of another month");
        witness!(r && left == 2, "before the calendar month end");
        witness!(!r, "not at the month end");
    }
}
