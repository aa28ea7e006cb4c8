//! C11: counting and listing business days and holidays.
//@ engine=symx
use super::c09::{calendar, hol, near};
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{calendar::Calendar, date::Date, holidays::weekendsonly::WeekendsOnly};

const K: usize = 3;
const N: i32 = 7;

/// Business days among `a ..= b`
fn count(h: &[i32; K], a: i32, b: i32) -> i32 {
    let mut n = b - a + 1;
    let mut i = 0;
    while i < K {
        n -= (h[i] >= a && h[i] <= b) as i32;
        i += 1;
    }
    n
}

fn list(with_weekends: bool) -> usize {
    let mut c = WeekendsOnly::new();
    let a = 40000 + nd::choice(14) as i32;
    let x = 40000 + nd::choice(21) as i32;
    c.add_holiday(Date::from_serial(x));
    let n = nd::int(0, 4);
    let l = c.holiday_list(Date::from_serial(a), Date::from_serial(a + n), with_weekends);
    let mut i = 0;
    let mut k = 0;
    while i < 5 {
        if i <= n {
            let w = (a + i) % 7 < 2;
            if (w && with_weekends) || (a + i == x && !w) {
                prop!(k < l.len() && l[k].serial_number() == a + i, "every holiday of the range is listed, in order");
                k += 1;
            }
        }
        i += 1;
    }
    prop!(k == l.len(), "nothing but the holidays of the range is listed");
    k
}

/// A range over weekends with one holiday
fn weeks() -> (Calendar, i32, i32, i32) {
    let a = 40000 + nd::each(nd::int(0, 6));
    let n = [8, 15, 36][nd::each(nd::int(0, 2)) as usize];
    let x = nd::int(a - 2, a + 38);
    let mut c = WeekendsOnly::new();
    c.add_holiday(Date::from_serial(x));
    (c, a, a + n, x)
}

harnesses! {
    c11_weeks_between(2) {
        let (c, a, b, x) = weeks();
        let (first, last, swap) = (nd::bool(), nd::bool(), nd::bool());
        let (p, q) = (Date::from_serial(a), Date::from_serial(b));
        let r = if swap { c.business_days_between(q, p, last, first) } else { c.business_days_between(p, q, first, last) };
        let open = |d: i32| d % 7 > 1 && d != x;
        let mut e = 0;
        for d in a..=b {
            e += (d % 7 > 1) as i32;
        }
        e -= (x % 7 > 1 && x >= a && x <= b) as i32;
        e -= (open(a) && !first) as i32 + (open(b) && !last) as i32;
        prop!(r == if swap { -e } else { e }, "business days of several weeks are counted without weekends and holidays");
        witness!(r == 26, "five weeks");
        witness!(r == -24, "five weeks backwards");
    }
    c11_weeks_list(2) {
        let (c, a, b, x) = weeks();
        nd::assume(b - a < 20);
        let l = c.business_day_list(Date::from_serial(a), Date::from_serial(b));
        let mut k = 0;
        for d in a..=b {
            if d % 7 > 1 && d != x {
                prop!(k < l.len() && l[k].serial_number() == d, "the business days of several weeks are listed in order");
                k += 1;
            }
        }
        prop!(k == l.len(), "nothing but the business days of several weeks is listed");
        witness!(k == 11, "two weeks");
    }
    c11_between(2) {
        let base = nd::int(MIN_SERIAL, MAX_SERIAL - 20);
        let (c, h) = near::<K>(base, 10);
        let (i, j) = (nd::choice(9) as i32, nd::choice(9) as i32);
        nd::assume(i - j <= N && j - i <= N);
        let (a, b) = (base + 1 + i, base + 1 + j);
        let (first, last) = (nd::bool(), nd::bool());
        let r = c.business_days_between(Date::from_serial(a), Date::from_serial(b), first, last);
        let (ba, bb) = (!hol(&h, a), !hol(&h, b));
        let e = if a == b {
            (first && last && ba) as i32
        } else {
            let n = count(&h, a.min(b), a.max(b)) - (ba && !first) as i32 - (bb && !last) as i32;
            if a < b { n } else { -n }
        };
        prop!(r == e, "business_days_between counts the business days between the dates, with the ends as asked, negative when backwards");
        witness!(r == N - 2, "forwards");
        witness!(r == -N - 1 + 3, "backwards");
        witness!(r == 1 && a == b, "one day");
    }
    c11_business_list(2) {
        let (c, h) = calendar::<2>(MIN_SERIAL, MAX_SERIAL);
        let a = nd::int(MIN_SERIAL, MAX_SERIAL - N);
        let n = nd::int(0, 4);
        let l = c.business_day_list(Date::from_serial(a), Date::from_serial(a + n));
        let mut i = 0;
        let mut k = 0;
        while i < 5 {
            if i <= n && !hol(&h, a + i) {
                prop!(k < l.len() && l[k].serial_number() == a + i, "every business day of the range is listed, in order");
                k += 1;
            }
            i += 1;
        }
        prop!(k == l.len(), "nothing but the business days of the range is listed");
        witness!(k == 3 && n == 4, "two holidays");
    }
    c11_holiday_list(2) {
        let k = list(true);
        witness!(k == 3, "a weekend and an added holiday");
    }
    c11_holiday_list_no_weekends(2) {
        let k = list(false);
        witness!(k == 1, "an added holiday");
    }
    //@ rejects
    c11_backwards_refused(2) {
        let (c, _) = calendar::<1>(MIN_SERIAL, MAX_SERIAL);
        let a = nd::int(MIN_SERIAL, MAX_SERIAL);
        let b = nd::int(MIN_SERIAL, MAX_SERIAL);
        nd::assume(b < a);
        witness!(b < a, "backwards");
        let (a, b) = (Date::from_serial(a), Date::from_serial(b));
        if nd::bool() {
            rejects!(c.holiday_list(a, b, true), "a list of holidays backwards is refused");
        } else {
            rejects!(c.business_day_list(a, b), "a list of business days backwards is refused");
        }
    }
}
