//! C03: dates as a totally ordered set of days with day arithmetic.
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::date::Date;
use std::cmp::Ordering;
use std::hash::Hash;

/// One way of writing `date + n days`
fn shift(form: u8) {
    let (y, m, d) = ymd(1900, 2199);
    let t = nd::int(MIN_SERIAL, MAX_SERIAL);
    let s = serial_of(y, m, d);
    let a = Date::new(d, m.into(), y);
    let n = t - s;
    witness!(n < -400, "backwards by more than a year");
    let mut x = a;
    let b = match form {
        0 => a + n,
        1 => &a + n,
        2 => {
            x += n;
            x
        }
        3 => a - (-n),
        4 => &a - (-n),
        _ => {
            x -= -n;
            x
        }
    };
    prop!(b.serial_number() == t, "d + n is n days later");
    prop!(b - a == n, "(d + n) - d == n");
    prop!(&a - &b == -n, "d - (d + n) == -n");
    prop!(Date::days_between(&a, &b) == n as f64, "days_between is the difference in days");
    let (y2, m2, d2) = (b.year(), b.month() as i32, b.day_of_month());
    prop!(serial_of(y2, m2, d2) == t, "fields of d + n");
    prop!(b.day_of_year() == month_start(y2, m2) + d2, "day of year of d + n");
}

harnesses! {
    c03_add_days(2) { shift(0) }
    c03_add_days_ref(2) { shift(1) }
    c03_add_assign_days(2) { shift(2) }
    c03_sub_days(2) { shift(3) }
    c03_sub_days_ref(2) { shift(4) }
    c03_sub_assign_days(2) { shift(5) }

    c03_there_and_back(2) {
        let s = nd::int(MIN_SERIAL, MAX_SERIAL);
        let (y, m, d) = ymd(1900, 2199);
        let a = Date::new(d, m.into(), y);
        let n = s - a.serial_number();
        witness!(n < -400, "backwards by more than a year");
        let back = (a + n) - n;
        prop!(back == a, "(d + n) - n == d");
        prop!(back.year() == y && back.month() as i32 == m && back.day_of_month() == d, "(d + n) - n has the fields of d");
    }

    c03_order(2) {
        let (y1, m1, d1) = ymd(1900, 2199);
        let (y2, m2, d2) = ymd(1900, 2199);
        let a = Date::new(d1, m1.into(), y1);
        let b = Date::new(d2, m2.into(), y2);
        let before = y1 < y2 || (y1 == y2 && (m1 < m2 || (m1 == m2 && d1 < d2)));
        let same = y1 == y2 && m1 == m2 && d1 == d2;
        witness!(before && d1 > d2, "earlier with a larger day");
        witness!(same, "equal");
        prop!((a < b) == before, "dates are ordered chronologically");
        prop!((a == b) == same, "dates are equal iff their fields are");
        prop!((a <= b) == (before || same), "<= agrees with < and ==");
        prop!((a > b) == (!before && !same), "> agrees with < and ==");
        let c = if before { Ordering::Less } else if same { Ordering::Equal } else { Ordering::Greater };
        prop!(a.cmp(&b) == c, "cmp is chronological");
        prop!(a.partial_cmp(&b) == Some(c), "partial_cmp is chronological");
        prop!((b - a > 0) == before, "the difference has the sign of the order");
    }

    c03_hash(12) {
        let s = nd::int(MIN_SERIAL, MAX_SERIAL);
        let a = Date::from_serial(s);
        let y = a.year();
        let m = a.month();
        let d = a.day_of_month();
        let b = Date::new(d, m, y);
        witness!(d == 31, "a 31st");
        let mut h1 = Bytes::default();
        let mut h2 = Bytes::default();
        a.hash(&mut h1);
        b.hash(&mut h2);
        prop!(a == b, "the same day built in two ways is equal");
        prop!(h1.same(&h2), "equal dates hash equally");
    }

    //@ rejects
    c03_rejects_add_assign(2) {
        let s = nd::int(MIN_SERIAL, MAX_SERIAL);
        let n = nd::int(-200000, 200000);
        let plus = nd::bool();
        let t = if plus { s + n } else { s - n };
        nd::assume(t < MIN_SERIAL || t > MAX_SERIAL);
        witness!(t == MAX_SERIAL + 1, "the day after the last date");
        let mut d = Date::from_serial(s);
        if plus { d += n } else { d -= n }
        rejects!(d, "+= or -= leaves the date range");
    }
    //@ rejects
    c03_rejects_add(2) {
        let s = nd::int(MIN_SERIAL, MAX_SERIAL);
        let n = nd::int(-200000, 200000);
        let plus = nd::bool();
        let t = if plus { s + n } else { s - n };
        nd::assume(t < MIN_SERIAL || t > MAX_SERIAL);
        witness!(t == MAX_SERIAL + 1, "the day after the last date");
        let d = Date::from_serial(s);
        rejects!(if plus { d + n } else { d - n }, "+ or - leaves the date range");
    }
}
