//@ engine=symx
//! C17: 30/360 and 30/365 day counts.
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{
    date::Date,
    daycounter::DayCounter,
    daycounters::{simple::Simple, thirty365::Thirty365},
};

/// The fields of a date as the conventions see them (C01)
#[derive(Clone, Copy)]
struct F {
    y: i32,
    m: i32,
    d: i32,
    /// the last day of February
    feb: bool,
}

fn fields(x: &Date) -> F {
    let (y, m, d) = (x.year(), x.month() as i32, x.day_of_month() as i32);
    F { y, m, d, feb: m == 2 && d == month_len(y, 2) as i32 }
}

/// 30/360 count between days of the month `d1` and `d2`
fn count(a: &F, d1: i32, b: &F, d2: i32) -> i32 {
    360 * (b.y - a.y) + 30 * (b.m - a.m) + (d2 - d1)
}

fn d30(d: i32) -> i32 {
    if d == 31 { 30 } else { d }
}

fn us(a: &F, b: &F) -> i32 {
    let d1 = if a.feb { 30 } else { d30(a.d) };
    let d2 = if b.feb && a.feb || b.d == 31 && a.d >= 30 { 30 } else { b.d };
    count(a, d1, b, d2)
}

fn isma(a: &F, b: &F) -> i32 {
    count(a, d30(a.d), b, if a.d >= 30 { d30(b.d) } else { b.d })
}

fn eu(a: &F, b: &F) -> i32 {
    count(a, d30(a.d), b, d30(b.d))
}

fn italian(a: &F, b: &F) -> i32 {
    let f = |x: &F| if x.m == 2 && x.d > 27 { 30 } else { d30(x.d) };
    count(a, f(a), b, f(b))
}

fn german(a: &F, b: &F, last: bool) -> i32 {
    count(a, if a.feb { 30 } else { d30(a.d) }, b, if b.feb && !last { 30 } else { d30(b.d) })
}

fn nasd(a: &F, b: &F) -> i32 {
    // the 31st is the 30th, or with a start before the 30th the first of the next month
    count(a, d30(a.d), b, if b.d == 31 && a.d < 30 { 31 } else { d30(b.d) })
}

fn two() -> (Date, Date) {
    (date(), date())
}

fn by_serial() -> (Date, Date) {
    (Date::from_serial(nd::int(MIN_SERIAL, MAX_SERIAL)), Date::from_serial(nd::int(MIN_SERIAL, MAX_SERIAL)))
}

fn fraction(dc: &DayCounter, a: &Date, b: &Date, year: f64) {
    let (r, s) = by_serial();
    let n = dc.day_count(a, b);
    prop!(dc.year_fraction(a, b, &r, &s) == n as f64 / year, "the year fraction is the day count over the length of the year, whatever the reference period");
}

harnesses! {
    c17_us(2) {
        let (a, b) = two();
        let (x, y) = (fields(&a), fields(&b));
        let n = DayCounter::usa().day_count(&a, &b);
        prop!(n == us(&x, &y), "30/360 US counts as documented");
        witness!(x.feb && y.feb && x.d == 28 && y.d == 29, "February ends");
        witness!(x.d == 30 && y.d == 31 && n < 0, "month ends, backwards");
    }
    c17_isma(2) {
        let (a, b) = two();
        let (x, y) = (fields(&a), fields(&b));
        let n = DayCounter::isma().day_count(&a, &b);
        prop!(n == isma(&x, &y), "30/360 bond basis counts as documented");
        prop!(DayCounter::bond_basis().day_count(&a, &b) == n, "bond basis is ISMA");
        prop!(Simple::new().day_count(&a, &b) == n, "the day count of the simple day counter is the bond basis");
        witness!(x.d == 31 && y.d == 31, "month ends");
        witness!(x.d == 29 && y.d == 31, "month end");
    }
    c17_european(2) {
        let (a, b) = two();
        let (x, y) = (fields(&a), fields(&b));
        let n = DayCounter::european().day_count(&a, &b);
        prop!(n == eu(&x, &y), "30E/360 counts as documented");
        prop!(DayCounter::euro_bond_basis().day_count(&a, &b) == n, "Eurobond basis is 30E/360");
        prop!(DayCounter::european().day_count(&b, &a) == -n, "30E/360 backwards is the negative");
        witness!(x.d == 29 && y.d == 31, "month end");
    }
    c17_italian(2) {
        let (a, b) = two();
        let (x, y) = (fields(&a), fields(&b));
        let n = DayCounter::italian().day_count(&a, &b);
        prop!(n == italian(&x, &y), "30/360 Italian counts as documented");
        prop!(DayCounter::italian().day_count(&b, &a) == -n, "30/360 Italian backwards is the negative");
        witness!(x.m == 2 && x.d == 28 && y.d == 31, "month end");
    }
    c17_isda(2) {
        let (a, b) = two();
        let (x, y) = (fields(&a), fields(&b));
        let end = if nd::bool() { b } else { date() };
        let n = DayCounter::isda(end).day_count(&a, &b);
        prop!(n == german(&x, &y, b.serial_number() == end.serial_number()), "30E/360 ISDA counts as documented");
        prop!(DayCounter::german(end).day_count(&a, &b) == n, "German is 30E/360 ISDA");
        witness!(y.feb && b == end, "ends on the termination date");
        witness!(x.feb && a == end, "starts on the termination date");
    }
    c17_nasd(2) {
        let (a, b) = two();
        let (x, y) = (fields(&a), fields(&b));
        let n = DayCounter::nasd().day_count(&a, &b);
        prop!(n == nasd(&x, &y), "30/360 NASD counts as documented");
        witness!(x.d == 29 && y.d == 31 && y.m == 12, "month end");
    }
    c17_thirty365(2) {
        let (a, b) = two();
        let (x, y) = (fields(&a), fields(&b));
        let c = Thirty365::new();
        let n = c.day_count(&a, &b);
        prop!(n == count(&x, x.d, &y, y.d), "30/365 counts months of thirty days");
        prop!(c.day_count(&b, &a) == -n, "30/365 backwards is the negative");
        witness!(x.d == 31 && y.d == 1 && n > 0, "from a month end");
    }
    c17_fractions(2) {
        let (a, b) = two();
        witness!(a > b, "backwards");
        match nd::choice(7) {
            0 => fraction(&DayCounter::usa(), &a, &b, 360.0),
            1 => fraction(&DayCounter::isma(), &a, &b, 360.0),
            2 => fraction(&DayCounter::european(), &a, &b, 360.0),
            3 => fraction(&DayCounter::italian(), &a, &b, 360.0),
            4 => fraction(&DayCounter::isda(Date::from_serial(nd::int(MIN_SERIAL, MAX_SERIAL))), &a, &b, 360.0),
            5 => fraction(&DayCounter::nasd(), &a, &b, 360.0),
            _ => fraction(&DayCounter::Thirty365(Thirty365::new()), &a, &b, 365.0),
        }
    }
}
