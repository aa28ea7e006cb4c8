//! C05: IMM dates and codes.
use crate::gen::*;
use crate::nd;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::{date::Date, imm::IMM, weekday::Weekday};

fn imm(eval: Date) -> IMM {
    IMM::new(PricingContext { eval_date: eval })
}

/// The third Wednesday of a month: the Wednesday among the days 15 to 21
fn third_wednesday(y: i32, m: i32) -> u32 {
    // serial 4 (1900-01-03) was a Wednesday
    let k = (serial_of(y, m, 15) - 4) % 7;
    15 + ((7 - k) % 7) as u32
}

fn is_imm(y: i32, m: i32, d: u32, main: bool) -> bool {
    d == third_wednesday(y, m) && (!main || m % 3 == 0)
}

fn next(main: bool) {
    let (y, m, d) = ymd(1900, 2198);
    let dt = Date::new(d, m.into(), y);
    nd::assume(!(y == 1900 && m == 1 && d == 1)); // the null date
    witness!(m == 12 && d == 21, "year end");
    let r = imm(dt).next_date(&dt, main);
    let (y2, m2, d2) = (r.year(), r.month() as i32, r.day_of_month());
    prop!(r > dt, "the next IMM date is later than the given date");
    prop!(is_imm(y2, m2, d2, main), "the next IMM date is an IMM date");
    // nothing in between: the previous IMM date is not later than the given date
    let step = if main { 3 } else { 1 };
    let (yp, mp) = if m2 > step { (y2, m2 - step) } else { (y2 - 1, m2 + 12 - step) };
    if yp >= 1900 {
        let p = serial_of(yp, mp, third_wednesday(yp, mp));
        prop!(p <= dt.serial_number(), "the next IMM date is the first one after the given date");
    }
}

harnesses! {
    c05_is_imm_date(2) {
        let (y, m, d) = ymd(1900, 2199);
        let main = nd::bool();
        let dt = Date::new(d, m.into(), y);
        witness!(main && is_imm(y, m, d, main), "a main-cycle date");
        prop!(imm(dt).is_imm_date(&dt, main) == is_imm(y, m, d, main),
              "IMM dates are the third Wednesdays (of March, June, September and December in the main cycle)");
    }
    c05_next_date(3) { next(false) }
    c05_next_date_main(3) { next(true) }
    c05_next_date_null(3) {
        let (y, m, d) = ymd(1999, 2030);
        let ev = Date::new(d, m.into(), y);
        let main = nd::bool();
        witness!(main, "main cycle");
        let a = imm(ev).next_date(&Date::default(), main);
        let b = imm(Date::max_date()).next_date(&ev, main);
        prop!(a == b, "the null date stands for the evaluation date");
    }
}
