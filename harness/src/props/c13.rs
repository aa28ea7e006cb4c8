//! C13: the tables of Easter Mondays.
//@ engine=symx
use crate::gen::*;
use crate::nd;
use rust_quantlib::datetime::{calendar, holiday};

/// March days (1 = March 1st) of the Gregorian Easter Sunday (Meeus, Jones and Butcher)
pub fn gregorian(y: u32) -> u32 {
    let a = y % 19;
    let (b, c) = (y / 100, y % 100);
    let (d, e) = (b / 4, b % 4);
    let f = (b + 8) / 25;
    let g = (b + 1 - f) / 3;
    let h = (19 * a + b + 15 - d - g) % 30;
    let (i, k) = (c / 4, c % 4);
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    h + l + 22 - 7 * m
}

/// March days (1 = March 1st, Gregorian) of the Julian Easter Sunday (Meeus)
pub fn julian(y: u32) -> u32 {
    let (a, b, c) = (y % 4, y % 7, y % 19);
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b + 34 - d) % 7;
    let julian = d + e + 22;
    // days between the calendars at Easter: 12 in 1900 (from March on 13), 14 in 2100
    julian + if y < 2100 { 13 } else { 14 }
}

harnesses! {
    c13_western(2) {
        let y = nd::int(1900, 2199);
        let e = gregorian(y as u32) + 1 + month_start(y, 3);
        prop!(calendar::easter_monday(y) as u32 == e, "Calendar Easter Monday table is the Gregorian computus");
        prop!(holiday::easter_monday(y) as u32 == e, "Holiday Easter Monday table is the Gregorian computus");
        witness!(e == 116, "a late Easter");
        witness!(e == 83, "an early Easter");
    }
    c13_orthodox(2) {
        let y = nd::int(1900, 2199);
        let e = julian(y as u32) + 1 + month_start(y, 3);
        prop!(calendar::easter_monday_orthodox(y) as u32 == e, "Calendar orthodox Easter Monday table is the Julian computus");
        prop!(holiday::easter_monday_orthodox(y) as u32 == e, "Holiday orthodox Easter Monday table is the Julian computus");
        witness!(e == 129, "a late Easter");
    }
    //@ rejects
    c13_range(2) {
        let y = nd::i32();
        nd::assume(y < 1900 || y > 2199);
        witness!(y == 2200, "one year too late");
        match nd::choice(4) {
            0 => { rejects!(calendar::easter_monday(y), "a year outside the tables is refused"); }
            1 => { rejects!(calendar::easter_monday_orthodox(y), "a year outside the tables is refused"); }
            2 => { rejects!(holiday::easter_monday(y), "a year outside the tables is refused"); }
            _ => { rejects!(holiday::easter_monday_orthodox(y), "a year outside the tables is refused"); }
        }
    }
}
