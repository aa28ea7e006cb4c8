//! Generators of symbolic values of the library's types, reference models, and stubs.
use crate::nd;
use rust_quantlib::datetime::{
    businessdayconvention::BusinessDayConvention, calendar::Calendar, date::Date, frequency::Frequency,
    holiday::Holiday, holidays::nilholiday::NilHoliday, months::Month, period::Period, timeunit::TimeUnit,
    weekday::Weekday,
};

pub const MIN_SERIAL: i32 = 2;
pub const MAX_SERIAL: i32 = 109574;

// ------------------------------------------------------------------------------------------------
// Reference calendar arithmetic

pub fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub fn month_len(y: i32, m: i32) -> u32 {
    match m {
        2 => {
            if leap(y) {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// Days before the first of month `m`
pub fn month_start(y: i32, m: i32) -> u32 {
    let l = if leap(y) { 1 } else { 0 };
    match m {
        1 => 0,
        2 => 31,
        3 => 59 + l,
        4 => 90 + l,
        5 => 120 + l,
        6 => 151 + l,
        7 => 181 + l,
        8 => 212 + l,
        9 => 243 + l,
        10 => 273 + l,
        11 => 304 + l,
        _ => 334 + l,
    }
}

/// Serial number of a date: 1900-01-01 is 2, without the spreadsheet 1900 leap-year quirk.
pub fn serial_of(y: i32, m: i32, d: u32) -> i32 {
    let k = y - 1900;
    // leap years in [1900, y): multiples of four, without 1900 and 2100
    let mut leaps = (k + 3) / 4 - 1;
    if k == 0 {
        leaps = 0;
    }
    if y > 2100 {
        leaps -= 1;
    }
    365 * k + leaps + month_start(y, m) as i32 + d as i32 + 1
}

// ------------------------------------------------------------------------------------------------
// Symbolic values

/// Year, month and day of an arbitrary date with `y0 <= year <= y1`
pub fn ymd(y0: i32, y1: i32) -> (i32, i32, u32) {
    let y = nd::int(y0, y1);
    let m = nd::int(1, 12);
    let d = nd::u32();
    nd::assume(d >= 1 && d <= 31);
    nd::assume(d <= month_len(y, m));
    (y, m, d)
}

/// An arbitrary date of the years `y0 ..= y1`
pub fn date_in(y0: i32, y1: i32) -> Date {
    let (y, m, d) = ymd(y0, y1);
    Date::new(d, m.into(), y)
}

/// An arbitrary date of the library's range
pub fn date() -> Date {
    date_in(1900, 2199)
}

/// A hasher that records what is fed to it (up to 32 bytes).
#[derive(Default)]
pub struct Bytes {
    pub b: [u8; 32],
    pub n: usize,
}
impl std::hash::Hasher for Bytes {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        for x in bytes {
            if self.n < 32 {
                self.b[self.n] = *x;
                self.n += 1;
            }
        }
    }
    fn write_i32(&mut self, x: i32) {
        self.word(x as u32 as u64, 4)
    }
    fn write_u32(&mut self, x: u32) {
        self.word(x as u64, 4)
    }
    fn write_u8(&mut self, x: u8) {
        self.word(x as u64, 1)
    }
    fn write_i64(&mut self, x: i64) {
        self.word(x as u64, 8)
    }
    fn write_u64(&mut self, x: u64) {
        self.word(x, 8)
    }
    fn write_isize(&mut self, x: isize) {
        self.word(x as u64, 8)
    }
    fn write_usize(&mut self, x: usize) {
        self.word(x as u64, 8)
    }
}
impl Bytes {
    fn word(&mut self, x: u64, len: usize) {
        let b = x.to_le_bytes();
        if self.n + len <= 32 {
            self.b[self.n] = b[0];
            if len > 1 {
                self.b[self.n + 1] = b[1];
                self.b[self.n + 2] = b[2];
                self.b[self.n + 3] = b[3];
            }
            if len > 4 {
                self.b[self.n + 4] = b[4];
                self.b[self.n + 5] = b[5];
                self.b[self.n + 6] = b[6];
                self.b[self.n + 7] = b[7];
            }
            self.n += len;
        }
    }
    fn lane(&self, i: usize) -> u64 {
        u64::from_le_bytes([
            self.b[i],
            self.b[i + 1],
            self.b[i + 2],
            self.b[i + 3],
            self.b[i + 4],
            self.b[i + 5],
            self.b[i + 6],
            self.b[i + 7],
        ])
    }
    pub fn same(&self, o: &Self) -> bool {
        self.n == o.n && self.lane(0) == o.lane(0) && self.lane(8) == o.lane(8) && self.lane(16) == o.lane(16)
            && self.lane(24) == o.lane(24)
    }
}

/// Stands in for RandomState::new, whose random numbers Kani cannot draw
pub fn hash_state() -> std::hash::RandomState {
    assert!(std::mem::size_of::<std::hash::RandomState>() == 16);
    unsafe { std::mem::transmute::<[u64; 2], std::hash::RandomState>([1, 2]) }
}
