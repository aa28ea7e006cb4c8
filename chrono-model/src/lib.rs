//! A small stand-in for the parts of `chrono` that rust-quantlib uses, written so that a solver can
//! reason about it cheaply: a UTC date-time is a day count plus seconds, and the calendar fields are
//! computed by the usual March-based arithmetic.  It is only ever linked into the symbolic harness
//! crate (through `[patch.crates-io]`).  Property C01 is decided with the *real* chrono, and a
//! separate harness proves this model equal to the real chrono on the whole date range of the
//! library; counterexamples are replayed against the real chrono.
//!
//! Range: 1801-01-01 ..= 2398-12-31.  Outside of it the model panics (a loud failure, which the
//! runner reports as inconclusive since it cannot be reproduced).
#![allow(dead_code)]
#![allow(clippy::all)]

use core::fmt;
use core::marker::PhantomData;
use core::ops::{Add, AddAssign, Sub, SubAssign};

pub mod prelude {
    pub use crate::{
        DateTime, Datelike, Days, Duration, Local, NaiveDate, NaiveDateTime, TimeDelta, TimeZone, Timelike, Utc,
        Weekday,
    };
}

/// days from 1800-03-01 to 1900-01-01
const D1900: i32 = 36465;
/// days between 1900-01-01 and 1970-01-01
const D1970: i32 = 25567;

// day numbers below count from 1900-01-01 == 0
const LO: i32 = -36159; // 1801-01-01
const HI: i32 = 182255; // 2398-12-31 (inclusive)

// First of March of the centurial years that are not leap, as days since 1900-01-01
const M1900: i32 = 59;
const M2100: i32 = 73049 + 59;
const M2200: i32 = 109573 + 59;
const M2300: i32 = 146097 + 59;

#[inline]
fn check_range(n: i32) {
    if n < LO || n > HI {
        panic!("chrono model: date outside the modelled range");
    }
}

#[cfg(symx)]
extern "C" {
    /// year * 65536 + month * 256 + day of the n-th day after 1900-01-01, defined by the executor
    /// through its inverse `days_of`
    fn sx_civil(n: i32) -> u32;
    /// its inverse
    fn sx_days(y: i32, m: u32, d: u32) -> i32;
}

#[cfg(symx)]
#[inline]
pub fn civil(n: i32) -> (i32, u32, u32) {
    let p = unsafe { sx_civil(n) };
    ((p >> 16) as i32, p >> 8 & 255, p & 255)
}

/// (year, month, day) of the n-th day after 1900-01-01
#[cfg(not(symx))]
#[inline]
pub fn civil(n: i32) -> (i32, u32, u32) {
    check_range(n);
    // count from 1800-03-01, pretending that every centurial year is a leap year
    let mut k = (n + D1900 - 59 + 59) as u32;
    if n >= M1900 {
        k += 1;
    }
    if n >= M2100 {
        k += 1;
    }
    if n >= M2200 {
        k += 1;
    }
    if n >= M2300 {
        k += 1;
    }
    let q = 4 * k + 3;
    let y = q / 1461;
    let doy = (q - 1461 * y) / 4; // day of the March-based year
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    if mp < 10 {
        (1800 + y as i32, mp + 3, d)
    } else {
        (1801 + y as i32, mp - 9, d)
    }
}

#[inline]
fn leap(y: i32) -> bool {
    (y & 3) == 0 && !(y == 1900 || y == 2100 || y == 2200 || y == 2300)
}

const CUM: [u32; 13] = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
const LEN: [u32; 13] = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];

#[inline]
pub fn days_of(y: i32, m: u32, d: u32) -> Option<i32> {
    if !(1801..=2398).contains(&y) {
        panic!("chrono model: year outside the modelled range");
    }
    if !(1..=12).contains(&m) || d < 1 {
        return None;
    }
    let mut len = LEN[m as usize];
    if m == 2 && leap(y) {
        len += 1;
    }
    if d > len {
        return None;
    }
    #[cfg(symx)]
    return Some(unsafe { sx_days(y, m, d) });
    #[cfg(not(symx))]
    Some(number(y, m, d))
}

#[inline]
#[cfg(not(symx))]
fn number(y: i32, m: u32, d: u32) -> i32 {
    // leap days before Jan 1st of year y, relative to 1900
    let yy = (y - 1800) as u32;
    let mut leaps = ((yy + 3) >> 2) as i32; // including 1800, 1900, 2100, ...
    leaps -= 1; // 1800
    if y > 1900 {
        leaps -= 1;
    }
    if y > 2100 {
        leaps -= 1;
    }
    if y > 2200 {
        leaps -= 1;
    }
    if y > 2300 {
        leaps -= 1;
    }
    let mut n = 365 * (y - 1900) + leaps - 24 + CUM[m as usize] as i32 + d as i32 - 1;
    if m > 2 && leap(y) {
        n += 1;
    }
    n
}

// -------------------------------------------------------------------------------------------------

const DAY: i64 = 86400;

/// A signed duration, kept as whole days plus seconds within the day (0 <= secs < 86400).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct TimeDelta {
    days: i64,
    secs: i64,
}
pub type Duration = TimeDelta;

impl TimeDelta {
    const fn norm(days: i64, secs: i64) -> Self {
        if secs == 0 {
            Self { days, secs: 0 }
        } else {
            Self { days: days + secs.div_euclid(DAY), secs: secs.rem_euclid(DAY) }
        }
    }
    pub const fn zero() -> Self {
        Self { days: 0, secs: 0 }
    }
    pub const fn days(n: i64) -> Self {
        Self { days: n, secs: 0 }
    }
    pub const fn weeks(n: i64) -> Self {
        Self { days: n * 7, secs: 0 }
    }
    pub const fn hours(n: i64) -> Self {
        Self::norm(0, n * 3600)
    }
    pub const fn minutes(n: i64) -> Self {
        Self::norm(0, n * 60)
    }
    pub const fn seconds(n: i64) -> Self {
        Self::norm(0, n)
    }
    pub const fn try_days(n: i64) -> Option<Self> {
        Some(Self::days(n))
    }
    pub const fn try_weeks(n: i64) -> Option<Self> {
        Some(Self::weeks(n))
    }
    pub const fn num_seconds(&self) -> i64 {
        self.days * DAY + self.secs
    }
    /// whole days, rounded towards zero
    pub const fn num_days(&self) -> i64 {
        if self.secs != 0 && self.days < 0 {
            self.days + 1
        } else {
            self.days
        }
    }
    pub const fn num_weeks(&self) -> i64 {
        self.num_days() / 7
    }
    pub const fn is_zero(&self) -> bool {
        self.days == 0 && self.secs == 0
    }
}
impl Add for TimeDelta {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Self::norm(self.days + o.days, self.secs + o.secs)
    }
}
impl Sub for TimeDelta {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Self::norm(self.days - o.days, self.secs - o.secs)
    }
}
impl core::ops::Neg for TimeDelta {
    type Output = Self;
    fn neg(self) -> Self {
        Self::norm(-self.days, -self.secs)
    }
}

// -------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Weekday {
    Mon = 0,
    Tue = 1,
    Wed = 2,
    Thu = 3,
    Fri = 4,
    Sat = 5,
    Sun = 6,
}

impl Weekday {
    pub fn num_days_from_monday(&self) -> u32 {
        *self as u32
    }
    pub fn number_from_monday(&self) -> u32 {
        *self as u32 + 1
    }
    pub fn num_days_from_sunday(&self) -> u32 {
        if *self as u32 == 6 {
            0
        } else {
            *self as u32 + 1
        }
    }
    pub fn number_from_sunday(&self) -> u32 {
        self.num_days_from_sunday() + 1
    }
    fn of(n: i32) -> Self {
        check_range(n);
        // 1900-01-01 was a Monday; LO shifted to a multiple of seven keeps the operand positive
        match ((n + 36400) as u32) % 7 {
            0 => Weekday::Mon,
            1 => Weekday::Tue,
            2 => Weekday::Wed,
            3 => Weekday::Thu,
            4 => Weekday::Fri,
            5 => Weekday::Sat,
            _ => Weekday::Sun,
        }
    }
}

// -------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum LocalResult<T> {
    Single(T),
    Ambiguous(T, T),
    None,
}
pub type MappedLocalTime<T> = LocalResult<T>;

impl<T> LocalResult<T> {
    pub fn single(self) -> Option<T> {
        match self {
            LocalResult::Single(t) => Some(t),
            _ => None,
        }
    }
    pub fn earliest(self) -> Option<T> {
        match self {
            LocalResult::Single(t) | LocalResult::Ambiguous(t, _) => Some(t),
            _ => None,
        }
    }
    pub fn latest(self) -> Option<T> {
        match self {
            LocalResult::Single(t) | LocalResult::Ambiguous(_, t) => Some(t),
            _ => None,
        }
    }
    pub fn unwrap(self) -> T {
        match self {
            LocalResult::Single(t) => t,
            _ => panic!("LocalResult::unwrap() on None"),
        }
    }
}

// -------------------------------------------------------------------------------------------------

pub trait Datelike: Sized {
    #[doc(hidden)]
    fn cal(&self) -> Cal;
    #[doc(hidden)]
    fn day_number(&self) -> i32 {
        self.cal().n
    }

    fn year(&self) -> i32 {
        self.cal().y
    }
    fn month(&self) -> u32 {
        self.cal().m
    }
    fn month0(&self) -> u32 {
        self.month() - 1
    }
    fn day(&self) -> u32 {
        self.cal().d
    }
    fn day0(&self) -> u32 {
        self.day() - 1
    }
    fn ordinal(&self) -> u32 {
        let Cal { y, m, d, .. } = self.cal();
        CUM[m as usize] + d + if m > 2 && leap(y) { 1 } else { 0 }
    }
    fn ordinal0(&self) -> u32 {
        self.ordinal() - 1
    }
    fn weekday(&self) -> Weekday {
        Weekday::of(self.day_number())
    }
    fn num_days_from_ce(&self) -> i32 {
        self.day_number() + 693596
    }
}

pub trait Timelike {
    fn hour(&self) -> u32;
    fn minute(&self) -> u32;
    fn second(&self) -> u32;
}

// -------------------------------------------------------------------------------------------------

/// A calendar day: days since 1900-01-01 together with its year, month and day (kept with the day
/// number, so that reading a field back costs the solver nothing).
#[doc(hidden)]
#[derive(Clone, Copy, Debug)]
pub struct Cal {
    n: i32,
    y: i32,
    m: u32,
    d: u32,
}
impl Cal {
    fn at(n: i64) -> Self {
        if n < LO as i64 || n > HI as i64 {
            panic!("chrono model: date outside the modelled range");
        }
        let (y, m, d) = civil(n as i32);
        Cal { n: n as i32, y, m, d }
    }
    fn of(y: i32, m: u32, d: u32) -> Option<Self> {
        days_of(y, m, d).map(|n| Cal { n, y, m, d })
    }
    fn plus(self, by: i64) -> Self {
        Cal::at(self.n as i64 + by)
    }
}
impl PartialEq for Cal {
    fn eq(&self, o: &Self) -> bool {
        self.n == o.n
    }
}
impl Eq for Cal {}
impl PartialOrd for Cal {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
        Some(self.n.cmp(&o.n))
    }
}
impl Ord for Cal {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering {
        self.n.cmp(&o.n)
    }
}
impl core::hash::Hash for Cal {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        self.n.hash(h);
    }
}

/// A calendar date
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct NaiveDate {
    c: Cal,
}

impl NaiveDate {
    pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> Option<Self> {
        Cal::of(y, m, d).map(|c| NaiveDate { c })
    }
    pub fn from_num_days_from_ce_opt(n: i32) -> Option<Self> {
        Some(NaiveDate { c: Cal::at(n as i64 - 693596) })
    }
    pub fn and_hms_opt(&self, h: u32, m: u32, s: u32) -> Option<NaiveDateTime> {
        if h < 24 && m < 60 && s < 60 {
            Some(NaiveDateTime { c: self.c, secs: (h * 3600 + m * 60 + s) as i64 })
        } else {
            None
        }
    }
    pub fn signed_duration_since(self, o: Self) -> TimeDelta {
        TimeDelta::days(self.c.n as i64 - o.c.n as i64)
    }
    pub fn succ_opt(&self) -> Option<Self> {
        Some(NaiveDate { c: self.c.plus(1) })
    }
    pub fn pred_opt(&self) -> Option<Self> {
        Some(NaiveDate { c: self.c.plus(-1) })
    }
    pub fn checked_add_signed(self, d: TimeDelta) -> Option<Self> {
        Some(self + d)
    }
    pub fn checked_sub_signed(self, d: TimeDelta) -> Option<Self> {
        Some(self - d)
    }
    pub fn leap_year(&self) -> bool {
        leap(self.year())
    }
}
impl Datelike for NaiveDate {
    fn cal(&self) -> Cal {
        self.c
    }
}
impl Add<TimeDelta> for NaiveDate {
    type Output = Self;
    fn add(self, d: TimeDelta) -> Self {
        NaiveDate { c: self.c.plus(d.num_days()) }
    }
}
impl Sub<TimeDelta> for NaiveDate {
    type Output = Self;
    fn sub(self, d: TimeDelta) -> Self {
        NaiveDate { c: self.c.plus(-d.num_days()) }
    }
}
impl Sub for NaiveDate {
    type Output = TimeDelta;
    fn sub(self, o: Self) -> TimeDelta {
        self.signed_duration_since(o)
    }
}
impl fmt::Debug for NaiveDate {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let Cal { y, m, d, .. } = self.c;
        write!(f, "{:04}-{:02}-{:02}", y, m, d)
    }
}
impl fmt::Display for NaiveDate {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct NaiveDateTime {
    c: Cal,
    secs: i64,
}
impl NaiveDateTime {
    pub fn date(&self) -> NaiveDate {
        NaiveDate { c: self.c }
    }
    pub fn and_utc(&self) -> DateTime<Utc> {
        DateTime { c: self.c, secs: self.secs, tz: PhantomData }
    }
}
impl Datelike for NaiveDateTime {
    fn cal(&self) -> Cal {
        self.c
    }
}

// -------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Utc;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Local;

impl Utc {
    pub fn now() -> DateTime<Utc> {
        now()
    }
}
impl Local {
    pub fn now() -> DateTime<Local> {
        now()
    }
}

#[cfg(kani)]
fn now<T>() -> DateTime<T> {
    let n: i32 = kani::any();
    kani::assume(n >= 0 && n <= 109572);
    let secs: i64 = kani::any();
    kani::assume(secs >= 0 && secs < DAY);
    DateTime { c: Cal::at(n as i64), secs, tz: PhantomData }
}
#[cfg(not(kani))]
fn now<T>() -> DateTime<T> {
    let s = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
    DateTime { c: Cal::at(s / DAY + D1970 as i64), secs: s % DAY, tz: PhantomData }
}

pub struct DateTime<Tz> {
    c: Cal,
    secs: i64,
    tz: PhantomData<Tz>,
}

impl<Tz> Clone for DateTime<Tz> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<Tz> Copy for DateTime<Tz> {}
impl<Tz> PartialEq for DateTime<Tz> {
    fn eq(&self, o: &Self) -> bool {
        self.c == o.c && self.secs == o.secs
    }
}
impl<Tz> Eq for DateTime<Tz> {}
impl<Tz> PartialOrd for DateTime<Tz> {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<Tz> Ord for DateTime<Tz> {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering {
        if self.c != o.c {
            self.c.cmp(&o.c)
        } else {
            self.secs.cmp(&o.secs)
        }
    }
}
impl<Tz> core::hash::Hash for DateTime<Tz> {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        self.c.hash(h);
        self.secs.hash(h);
    }
}

impl<Tz> DateTime<Tz> {
    pub fn date_naive(&self) -> NaiveDate {
        NaiveDate { c: self.c }
    }
    pub fn naive_utc(&self) -> NaiveDateTime {
        NaiveDateTime { c: self.c, secs: self.secs }
    }
    pub fn timestamp(&self) -> i64 {
        (self.c.n as i64 - D1970 as i64) * DAY + self.secs
    }
    pub fn signed_duration_since(self, o: Self) -> TimeDelta {
        TimeDelta::norm(self.c.n as i64 - o.c.n as i64, self.secs - o.secs)
    }
    pub fn checked_add_signed(self, d: TimeDelta) -> Option<Self> {
        Some(self + d)
    }
    pub fn checked_sub_signed(self, d: TimeDelta) -> Option<Self> {
        Some(self - d)
    }
    #[cfg(not(kani))]
    pub fn to_rfc3339(&self) -> String {
        let Cal { y, m, d, .. } = self.c;
        format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}+00:00", y, m, d, self.secs / 3600, self.secs / 60 % 60, self.secs % 60)
    }
    /// formatting is outside every property decided with this model
    #[cfg(kani)]
    pub fn to_rfc3339(&self) -> String {
        String::new()
    }
}
impl DateTime<Utc> {
    pub fn from_timestamp(secs: i64, _nsecs: u32) -> Option<Self> {
        let c = Cal::at(D1970 as i64 + secs.div_euclid(DAY));
        Some(DateTime { c, secs: secs.rem_euclid(DAY), tz: PhantomData })
    }
}
impl<Tz> Datelike for DateTime<Tz> {
    fn cal(&self) -> Cal {
        self.c
    }
}
impl<Tz> Timelike for DateTime<Tz> {
    fn hour(&self) -> u32 {
        (self.secs / 3600) as u32
    }
    fn minute(&self) -> u32 {
        (self.secs / 60 % 60) as u32
    }
    fn second(&self) -> u32 {
        (self.secs % 60) as u32
    }
}
impl<Tz> Add<TimeDelta> for DateTime<Tz> {
    type Output = Self;
    fn add(self, d: TimeDelta) -> Self {
        let t = TimeDelta::norm(d.days, self.secs + d.secs);
        DateTime { c: self.c.plus(t.days), secs: t.secs, tz: PhantomData }
    }
}
impl<Tz> Sub<TimeDelta> for DateTime<Tz> {
    type Output = Self;
    fn sub(self, d: TimeDelta) -> Self {
        self + (-d)
    }
}
impl<Tz> Sub for DateTime<Tz> {
    type Output = TimeDelta;
    fn sub(self, o: Self) -> TimeDelta {
        self.signed_duration_since(o)
    }
}
impl<Tz> AddAssign<TimeDelta> for DateTime<Tz> {
    fn add_assign(&mut self, d: TimeDelta) {
        *self = *self + d;
    }
}
impl<Tz> SubAssign<TimeDelta> for DateTime<Tz> {
    fn sub_assign(&mut self, d: TimeDelta) {
        *self = *self - d;
    }
}
impl<Tz> fmt::Debug for DateTime<Tz> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.to_rfc3339())
    }
}
impl<Tz> fmt::Display for DateTime<Tz> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.to_rfc3339())
    }
}

pub trait TimeZone: Sized + Clone {
    fn with_ymd_and_hms(&self, y: i32, m: u32, d: u32, h: u32, min: u32, s: u32) -> LocalResult<DateTime<Self>> {
        match Cal::of(y, m, d) {
            Some(c) if h < 24 && min < 60 && s < 60 => LocalResult::Single(DateTime {
                c,
                secs: if h == 0 && min == 0 && s == 0 { 0 } else { (h * 3600 + min * 60 + s) as i64 },
                tz: PhantomData,
            }),
            _ => LocalResult::None,
        }
    }
    fn from_utc_datetime(&self, t: &NaiveDateTime) -> DateTime<Self> {
        DateTime { c: t.c, secs: t.secs, tz: PhantomData }
    }
}
impl TimeZone for Utc {}
impl TimeZone for Local {}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Days(pub(crate) u64);
impl Days {
    pub const fn new(n: u64) -> Self {
        Days(n)
    }
}
impl Add<Days> for NaiveDate {
    type Output = Self;
    fn add(self, d: Days) -> Self {
        NaiveDate { c: self.c.plus(d.0 as i64) }
    }
}
impl Sub<Days> for NaiveDate {
    type Output = Self;
    fn sub(self, d: Days) -> Self {
        NaiveDate { c: self.c.plus(-(d.0 as i64)) }
    }
}
impl<Tz> Add<Days> for DateTime<Tz> {
    type Output = Self;
    fn add(self, d: Days) -> Self {
        self + TimeDelta::days(d.0 as i64)
    }
}
impl<Tz> Sub<Days> for DateTime<Tz> {
    type Output = Self;
    fn sub(self, d: Days) -> Self {
        self - TimeDelta::days(d.0 as i64)
    }
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn roundtrip() {
        let mut prev = (1800, 12, 31);
        for n in LO..=HI {
            let (y, m, d) = civil(n);
            assert_eq!(days_of(y, m, d), Some(n), "{} {:?}", n, (y, m, d));
            assert!((y, m, d) > prev);
            prev = (y, m, d);
        }
        assert_eq!(civil(0), (1900, 1, 1));
        assert_eq!(civil(D1970), (1970, 1, 1));
        assert_eq!(civil(LO), (1801, 1, 1));
        assert_eq!(civil(HI), (2398, 12, 31));
    }
}
