//! The computus: day of the year of Easter Monday.  Executed by this crate and
//! read by the extractor as specification (see oracle.rs).
use crate::civil::cum;

/// Western churches (Gregorian; Meeus/Jones/Butcher)
pub fn western_easter_monday(y: i32) -> i32 {
    let a = y % 19;
    let b = y / 100;
    let c = y % 100;
    let d = b / 4;
    let e = b % 4;
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let i = c / 4;
    let k = c % 4;
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let n = h + l - 7 * m + 114;
    cum(y, n / 31) + (n % 31 + 1) + 1
}
/// Orthodox churches (Julian computus, as a Gregorian day; valid until 2199)
pub fn orthodox_easter_monday(y: i32) -> i32 {
    let a = y % 4;
    let b = y % 7;
    let c = y % 19;
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let n = d + e + 114;
    // the Julian calendar is behind by 13 days, by 14 from March 2100 on
    cum(y, n / 31) + (n % 31 + 1) + (y / 100 - y / 400 - 2) + 1
}
