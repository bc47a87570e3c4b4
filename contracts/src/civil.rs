//! Independent civil-calendar arithmetic (no chrono): the oracle's own notion of
//! dates, days, weekdays, month ends and months arithmetic.
pub fn leap(y: i32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn dim(y: i32, m: i32) -> i32 {
    match m {
        2 => if leap(y) { 29 } else { 28 },
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
pub fn cum(y: i32, m: i32) -> i32 {
    let l = if leap(y) { 1 } else { 0 };
    match m {
        1 => 0,
        2 => 31,
        3 => 59 + l,
        4 => 90 + l,
        5 => 120 + l,
        6 => 151 + l,
        7 => 181 + l,
        8 => 212 + l,
        9 => 243 + l,
        10 => 273 + l,
        11 => 304 + l,
        _ => 334 + l,
    }
}
pub fn ydays(y: i32) -> i32 {
    let p = y - 1;
    365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400)
}
/// days from the common era: 0001-01-01 is 1
pub fn dfc(y: i32, m: i32, d: i32) -> i32 {
    ydays(y) + cum(y, m) + d
}
pub fn wd(n: i32) -> i32 {
    (n - 1).rem_euclid(7)
}
