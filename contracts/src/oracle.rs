//! Holiday rules of the rule-based national calendars, as integer predicates.
//!
//! One text, two readings: this crate runs it (exhaustive replay over the real
//! calendars), and the extractor turns every `pub fn` below into a Verus
//! `open spec fn` (`i32` read as `int`), the postcondition the extracted
//! calendar code is proved to meet.  Only integer expressions and `if` are used.
//!
//! d day of month, w weekday (0 = Monday), m month, y year, k day of year,
//! e day of year of Easter Monday.

// ---- shapes of rules
pub fn wkend(w: i32) -> bool { w == 5 || w == 6 }
/// fixed date
pub fn fx(d: i32, m: i32, dd: i32, mm: i32) -> bool { d == dd && m == mm }
/// n-th weekday of a month
pub fn nth(d: i32, w: i32, m: i32, n: i32, ww: i32, mm: i32) -> bool { w == ww && m == mm && 7 * (n - 1) < d && d <= 7 * n }
/// the weekday in the week that starts on day `lo` of the month
pub fn wk(d: i32, w: i32, m: i32, lo: i32, ww: i32, mm: i32) -> bool { w == ww && m == mm && lo <= d && d < lo + 7 }
/// last weekday of a month of 31 days
pub fn last31(d: i32, w: i32, m: i32, ww: i32, mm: i32) -> bool { w == ww && m == mm && d > 24 }
/// fixed date, on the Monday after when it is a Sunday
pub fn sun_mon(d: i32, w: i32, m: i32, dd: i32, mm: i32) -> bool { m == mm && (d == dd || (w == 0 && d == dd + 1)) }
/// fixed date, on the Monday after when it is in a weekend
pub fn we_mon(d: i32, w: i32, m: i32, dd: i32, mm: i32) -> bool { m == mm && (d == dd || (w == 0 && (d == dd + 1 || d == dd + 2))) }
/// fixed date, on the Monday after a Sunday, on the Friday before a Saturday
pub fn us_obs(d: i32, w: i32, m: i32, dd: i32, mm: i32) -> bool { m == mm && (d == dd || (w == 0 && d == dd + 1) || (w == 4 && d == dd - 1)) }
/// fixed date, two days later when that is a Monday or Tuesday
pub fn two_on(d: i32, w: i32, m: i32, dd: i32, mm: i32) -> bool { m == mm && (d == dd || (d == dd + 2 && (w == 0 || w == 1))) }

// ---- calendars: true on a holiday (weekends included)
pub fn argentina(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || k == e - 4 || k == e - 3 || fx(d, m, 1, 5) || fx(d, m, 25, 5) || nth(d, w, m, 3, 0, 6)
        || fx(d, m, 9, 7) || nth(d, w, m, 3, 0, 8)
        || (m == 10 && w == 0 && (d == 10 || d == 11 || d == 12 || d == 15 || d == 16))
        || fx(d, m, 8, 12) || fx(d, m, 24, 12) || (m == 12 && (d == 31 || (d == 30 && w == 4)))
}
pub fn austria_settlement(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || fx(d, m, 6, 1) || k == e || k == e + 38 || k == e + 49 || k == e + 59 || fx(d, m, 1, 5) || fx(d, m, 15, 8)
        || (fx(d, m, 26, 10) && y >= 1967) || (fx(d, m, 12, 11) && 1919 <= y && y <= 1934)
        || fx(d, m, 1, 11) || fx(d, m, 8, 12) || fx(d, m, 25, 12) || fx(d, m, 26, 12)
}
pub fn austria_exchange(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || k == e - 3 || k == e || k == e + 49 || fx(d, m, 1, 5)
        || (fx(d, m, 26, 10) && y >= 1967) || (fx(d, m, 12, 11) && 1919 <= y && y <= 1934)
        || (m == 12 && (d == 24 || d == 25 || d == 26 || d == 31))
}
pub fn australia_asx(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || we_mon(d, w, m, 1, 1) || we_mon(d, w, m, 26, 1) || k == e - 3 || k == e || fx(d, m, 25, 4) || nth(d, w, m, 2, 0, 6)
        || two_on(d, w, m, 25, 12) || two_on(d, w, m, 26, 12) || (fx(d, m, 22, 9) && y == 2022)
}
pub fn australia_settlement(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    australia_asx(d, w, m, y, k, e) || nth(d, w, m, 1, 0, 8) || nth(d, w, m, 1, 0, 10)
}
pub fn botswana(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || sun_mon(d, w, m, 1, 1) || (d == 3 && m == 1 && w == 1) || k == e - 3 || k == e || k == e + 38
        || sun_mon(d, w, m, 1, 5) || sun_mon(d, w, m, 1, 7) || nth(d, w, m, 3, 0, 7)
        || fx(d, m, 30, 9) || sun_mon(d, w, m, 1, 10) || (d == 3 && m == 10 && w == 1)
        || fx(d, m, 25, 12) || sun_mon(d, w, m, 26, 12)
}
pub fn brazil_settlement(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || fx(d, m, 21, 4) || fx(d, m, 1, 5) || fx(d, m, 7, 9) || fx(d, m, 12, 10) || fx(d, m, 2, 11) || fx(d, m, 15, 11)
        || (fx(d, m, 20, 11) && y >= 2024) || fx(d, m, 25, 12) || k == e - 3 || k == e - 48 || k == e - 49 || k == e + 59
}
pub fn brazil_exchange(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || (fx(d, m, 25, 1) && y <= 2021) || fx(d, m, 21, 4) || fx(d, m, 1, 5) || (fx(d, m, 9, 7) && y <= 2021)
        || fx(d, m, 7, 9) || fx(d, m, 12, 10) || fx(d, m, 2, 11) || fx(d, m, 15, 11)
        || (fx(d, m, 20, 11) && y >= 2007 && y != 2022 && y != 2023) || fx(d, m, 24, 12) || fx(d, m, 25, 12)
        || k == e - 3 || k == e - 48 || k == e - 49 || k == e + 59
        || fx(d, m, 31, 12) || (m == 12 && w == 4 && d >= 29)
}
pub fn canada_tsx(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || we_mon(d, w, m, 1, 1) || (nth(d, w, m, 3, 0, 2) && y >= 2008) || k == e - 3 || wk(d, w, m, 18, 0, 5) || we_mon(d, w, m, 1, 7)
        || nth(d, w, m, 1, 0, 8) || nth(d, w, m, 1, 0, 9)
        || (y >= 2021 && (fx(d, m, 30, 9) || (m == 10 && w == 0 && d <= 2)))
        || nth(d, w, m, 2, 0, 10) || two_on(d, w, m, 25, 12) || two_on(d, w, m, 26, 12)
}
pub fn canada_settlement(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    canada_tsx(d, w, m, y, k, e) || we_mon(d, w, m, 11, 11)
}
/// s: day in June of the winter solstice, the day of the aboriginal people
pub fn chile(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32, s: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || (fx(d, m, 2, 1) && w == 0 && y >= 2017) || (fx(d, m, 16, 1) && y == 2018)
        || k == e - 3 || k == e - 2 || (fx(d, m, 19, 4) && y == 2017) || fx(d, m, 1, 5) || fx(d, m, 21, 5)
        || (m == 6 && y >= 2021 && d == s)
        || (w == 0 && ((m == 6 && 26 <= d && d <= 29) || fx(d, m, 2, 7))) || fx(d, m, 16, 7) || fx(d, m, 15, 8)
        || (fx(d, m, 16, 9) && y == 2022) || (fx(d, m, 17, 9) && ((w == 0 && y >= 2007) || (w == 4 && y >= 2017)))
        || fx(d, m, 18, 9) || fx(d, m, 19, 9) || (fx(d, m, 20, 9) && w == 4 && y >= 2007)
        || (m == 10 && w == 0 && ((9 <= d && d <= 12) || d == 15))
        || (y >= 2008 && ((fx(d, m, 27, 10) && w == 4) || (fx(d, m, 31, 10) && w != 1 && w != 2) || (fx(d, m, 2, 11) && w == 4)))
        || fx(d, m, 1, 11) || fx(d, m, 8, 12) || fx(d, m, 25, 12) || fx(d, m, 31, 12)
}
pub fn czech_republic(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || (k == e - 3 && y >= 2016) || k == e || fx(d, m, 1, 5) || fx(d, m, 8, 5) || fx(d, m, 5, 7) || fx(d, m, 6, 7)
        || fx(d, m, 28, 9) || fx(d, m, 28, 10) || fx(d, m, 17, 11) || (m == 12 && 24 <= d && d <= 26)
        || (y == 2004 && (fx(d, m, 2, 1) || fx(d, m, 31, 12)))
}
pub fn denmark(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || k == e - 4 || k == e - 3 || k == e || (k == e + 25 && y <= 2023) || k == e + 38 || (k == e + 39 && y >= 2009) || k == e + 49
        || fx(d, m, 1, 1) || fx(d, m, 5, 6) || (m == 12 && (d == 24 || d == 25 || d == 26 || d == 31))
}
pub fn finland(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || fx(d, m, 6, 1) || k == e - 3 || k == e || k == e + 38 || fx(d, m, 1, 5) || wk(d, w, m, 19, 4, 6)
        || fx(d, m, 6, 12) || (m == 12 && 24 <= d && d <= 26)
}
pub fn france_settlement(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || k == e || fx(d, m, 1, 5) || fx(d, m, 8, 5) || k == e + 38 || k == e + 49
        || fx(d, m, 14, 7) || fx(d, m, 15, 8) || fx(d, m, 1, 11) || fx(d, m, 11, 11) || fx(d, m, 25, 12)
}
pub fn france_exchange(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || k == e - 3 || k == e || fx(d, m, 1, 5) || (m == 12 && (d == 24 || d == 25 || d == 26 || d == 31))
}
pub fn germany_settlement(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || k == e - 3 || k == e || k == e + 38 || k == e + 49 || k == e + 59 || fx(d, m, 1, 5) || fx(d, m, 3, 10)
        || (m == 12 && 24 <= d && d <= 26)
}
pub fn germany_frankfurt(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || k == e - 3 || k == e || fx(d, m, 1, 5) || (m == 12 && 24 <= d && d <= 26)
}
pub fn germany_eurex(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool { germany_frankfurt(d, w, m, y, k, e) || fx(d, m, 31, 12) }
pub fn germany_euwax(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool { germany_frankfurt(d, w, m, y, k, e) || k == e + 49 }
pub fn hungary(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || (k == e - 3 && y >= 2017) || k == e || k == e + 49 || fx(d, m, 1, 1) || fx(d, m, 15, 3) || fx(d, m, 1, 5) || fx(d, m, 20, 8)
        || fx(d, m, 23, 10) || fx(d, m, 1, 11) || fx(d, m, 25, 12) || fx(d, m, 26, 12)
}
pub fn iceland(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || k == e - 4 || k == e - 3 || k == e || wk(d, w, m, 19, 3, 4) || k == e + 38 || k == e + 49
        || fx(d, m, 1, 5) || fx(d, m, 17, 6) || nth(d, w, m, 1, 0, 8) || fx(d, m, 25, 12) || fx(d, m, 26, 12)
}
pub fn italy_settlement(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || fx(d, m, 6, 1) || k == e || fx(d, m, 25, 4) || fx(d, m, 1, 5) || (fx(d, m, 2, 6) && y >= 2000)
        || fx(d, m, 15, 8) || fx(d, m, 1, 11) || fx(d, m, 8, 12) || fx(d, m, 25, 12) || fx(d, m, 26, 12) || (fx(d, m, 31, 12) && y == 1999)
}
pub fn italy_exchange(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || k == e - 3 || k == e || fx(d, m, 1, 5) || fx(d, m, 15, 8)
        || (m == 12 && (d == 24 || d == 25 || d == 26 || d == 31))
}
/// days of the equinoxes in Japan, in millionths of a day (valid 1900-2150)
pub fn japan_vernal(y: i32) -> i32 {
    if y < 1980 { (20_835_700 - 242_194 * (1980 - y)) / 1_000_000 + (1983 - y) / 4 }
    else if y < 2100 { (20_843_100 + 242_194 * (y - 1980)) / 1_000_000 - (y - 1980) / 4 }
    else { (21_851_000 + 242_194 * (y - 1980)) / 1_000_000 - (y - 1980) / 4 }
}
pub fn japan_autumnal(y: i32) -> i32 {
    if y < 1980 { (23_258_800 - 242_194 * (1980 - y)) / 1_000_000 + (1983 - y) / 4 }
    else if y < 2100 { (23_248_800 + 242_194 * (y - 1980)) / 1_000_000 - (y - 1980) / 4 }
    else { (24_248_800 + 242_194 * (y - 1980)) / 1_000_000 - (y - 1980) / 4 }
}
pub fn japan(d: i32, w: i32, m: i32, y: i32, v: i32, a: i32) -> bool {
    wkend(w) || (m == 1 && d <= 3) || (if y >= 2000 { nth(d, w, m, 2, 0, 1) } else { sun_mon(d, w, m, 15, 1) })
        || sun_mon(d, w, m, 11, 2) || (y >= 2020 && sun_mon(d, w, m, 23, 2)) || (1989 <= y && y <= 2018 && sun_mon(d, w, m, 23, 12))
        || sun_mon(d, w, m, v, 3) || sun_mon(d, w, m, 29, 4) || (m == 5 && 3 <= d && d <= 5) || (fx(d, m, 6, 5) && w <= 2)
        || (((2003 <= y && y <= 2019) || y >= 2022) && nth(d, w, m, 3, 0, 7)) || (1996 <= y && y <= 2002 && sun_mon(d, w, m, 20, 7))
        || (((2016 <= y && y <= 2019) || y >= 2022) && sun_mon(d, w, m, 11, 8))
        || (if y >= 2003 { nth(d, w, m, 3, 0, 9) || (m == 9 && w == 1 && d == a - 1 && 16 <= d && d <= 22) } else { sun_mon(d, w, m, 15, 9) })
        || sun_mon(d, w, m, a, 9)
        || (((2000 <= y && y <= 2019) || y >= 2022) && nth(d, w, m, 2, 0, 10)) || (y < 2000 && sun_mon(d, w, m, 10, 10))
        || sun_mon(d, w, m, 3, 11) || sun_mon(d, w, m, 23, 11) || fx(d, m, 31, 12)
        || (y == 2020 && (fx(d, m, 23, 7) || fx(d, m, 24, 7) || fx(d, m, 10, 8))) || (y == 2021 && (fx(d, m, 22, 7) || fx(d, m, 23, 7) || fx(d, m, 9, 8)))
        || (y == 1959 && fx(d, m, 10, 4)) || (y == 1989 && fx(d, m, 24, 2)) || (y == 1990 && fx(d, m, 12, 11)) || (y == 1993 && fx(d, m, 9, 6))
        || (y == 2019 && (fx(d, m, 30, 4) || fx(d, m, 1, 5) || fx(d, m, 2, 5) || fx(d, m, 22, 10)))
}
pub fn mexico(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || k == e - 4 || k == e - 3 || fx(d, m, 1, 5) || fx(d, m, 16, 9) || fx(d, m, 2, 11) || fx(d, m, 12, 12) || fx(d, m, 25, 12)
        || (if y >= 2006 { nth(d, w, m, 1, 0, 2) || nth(d, w, m, 3, 0, 3) || nth(d, w, m, 3, 0, 11) }
            else { fx(d, m, 5, 2) || fx(d, m, 21, 3) || fx(d, m, 20, 11) })
        || (fx(d, m, 1, 10) && y >= 2024 && y % 6 == 2)
}
/// day of the year (in a common year) of the Matariki holiday, from the official list
pub fn matariki(y: i32) -> i32 {
    if y == 2022 || y == 2033 || y == 2044 { 624 } else if y == 2023 || y == 2028 { 714 } else if y == 2024 { 628 } else if y == 2025 { 620 }
    else if y == 2026 || y == 2037 { 710 } else if y == 2027 || y == 2038 || y == 2049 { 625 } else if y == 2029 || y == 2040 { 706 }
    else if y == 2030 || y == 2052 { 621 } else if y == 2031 || y == 2042 { 711 } else if y == 2032 { 702 } else if y == 2034 || y == 2045 { 707 }
    else if y == 2035 || y == 2046 { 629 } else if y == 2036 { 718 } else if y == 2039 || y == 2050 { 715 } else if y == 2041 || y == 2047 { 719 }
    else if y == 2043 || y == 2048 { 703 } else if y == 2051 { 630 } else { 0 }
}
pub fn new_zealand(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || two_on(d, w, m, 1, 1) || two_on(d, w, m, 2, 1) || fx(d, m, 6, 2) || (y >= 2014 && we_mon(d, w, m, 6, 2))
        || k == e - 3 || k == e || fx(d, m, 25, 4) || (y >= 2014 && we_mon(d, w, m, 25, 4)) || nth(d, w, m, 1, 0, 6) || nth(d, w, m, 4, 0, 10)
        || two_on(d, w, m, 25, 12) || two_on(d, w, m, 26, 12) || 100 * m + d == matariki(y) || (y == 2022 && fx(d, m, 26, 9))
}
pub fn new_zealand_wellington(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool { new_zealand(d, w, m, y, k, e) || wk(d, w, m, 19, 0, 1) }
pub fn new_zealand_auckland(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    new_zealand(d, w, m, y, k, e) || (w == 0 && ((m == 1 && d >= 26) || fx(d, m, 1, 2)))
}
pub fn norway(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || k == e - 4 || k == e - 3 || k == e || k == e + 38 || k == e + 49 || fx(d, m, 1, 1) || fx(d, m, 1, 5) || fx(d, m, 17, 5)
        || (fx(d, m, 24, 12) && y >= 2002) || fx(d, m, 25, 12) || fx(d, m, 26, 12)
}
pub fn poland_settlement(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || k == e || k == e + 59 || fx(d, m, 1, 1) || (fx(d, m, 6, 1) && y >= 2011) || fx(d, m, 1, 5) || fx(d, m, 3, 5) || fx(d, m, 15, 8)
        || fx(d, m, 1, 11) || fx(d, m, 11, 11) || fx(d, m, 25, 12) || fx(d, m, 26, 12)
}
pub fn poland_wse(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    poland_settlement(d, w, m, y, k, e) || fx(d, m, 24, 12) || fx(d, m, 31, 12)
}
/// o: Orthodox Easter Monday
pub fn romania(d: i32, w: i32, m: i32, y: i32, k: i32, o: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || fx(d, m, 2, 1) || fx(d, m, 24, 1) || k == o || k == o + 49 || fx(d, m, 1, 5) || (fx(d, m, 1, 6) && y >= 2017)
        || fx(d, m, 15, 8) || fx(d, m, 30, 11) || fx(d, m, 1, 12) || fx(d, m, 25, 12) || fx(d, m, 26, 12)
}
pub fn russia_settlement(d: i32, w: i32, m: i32, y: i32) -> bool {
    wkend(w) || (m == 1 && (if y < 2005 { d <= 2 } else { d <= 5 })) || (y == 2012 && fx(d, m, 6, 1)) || we_mon(d, w, m, 7, 1) || we_mon(d, w, m, 23, 2)
        || we_mon(d, w, m, 8, 3) || we_mon(d, w, m, 1, 5) || we_mon(d, w, m, 9, 5) || we_mon(d, w, m, 12, 6) || we_mon(d, w, m, 4, 11)
        || (y == 2017 && (fx(d, m, 24, 2) || fx(d, m, 8, 5) || fx(d, m, 6, 11)))
        || (y == 2018 && (fx(d, m, 9, 3) || fx(d, m, 30, 4) || fx(d, m, 2, 5) || fx(d, m, 11, 6) || fx(d, m, 31, 12)))
        || (y == 2019 && (fx(d, m, 2, 5) || fx(d, m, 3, 5) || fx(d, m, 9, 5)))
        || (y == 2020 && (fx(d, m, 30, 3) || fx(d, m, 31, 3) || (m == 4 && d <= 3)))
}
pub fn russia_working_weekend(d: i32, m: i32, y: i32) -> bool {
    (y == 2012 && (fx(d, m, 11, 3) || fx(d, m, 28, 4) || fx(d, m, 5, 5) || fx(d, m, 12, 5) || fx(d, m, 9, 6)))
        || (y == 2016 && fx(d, m, 20, 2)) || (y == 2018 && (fx(d, m, 28, 4) || fx(d, m, 9, 6) || fx(d, m, 29, 12)))
}
pub fn russia_extra(d: i32, m: i32, y: i32) -> bool {
    (y == 2012 && (fx(d, m, 2, 1) || fx(d, m, 9, 3) || fx(d, m, 30, 4) || fx(d, m, 11, 6)))
        || (m == 1 && ((y == 2013 && (d <= 4 || d == 7)) || (y == 2014 && (d <= 3 || d == 7)) || (y == 2015 && (d <= 2 || d == 7))))
        || (y == 2016 && (fx(d, m, 1, 1) || fx(d, m, 7, 1) || fx(d, m, 8, 1) || fx(d, m, 2, 5) || fx(d, m, 3, 5) || fx(d, m, 13, 6) || fx(d, m, 30, 12)))
        || (y == 2017 && (fx(d, m, 2, 1) || fx(d, m, 8, 5)))
        || (y == 2018 && (fx(d, m, 1, 1) || fx(d, m, 2, 1) || fx(d, m, 8, 1)))
        || (y == 2019 && (fx(d, m, 1, 1) || fx(d, m, 2, 1) || fx(d, m, 7, 1)))
        || (y == 2020 && (fx(d, m, 1, 1) || fx(d, m, 2, 1) || fx(d, m, 7, 1) || fx(d, m, 24, 2) || fx(d, m, 24, 6) || fx(d, m, 1, 7)))
}
pub fn russia_exchange(d: i32, w: i32, m: i32, y: i32) -> bool {
    !russia_working_weekend(d, m, y)
        && (wkend(w) || russia_extra(d, m, y) || fx(d, m, 23, 2) || we_mon(d, w, m, 8, 3) || fx(d, m, 1, 5) || we_mon(d, w, m, 9, 5)
            || fx(d, m, 12, 6) || we_mon(d, w, m, 4, 11) || fx(d, m, 31, 12))
}
pub fn slovakia(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || fx(d, m, 6, 1) || k == e - 3 || k == e || fx(d, m, 1, 5) || fx(d, m, 8, 5) || fx(d, m, 5, 7) || fx(d, m, 29, 8)
        || fx(d, m, 1, 9) || fx(d, m, 15, 9) || fx(d, m, 1, 11) || fx(d, m, 17, 11) || (m == 12 && 24 <= d && d <= 26)
        || ((y == 2004 || y == 2005) && m == 12 && d >= 24)
}
pub fn south_africa(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || sun_mon(d, w, m, 1, 1) || k == e - 3 || k == e || sun_mon(d, w, m, 21, 3) || sun_mon(d, w, m, 27, 4) || sun_mon(d, w, m, 1, 5)
        || sun_mon(d, w, m, 16, 6) || sun_mon(d, w, m, 9, 8) || sun_mon(d, w, m, 24, 9) || sun_mon(d, w, m, 16, 12) || fx(d, m, 25, 12) || sun_mon(d, w, m, 26, 12)
        || (y == 2004 && fx(d, m, 14, 4)) || (y == 2009 && fx(d, m, 22, 4)) || (y == 2016 && fx(d, m, 3, 8)) || (y == 2021 && fx(d, m, 1, 11))
        || (y == 2022 && fx(d, m, 27, 12)) || (y == 2023 && fx(d, m, 15, 12)) || (y == 2024 && fx(d, m, 29, 5))
}
pub fn sweden(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || k == e - 3 || k == e || k == e + 38 || (k == e + 49 && y <= 2004) || fx(d, m, 1, 1) || fx(d, m, 6, 1) || fx(d, m, 1, 5)
        || (fx(d, m, 6, 6) && y >= 2005) || wk(d, w, m, 19, 4, 6) || (m == 12 && (d == 24 || d == 25 || d == 26 || d == 31))
}
pub fn switzerland(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || fx(d, m, 2, 1) || k == e - 3 || k == e || k == e + 38 || k == e + 49 || fx(d, m, 1, 5) || fx(d, m, 1, 8)
        || fx(d, m, 25, 12) || fx(d, m, 26, 12)
}
pub fn target(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || fx(d, m, 1, 1) || fx(d, m, 25, 12) || (y >= 2000 && (k == e - 3 || k == e || fx(d, m, 1, 5) || fx(d, m, 26, 12)))
        || (fx(d, m, 31, 12) && (y == 1998 || y == 1999 || y == 2001))
}
/// o: Orthodox Easter Monday
pub fn ukraine(d: i32, w: i32, m: i32, y: i32, k: i32, o: i32) -> bool {
    wkend(w) || we_mon(d, w, m, 1, 1) || we_mon(d, w, m, 7, 1) || we_mon(d, w, m, 8, 3) || k == o || k == o + 49
        || (m == 5 && (d == 1 || d == 2 || (d == 3 && w == 0))) || we_mon(d, w, m, 9, 5) || fx(d, m, 28, 6) || fx(d, m, 24, 8)
        || (fx(d, m, 14, 10) && y >= 2015)
}
pub fn united_kingdom(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || we_mon(d, w, m, 1, 1) || k == e - 3 || k == e
        || (if y == 1995 || y == 2020 { fx(d, m, 8, 5) } else { nth(d, w, m, 1, 0, 5) })
        || (if y == 2002 { fx(d, m, 3, 6) || fx(d, m, 4, 6) } else if y == 2012 { fx(d, m, 4, 6) || fx(d, m, 5, 6) }
            else if y == 2022 { fx(d, m, 2, 6) || fx(d, m, 3, 6) } else { last31(d, w, m, 0, 5) })
        || last31(d, w, m, 0, 8) || (y == 2011 && fx(d, m, 29, 4)) || (y == 2022 && fx(d, m, 19, 9)) || (y == 2023 && fx(d, m, 8, 5))
        || two_on(d, w, m, 25, 12) || two_on(d, w, m, 26, 12) || (y == 1999 && fx(d, m, 31, 12))
}
// United States
pub fn us_washington(d: i32, w: i32, m: i32, y: i32) -> bool { if y >= 1971 { nth(d, w, m, 3, 0, 2) } else { us_obs(d, w, m, 22, 2) } }
pub fn us_memorial(d: i32, w: i32, m: i32, y: i32) -> bool { if y >= 1971 { last31(d, w, m, 0, 5) } else { us_obs(d, w, m, 30, 5) } }
pub fn us_veterans(d: i32, w: i32, m: i32, y: i32, friday: bool) -> bool {
    if 1971 <= y && y <= 1977 { nth(d, w, m, 4, 0, 10) } else if friday { us_obs(d, w, m, 11, 11) } else { sun_mon(d, w, m, 11, 11) }
}
pub fn us_juneteenth(d: i32, w: i32, m: i32, y: i32) -> bool { y >= 2022 && us_obs(d, w, m, 19, 6) }
pub fn us_king(d: i32, w: i32, m: i32, y: i32) -> bool { y >= 1983 && nth(d, w, m, 3, 0, 1) }
pub fn us_columbus(d: i32, w: i32, m: i32, y: i32) -> bool { y >= 1971 && nth(d, w, m, 2, 0, 10) }
pub fn us_settlement(d: i32, w: i32, m: i32, y: i32) -> bool {
    wkend(w) || sun_mon(d, w, m, 1, 1) || (fx(d, m, 31, 12) && w == 4) || us_king(d, w, m, y) || us_washington(d, w, m, y) || us_memorial(d, w, m, y)
        || us_juneteenth(d, w, m, y) || us_obs(d, w, m, 4, 7) || nth(d, w, m, 1, 0, 9) || us_columbus(d, w, m, y) || us_veterans(d, w, m, y, true)
        || nth(d, w, m, 4, 3, 11) || us_obs(d, w, m, 25, 12)
}
pub fn us_libor(d: i32, w: i32, m: i32, y: i32) -> bool {
    us_settlement(d, w, m, y) && !(y >= 2015 && m == 7 && ((d == 5 && w == 0) || (d == 3 && w == 4)))
}
pub fn us_nyse_closing(d: i32, w: i32, m: i32, y: i32, k: i32) -> bool {
    (y == 2018 && fx(d, m, 5, 12)) || (y == 2012 && (fx(d, m, 29, 10) || fx(d, m, 30, 10))) || (y == 2007 && fx(d, m, 2, 1)) || (y == 2004 && fx(d, m, 11, 6))
        || (y == 2001 && m == 9 && 11 <= d && d <= 14) || (y == 1994 && fx(d, m, 27, 4)) || (y == 1985 && fx(d, m, 27, 9)) || (y == 1977 && fx(d, m, 14, 7))
        || (y == 1973 && fx(d, m, 25, 1)) || (y == 1972 && fx(d, m, 28, 12)) || (y == 1969 && (fx(d, m, 21, 7) || fx(d, m, 31, 3) || fx(d, m, 10, 2)))
        || (y == 1968 && (fx(d, m, 5, 7) || (k >= 163 && w == 2) || fx(d, m, 9, 4))) || (y == 1963 && fx(d, m, 25, 11)) || (y == 1961 && fx(d, m, 29, 5))
        || (y == 1958 && fx(d, m, 26, 12)) || ((y == 1954 || y == 1956 || y == 1965) && fx(d, m, 24, 12))
}
pub fn us_nyse(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || sun_mon(d, w, m, 1, 1) || us_washington(d, w, m, y) || k == e - 3 || us_memorial(d, w, m, y) || us_juneteenth(d, w, m, y)
        || us_obs(d, w, m, 4, 7) || nth(d, w, m, 1, 0, 9) || nth(d, w, m, 4, 3, 11) || us_obs(d, w, m, 25, 12)
        || (y >= 1998 && nth(d, w, m, 3, 0, 1))
        || ((y <= 1968 || (y <= 1980 && y % 4 == 0)) && nth(d, w, m, 1, 1, 11))
        || us_nyse_closing(d, w, m, y, k)
}
pub fn us_government_bond(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool {
    wkend(w) || sun_mon(d, w, m, 1, 1) || us_king(d, w, m, y) || us_washington(d, w, m, y) || (k == e - 3 && (y <= 1995 || d >= 8)) || us_memorial(d, w, m, y)
        || us_juneteenth(d, w, m, y) || us_obs(d, w, m, 4, 7) || nth(d, w, m, 1, 0, 9) || us_columbus(d, w, m, y) || us_veterans(d, w, m, y, false)
        || nth(d, w, m, 4, 3, 11) || us_obs(d, w, m, 25, 12)
        || (y == 2018 && fx(d, m, 5, 12)) || (y == 2025 && fx(d, m, 9, 1)) || (y == 2012 && fx(d, m, 30, 10)) || (y == 2004 && fx(d, m, 11, 6))
}
pub fn us_sofr(d: i32, w: i32, m: i32, y: i32, k: i32, e: i32) -> bool { k == e - 3 || us_government_bond(d, w, m, y, k, e) }
pub fn us_nerc(d: i32, w: i32, m: i32, y: i32) -> bool {
    wkend(w) || sun_mon(d, w, m, 1, 1) || us_memorial(d, w, m, y) || sun_mon(d, w, m, 4, 7) || nth(d, w, m, 1, 0, 9) || nth(d, w, m, 4, 3, 11) || sun_mon(d, w, m, 25, 12)
}
pub fn us_federal_reserve(d: i32, w: i32, m: i32, y: i32) -> bool {
    wkend(w) || sun_mon(d, w, m, 1, 1) || us_king(d, w, m, y) || us_washington(d, w, m, y) || us_memorial(d, w, m, y) || us_juneteenth(d, w, m, y)
        || sun_mon(d, w, m, 4, 7) || nth(d, w, m, 1, 0, 9) || us_columbus(d, w, m, y) || us_veterans(d, w, m, y, false) || nth(d, w, m, 4, 3, 11) || sun_mon(d, w, m, 25, 12)
}
