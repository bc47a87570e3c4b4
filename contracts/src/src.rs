use chrono::NaiveDate;

pub trait Src {
    fn i64(&mut self, name: &'static str, lo: i64, hi: i64) -> i64;
    /// a finite float in [lo, hi]
    fn f64(&mut self, name: &'static str, lo: f64, hi: f64) -> f64;
    /// false = precondition not met; the contract returns at once
    fn assume(&mut self, c: bool) -> bool;
    fn check(&mut self, c: bool, what: &'static str);
    /// extra text for the replay report (ignored under Kani)
    fn note(&mut self, _f: &dyn Fn() -> String) {}
    fn symbolic(&self) -> bool {
        false
    }

    fn int(&mut self, name: &'static str, lo: i32, hi: i32) -> i32 {
        self.i64(name, lo as i64, hi as i64) as i32
    }
    fn bool(&mut self, name: &'static str) -> bool {
        self.int(name, 0, 1) == 1
    }
    fn idx(&mut self, name: &'static str, n: usize) -> usize {
        self.int(name, 0, n as i32 - 1) as usize
    }
    /// any calendar date of the years [y0, y1]
    fn date(&mut self, name: &'static str, y0: i32, y1: i32) -> Option<NaiveDate> {
        let y = self.int(name, y0, y1);
        let o = self.int("  ordinal", 1, 366) as u32;
        let d = NaiveDate::from_yo_opt(y, o);
        if !self.assume(d.is_some()) {
            return None;
        }
        d
    }
}

#[cfg(kani)]
pub struct Sym;
#[cfg(kani)]
impl Src for Sym {
    fn i64(&mut self, _n: &'static str, lo: i64, hi: i64) -> i64 {
        let x: i64 = kani::any();
        kani::assume(lo <= x && x <= hi);
        x
    }
    fn int(&mut self, _n: &'static str, lo: i32, hi: i32) -> i32 {
        let x: i32 = kani::any();
        kani::assume(lo <= x && x <= hi);
        x
    }
    fn f64(&mut self, _n: &'static str, lo: f64, hi: f64) -> f64 {
        let x: f64 = kani::any();
        kani::assume(x >= lo && x <= hi);
        x
    }
    fn assume(&mut self, c: bool) -> bool {
        kani::assume(c);
        true
    }
    fn check(&mut self, c: bool, _what: &'static str) {
        assert!(c);
    }
    fn symbolic(&self) -> bool {
        true
    }
}
