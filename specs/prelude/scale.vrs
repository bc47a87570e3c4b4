// ---- scaling a period by a count
pub open spec fn scaled(k: u32, p: Period) -> Period {
    match p {
        Period::Days(n) => Period::Days((n * k) as i64),
        Period::Weeks(n) => Period::Weeks((n * k) as i64),
        Period::Months(n) => Period::Months((n * k) as u32),
        Period::Years(n) => Period::Years((n * k) as u32),
        _ => p,
    }
}
// the product fits its integer type
pub open spec fn scalable(k: u32, p: Period) -> bool {
    match p {
        Period::Days(n) => i64::MIN <= n * k <= i64::MAX,
        Period::Weeks(n) => i64::MIN <= n * k <= i64::MAX,
        Period::Months(n) => n * k <= u32::MAX,
        Period::Years(n) => n * k <= u32::MAX,
        _ => true,
    }
}
impl vstd::std_specs::ops::MulSpecImpl<Period> for u32 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, p: Period) -> bool { scalable(self, p) }
    open spec fn mul_spec(self, p: Period) -> Period { scaled(self, p) }
}
//@fn src/time/period.rs impl Mul<Period> for u32 :: mul => impl core::ops::Mul<Period> for u32 { type Output = Period;
//@params p
//@spec
    ensures r == scaled(self, p)
//@end
