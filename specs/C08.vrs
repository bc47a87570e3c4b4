use vstd::prelude::*;
verus! {
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/calendar.vrs
//@type Vec<Box<dyn Calendar>> => Vec<Cal>
//@item src/time/calendars/jointcalendar.rs :: struct JointCalendar
//@fn src/time/calendars/jointcalendar.rs impl JointCalendar :: new => impl JointCalendar
//@params calendars
//@spec
    ensures r.calendars == calendars
//@end
//@fn src/time/calendars/jointcalendar.rs impl Calendar for JointCalendar :: is_business_day => impl JointCalendar
//@params date
//@spec
    ensures r == (forall|i: int| 0 <= i < self.calendars.len() ==> biz(#[trigger] self.calendars[i], date@))
//@loop 0
    invariant_except_break is_business_day == (forall|i: int| 0 <= i < __k0 ==> biz(#[trigger] self.calendars[i], date@))
    invariant 0 <= __k0 <= __n0, __n0 == self.calendars.len(), __s0 == self.calendars
    ensures is_business_day == (forall|i: int| 0 <= i < self.calendars.len() ==> biz(#[trigger] self.calendars[i], date@))
    decreases __n0 - __k0
//@end
proof fn vacuity_joint(j: JointCalendar) requires j.calendars.len() == 2 { assert(false); }
}
fn main() {}
