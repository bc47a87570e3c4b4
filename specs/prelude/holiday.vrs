//@fn src/time/calendars.rs trait Calendar :: is_holiday => impl Cal
//@params date
//@spec
    ensures r == !biz(*self, date@)
//@end
