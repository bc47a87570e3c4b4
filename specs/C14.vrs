use vstd::prelude::*;
verus! {
//@include prelude/base.vrs
//@include prelude/chrono.vrs
pub struct IMM;
// the third Wednesday of a month; of March, June, September, December for the main cycle
pub open spec fn is_imm(n: int, main: bool) -> bool {
    wd(n) == 2 && 15 <= day(n) <= 21 && (main ==> month(n) % 3 == 0)
}
pub open spec fn is_next_imm(n: int, main: bool, r: int) -> bool {
    r > n && is_imm(r, main) && forall|k: int| n < k < r ==> !#[trigger] is_imm(k, main)
}
pub open spec fn mindex(n: int) -> int { year(n) * 12 + month(n) }
proof fn lemma_tw_range(y: int, m: int)
    requires -190_001 <= y <= 190_001, 1 <= m <= 12
    ensures -80_000_000 <= third_wed(y, m) <= 80_000_000
{ }
// the third Wednesday of a month, as a day number
pub open spec fn third_wed(y: int, m: int) -> int { let f = wd(dfc(y, m, 1)); dfc(y, m, 15) + (if f <= 2 { 2 - f } else { 9 - f }) }
proof fn lemma_third_wed(y: int, m: int)
    requires 1 <= m <= 12
    ensures wd(third_wed(y, m)) == 2, year(third_wed(y, m)) == y, month(third_wed(y, m)) == m, 15 <= day(third_wed(y, m)) <= 21
{
    hide(dfc);
    let f = dfc(y, m, 1);
    lemma_dfc_day(y, m, 15);
    let d = third_wed(y, m) - f + 1;
    assert(15 <= d <= 21);
    lemma_dfc_day(y, m, d);
    assert(third_wed(y, m) == dfc(y, m, d));
    assert(wd(third_wed(y, m)) == 2) by { lemma_wd_step(f, if wd(f) <= 2 { 16 - wd(f) } else { 23 - wd(f) }); }
    lemma_civil_unique(y, m, d);
}
proof fn lemma_wd_step(f: int, k: int) requires wd(f) + k == 16 || wd(f) + k == 23, ensures wd(f + k) == 2 { }
proof fn lemma_dfc_day(y: int, m: int, d: int)
    ensures dfc(y, m, d) == dfc(y, m, 1) + d - 1
{ }
proof fn lemma_mod7(f: int, d: int)
    requires 15 <= d <= 21, (f + d - 2) % 7 == 2
    ensures ({ let w = (f - 1) % 7; d == 15 + (if w <= 2 { 2 - w } else { 9 - w }) })
{ }
proof fn lemma_only(n: int)
    ensures wd(n) == 2 && 15 <= day(n) <= 21 ==> n == third_wed(year(n), month(n))
{
    hide(dfc);
    broadcast use axiom_civil;
    lemma_dfc_day(year(n), month(n), day(n)); lemma_dfc_day(year(n), month(n), 15);
    if wd(n) == 2 && 15 <= day(n) <= 21 { lemma_mod7(dfc(year(n), month(n), 1), day(n)); }
}
// from the 22nd of a month whose third Wednesday is past, the next date is the next date
proof fn lemma_rest(n: int, main: bool, r: int)
    requires third_wed(year(n), month(n)) <= n, day(n) <= 21, is_next_imm(dfc(year(n), month(n), 22), main, r)
    ensures is_next_imm(n, main, r)
{
    hide(dfc); hide(third_wed);
    broadcast use axiom_civil;
    lemma_civil_unique(year(n), month(n), 22);
    let e = dfc(year(n), month(n), 22);
    lemma_dfc_day(year(n), month(n), 22); lemma_dfc_day(year(n), month(n), day(n));
    assert(n < e);
    assert forall|k: int| n < k < r implies !#[trigger] is_imm(k, main) by {
        if k <= e { lemma_order(n, k); lemma_order(k, e); lemma_only(k); }
    }
}
// r is the third Wednesday of a later month (of the cycle) and no eligible month lies between
proof fn lemma_next(n: int, main: bool, r: int)
    requires r > n, is_imm(r, main),
        !(main && month(n) % 3 != 0) && third_wed(year(n), month(n)) > n ==> r == third_wed(year(n), month(n)),
        mindex(r) - mindex(n) <= 3, !main ==> mindex(r) - mindex(n) <= 1, main && mindex(r) > mindex(n) && mindex(n) % 3 != 0 ==> mindex(r) - mindex(n) <= 3 - mindex(n) % 3
    ensures is_next_imm(n, main, r)
{
    hide(dfc); hide(third_wed);
    broadcast use axiom_civil;
    assert forall|k: int| n < k < r implies !#[trigger] is_imm(k, main) by {
        if is_imm(k, main) {
            lemma_only(k); lemma_only(r);
            lemma_order(n, k); lemma_order(k, r);
            if mindex(k) == mindex(r) { assert(year(k) == year(r) && month(k) == month(r)); }
            if mindex(k) == mindex(n) { assert(year(k) == year(n) && month(k) == month(n)); }
            assert(mindex(n) < mindex(k) < mindex(r));
            assert(main && month(k) % 3 == 0 && month(r) % 3 == 0);
            assert(mindex(k) % 3 == 0 && mindex(r) % 3 == 0);
            assert(false);
        }
    }
}
//@fn src/time/imm.rs impl IMM :: is_imm_date => impl IMM
//@params date, main_cycle
//@spec
    ensures r == is_imm(date@, main_cycle)
//@entry
    broadcast use axiom_civil;
//@end
//@fn src/time/imm.rs impl IMM :: nth_weekday => impl IMM
//@params nth, day_of_week, m, y
//@spec
    requires -200_000 < y < 200_000, 1 <= m <= 12, nth == 3, day_of_week == Weekday::Wed
    ensures r == (Some(NaiveDate { n: third_wed(y as int, m as int) as i32 }))
//@entry
    broadcast use axiom_civil;
    proof { lemma_year_range(y as int); }
//@end
//@fn src/time/imm.rs impl IMM :: next_date => impl IMM
//@params date, main_cycle
//@spec
    requires -190_000 < year(date@) < 190_000
    ensures is_next_imm(date@, main_cycle, r@)
    decreases (if day(date@) > 21 { 0int } else { 1 })
//@entry
    hide(dfc); hide(third_wed); hide(ydays); hide(is_next_imm);
    broadcast use axiom_civil;
    proof {
        assert forall|y: int, m: int| 1 <= m <= 12 implies wd(#[trigger] third_wed(y, m)) == 2 && year(third_wed(y, m)) == y && month(third_wed(y, m)) == m && 15 <= day(third_wed(y, m)) <= 21 && (-190_001 <= y <= 190_001 ==> -80_000_000 <= third_wed(y, m) <= 80_000_000) by { lemma_third_wed(y, m); if -190_001 <= y <= 190_001 { lemma_tw_range(y, m); } };
        assert forall|y: int, m: int| 1 <= m <= 12 implies year(#[trigger] dfc(y, m, 22)) == y && month(dfc(y, m, 22)) == m && day(dfc(y, m, 22)) == 22 by { lemma_civil_unique(y, m, 22) };
        assert forall|y: int, m: int| #[trigger] third_wed(y, m) <= date@ && 1 <= m <= 12 implies y * 12 + m <= mindex(date@) by { lemma_third_wed(y, m); lemma_order(third_wed(y, m), date@); };
        assert forall|r: int| r > date@ && mindex(r) - mindex(date@) <= 3 && is_imm(r, main_cycle) && (!main_cycle ==> mindex(r) - mindex(date@) <= 1)
            && (main_cycle && mindex(r) > mindex(date@) && mindex(date@) % 3 != 0 ==> mindex(r) - mindex(date@) <= 3 - mindex(date@) % 3)
            && (!(main_cycle && month(date@) % 3 != 0) && third_wed(year(date@), month(date@)) > date@ ==> r == third_wed(year(date@), month(date@)))
            implies #[trigger] is_next_imm(date@, main_cycle, r) by { lemma_next(date@, main_cycle, r); };
        assert forall|r: int| third_wed(year(date@), month(date@)) <= date@ && day(date@) <= 21 && #[trigger] is_next_imm(dfc(year(date@), month(date@), 22), main_cycle, r) implies is_next_imm(date@, main_cycle, r) by { lemma_rest(date@, main_cycle, r); };
        assert(mindex(date@) % 3 == month(date@) % 3);
        if third_wed(year(date@), month(date@)) > date@ { lemma_order(date@, third_wed(year(date@), month(date@))); }
    }
//@end
// ---- codes: text is a sequence of characters
//@type String => Text
//@call .to_string => txt
//@call .contains => str_has
//@call .to_ascii_uppercase => char_upper
//@call .to_digit => char_digit
//@call IMMMonth::iter => imm_months
//@call IMMMonth::from_str => imm_from_str
//@call Utc::now => utc_now
//@item src/time/imm.rs :: enum IMMMonth => #[repr(u16)] #[derive(Clone, Copy)]
pub open spec fn upper(c: char) -> char { if 'a' <= c <= 'z' { ((c as u8 - 32) as u8) as char } else { c } }
pub open spec fn letter(m: int) -> char {
    if m == 1 { 'F' } else if m == 2 { 'G' } else if m == 3 { 'H' } else if m == 4 { 'J' } else if m == 5 { 'K' } else if m == 6 { 'M' }
    else if m == 7 { 'N' } else if m == 8 { 'Q' } else if m == 9 { 'U' } else if m == 10 { 'V' } else if m == 11 { 'X' } else { 'Z' }
}
pub open spec fn digit(k: int) -> char {
    if k == 0 { '0' } else if k == 1 { '1' } else if k == 2 { '2' } else if k == 3 { '3' } else if k == 4 { '4' } else if k == 5 { '5' }
    else if k == 6 { '6' } else if k == 7 { '7' } else if k == 8 { '8' } else { '9' }
}
// month number of a month letter of either case; 0 for any other character
pub open spec fn letter_month(c: char) -> int {
    if c == 'F' || c == 'f' { 1 } else if c == 'G' || c == 'g' { 2 } else if c == 'H' || c == 'h' { 3 } else if c == 'J' || c == 'j' { 4 }
    else if c == 'K' || c == 'k' { 5 } else if c == 'M' || c == 'm' { 6 } else if c == 'N' || c == 'n' { 7 } else if c == 'Q' || c == 'q' { 8 }
    else if c == 'U' || c == 'u' { 9 } else if c == 'V' || c == 'v' { 10 } else if c == 'X' || c == 'x' { 11 } else if c == 'Z' || c == 'z' { 12 } else { 0 }
}
pub open spec fn digit_value(c: char) -> int {
    if c == '0' { 0 } else if c == '1' { 1 } else if c == '2' { 2 } else if c == '3' { 3 } else if c == '4' { 4 } else if c == '5' { 5 }
    else if c == '6' { 6 } else if c == '7' { 7 } else if c == '8' { 8 } else if c == '9' { 9 } else { -1 }
}
pub open spec fn mnum(m: IMMMonth) -> int {
    match m { IMMMonth::F => 1, IMMMonth::G => 2, IMMMonth::H => 3, IMMMonth::J => 4, IMMMonth::K => 5, IMMMonth::M => 6,
        IMMMonth::N => 7, IMMMonth::Q => 8, IMMMonth::U => 9, IMMMonth::V => 10, IMMMonth::X => 11, IMMMonth::Z => 12 }
}
pub open spec fn is_code(t: Seq<char>, main: bool) -> bool {
    t.len() == 2 && letter_month(t[0]) > 0 && digit_value(t[1]) >= 0 && (main ==> letter_month(t[0]) % 3 == 0)
}
// assumed contracts of std's strings and of strum's derives on IMMMonth (variant order and names)
#[verifier::external_body]
pub struct Text { x: u8 }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub struct Chars { pub s: Ghost<Seq<char>> }
impl Text {
    #[verifier::external_body]
    pub fn chars(&self) -> (r: Chars) ensures r.s@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Text) ensures r@ == self@ { unimplemented!() }
    pub fn as_str(&self) -> (r: &Text) ensures r@ == self@ { self }
    #[verifier::external_body]
    pub fn push_str(&mut self, o: &Text) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
}
impl Chars {
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.s@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, i: usize) -> (r: Option<char>) ensures r == (if i < old(self).s@.len() { Some(old(self).s@[i as int]) } else { None }) { unimplemented!() }
}
pub trait ToTxt: Sized { spec fn txt_of(self) -> Seq<char>; }
impl ToTxt for &str { open spec fn txt_of(self) -> Seq<char> { self@ } }
impl ToTxt for Text { open spec fn txt_of(self) -> Seq<char> { self@ } }
impl ToTxt for char { open spec fn txt_of(self) -> Seq<char> { seq![self] } }
impl ToTxt for IMMMonth { open spec fn txt_of(self) -> Seq<char> { seq![letter(mnum(self))] } }
pub uninterp spec fn decimal(i: i32) -> Seq<char>;
impl ToTxt for i32 { open spec fn txt_of(self) -> Seq<char> { if 0 <= self <= 9 { seq![digit(self as int)] } else { decimal(self) } } }
#[verifier::external_body]
pub fn txt<T: ToTxt>(x: T) -> (r: Text) ensures r@ == x.txt_of() { unimplemented!() }
#[verifier::external_body]
pub fn str_has<T: ToTxt>(x: T, c: char) -> (r: bool) ensures r == x.txt_of().contains(c) { unimplemented!() }
#[verifier::external_body]
pub fn char_upper(c: char) -> (r: char) ensures r == upper(c), letter_month(c) > 0 ==> r == letter(letter_month(c)) { unimplemented!() }
#[verifier::external_body]
pub fn char_digit(c: char, radix: u32) -> (r: Option<u32>)
    ensures radix == 10 ==> r == (if digit_value(c) >= 0 { Some(digit_value(c) as u32) } else { None })
{ unimplemented!() }
pub struct ImmMonths { pub x: u8 }
#[verifier::external_body]
pub fn imm_months() -> ImmMonths { unimplemented!() }
impl ImmMonths {
    #[verifier::external_body]
    pub fn nth(&mut self, i: usize) -> (r: Option<IMMMonth>) ensures i < 12 ==> r is Some && mnum(r->0) == i + 1, i >= 12 ==> r is None { unimplemented!() }
}
#[derive(Debug)]
pub struct ParseError { pub x: u8 }
#[verifier::external_body]
pub fn imm_from_str(t: &Text) -> (r: core::result::Result<IMMMonth, ParseError>)
    ensures forall|m: int| #![trigger letter(m)] 1 <= m <= 12 && t@ == seq![letter(m)] ==> r is Ok && mnum(r->Ok_0) == m
{ unimplemented!() }
pub struct Now { pub d: NaiveDate }
#[verifier::external_body]
pub fn utc_now() -> (r: Now) ensures 1970 <= year(r.d@) < 100_000 { unimplemented!() }
impl Now { pub fn date_naive(self) -> (r: NaiveDate) ensures r == self.d { self.d } }
//@fn src/time/imm.rs impl IMM :: is_imm_code => impl IMM
//@params imm_code, main_cycle
//@spec
    ensures r == is_code(imm_code@, main_cycle)
//@entry
    proof {
        reveal_strlit("0123456789"); reveal_strlit("hmzuHMZU"); reveal_strlit("fghjkmnquvxzFGHJKMNQUVXZ");
        lemma_tables();
    }
//@end
proof fn lemma_seq(s: Seq<char>, c: char, i: int)
    requires 0 <= i < s.len(), s[i] == c
    ensures s.contains(c)
{ }
proof fn lemma_tables()
    ensures
        forall|c: char| #[trigger] "0123456789"@.contains(c) == (digit_value(c) >= 0),
        forall|c: char| #[trigger] "hmzuHMZU"@.contains(c) == (letter_month(c) > 0 && letter_month(c) % 3 == 0),
        forall|c: char| #[trigger] "fghjkmnquvxzFGHJKMNQUVXZ"@.contains(c) == (letter_month(c) > 0),
{
    reveal_strlit("0123456789"); reveal_strlit("hmzuHMZU"); reveal_strlit("fghjkmnquvxzFGHJKMNQUVXZ");
    let (d, q, a) = ("0123456789"@, "hmzuHMZU"@, "fghjkmnquvxzFGHJKMNQUVXZ"@);
    assert(d[0] == '0' && d[1] == '1' && d[2] == '2' && d[3] == '3' && d[4] == '4' && d[5] == '5' && d[6] == '6' && d[7] == '7' && d[8] == '8' && d[9] == '9');
    assert(q[0] == 'h' && q[1] == 'm' && q[2] == 'z' && q[3] == 'u' && q[4] == 'H' && q[5] == 'M' && q[6] == 'Z' && q[7] == 'U');
    assert(a[0] == 'f' && a[1] == 'g' && a[2] == 'h' && a[3] == 'j' && a[4] == 'k' && a[5] == 'm' && a[6] == 'n' && a[7] == 'q' && a[8] == 'u' && a[9] == 'v' && a[10] == 'x' && a[11] == 'z');
    assert(a[12] == 'F' && a[13] == 'G' && a[14] == 'H' && a[15] == 'J' && a[16] == 'K' && a[17] == 'M' && a[18] == 'N' && a[19] == 'Q' && a[20] == 'U' && a[21] == 'V' && a[22] == 'X' && a[23] == 'Z');
}
//@fn src/time/imm.rs impl IMM :: code => impl IMM
//@params date
//@spec
    requires 0 <= year(date@) < 200_000
    ensures r is Some == is_imm(date@, false), r is Some ==> r->0@ == seq![letter(month(date@)), digit(year(date@) % 10)]
//@entry
    broadcast use axiom_civil;
//@end
pub open spec fn resolves(t: Seq<char>, f: int, r: int) -> bool {
    // the first monthly IMM date on or after f that carries the code
    &&& r >= f && is_imm(r, false) && month(r) == letter_month(t[0]) && year(r) % 10 == digit_value(t[1])
    &&& forall|k: int| f <= k < r ==> !(#[trigger] is_imm(k, false) && month(k) == letter_month(t[0]) && year(k) % 10 == digit_value(t[1]))
}
//@fn src/time/imm.rs impl IMM :: date => impl IMM
//@params imm_code, ref_date
//@spec
    requires ref_date is Some ==> 1910 <= year(ref_date->0@) < 180_000
    ensures r is Some == is_code(imm_code@, false),
        r is Some && ref_date is Some ==> resolves(imm_code@, ref_date->0@, r->0@),
//@entry
    hide(dfc); hide(ydays); hide(third_wed);
    broadcast use axiom_civil;
    proof {
        assert forall|y: int, m: int| 1 <= m <= 12 implies year(#[trigger] dfc(y, m, 1)) == y && month(dfc(y, m, 1)) == m && day(dfc(y, m, 1)) == 1 by { lemma_civil_unique(y, m, 1) };
        assert forall|y: int, m: int, r: int| 1 <= m <= 12 && #[trigger] is_next_imm(dfc(y, m, 1), false, r) implies r == third_wed(y, m) by { lemma_next_from_first(y, m, r) };
        assert forall|y: int, m: int| 1 <= m <= 12 implies is_imm(#[trigger] third_wed(y, m), false) && year(third_wed(y, m)) == y && month(third_wed(y, m)) == m by { lemma_third_wed(y, m); };
        assert forall|f: int, y: int, z: int| 1 <= letter_month(imm_code@[0]) && 0 <= digit_value(imm_code@[1]) && y == year(f) - year(f) % 10 + digit_value(imm_code@[1])
            && year(f) > 0 && z == (if #[trigger] third_wed(y, letter_month(imm_code@[0])) < f { y + 10 } else { y }) implies
            #[trigger] resolves(imm_code@, f, third_wed(z, letter_month(imm_code@[0])))
            by { lemma_resolves(imm_code@, f, y) };
    }
//@end
proof fn lemma_next_from_first(y: int, m: int, r: int)
    requires 1 <= m <= 12, is_next_imm(dfc(y, m, 1), false, r)
    ensures r == third_wed(y, m)
{
    hide(dfc); hide(third_wed);
    broadcast use axiom_civil;
    lemma_third_wed(y, m); lemma_civil_unique(y, m, 1);
    let (a, w) = (dfc(y, m, 1), third_wed(y, m));
    if w <= a { lemma_order(w, a); }
    assert(is_imm(w, false));
    assert(r <= w);
    lemma_order(a, r); lemma_order(r, w); lemma_only(r);
}
proof fn lemma_resolves(t: Seq<char>, f: int, y: int)
    requires 1 <= letter_month(t[0]), 0 <= digit_value(t[1]), y == year(f) - year(f) % 10 + digit_value(t[1]), year(f) > 0
    ensures resolves(t, f, third_wed(if third_wed(y, letter_month(t[0])) < f { y + 10 } else { y }, letter_month(t[0])))
{
    hide(dfc); hide(third_wed);
    broadcast use axiom_civil;
    let m = letter_month(t[0]);
    lemma_third_wed(y, m); lemma_third_wed(y + 10, m); lemma_third_wed(y - 10, m);
    let z = if third_wed(y, m) < f { y + 10 } else { y };
    let r = third_wed(z, m);
    if r < f { lemma_order(r, f); }
    assert forall|k: int| f <= k < r implies !(#[trigger] is_imm(k, false) && month(k) == m && year(k) % 10 == digit_value(t[1])) by {
        if is_imm(k, false) && month(k) == m && year(k) % 10 == digit_value(t[1]) {
            lemma_only(k); lemma_order(f, k); lemma_order(k, r);
            assert(year(k) == z || year(k) == z - 10);
        }
    }
}
// a date's own code leads back to the date, from any reference in the ten years before it
proof fn code_round_trip(n: int, f: int, r: int)
    requires is_imm(n, false), f <= n, year(n) >= 0, n - f < 3640, resolves(seq![letter(month(n)), digit(year(n) % 10)], f, r)
    ensures r == n
{
    hide(dfc); hide(third_wed);
    broadcast use axiom_civil;
    let t = seq![letter(month(n)), digit(year(n) % 10)];
    assert(letter_month(t[0]) == month(n));
    assert(digit_value(t[1]) == year(n) % 10);
    assert(r <= n);
    lemma_order(f, r); lemma_order(r, n); lemma_order(f, n);
    lemma_only(r); lemma_only(n);
    if year(r) < year(n) { assert(year(r) <= year(n) - 10); lemma_ten_years(r, n); }
}
proof fn lemma_ten_years(a: int, b: int)
    requires year(a) <= year(b) - 10, is_imm(a, false), is_imm(b, false), month(a) == month(b)
    ensures b - a >= 3644
{
    broadcast use axiom_civil;
    lemma_ydays_mono(year(a), year(b));
}
// what the callers of next_date rely on: from the first of a month it is that month's third Wednesday
proof fn next_from_first_of_month(n: int, r: int)
    requires day(n) == 1, is_next_imm(n, false, r)
    ensures r == third_wed(year(n), month(n))
{ broadcast use axiom_civil; lemma_civil_unique(year(n), month(n), 1); lemma_next_from_first(year(n), month(n), r); }
// a next date is found within 66 (monthly) or 127 (quarterly) days, and stepping never skips one
proof fn next_of_imm_is_the_following_one(a: int, b: int, main: bool, r: int)
    requires is_next_imm(a, main, r), is_imm(b, main), b > a
    ensures r <= b
{ }
proof fn main_cycle_dates_are_monthly_dates(n: int)
    requires is_imm(n, true)
    ensures is_imm(n, false)
{ }
proof fn vacuity_imm(n: int, r: int) requires is_next_imm(n, true, r) { assert(false); }
}
fn main() {}
