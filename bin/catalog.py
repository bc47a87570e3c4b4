"""The property catalogue: source of properties.jsonl (see bin/manifest)."""
CAL = "src/time/calendars.rs"


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a)


CATALOG = [
    prop("C01", "Business-day adjustment returns the date its convention defines",
         "For every calendar, date and business-day convention, the adjusted date is the one the convention defines: unadjusted leaves the date alone, following/preceding give the first business day on or after/before it, the modified conventions turn back when the month (or the half month, for a start in the first half) would change, and nearest gives the closest business day with ties going to the later one. A date is a holiday exactly when it is not a business day.",
         ["inputs", "configurations"], "every date, every convention, every calendar that has a business day within 100 days on either side",
         "tests adjust a handful of dates on two or three calendars; the conventions differ only at month ends next to holiday clusters and in tie-breaking, which those dates do not reach",
         [CAL], [("adjust", CAL), ("is_holiday", CAL)], ["Calendar::adjust", "Calendar::is_holiday"]),
    prop("C02", "Advancing a date counts business days and applies the convention",
         "Advancing a date by k business days gives the k-th business day strictly after it (before it for negative k); by zero days, the adjusted date. Advancing by weeks, months, years or a swap tenor adds the calendar period, applies the business-day convention and, when the end-of-month option is set for months or years, moves to the last business day of that month.",
         ["inputs", "configurations"], "every date, period, convention, end-of-month flag and calendar",
         "tests advance a few dates by a few periods on real calendars; loops over holiday runs and the flag/period/convention product are only sampled",
         [CAL], [("advance", CAL), ("end_of_month", CAL)], ["Calendar::advance"]),
    prop("C03", "The business-day count is the number of business days in the range",
         "The business-day count between two dates is the number of business days in the range, the first day counted by default and the last not, each changed by its flag. It is zero for an empty range, additive over adjacent ranges, and changes sign when two different dates are exchanged.",
         ["inputs", "configurations"], "every pair of dates in either order, every combination of flags, every calendar",
         "the tests count a few ranges; no finite set of ranges establishes additivity or the flag semantics for empty and reversed ranges",
         [CAL], [("business_days_between", CAL)], ["Calendar::business_days_between"]),
    prop("C04", "The month end is the last calendar day, or last business day, of the month",
         "The last day of the month of a date is that month's last calendar day, in leap and common years and across the year end. The business month end is the latest business day not after it.",
         ["inputs", "configurations"], "every date, every calendar",
         "tests look at a few months; December, leap Februaries and months whose last days are all holidays are separate cases",
         [CAL], [("last_day_of_month", CAL), ("end_of_month", CAL)], ["Calendar::last_day_of_month", "Calendar::end_of_month"]),
    prop("C05", "Adding, subtracting or scaling a period is exact, or an error",
         "Adding a period to a date, or subtracting it, moves the date by exactly that many days, weeks, months (day clamped to the target month's length) or years, by one day for overnight, tom-next and spot-next, and not at all for spot; a day, week or year count whose length in days or months cannot be represented is reported as an error and never as a wrong date. Multiplying a period by a count multiplies its length and keeps its kind.",
         ["inputs"], "every date and every period, including counts at the limits of their integer types",
         "tests use one date and counts of one; overflow, clamping at month ends and negative counts are never reached",
         ["src/time/period.rs"], [("date + period", "src/time/period.rs"), ("date - period", "src/time/period.rs"), ("count * period", "src/time/period.rs")], ["NaiveDate + Period", "NaiveDate - Period", "u32 * Period"]),
    prop("C06", "Far- and near-leg settlement dates follow the spot-lag rule",
         "With the standard two-day spot lag, the far-leg date of a tenor is its base date (trade date for overnight, one day later for tom-next, the spot date for the rest) plus the tenor, capped at the month's last business day when it falls on or after that day, and rolled to the next business day otherwise. The near-leg date exists exactly for overnight, tom-next and spot-next and is the base date rolled to the next business day.",
         ["inputs", "configurations"], "every valuation date, tenor and calendar",
         "tests check a few tenors on a few dates of one joint calendar; month-end capping depends on holidays around the month end",
         ["src/time/period.rs"], [("settlement_date", "src/time/period.rs"), ("near_date", "src/time/period.rs")], ["Period::settlement_date", "Period::near_date"]),
    prop("C07", "Every FX pair uses its own currencies, calendars, lag and cut-off",
         "For every supported currency pair the foreign and domestic currencies are the first and second ISO code of its name, its calendar is open exactly when the home calendars of both currencies are, its forward points are scaled by 100 when the domestic currency is the yen and by 10000 otherwise, and its spot lag and cut-off time are the documented ones. Its settlement and near dates apply that lag and that calendar. Market data at or after the cut-off moves the valuation date to the pair's next business day, and earlier data leaves it unchanged.",
         ["inputs", "configurations"], "all 60 pairs, every valuation date, tenor and time of day",
         "tests name a few pairs; one wrong row in a table of sixty, or a wrong boundary at the cut-off, is invisible to them",
         ["src/derivatives/forex/basic.rs", "src/time/period.rs"], [("pair tables", "src/derivatives/forex/basic.rs"), ("settlement_date_with_lag / near_date_with_lag", "src/time/period.rs")],
         ["FXUnderlying::{dom_currency, frn_currency, calendar, settles, cutoff_utc, forward_points_converter, effective_valuation_date, settlement_date, near_date}"]),
    prop("C08", "A joint calendar is open exactly when all its members are",
         "A joint calendar treats a date as a business day exactly when every one of its member calendars does, for any number of members and in any order.",
         ["inputs", "configurations"], "every list of calendars (also empty), every date",
         "tests join two particular calendars on particular dates",
         ["src/time/calendars/jointcalendar.rs"], [("is_business_day", "src/time/calendars/jointcalendar.rs")], ["JointCalendar::is_business_day"]),
    prop("C09", "National calendars close exactly on weekends and their holidays",
         "Each rule-based calendar (Argentina, Australia, Austria, Botswana, Brazil, Canada, Chile, Czech Republic, Denmark, Finland, France, Germany, Hungary, Iceland, Italy, Japan, Mexico, New Zealand, Norway, Poland, Romania, Russia, Slovakia, South Africa, Sweden, Switzerland, TARGET, Ukraine, United Kingdom, United States, weekends only; every market) is closed exactly on weekends and on the holidays its documented rules give: fixed dates, n-th weekdays, days counted from Western or Orthodox Easter Monday, equinox and solstice days, the substitute weekday where the rule has one, each from its first to its last year in force, and the listed one-off closures.",
         ["inputs", "configurations"], "every date from 1901 to 2199, every market of every listed calendar",
         "most calendars are tested on the year 2023 only: years in which a holiday meets a weekend, rules that start or end in some year and one-off closures are not reached",
         ["src/time/calendars.rs", "src/time/calendars/unitedstates.rs", "src/time/calendars/japan.rs", "src/time/calendars/*.rs"],
         [("is_business_day of each calendar", "src/time/calendars/*.rs"), ("naive_date_to_dkmy, is_weekend", CAL)], ["Calendar::is_business_day", "Calendar::is_weekend"]),
    prop("C10", "Easter dates are those of the computus and fall on a Monday",
         "For every year from 1901 to 2199 the day of the year given as Easter Monday is the one of the Gregorian computus, the one given as Orthodox Easter Monday is that of the Julian computus shifted to the Gregorian calendar, and both fall on a Monday.",
         ["inputs"], "all 299 years, both tables",
         "tests touch the entries of a few recent years; one wrong number in a table moves five holidays in fifteen calendars",
         [CAL], [("EASTER_MONDAY, easter_monday", CAL), ("ORTHODOX_EASTER_MONDAY, orthodox_easter_monday", CAL)], ["Calendar::easter_monday", "Calendar::orthodox_easter_monday"]),
    prop("C11", "Day counters give the count and fraction of their rule",
         "For every pair of dates, in either order, Actual/360, /364, /365 and /366 count calendar days, the no-leap variant ignores every 29 February, 30/365 and each of the 30/360 variants (US, European, Italian, ISMA, ISDA/German with its termination date, NASD) apply exactly their rule's day substitutions, and the year fraction is the day count over the rule's basis.",
         ["inputs", "configurations"], "every pair of dates, every counter and variant",
         "tests sample tables of cases from the ISDA/QuantLib notes for some variants; month ends, end of February and reversed pairs interact in ways the tables do not span",
         ["src/time/daycounters/actual360.rs", "src/time/daycounters/actual364.rs", "src/time/daycounters/actual365fixed.rs", "src/time/daycounters/actual366.rs", "src/time/daycounters/thirty360.rs", "src/time/daycounters/thirty365.rs"],
         [("day_count", "src/time/daycounters/thirty360.rs"), ("nl_day_count", "src/time/daycounters/actual365fixed.rs")], ["DayCounters::day_count", "DayCounters::year_fraction"]),
    prop("C12", "Actual/Actual fractions are additive (ISDA) and match the AFB rule",
         "The ISDA actual/actual year fraction is the difference of the two dates as points on the axis of years, so it is additive over adjacent periods, antisymmetric, increasing in the end date and one for a calendar year. The Euro (AFB) fraction counts whole years back from the end date and divides the remaining days by 366 exactly when they contain a 29 February.",
         ["inputs"], "every pair of dates (for AFB: first date not after the second)",
         "tests check published examples; additivity and the leap-day cases need all date pairs",
         ["src/time/daycounters/actualactual.rs"], [("year_fraction", "src/time/daycounters/actualactual.rs")], ["ActualActual::year_fraction", "ActualActual::day_count"]),
    prop("C13", "Business/252 counts exactly the business days of its calendar",
         "The Business/252 day count between two dates equals the number of business days of its calendar in that range, first day included and last excluded, negative when the dates are reversed, however many months or years the range spans; the year fraction is that count over 252.",
         ["inputs", "configurations"], "every pair of dates, every calendar",
         "tests use a few ranges on one calendar; the month-by-month accumulation has separate first, middle and last pieces",
         ["src/time/daycounters/business252.rs", CAL], [("day_count", "src/time/daycounters/business252.rs"), ("business_days_between", CAL)], ["Business252::day_count", "Business252::year_fraction"]),
    prop("C14", "IMM dates and codes agree and the next date is never skipped",
         "A date is an IMM date exactly when it is the third Wednesday of its month (of March, June, September or December in the main cycle), and the next IMM date is the earliest one strictly after the given date. A date has a code exactly when it is an IMM date, the code is the month's letter and the last digit of the year, a code in either letter case resolves to the earliest IMM date of that month and year digit on or after the reference date, and any other string is rejected without failing.",
         ["inputs"], "every date, both cycles, every string and reference date from 1910 on",
         "tests go through a few years and a few codes; month ends, year ends, decade ends and malformed or non-ASCII strings are separate cases",
         ["src/time/imm.rs"], [("is_imm_date, next_date, nth_weekday", "src/time/imm.rs"), ("is_imm_code, code, date", "src/time/imm.rs")], ["IMM::{is_imm_date, next_date, is_imm_code, code, date}"]),
    prop("C20", "FX forward points are read off the quotes' own settlement dates",
         "Forward points for a date exist exactly when the date is after the valuation date, there are at least two quotes, and the date is not before the first nor after the last settlement date of the quotes; a quote settles on the far-leg date of its tenor, by the helper's calendar and spot lag (two days, or the pair's own when the pair builds the helper). On a settlement date the points are those of a quote settling there; between settlement dates they are linear in calendar days between a nearest quote on either side, whatever the order of the quotes.",
         ["inputs", "configurations"], "every list of quotes in any order, valuation date, target date, calendar and spot lag",
         "tests look up a few dates on one ladder of quotes; unsorted quotes, quotes sharing a settlement date, dates next to a pillar and pairs with a one-day lag are not reached",
         ["src/markets/forex/quotes/forwardpoints.rs", "src/derivatives/forex/basic.rs", "src/time/period.rs"], [("get_forward, new, with_spot_lag", "src/markets/forex/quotes/forwardpoints.rs"), ("forward_helper", "src/derivatives/forex/basic.rs")],
         ["FXForwardHelper::get_forward", "FXUnderlying::forward_helper"]),
    prop("C21", "The curve's zero rates, discount factors and forwards are consistent",
         "For pillars in date order, the zero rate of a date (looked up for the day after it, under every interpolation method) is the first visible pillar's rate up to that pillar, the last visible pillar's rate beyond it, and in between linear in calendar days between the neighbouring visible pillars; hidden pillars play no part. The discount factor is exp(-zero rate x Actual/365 time), the shifted discount factor is that with the given basis points added to every zero rate, and compounding the forward rate over its period links the two discount factors. An interest-rate market context's rate and discount are those of its curve.",
         ["inputs"], "every list of pillars in date order with at least one visible, every date, period, method and shift",
         "tests look up a few dates on two or three curves; dates on, next to and beyond pillars, and hidden pillars in any position, are not reached",
         ["src/markets/termstructures/yieldcurve.rs", "src/markets/interestrate/market_context.rs"], [("step_function_forward_zero_rate", "src/markets/termstructures/yieldcurve.rs"), ("discount / shifted_discount / forward_rate", "src/markets/termstructures/yieldcurve.rs")], ["YieldTermStructure::{zero_rate, discount, shifted_discount, forward_rate}"]),
    prop("C22", "Deposit and futures pillars reproduce their quotes",
         "A deposit settles on its index's spot date and matures one index period later; its zero rate compounds over that span to one plus rate times the index's year fraction, and its discount factor is that zero rate over valuation to maturity. A future starts on the IMM date of its code, ends on the IMM date of the month one contract period later, and implies the rate 1 - (price - convexity)/100; its discount factor is the discount to its start, at the closest covering pillar's zero rate (the last pillar's when it starts beyond them all), divided by one plus implied rate times year fraction, and its zero rate gives that discount factor back (from valuation once a future is on the curve; for the first future, from the last pillar after chaining all earlier ones).",
         ["inputs", "configurations"], "every index, quote, valuation date, calendar, convention and list of pillars in date order",
         "tests check three or four quotes of two markets; settlement and maturity around holidays, and futures relative to the pillars before them, vary with the data",
         ["src/markets/termstructures/yieldcurve/oisratehelper.rs", "src/markets/termstructures/yieldcurve/ratehelper.rs", "src/markets/interestrate/futures.rs", "src/markets/termstructures/yieldcurve.rs"],
         [("OISRate", "src/markets/termstructures/yieldcurve/oisratehelper.rs"), ("FuturesRate", "src/markets/termstructures/yieldcurve/ratehelper.rs"), ("InterestRateFutures::maturity_date", "src/markets/interestrate/futures.rs"), ("retrieve_related_stripped_curve", "src/markets/termstructures/yieldcurve.rs")],
         ["OISRate::{settle_date, maturity_date, zero_rate, discount}", "FuturesRate::{settle_date, maturity_date, implied_quote, discount, zero_rate}"]),
    prop("C30", "A swap's schedule is its own, or the one its terms generate",
         "A leg that carries a schedule uses it unchanged. Otherwise its effective date is the valuation date advanced by the index's settlement days, and there are duration-over-tenor periods: the k-th ends k frequency periods after the effective date (by the leg's calendar and convention and the index's end-of-month rule), starts where the previous one ended, pays the pay delay after its end, resets the days-before-accrual before its start, and carries the leg's notional. A swap settles on its first leg's effective date and matures on the latest of its legs' last accrual ends.",
         ["inputs", "configurations"], "every leg, valuation date, calendar, convention, frequency and delay",
         "tests generate a few schedules; the product of frequency, convention, end-of-month rule and holidays is only sampled, and lags other than the tested ones not at all",
         ["src/derivatives/interestrate/swap.rs", "src/time/frequency.rs"], [("effective_date, generate_schedule, settle_date, maturity_date", "src/derivatives/interestrate/swap.rs"), ("Frequency::period", "src/time/frequency.rs")],
         ["InterestRateSwapLeg::{effective_date, generate_schedule}", "InterestRateSwap::{settle_date, maturity_date}"]),
    prop("C31", "A swap's value and greeks are those of its discounted cashflows",
         "A swap's value is the sum over its legs of every period's rate times year fraction times balance, discounted from the pay date, plus the last balance on the last pay date, all negated for a sold leg; the rate is the coupon, or the simple forward rate over the accrual period implied by the curve plus the spread. The mark-to-market is that value in the first leg's currency (an error without legs), dv01 its change when all zero rates move up one basis point, gamma the value up plus the value down minus twice the value for the given shift of zero rates (other shift modes refused), vega zero, and the modified duration -dv01 x 10000 / value.",
         ["inputs", "configurations"], "every swap with any number of legs and periods, every curve and shift",
         "tests value a few swaps on fixed curves; off-market legs, own schedules with gaps, delayed payments and short-selling either leg are separate cases",
         ["src/derivatives/interestrate/swap.rs", "src/derivatives/interestrate/basic.rs"], [("npv, calculate_period_cashflow, pv_under_shift", "src/derivatives/interestrate/swap.rs"), ("mtm, dv01, gamma, vega, currency", "src/derivatives/interestrate/swap.rs"), ("modified_duration", "src/derivatives/interestrate/basic.rs")],
         ["InterestRateSwap::{npv, mtm, dv01, gamma, vega, modified_duration}"]),
    prop("C32", "FX forwards are worth their discounted forward difference",
         "For the dates its quoted forwards cover, an FX forward's mark-to-market is its foreign-currency amount times the outright forward (spot plus forward points over the pair's pip scale) minus the strike, discounted at the domestic curve's factor for the expiry, in the domestic currency; outside them it is an error. The foreign-currency amount is the notional if that is foreign and minus the notional over the strike if it is domestic, negated for a sale; the delta is that amount in the foreign currency, gamma and vega are zero.",
         ['inputs', 'configurations'], "every pair, market, expiry, notional in either currency, direction and strike",
         "tests value two or three EURUSD trades; domestic notionals, yen pairs, sales and dates outside the quotes meet each other only there",
         ['src/derivatives/forex/forward.rs', 'src/markets/forex/quotes/forwardpoints.rs', 'src/derivatives/forex/basic.rs'], [('mtm, delta, gamma, vega', 'src/derivatives/forex/forward.rs'), ('forward_points_converter', 'src/derivatives/forex/basic.rs')],
         ['FXForward::{mtm, delta, gamma, vega}']),
    prop("C33", "FX options are worth their Black-Scholes value",
         "The Black-Scholes value on a forward is df x (w F N(w d1) - w K N(w d2)) with w = 1 for a call and -1 for a put, the discounted intrinsic value when the variance is not positive, and call minus put is df x (F - K). An FX option's mark-to-market is minus its direction times the notional times that value at the outright forward, the Actual/365 variance to expiry and the domestic discount factor, over spot for a foreign and over the strike for a domestic notional, in the notional currency; its delta is direction x notional x w N(w d1) in the foreign currency, its gamma direction x notional x df x n(d1) / (F sigma sqrt T), its vega per 1% direction x notional x df x F x n(d1) x sqrt T / 100 over spot or strike as above. Outside the quoted forwards all four are errors.",
         ['inputs', 'configurations'], "every pair, market, expiry, call or put, notional in either currency, direction, strike and volatility",
         "tests value a few EURUSD options against one screen; puts, sales, domestic notionals and off-the-money strikes combine in ways they do not reach",
         ['src/derivatives/forex/option.rs', 'src/math/normal.rs'], [('black_scholes', 'src/derivatives/forex/option.rs'), ('bs_context, mtm, delta, gamma, vega', 'src/derivatives/forex/option.rs'), ('cdf, pdf', 'src/math/normal.rs')],
         ['black_scholes', 'FXVanillaOption::{mtm, delta, gamma, vega}']),
    prop("C34", "Bachelier and Black prices follow their formulas and invert",
         "The Bachelier call and put are sqrt(V) n(d) + (F-K) N(d) and sqrt(V) n(d) + (K-F) N(-d) with d = (F-K)/sqrt(V), and the Black call and put on a forward are df (F N(d1) - K N(d2)) and df (K N(-d2) - F N(-d1)); both give the intrinsic value (discounted for Black) when there is no variance, and put-call parity. The Bachelier vega is the call's derivative in the total variance. The implied volatility of a target price reprices it within the tolerance (or lies within 1e-12 of where the price crosses it), lies between 1e-8 and 5, and is refused only when the target is further than the tolerance outside the prices of those two volatilities. The normal distribution functions are those of the standard normal.",
         ['inputs'], "every forward, strike, variance or volatility, time, discount factor, target and tolerance",
         "tests use a few at-the-money points and round-trip some volatilities; zero and negative variance, wings, targets at or beyond the edge of the range are not reached",
         ['src/models/common/bachelier.rs', 'src/models/common/black_scholes.rs', 'src/math/normal.rs'], [('bachelier_call, bachelier_put, bachelier_vega_variance', 'src/models/common/bachelier.rs'), ('bs_call_forward, bs_put_forward, bs_implied_vol, bs_implied_vol_tol', 'src/models/common/black_scholes.rs'), ('cdf, pdf, inverse_cdf', 'src/math/normal.rs')],
         ['bachelier_call', 'bachelier_put', 'bachelier_vega_variance', 'bs_call_forward', 'bs_put_forward', 'bs_implied_vol', 'bs_implied_vol_tol']),
    prop("C24", "Caplet volatilities are read off the stripped surface",
         "The caplet volatility for an expiry and strike comes from the first pillar that does not expire before it (the last pillar beyond all of them): its single node's, or linear in the strike between the two neighbouring nodes and flat below the lowest and above the highest strike. A surface without pillars (or a market context without a surface) is an error.",
         ['inputs', 'configurations'], "every list of pillars, every list of nodes with increasing strikes, every expiry and strike",
         "tests look up three points on one- and three-node pillars; expiries on and next to a pillar, and strikes at nodes, are boundary cases they do not sample",
         ['src/markets/interestrate/volsurface.rs', 'src/markets/interestrate/market_context.rs'], [('caplet_volatility, interpolate_nodes', 'src/markets/interestrate/volsurface.rs'), ('caplet_vol', 'src/markets/interestrate/market_context.rs')],
         ['IRNormalVolSurface::caplet_volatility', 'IrMarketContext::caplet_vol']),
    prop("C35", "Caplet variance follows its fixing convention",
         "The total variance of a caplet with volatility s, from the valuation date to the start a and the end b of its period, is s^2 max(a, 0) if it fixes forward-looking; backward-compounded it is s^2 (a + (b - a)/3) before the period and s^2 b^3 / (3 (b - a)^2) within it. It is zero once the period has ended, never negative, and continuous at the start of the period.",
         ['inputs'], "every volatility and every pair of times",
         "tests evaluate four points; the branch boundaries (valuation on the first or last day, inside the period) are where an error hides",
         ['src/derivatives/interestrate/basic.rs'], [('caplet_total_variance', 'src/derivatives/interestrate/basic.rs')],
         ['caplet_total_variance']),
    prop("C36", "Caps and floors are worth their caplets",
         "A cap or floor is worth the sum over its periods of direction x notional x accrual fraction x the discount factor of the pay date x the Bachelier call (floor: put) at the strike, of the simple forward rate over the accrual period and the total variance of that caplet, the volatility read off the surface at the accrual start and the strike, the times in Actual/365 from the valuation date. Under shifts every zero rate and every volatility moves by that many basis points: dv01 is the value 1 basis point of rates up minus the value, gamma the values s up and down minus twice the value (other shift modes are errors), vega the value s of volatility up minus the value, modified duration -10000 dv01 / value (zero when the value is below 1e-12). A market without a volatility surface, or with an unstripped one, is an error.",
         ['inputs', 'configurations'], "every deal (kind, style, direction, strike, notional, schedule), curve and volatility surface",
         "tests reprice one 5-year cap against a screen; floors, sales, running periods, delayed payments and off-pillar volatilities only occur elsewhere",
         ['src/derivatives/interestrate/cap.rs', 'src/derivatives/interestrate/basic.rs'], [('caplet_market, pv_under_shift', 'src/derivatives/interestrate/cap.rs'), ('mtm, dv01, gamma, vega', 'src/derivatives/interestrate/cap.rs'), ('modified_duration, caplet_total_variance', 'src/derivatives/interestrate/basic.rs')],
         ['CapFloor::{mtm, dv01, gamma, vega, modified_duration}']),
    prop("C37", "Stripped caplet volatilities reprice the cap quotes",
         "Rebuilding the volatility surface from cap quotes strips each strike by itself: quotes of the strike are taken in the order of their last accrual start, and each distinct last accrual start adds one segment, whose volatility (between 1e-5 and 0.1) makes the quote's price - direction x notional x sum over the periods of accrual fraction x discount factor of the pay date x Bachelier call or put on the forward, with the earlier segments' volatilities for the caplets that start by their ends and the new one for the later ones - equal its market value up to the root finder's tolerance. The surface has one pillar per distinct last accrual start of any quote, with a node for each strike that is quoted to that date or before it, at that strike's latest segment volatility. A quote without periods is an error.",
         ['inputs', 'configurations'], "every list of cap and floor quotes, curve, schedule and market value",
         "tests strip one screen of five quotes at one strike; several strikes, quotes with the same last period, floors and sales only meet elsewhere",
         ['src/markets/interestrate/volsurface.rs', 'src/derivatives/interestrate/basic.rs'], [('last_accrual_start, strip_caplet_vols, strip_one_strike, price_cap_with_strip, caplet_sigma_for_start', 'src/markets/interestrate/volsurface.rs')],
         ['IRNormalVolSurface::rebuild (nodes, caplet_volatility)']),
    prop("C25", "The FX volatility surface goes through every quote",
         "FXVolSurface::new groups each pillar's quotes by delta (deltas within 1e-9 are the same); a delta's call and put volatilities are the quoted ones where both are quoted, otherwise at-the-money + butterfly +/- half the risk reversal. The quotes' strikes are forward x exp(vol^2 T/2 - d vol sqrt T) with d = N^-1(delta) for calls, N^-1(1-delta) for puts, 0 at the money, T in ACT/365. At each pillar the surface gives every quoted volatility at its own strike; at any strike it is the quadratic in x = N(ln(F/K)/(1.5 sigma_atm sqrt T)) through the lowest, the at-the-money and the highest strike, plus, between those outer strikes, the quotes' residuals interpolated linearly in ln(K/F). Between pillars total variance is linear in time; before the first and after the last the nearest pillar's volatility holds. Pillars may be given in any order. No pillars, a pillar on or before valuation, a forward not above zero, no or several at-the-money quotes, a delta outside (0, 0.5) or without a matched pair, no delta, strikes that do not rise, and a lookup at a strike not above zero or a date on or before valuation are errors.",
         ['inputs', 'configurations'], "every list of pillars and quotes, date and strike",
         "tests sample one EURUSD screen of five quotes per pillar; other delta sets, quote mixes and orders only meet elsewhere",
         ['src/markets/forex/quotes/volsurface.rs'], [('FXVolSurface::new, volatility, SmileSection::from_pillar, volatility, normalise_quotes, find_or_insert, resolve_partial, validate_delta, strike functions, fit_quadratic_three_points, piecewise_linear_interp', 'src/markets/forex/quotes/volsurface.rs')],
         ['FXVolSurface::new, volatility']),
    prop("C26", "The FX market context answers from the market data it was given",
         "FxMarketContext::forward_at is the outright forward: spot plus the forward points of the date on the given calendar, divided by 100 when the pair's first (quote) currency is JPY and by 10000 otherwise; an error exactly outside the quoted forwards. rate_d and discount_d are the step-function-forward zero rate and discount factor of the domestic curve, rate_f and discount_f those of the foreign curve, implied_vol the surface's volatility or its error. new keeps every input; from_raw_quotes bootstraps the domestic and the foreign curve from their own market data with their own calendar and day counter, builds the forward helper (settlement lag 2) and the surface from the given quotes, all at the valuation date, and fails exactly when a curve cannot be bootstrapped or the pillars give no surface; for_linear succeeds on every date and gives every strike above zero and date after valuation the volatility 10%.",
         ['inputs', 'configurations'], "every market, date, strike, calendar and pair",
         "tests build one EURUSD context; a yen pair, a foreign curve different from the domestic one and dates between quotes only meet elsewhere",
         ['src/markets/forex/market_context.rs', 'src/markets/forex/quotes/forwardpoints.rs'], [('FxMarketContext::new, from_raw_quotes, forward_at, rate_d, rate_f, discount_d, discount_f, implied_vol, for_linear, trivial_vol_surface', 'src/markets/forex/market_context.rs'), ('FXVolSurface::new, volatility and all they call', 'src/markets/forex/quotes/volsurface.rs'), ('FXForwardHelper::get_forward', 'src/markets/forex/quotes/forwardpoints.rs'), ('YieldTermStructure::zero_rate, discount', 'src/markets/termstructures/yieldcurve.rs')],
         ['FxMarketContext public methods']),
    prop("C40", "A dated Monte Carlo run walks every path over the whole grid and captures it on every observation date",
         "simulate_at_dates returns the valuation date, the observation dates sorted (duplicates kept) and, for each of the n_paths paths, exactly one state per observation date. The integration grid is the valuation date, every max_step_days-th day after it before the last observation, and all observation dates, each once, in order; times are the day counter's year fractions from the valuation date. Every path starts from the model's initial_state; on each grid interval of positive time the model is stepped once, from the previous state, with t the midpoint and dt the length of the interval (an interval of zero time leaves the state alone), paths one after another on the same model; the state captured for an observation date is the path's state when the walk reaches that date, also when the last interval had zero time. states_at and sample give every path's state (or the extracted scalar) at an observation date, in path order, and None exactly at dates not observed. BrownianMotion::step is x + drift*dt + volatility*sqrt(dt)*z and GeometricBrownianMotion::step is s*exp((drift - volatility^2/2)*dt + volatility*sqrt(dt)*z), z the one standard normal drawn from the model's own generator, which new seeds with the given seed; initial_state is the start value; BrownianMotion::new is standard (start 0, drift 0, volatility 1) and each with_ function changes its one parameter.",
         ['inputs', 'configurations'], "every model, set of observation dates, path count, step and day counter",
         "tests check shapes and two moments on one Actual/365 grid; repeated or zero-time observations, steps beyond the horizon and the exact interval passed to step are not sampled",
         ['src/models/common/simulation.rs'], [('simulate_at_dates, DatedPaths::states_at, BrownianMotion::new, with_drift, with_volatility, with_initial, initial_state, step, GeometricBrownianMotion::new, initial_state, step', 'src/models/common/simulation.rs')],
         ['simulate_at_dates, DatedPaths, BrownianMotion, GeometricBrownianMotion public methods']),
    prop("C23", "The bootstrapped curve has one pillar per quote, and each swap quote reprices on it",
         "YieldTermMarketData::get_stripped_curve returns exactly one pillar per quote: first the cash quotes in order of maturity (quotes maturing on the same day in the order given, once each), then the futures and then the swaps in the order given. A cash pillar has its quote's settlement and maturity date, value, zero rate and discount factor at the valuation date, and is hidden exactly when its index period is one week. A futures pillar has its quote's dates and value and the zero rate and discount factor the quote gives on the pillars before it. A swap pillar has the swap's settlement date, its maturity date (the latest of its legs' last accrual ends), the reference rate of its first leg (coupon or spread), a zero rate between -0.5 and 0.5 at which the swap is worth nothing on the pillars up to and including its own (to the root finder's tolerance, about 1e-15 in the zero rate), and the discount factor exp(-z t) of that zero rate on Actual/365. Pillars say which kind of quote they come from; futures and swap pillars are never hidden.",
         ['inputs', 'configurations'], "every market of cash, futures and swap quotes, valuation date, calendar, day counter and convention",
         "tests strip one EUR and one USD screen; quotes sharing a maturity, unsorted cash quotes and markets with all three kinds of quotes only meet elsewhere",
         ['src/markets/termstructures/yieldcurve.rs', 'src/derivatives/interestrate/swap.rs'], [('YieldTermMarketData::get_stripped_curve, yts_type', 'src/markets/termstructures/yieldcurve.rs'), ('solve_zero_rate, calculate_npv, amend_last, npv, get_reference_rate', 'src/derivatives/interestrate/swap.rs')],
         ['YieldTermMarketData::get_stripped_curve, InterestRateSwap::solve_zero_rate']),
    prop("C42", "Hull-White: duration, variances, affine bonds and simulated paths",
         "HullWhite1F: b(t,T) = (exp(-l(T-t)) - 1)/l; short_rate_variance(t1,t2) = s^2 (1 - exp(-2l(t2-t1)))/(2l), zero unless t2 > t1; bond_log_variance(s1,s2,T) is the integral of s^2 B(u,T)^2 from s1 to s2, so it is zero over an empty period and adds up over adjoining ones; discount_affine is the market's P(0,T)/P(0,t) times exp(-B f - s^2/(4l)(1 - exp(-2lt)) B^2 + B r), the market discount factor at time zero. A mean reversion below 1e-12 in size counts as zero: B = -(T-t), variance s^2 (t2-t1), bond variance s^2 ((T-s1)^3 - (T-s2)^3)/3, convexity s^2 t B^2/2. HullWhiteSimulator starts at r_0 and each step is r + l (theta(t) - r) dt + s sqrt(dt) z with the next standard normal z of the seeded generator and the drift target asked once at the time of the step.",
         ['inputs', 'histories'], "every mean reversion, volatility, pair of times, rate and seed",
         "tests check signs and one parameter set; integrals against quadrature, negative or vanishing mean reversion and sequences of uneven steps are not sampled",
         ['src/models/interestrate/hull_white.rs'], [('HullWhite1F::*, HullWhiteSimulator::*', 'src/models/interestrate/hull_white.rs')],
         ['HullWhite1F::{b, short_rate_variance, bond_log_variance, discount_affine}, HullWhiteSimulator::{new_constant_theta, initial_state, step}']),
    prop("C43", "Cox-Ingersoll-Ross: moments, mean square root and simulated paths",
         "CirProcess: for t > 0 mean(t) = s0 e + theta (1-e) and variance(t) = s0 (g^2/k) e (1-e) + theta (g^2/(2k)) (1-e)^2 with e = exp(-kt); the start and zero for t <= 0. sqrt_mean is the mean of the square root: the root of the start for t <= 0, the root of the mean where g is below 1e-14 in size, the root of the mean times (1 - variance/(8 mean^2)) where the non-centrality 4 k s0 e/(g^2 (1-e)) exceeds 500, and otherwise the non-central chi-squared series sqrt(2c) exp(-eps/2) sum (eps/2)^n/n! Gamma(b+n)/Gamma(a+n), cut at the first term within the tolerance of the sum (default 1e-14) or after 2001 terms. sqrt_mean_infinity = g/sqrt(2k) Gamma(a+1/2)/Gamma(a) with a = 2 k theta/g^2; the proxy goes from the root of the start to that limit at rate k; feller_satisfied is 2 k theta >= g^2. CirSimulator starts at sigma_0 and each step takes x = max(state, 0) to max(x + k (theta - x) dt + g sqrt(x) sqrt(dt) z, 0) with the next standard normal z of the seeded generator.",
         ['inputs', 'histories'], "every speed, level, volatility, start, time, tolerance and seed",
         "tests check bounds and limits; no test computes the mean of the square root independently, and the switch to the short-time formula is not sampled",
         ['src/models/common/cir.rs'], [('CirProcess::*, SqrtMeanProxy::eval, CirSimulator::*', 'src/models/common/cir.rs')],
         ['CirProcess::{mean, variance, sqrt_mean_tol, sqrt_mean, sqrt_mean_infinity, sqrt_mean_proxy, feller_satisfied}, SqrtMeanProxy::eval, CirSimulator::{new, initial_state, step}']),
    prop("C44", "SABR: Hagan's implied volatility and simulated paths",
         "SabrParams::new keeps its four parameters. hagan_implied_vol(F,K,T) is alpha/((FK)^((1-b)/2) (1 + (1-b)^2/24 L^2 + (1-b)^4/1920 L^4)) z/x(z) (1 + ((1-b)^2/24 alpha^2/(FK)^(1-b) + rho b nu alpha/(4 (FK)^((1-b)/2)) + (2-3rho^2)/24 nu^2) T) with L = ln(F/K), z = nu/alpha (FK)^((1-b)/2) L and x(z) = ln((sqrt(1-2 rho z+z^2)+z-rho)/(1-rho)), z/x(z) being 1 - rho z/2 up to z^2 for z below 1e-8 in size; hagan_atm_vol is its value at K = F. SabrSimulator starts at (forward_0, alpha); a step from (max(F,0), max(a,0)) takes two standard normals z1, z2 of the seeded generator, w = sqrt(dt) z1 and v = sqrt(dt) (rho z1 + sqrt(1-rho^2) z2), to F' = max(F + a F^beta w, 0) and a' = a exp(-nu^2 dt/2 + nu v), and step_with_noise also returns (w, v); simulate runs its paths one after the other from the start, each of n equal steps of t/n, and returns their ends.",
         ['inputs', 'histories'], "every admissible parameter set, forward, strike, expiry, seed and number of steps and paths",
         "tests check one parameter set at and near the money and statistics of simulated paths; extreme moneyness, beta 0 and 1 and the individual steps are not sampled",
         ['src/models/forex/sabr.rs'], [('SabrParams::new, hagan_implied_vol, hagan_atm_vol, SabrSimulator::*', 'src/models/forex/sabr.rs')],
         ['SabrParams::new, hagan_implied_vol, hagan_atm_vol, SabrSimulator::{new, step_with_noise, simulate, initial_state, step}']),
    prop("C45", "Dupire local volatility: the surface on the market grid and its interpolation",
         "dupire_local_vol::build keeps the given expiries and strikes and gives every node (i,j) the local variance 2 (dC/dT + (rd-rf) K dC/dK + rf C)/(K^2 d2C/dK2) of the Black call prices C at the market volatilities (forward spot exp((rd-rf)T), discount factor exp(-rd T)), with dC/dT and dC/dK by the difference quotient of the two neighbouring nodes (of the last two at an end) and d2C/dK2 by the three-point formula for uneven strikes (at an end that of the nearest inner strike); where the denominator is at most 1e-8 or the numerator not positive it is the market variance instead, and every node is kept between 0.01^2 and 2^2. local_variance interpolates bilinearly between the nodes and is flat outside the grid, local_vol is its square root, and t_range and k_range give the ends of the grid.",
         ['inputs', 'configurations'], "every increasing grid of at least three expiries and strikes, volatilities, spot and rates",
         "tests use flat or mildly smiling surfaces on even grids; uneven grids, arbitrageable quotes and the boundary rules are not sampled",
         ['src/models/forex/dupire_local_vol.rs', 'src/models/common/black_scholes.rs'], [('build, DupireLocalVol::*, bracket, fd_t, fd_k, fd_kk', 'src/models/forex/dupire_local_vol.rs')],
         ['build, DupireLocalVol::{local_variance, local_vol, t_range, k_range}, bracket, fd_t, fd_k, fd_kk, bs_call_forward']),
    prop("C41", "Nelder-Mead: the walk of the simplex and the best point seen",
         "nelder_mead(f, x0, opts) first asks for f at x0 and at x0 with one coordinate at a time moved up by step_frac |x0_i| (by max(step_frac, 1e-4) where |x0_i| is at most 1e-12). Each iteration then orders the vertices by value (stable) and stops as converged when the values differ by less than ftol and every coordinate of any two vertices by less than xtol; otherwise it asks for the reflection c + (c - w) of the worst vertex w in the centroid c of the others; if that is below the best it asks for c + 2(r - c) and puts the lower of the two (the reflection on a tie) in place of the worst; if it is below the second worst it replaces the worst; else it asks for c + (w - c)/2, which replaces the worst if it is lower, and failing that every other vertex is pulled half way to the best, in order. It makes at most max_iter iterations, the converged one counted. The result is the first vertex of least value with exactly its value, no point the objective was ever asked for has a lower one, and iterations and converged tell how it ended.",
         ['inputs', 'histories'], "every objective (a fixed real function), start of any dimension, step, tolerances and iteration limit",
         "tests minimise three smooth functions and look at the minimum found; a lost best vertex, a wrong branch or a shrink that leaves stale values still converges there",
         ['src/math/optimize.rs'], [('nelder_mead', 'src/math/optimize.rs')],
         ['nelder_mead']),
    prop("C46", "Piecewise constant schedules and the effective parameters of the time-dependent SABR model",
         "A PiecewiseConstant keeps its knots and values; at(t) is the value of the segment (knot k, knot k+1] that holds t (the first segment for t = 0, knots met within 1e-15), constant(T, v) is one segment, n_segments and final_time count and end them. For schedules on shared knots and an expiry T on one of them, let I be the integral of omega(t)^2 exp(int_0^t gamma^2) to T and L the double integral of Lemma 4.1, int omega(t)^2 exp(int_0^t gamma^2) h(t) dt with h(t) = int_0^t omega(s)^2 exp(5 int_0^s gamma^2) ds, both over exactly the segments that end at or before T. effective_vol_vol is the root g with I^2 / (5 (e^x - 1)^2) (e^(6x)/6 - e^x + 5/6) = L at x = g^2 T, found by bisection from [0, 4] doubled until the sides cross, and 0 when L is not above I^2/2. effective_term_structure is the square root of g^2 I / (e^x - 1), or of I/T in the limit x below 1e-6. effective_correlation is the term structure / (g T) times the integral of rho gamma / omega to T, and 0 when g is 0.",
         ['inputs', 'schedules'], "every set of schedules on shared knots and every expiry on a knot after the first",
         "tests recover constant schedules and look at two-segment ones in one direction; a segment too many, a wrong exponent in one recursion or a slip in one of the expansions near zero leaves them passing",
         ['src/models/forex/sabr_effective.rs'], [('effective_vol_vol', 'src/models/forex/sabr_effective.rs'), ('effective_correlation', 'src/models/forex/sabr_effective.rs'), ('at', 'src/models/forex/sabr_effective.rs')],
         ['effective_parameters']),
    prop("C47", "Time-dependent SABR parameters and simulated paths",
         "TimeDependentSabrParams keeps three schedules on shared knots, beta and the forward; at(t) is alpha, rho and nu of the segment (knot k, knot k+1] that holds t, with beta, and horizon is the last knot. The simulator starts at the forward with volatility alpha(0). A step of length dt draws two normals z1, z2, W_F = sqrt(dt) z1, W_A = sqrt(dt) (rho z1 + sqrt(1 - rho^2) z2), moves the forward to max(F + alpha / alpha(0) vol F^beta W_F, 0) and vol to vol exp(nu W_A - nu^2 dt / 2) (F and vol floored at zero first), with alpha, rho, nu those of the time it is given: step_with_noise and the model's step(state, t, dt) use the schedules at t (a dated run hands over the middle of each interval, C40), and simulate(T, n, m) makes m paths one after the other, each of n steps T/n from the initial state, under the parameters of each step's middle. So every segment's alpha acts on the forward, and flat schedules give the constant model. reduces_to_constant is that model exactly when consecutive values of every schedule agree to 1e-12.",
         ['inputs', 'schedules', 'histories'], "every valid set of schedules, every state, step, seed, number of steps and paths",
         "tests simulate flat schedules and look at means; a schedule that is ignored, a segment boundary on the wrong side or correlation on the wrong draw leaves those unchanged",
         ['src/models/forex/sabr_time_dependent.rs'], [('at', 'src/models/forex/sabr_time_dependent.rs'), ('step_with_noise', 'src/models/forex/sabr_time_dependent.rs'), ('simulate', 'src/models/forex/sabr_time_dependent.rs')],
         ['time_dependent_sabr_path']),
    prop("C48", "SABR with a local volatility compensator: the particle simulation",
         "simulate(T, n, m) of TimeDependentSabrSlvSimulator starts m particles at (forward, alpha(0)) and makes n equal steps dt = T/n of the whole population. At each step the particles are sorted by forward (stably) and cut into bins of ceil(m / n_bins) (the last may be smaller), each with the mean of vol^2 of its members and its greatest forward; then every particle in turn draws two normals, and with the parameters and local variance of the middle of the step moves to max(F + s vol F^beta W_F, 0) and vol exp(nu W_A - nu^2 dt / 2), where F is floored at 1e-12, W_F and W_A are correlated by rho, s^2 = max(local variance at F / max(M F^(2 beta - 2), 1e-12), 0), and M is the mean of the first bin whose greatest forward is not below F, the last bin's beyond all. n_bins is 50 unless with_bins says otherwise. All particles of a step see the population of its beginning.",
         ['inputs', 'schedules', 'histories'], "every valid set of schedules and local variance surface, every number of steps, particles and bins, every seed",
         "tests look at the mean of the forward with flat volatility and at one population whose bins divide evenly; a wrong bin edge, a mean over the wrong members or a stale population keeps those",
         ['src/models/forex/sabr_slv.rs'], [('simulate', 'src/models/forex/sabr_slv.rs'), ('bin_vol_sq_by_forward', 'src/models/forex/sabr_slv.rs'), ('lookup_bin', 'src/models/forex/sabr_slv.rs')],
         ['local_volatility_particles']),
    prop("C49", "FX-Heston-Hull-White: correlation factor and simulated paths",
         "Correlation4x4::as_matrix is symmetric with ones on the diagonal, drivers in the order FX, variance, domestic rate, foreign rate. cholesky is Some exactly for positive definite matrices (a leading block's next pivot that is not positive gives None), and then it is lower triangular with a positive diagonal and its product with its transpose is the matrix; is_valid says whether it exists, and FxHhwSimulator::new is Err exactly without it. A step of length dt takes four normal draws z in order, increments W_i = sqrt(dt) sum of L_ij z_j over j <= i (returned by step and step_at_time), and with v the variance floored at zero moves: ln FX by (rd - rf - v/2) dt + sqrt(v) W_0; the variance to max(v + kappa (theta - v) dt + gamma sqrt(v) W_1, 0); rd by lambda_d (theta_d - rd) dt + eta_d W_2; rf by (lambda_f (theta_f - rf) - eta_f rho_xi_f sqrt(v)) dt + eta_f W_3 (the quanto drift). step takes the constant targets of the parameters, step_at_time the given ones, the simulation model's step those of the installed function at the time it is given (the constants until with_theta_fn). simulate(T, n, m) makes m paths one after the other, each of n steps T/n from (fx_0, sigma_0, rd_0, rf_0), and returns the ends.",
         ['inputs', 'histories'], "every correlation matrix, parameter set, target function, state, step, seed, number of steps and paths",
         "tests look at means of discounted payoffs and at one matrix from a paper; a swapped pair of correlations, a missing quanto drift or a target read at the wrong time stays inside their error bars",
         ['src/models/forex/fx_hhw.rs'], [('cholesky_4x4', 'src/models/forex/fx_hhw.rs'), ('step_at_time', 'src/models/forex/fx_hhw.rs'), ('simulate', 'src/models/forex/fx_hhw.rs')],
         ['correlation_factor', 'fx_heston_hull_white_path']),
    prop("C50", "FX-Heston-Hull-White with a foreign stock: simulated paths",
         "FxHhwStockSimulator::new is Err exactly when |rho_xi_sf| > 1, |rho_sf_omega| > 1 or the FX block's correlation matrix is not positive definite. A step takes six normal draws z0..z5 in order; the first four drive the FX-Heston-Hull-White block exactly as its own step does with the constant targets. With W_S = sqrt(dt)(rho_xi_sf z0 + sqrt(1 - rho_xi_sf^2) z4), Z_S the bracket, and W_omega = sqrt(dt)(rho_sf_omega Z_S + sqrt(1 - rho_sf_omega^2) z5), v the FX variance and w the stock variance both floored at zero at the start of the step, ln of the stock moves by (rf - rho_xi_sf sqrt(v) sqrt(w) - w/2) dt + sqrt(w) W_S, and the stock variance to max(w + (kappa (theta - w) - rho_sf_omega rho_xi_sf gamma sqrt(w) sqrt(v)) dt + gamma sqrt(w) W_omega, 0). The model's step in the generic simulator is the same step. simulate(T, n, m) makes m paths one after the other from the initial state, each of n steps of length T/n, and returns the ends.",
         ['inputs', 'histories'], "every parameter set, correlation, state, step, seed, number of steps and paths",
         "tests look at discounted means within Monte-Carlo error bars, where a dropped quanto correction in the stock variance or a draw used twice is invisible",
         ['src/models/forex/fx_hhw_stock.rs', 'src/models/forex/fx_hhw.rs'], [('step', 'src/models/forex/fx_hhw_stock.rs'), ('simulate', 'src/models/forex/fx_hhw_stock.rs'), ('new', 'src/models/forex/fx_hhw_stock.rs')],
         ['foreign_stock_path']),
    prop("C51", "Forward market model: volatilities, decay, bond prices and bank account",
         "For a tenor T_0 < ... < T_n (T_0 >= 0) with n initial rates, eta(t) is the first j >= 1 with T_j >= t, n + 1 if there is none; tau(j) = T_j - T_{j-1}; LinearDecay gamma(j, t) is 1 up to T_{j-1}, 0 from T_j on and (T_j - t)/tau(j) in between, and G(j, s, t) = gamma(j, s) - gamma(j, t). The volatility of rate j at t is the constant one, or the latest knot's at or before t (the first's before it), or Ho-Lee's (0 from T_j on, vol tau(j) without mean reversion, else vol (exp(-a(T_{j-1} - t)) - exp(-a(T_j - t)))/a); its level is 1, or beta_j R + (1 - beta_j) R_j(0) with betas; the adapted volatility is their product. P(t, T) is 1 at T = t; within one period the stub of that period; across periods the stub to the end of the current one, divided by 1 + tau R for every whole period between, times the back stub of T's period. The back stub is the market ratio times exp(G H Y/2 - G ln((1 + tau R) P_mkt)) with G = G(k, T_{k-1}, T), H = G(k, T, T_k); the front stub is the market ratio times exp(-G (ln P_mkt + ln(1 + tau R_start)) - G x - G^2 (Y - Y_start)/2 + Y_start (G(T, T_k) G(T_{k-1}, T) - G(t, T_k) G(T_{k-1}, t))/2). A path at the curve's own forwards prices every bond at time 0 as the curve does. The bank account is the product of 1 + tau R up to the end of the current period times the bond that matures then, and just the product beyond the last date. FlatCurve is exp(-r t).",
         ['inputs'], "every tenor, volatility schedule, set of betas, path state, curve, time and maturity",
         "tests price a handful of bonds on one tenor at today's state, where the variance corrections of the stubs vanish",
         ['src/models/interestrate/fmm.rs'], [('eta', 'src/models/interestrate/fmm.rs'), ('gamma', 'src/models/interestrate/fmm.rs'), ('sigma_at', 'src/models/interestrate/fmm.rs'), ('bond_price', 'src/models/interestrate/fmm.rs'), ('front_stub_bond', 'src/models/interestrate/fmm.rs'), ('bank_account', 'src/models/interestrate/fmm.rs')],
         ['forward_market_model', 'forward_market_bonds']),
    prop("C52", "Forward market model: correlation factor and simulated paths",
         "FmmSimulator::new is Err exactly when the correlation matrix has no lower triangular factor with positive diagonal, and otherwise uses the factor L with L L^T equal to it. The initial path has the initial rates, zero variances, time 0 and the first rate as its start. A step of length dt from t takes n normal draws z in order, dW_i = sqrt(dt) sum_k L_ik z_k; with volatilities, levels and decay at t + dt/2 and weights w_i = sigma_i level_i gamma_i tau_i/(1 + tau_i R_i), every rate j from eta(t) on moves by sigma_j level_j gamma_j (sum of rho_ij w_i for i = eta(t)..j dt + dW_j), earlier rates stay; the variance of rate j grows by (sigma_j level_j/(R_j + 1/tau_j))^2 min(dt, T_j - t) while t < T_j; while t is strictly inside the period of rate k = eta(t), x grows by (Y_k - Y_k_start)/tau_k dt + sigma_k level_k(mid)/(mid + 1/tau_k) dW_k with mid the mean of the old and new rate and Y_k the new variance; for every period entered by the end of the step the rate and variance are recorded as its start and x restarts at 0. The model's step in the generic simulator is the same step. simulate_terminal(T, m, p) makes p paths one after the other from the initial path, each of m steps of length T/m, and returns the ends.",
         ['inputs', 'histories'], "every tenor, correlation matrix, volatility schedule, set of betas, state, step, seed, number of steps and paths",
         "tests look at martingale means within Monte-Carlo error bars, where a wrong range of the drift's sum or a variance accrued past the period's end is invisible",
         ['src/models/interestrate/fmm.rs'], [('step', 'src/models/interestrate/fmm.rs'), ('cholesky', 'src/models/interestrate/fmm.rs'), ('simulate_terminal', 'src/models/interestrate/fmm.rs'), ('initial_path', 'src/models/interestrate/fmm.rs')],
         ['forward_market_path']),
    prop("C53", "COS pricer: cosine series of calls and puts, default range, put-call parity",
         "CosPricer::new takes 128 terms on [x - w, x + w] with x the characteristic function's log forward and w = 10 max(sqrt(typical variance x expiry), 1e-6); with_n_terms and with_range replace just the number of terms (at least 2) and just the range (a < b). For a strike K > 0 a call is the discount factor times the sum over k < N of Re(phi(u_k) exp(-i u_k a)) V_k with u_k = k pi/(b - a) and the k = 0 term halved, V_k = 2/(b - a) times the integral of (e^y - K) cos(u_k (y - a)) over y in [c, b], c being ln K cut to [a, b]; a put is the same with K - e^y over [a, c], so a strike outside the range gives zero for the one and the forward's payoff for the other. Call minus put is the discount factor times the series of e^y - K over the whole range, so for every characteristic function, strike, range and number of terms put-call parity holds to the accuracy of the forward's own series.",
         ['inputs'], "every characteristic function, number of terms, range, strike and discount factor",
         "tests compare a few Black-Scholes limits at 1e-4 with the default range, where a wrong coefficient of one frequency or a range that is not centred is hidden",
         ['src/models/common/cos_pricer.rs'], [('price_european', 'src/models/common/cos_pricer.rs'), ('chi_k', 'src/models/common/cos_pricer.rs'), ('psi_k', 'src/models/common/cos_pricer.rs'), ('new', 'src/models/common/cos_pricer.rs')],
         ['cos_series', 'cos_prices']),
    prop("C54", "FX Heston-Hull-White characteristic function",
         "For frequency u, B = i u and time left tau <= T the components are B, C(u, tau) = (B^2 - B)(1 - e^{-d tau})/(x + d - (x - d) e^{-d tau}) with x = kappa - gamma rho_xs B and d = sqrt(x^2 - gamma^2 B (B - 1)) (zero for tau <= 0), the solution of Heston's Riccati equation, and A(u, tau), Simpson's rule with n subintervals of [0, tau] for A'(s) = kappa theta C(s) + rho_sd gamma eta_d phi B_d C(s) (1 - B) + rho_sf gamma eta_f phi B_f B C(s) + (u^2 + B) ((rho_xd eta_d B_d - rho_xf eta_f B_f) phi + rho_df eta_d eta_f B_d B_f - (eta_d^2 B_d^2 + eta_f^2 B_f^2)/2), where phi = E sqrt(variance), B_d and B_f (Hull-White) are taken at calendar time T - s. The cached grid used for tau = T gives the same A as direct evaluation. assemble is exp(A + B x + C v); evaluate(u) is that for tau = T, x = ln(fx_0 e^{-rf T}/e^{-rd T}), v = sigma_0. evaluate(0) = 1, and for kappa > gamma rho_xs evaluate(-i) is the forward fx_0 e^{(rd - rf) T}. For the COS pricer: log forward x, expiry T, typical variance theta.",
         ['inputs'], "every parameter set with kappa > 0, expiry, even number of steps, complex frequency and time left",
         "tests compare with Monte-Carlo prices at percent accuracy for one parameter set with small rate correlations, where time running the wrong way in phi, B_d and B_f is invisible",
         ['src/models/forex/fx_hhw1_chf.rs'], [('c_of_tau', 'src/models/forex/fx_hhw1_chf.rs'), ('a_of_tau', 'src/models/forex/fx_hhw1_chf.rs'), ('a_of_tau_cached', 'src/models/forex/fx_hhw1_chf.rs'), ('build', 'src/models/forex/fx_hhw1_chf.rs'), ('evaluate', 'src/models/forex/fx_hhw1_chf.rs'), ('log_forward', 'src/models/common/cos_pricer.rs')],
         ['fx_hhw_characteristic', 'heston_riccati']),
    prop("C55", "FX Libor-market-model coefficients and characteristic function",
         "A domestic or foreign market model is accepted exactly when it has one volatility and one displacement per period, an n x n correlation matrix symmetric to 1e-12 with unit diagonal and entries within one, and positive reversion, vol of variance and variance; the FX correlations exactly when they fit the periods and lie within one; the parameters exactly when all three are. m(t) is the first date not before t (the last if none) and the live rates are m(t)+1..N. psi_k = tau_k sigma_k L_k/(1 + tau_k L_k). From the first live rate s, A_d (A_f) is the sum over i, j >= s of psi_i psi_j rho_ij, and f(t) = 2 E sqrt(v) E sqrt(v_d) sum psi_d rho_xd - 2 E sqrt(v) E sqrt(v_f) sum psi_f rho_xf - 2 E sqrt(v_d) E sqrt(v_f) sum psi_d psi_f rho_df. For the characteristic function time left [0, T] is cut where a date before the last passes and at T; on each stretch the live set is that of its middle. Starting from 0 the loadings D_d, D_f solve D' = A (B^2 - B)/2 - lambda D + eta^2 D^2/2 in closed form from stretch to stretch (B = i u), C is Heston's over T, and A adds Heston's kappa theta int C, lambda v_0 int D for both sides and (B^2 - B)/2 times Simpson's rule for f(T - s) on each stretch. evaluate(u) = exp(A + B ln(fx_0) + C sigma_0 + D_d v_d + D_f v_f) (both currencies share one curve, so the forward is the spot); evaluate(0) = 1, and for kappa > gamma rho evaluate(-i) = fx_0. For the COS pricer: log forward ln(fx_0), expiry T, typical variance theta.",
         ['inputs'], "every date grid, number of periods, parameter set with kappa > 0 and 1 + tau L > 0, expiry, even number of steps and complex frequency",
         "tests use equal volatilities, correlations and rates on one regular grid, where an index shifted by one or a cut in the wrong place changes nothing visible at percent accuracy",
         ['src/models/forex/fx_hlmm.rs', 'src/models/forex/fx_hlmm1_chf.rs'], [('validate', 'src/models/forex/fx_hlmm.rs'), ('m', 'src/models/forex/fx_hlmm.rs'), ('compute_a_side', 'src/models/forex/fx_hlmm.rs'), ('compute_f_linearised', 'src/models/forex/fx_hlmm.rs'), ('with_simpson_steps', 'src/models/forex/fx_hlmm1_chf.rs'), ('components', 'src/models/forex/fx_hlmm1_chf.rs'), ('advance_d_riccati', 'src/models/forex/fx_hlmm1_chf.rs'), ('evaluate', 'src/models/forex/fx_hlmm1_chf.rs')],
         ['libor_parameters', 'frozen_rates', 'fx_libor_characteristic']),
    prop("C56", "FX forward-market-model coefficients and characteristic function",
         "A domestic or foreign forward market model is accepted exactly when it has one finite non-negative volatility per period, an m x m correlation matrix symmetric to 1e-12 with unit diagonal and entries within one, and positive reversion, vol of variance and variance; the FX correlations (with both rates and with the variance, and rate by rate) exactly when they fit the periods and lie within one; the parameters exactly when all three are. psi_k(t) = tau_k sigma_k/(1 + tau_k R_k) times the decay of the k-th rate at t (one before its period, zero after, linear in between). From the first live rate s, A_d(t) (A_f(t)) is the sum over i, j >= s of psi_i psi_j rho_ij, and f(t) = 2 E sqrt(v) E sqrt(v_d) sum psi_d rho_xd - 2 E sqrt(v) E sqrt(v_f) sum psi_f rho_xf - 2 E sqrt(v_d) E sqrt(v_f) sum psi_d psi_f rho_df. For the characteristic function time left [0, T] is cut where a date before the last passes and at T, and each stretch into the given number of equal pieces; a piece uses A_d, A_f and the first rate whose date is not before its middle. Starting from 0 the loadings D_d, D_f solve D' = A (B^2 - B)/2 - lambda D + eta^2 D^2/2 in closed form from piece to piece (B = i u), C is Heston's over T, and A adds Heston's kappa theta int C, lambda v_0 int D for both sides and (B^2 - B)/2 times Simpson's rule for f(T - s) on each piece (the cached evaluation of f equals the direct one). evaluate(u) = exp(A + B ln(fx_0) + C sigma_0 + D_d v_d + D_f v_f) (both currencies share one curve, so the forward is the spot); evaluate(0) = 1, and for kappa > gamma rho evaluate(-i) = fx_0. For the COS pricer: log forward ln(fx_0), expiry T, typical variance theta.",
         ['inputs'], "every date grid, number of periods, parameter set with kappa > 0 and 1 + tau R > 0, expiry, number of pieces, even number of steps and complex frequency",
         "tests use equal volatilities, correlations and rates on one regular grid at one resolution, where an index shifted by one, a piece judged at its end or a cached coefficient of the wrong currency changes nothing visible",
         ['src/models/forex/fx_fmm.rs', 'src/models/forex/fx_fmm1_chf.rs'], [('validate', 'src/models/forex/fx_fmm.rs'), ('psi_base', 'src/models/forex/fx_fmm.rs'), ('psi_at', 'src/models/forex/fx_fmm.rs'), ('compute_a_side', 'src/models/forex/fx_fmm.rs'), ('compute_f_linearised', 'src/models/forex/fx_fmm.rs'), ('with_resolution', 'src/models/forex/fx_fmm1_chf.rs'), ('components', 'src/models/forex/fx_fmm1_chf.rs'), ('f_at', 'src/models/forex/fx_fmm1_chf.rs'), ('evaluate', 'src/models/forex/fx_fmm1_chf.rs')],
         ['forward_market_parameters', 'frozen_forward_rates', 'fx_forward_market_characteristic']),
    prop("C57", "FX forward-market-model simulated paths",
         "The drivers of spot, its variance, the m domestic and the m foreign rates, in that order, are correlated by the (2 + 2m) x (2 + 2m) matrix with ones for spot and variance, rho_xi_sigma between them, rho_xi_d, rho_xi_f, rho_sigma_d and rho_sigma_f beside them, each currency's rate correlations in its block, and (cross[i][j] + cross[j][i])/2 between domestic rate i and foreign rate j (and between domestic j and foreign i). A simulator is made exactly for valid parameters whose matrix is positive definite (no Cholesky pivot <= 0); it keeps them, starts its generator from the seed, and rotates by the lower triangular factor with positive diagonal whose square is that matrix. The initial state is fx_0, sigma_0, both currencies at the tenor's rates, only the first start rate set, all else 0, t = 0. A step of dt > 0 takes 2 + 2m draws in order and sets dW = sqrt(dt) L z. With v = max(variance, 0) and the rates R_d, R_f of the first period whose date is not before t (the last if none): spot becomes exp(ln fx + (R_d - R_f - v/2) dt + sqrt(v) dW_0), variance max(v + kappa (theta - v) dt + gamma sqrt(v) dW_1, 0). In each currency a rate j not before that period moves by a g (sum over i from that period to j of rho_ij w_i) dt + a g dW_j, where a is its volatility, g its decay at t + dt/2 and w_i = a_i g_i tau_i / (1 + tau_i R_i); a foreign rate moves also by -a g rho_xi_f[j] sqrt(v) dt; with g = 0 it stays. Before its date, y_j grows by (a/(R_j + 1/tau_j))^2 min(T_j - t, dt), R_j being the old rate. Inside a period k the current x grows by (y_k - y_k at the period's start)/tau_k dt + a_k/(mid + 1/tau_k) dW_k, mid the mean of the old and the new rate. Then t grows by dt; each period entered takes its rate and y as those at its start, and x becomes 0. The step of the simulation model does the same and leaves its argument alone; q paths of k steps to T are made one after the other from the initial state, each of k steps of T/k.",
         ['inputs'], "every valid parameter set, date grid, number of periods below 10^6, seed, state with positive spot and positive accruals before and after, step, horizon, number of steps and of paths",
         "tests use equal rates, volatilities and correlations in both currencies, where the blocks, the offsets into the draws and the sign of the quanto drift can be exchanged unnoticed",
         ['src/models/forex/fx_fmm_simulator.rs'], [('cholesky', 'src/models/forex/fx_fmm_simulator.rs'), ('build_joint_correlation', 'src/models/forex/fx_fmm_simulator.rs'), ('new', 'src/models/forex/fx_fmm_simulator.rs'), ('step', 'src/models/forex/fx_fmm_simulator.rs'), ('simulate_terminal', 'src/models/forex/fx_fmm_simulator.rs')],
         ['fx_forward_market_path']),
    prop("C58", "SABR smile calibration",
         "Fitting a SABR smile to volatilities at strikes keeps beta and returns parameters with alpha > 0, nu >= 0 and |rho| < 1 (from any initial alpha, nu and rho, also zero, negative or at the bounds). The objective reported by the optimiser is the sum over all quotes of (model volatility - market volatility)^2, the model volatility being Hagan's at those parameters, the forward, the quote's strike and the expiry, or 10^6 if one of them is not positive. The error is the root of that sum divided by the number of quotes. The fit is no worse than its start, the initial parameters with alpha and nu raised to at least 1e-8 and rho put inside +-0.999: its objective is at most theirs. Quotes from two lists are the pairs in order, the model's volatilities on a grid are Hagan's at each strike in order, and calibrating to a market smile is the same fit to the smile's strikes, volatilities, forward and expiry, with its parameters, error and optimiser record.",
         ['inputs'], "every initial parameter set with beta in [0, 1], forward, expiry, quotes with positive strikes, and optimiser options",
         "tests start near the truth of one smile and look at the fit error, where a wrong weight, count or start still converges",
         ['src/models/forex/sabr_calibrator.rs', 'src/models/forex/market_data.rs'], [('calibrate', 'src/models/forex/sabr_calibrator.rs'), ('reify', 'src/models/forex/sabr_calibrator.rs'), ('softplus', 'src/models/forex/sabr_calibrator.rs'), ('inv_softplus', 'src/models/forex/sabr_calibrator.rs'), ('model_implied_vols', 'src/models/forex/sabr_calibrator.rs'), ('sabr_targets', 'src/models/forex/market_data.rs')],
         ['sabr_smile_fit']),
    prop("C59", "Heston-Hull-White smile calibration",
         "Fitting the Heston part of the FX Heston-Hull-White model to volatilities at strikes changes only kappa, gamma, theta, sigma_0 and rho_xi_sigma; spot, rates, their Hull-White processes and the other correlations are kept. The result has kappa > the floor, gamma, theta and sigma_0 > 0 and |rho_xi_sigma| < 1, from any initial values; in the bounded variant also gamma < its cap. The objective reported by the optimiser is the sum over all quotes of (model volatility - market volatility)^2, or 10^6 if a quote has no model volatility: the model volatility is the one implied by the COS call price of the returned parameters at the quote's strike and the expiry T, with discount factor e^(-r_d T) and forward fx_0 e^(-r_f T)/e^(-r_d T). The error is the root of that sum divided by the number of quotes. The fit is no worse than its start, the initial parameters with kappa - floor, gamma, theta and sigma_0 raised to at least 1e-8, rho_xi_sigma put inside +-0.999, and, with a cap, gamma/cap put inside [0.0001, 0.9999]. Quotes from two lists are the pairs in order, model volatilities on a grid and call prices are those above, and calibrating to a market smile is the same fit to its strikes, volatilities and expiry, bounded exactly if a cap is given.",
         ['inputs'], "every initial parameter set with positive spot, expiry, floor >= 0, cap > 0, quotes with positive strikes, and optimiser options",
         "tests start near the truth of one smile and look at the fit error and a few bounds, where a wrong discount factor, start or dropped quote still converges",
         ['src/models/forex/fx_hhw_calibrator.rs', 'src/models/forex/market_data.rs'], [('calibrate', 'src/models/forex/fx_hhw_calibrator.rs'), ('calibrate_bounded', 'src/models/forex/fx_hhw_calibrator.rs'), ('reify_params', 'src/models/forex/fx_hhw_calibrator.rs'), ('reify_params_bounded', 'src/models/forex/fx_hhw_calibrator.rs'), ('model_implied_vols', 'src/models/forex/fx_hhw_calibrator.rs'), ('price_call', 'src/models/forex/fx_hhw_calibrator.rs'), ('hhw_targets', 'src/models/forex/market_data.rs')],
         ['hhw_smile_fit']),
    prop("C60", "Market-model smile calibration",
         "Fitting the Heston part of an FX model with one rate model per currency (Libor or forward market model) to volatilities at strikes changes only kappa, gamma, theta, sigma_0 and rho_xi_sigma; spot, tenor, both rate models and the other correlations are kept. The result has kappa > the floor, gamma, theta and sigma_0 > 0 and |rho_xi_sigma| < 1, from any initial values. The objective reported by the optimiser is the sum over all quotes of (model volatility - market volatility)^2, or 10^6 if a quote has no model volatility or the parameters do not validate: the model volatility is the one implied by the COS call price of the returned parameters at the quote's strike and the expiry T, with forward fx_0 and the domestic discount factor. That factor is the product of 1/(1 + tau_k R_k) over all periods, times exp(-R_n (T - T_n)) with the last rate if T is beyond the last date T_n. The error is the root of that sum divided by the number of quotes. The fit is no worse than its start, the initial parameters with kappa - floor, gamma, theta and sigma_0 raised to at least 1e-8 and rho_xi_sigma put inside +-0.999. Quotes from two lists are the pairs in order, model volatilities on a grid, call prices, forwards and discount factors are those above, and calibrating to a market smile is the same fit to its strikes, volatilities and expiry.",
         ['inputs'], "every initial parameter set with positive spot, below 10^6 periods and positive accruals, expiry, floor >= 0, quotes with positive strikes, and optimiser options",
         "tests start near the truth of one smile and look at the fit error, where a wrong discount factor, start or dropped quote still converges",
         ['src/models/forex/fx_hlmm_calibrator.rs', 'src/models/forex/fx_fmm_calibrator.rs'], [('calibrate', 'src/models/forex/fx_hlmm_calibrator.rs'), ('reify_params', 'src/models/forex/fx_hlmm_calibrator.rs'), ('discount_factor', 'src/models/forex/fx_hlmm_calibrator.rs'), ('forward_fx', 'src/models/forex/fx_hlmm_calibrator.rs'), ('model_implied_vols', 'src/models/forex/fx_hlmm_calibrator.rs'), ('price_call', 'src/models/forex/fx_hlmm_calibrator.rs'), ('calibrate', 'src/models/forex/fx_fmm_calibrator.rs'), ('reify_params', 'src/models/forex/fx_fmm_calibrator.rs'), ('discount_factor', 'src/models/forex/fx_fmm_calibrator.rs'), ('forward_fx', 'src/models/forex/fx_fmm_calibrator.rs'), ('model_implied_vols', 'src/models/forex/fx_fmm_calibrator.rs'), ('price_call', 'src/models/forex/fx_fmm_calibrator.rs')],
         ['hlmm_smile_fit', 'fmm_smile_fit']),
]

NOT_APPLICABLE = []
