"""Per-property configuration of bin/check and bin/manifest."""
TRUSTED = [
    "Verus 0.2026.09.13 and its Z3; rustc",
    "the extractor (/verif/extractor): rewrites listed in DESIGN.md, report per run under coverage.extraction",
]
COMMON_ASSUMPTIONS = []
CHRONO = ["specs/prelude/chrono.vrs: contracts assumed for chrono::NaiveDate/TimeDelta/Months (validated on the real chrono by the SHIM contracts: exhaustively over 1901-2199 for single-date facts)"]
REAL = ["specs/prelude/real.vrs: f64 arithmetic treated as real arithmetic (rounding, overflow and NaN are not modelled); sqrt/exp/ln and the normal distribution are uninterpreted with the algebraic facts listed there"]
LIVE = "calendars are deterministic and have a business day within 100 days on either side of every date"

FINYEARS = "financial dates between the years 3 and 9857"
ADV = "specs/prelude/advance_lib.vrs: Calendar::advance by its contract, proved in C02"
DCC = "specs/prelude/daycounter.vrs: any day counter whose results are functions of the two dates (the counters: C11-C13)"
NORMAL = ["specs/prelude/normal.vrs: statrs Normal(0,1) as the standard normal distribution, with symmetry, positivity, strict monotonicity and the quantile as inverse (checked against an independent computation by the executable contract normal_functions)"]
IMMLIB = "specs/prelude/immlib.vrs: IMM::date and IMM::next_date by their contracts, proved in C14"


def P(title, spec, trusted, assumptions, **k):
    pid = spec
    d = dict(title=title, level="proof", verus=[spec], replay=[pid], shim=False, trusted=trusted, assumptions=assumptions)
    d.update(k)
    return d


PROPS = {
    "C01": P("Business-day adjustment returns the date its convention defines", "C01", CHRONO, [LIVE], shim=True),
    "C02": P("Advancing a date counts business days and applies the convention", "C02", CHRONO, [LIVE, "business-day counts up to 100 000 and results away from the ends of chrono's date range"]),
    "C03": P("The business-day count is the number of business days in the range", "C03", CHRONO, ["chrono's iter_days().take(n) enumerates n consecutive days (SHIM contract shim_iter_days)"], shim=True),
    "C04": P("The month end is the last calendar day, or last business day, of the month", "C04", CHRONO, [LIVE]),
    "C05": P("Adding, subtracting or scaling a period is exact, or an error", "C05", CHRONO, [], shim=True),
    "C06": P("Far- and near-leg settlement dates follow the spot-lag rule", "C06", CHRONO, [LIVE]),
    "C07": P("Every FX pair uses its own currencies, calendars, lag and cut-off", "C07", CHRONO + REAL + ["FXUnderlying::dom_currency / frn_currency (variant name cut into two ISO codes): assumed, checked for all 60 pairs by the executable contract pair_conventions", "JointCalendar::new: assumed here, proved in C08"], [LIVE + " on the pair's calendar"]),
    "C08": P("A joint calendar is open exactly when all its members are", "C08", CHRONO, []),
    "C09": P("National calendars close exactly on weekends and their holidays", "C09", CHRONO + ["contracts/src/oracle.rs: the rules themselves, read as specification by Verus and run against the real calendars for every date of 1901-2199", "Verus's proof-by-computation for the plausibility of the table entries"],
             ["years 1901-2199 (the tables' range)", "Chile's solstice days are the table's in the Verus part; the executable contract computes them astronomically"], verus=["C09a", "C09b", "C09c", "C09us"], secs=12),
    "C10": P("Easter dates are those of the computus and fall on a Monday", "C10", CHRONO + ["Verus's proof-by-computation over the two tables"], []),
    "C11": P("Day counters give the count and fraction of their rule", "C11", CHRONO + REAL, []),
    "C12": P("Actual/Actual fractions are additive (ISDA) and match the AFB rule", "C12", CHRONO + REAL, ["AFB rule: first date not after the second"]),
    "C13": P("Business/252 counts exactly the business days of its calendar", "C13", CHRONO + REAL, []),
    "C14": P("IMM dates and codes agree and the next date is never skipped", "C14", CHRONO + ["specs/C14.vrs: contracts assumed for String/char/Chars, strum's EnumIter/EnumString/Display of the month letters and Utc::now (validated by the executable contracts imm_codes, imm_code_strings, imm_code_resolution)"], ["code resolution: reference years 1910-179999"]),
    "C20": P("FX forward points are read off the quotes' own settlement dates", "C20", CHRONO + REAL + ["specs/prelude/fwdpoints.vrs: sort_unstable_by_key and binary_search_by_key on the dates of a list of (date, value) pairs by their documented contracts"], [LIVE], rlimit=60),
    "C21": P("The curve's zero rates, discount factors and forwards are consistent", "C21", CHRONO + REAL, ["pillars in strictly increasing date order, at least one visible", FINYEARS], rlimit=60),
    "C22": P("Deposit and futures pillars reproduce their quotes", "C22", CHRONO + REAL + [ADV, DCC, IMMLIB], [LIVE, "positive growth over the quote's period; futures: pillars so far in date order, valuation from 1910 on", FINYEARS], rlimit=60),
    "C30": P("A swap's schedule is its own, or the one its terms generate", "C30", CHRONO + REAL + [ADV], [LIVE, "at most 100 000 periods, tenor of at least one unit, a frequency that has a period"], rlimit=60),
    "C31": P("A swap's value and greeks are those of its discounted cashflows", "C31", CHRONO + REAL + [ADV, DCC], [LIVE, "as C21 and C30; non-zero year fractions", FINYEARS], rlimit=60),
    "C32": P("FX forwards are worth their discounted forward difference", "C32", CHRONO + REAL, [LIVE, "non-zero strike; C20 and C21 for the market data"], rlimit=60),
    "C33": P("FX options are worth their Black-Scholes value", "C33", CHRONO + REAL + NORMAL, [LIVE, "positive strike and forwards, non-zero spot and (in the proof) volatility; market and forwards of the same valuation date"], rlimit=60),
    "C34": P("Bachelier and Black prices follow their formulas and invert", "C34", REAL + NORMAL, ["positive forward and strike for the Black prices, tolerance not negative"], rlimit=60),
    "C24": P("Caplet volatilities are read off the stripped surface", "C24", CHRONO + REAL, ["strikes increase within each pillar"]),
    "C35": P("Caplet variance follows its fixing convention", "C35", REAL, []),
    "C36": P("Caps and floors are worth their caplets", "C36", CHRONO + REAL + NORMAL, [LIVE, "accrual fractions are not zero; strikes increase within each pillar of the surface"], rlimit=60),
    "C37": P("Stripped caplet volatilities reprice the cap quotes", "C37", CHRONO + REAL + NORMAL + ["specs/prelude/strip.vrs: roots::find_root_brent by its documented contract (residual below 1e-10, or a sign change within 1e-10 of the result), slice::sort_by_key by its documented contract"], ["accrual fractions are not zero", "the assembly of the strips into pillars (strip_caplet_vols) is checked by the executable contract cap_stripping only"], rlimit=60),
    "C25": P("The FX volatility surface goes through every quote", "C25", CHRONO + REAL + NORMAL + ["specs/prelude/fxvol.vrs, fxsmile.vrs: slice::sort_by, sort_by_key and binary_search_by_key by their documented contracts (stable sort; a search result is a position of the key or its insertion point)"], ["deltas within 1e-9 of each other form groups (the relation is transitive on the quotes)", "at-the-money volatilities are above zero", "fewer than 1e9 quotes per pillar", "dates within the representable range of the spec (fin)"], rlimit=60),
    "C26": P("The FX market context answers from the market data it was given", "C26", CHRONO + REAL + NORMAL + ["specs/prelude/sort0.vrs, fwdpoints.vrs, fxvol.vrs, fxsmile.vrs: slice sorts and binary searches by their documented contracts", "specs/C26.vrs: YieldTermMarketData::get_stripped_curve is some function of the market data (its pillars are C23)"], ["curves with pillars in date order, at least one visible", "volatility pillars as in C25", "dates within the representable range of the spec (fin)"], rlimit=60),
    "C40": P("A dated Monte Carlo run walks every path over the whole grid and captures it on every observation date", "C40", CHRONO + REAL + ["specs/prelude/daycounter.vrs: the day counter is any function of the two dates that succeeds", "specs/prelude/simul.vrs: a SimulationModel is a deterministic function of itself, the state, t and dt; Clone gives an equal value; Vec::sort, dedup and binary_search by their documented contracts; the random generator is some function of its state, seeded by seed_from_u64", "DatedPaths::sample is checked by the executable contract only (bounded, not proved)"], ["observation dates after the valuation date and at least max_step_days before the end of the calendar; n_paths and max_step_days positive (the function panics otherwise)"], rlimit=60),
    "C23": P("The bootstrapped curve has one pillar per quote, and each swap quote reprices on it", "C23", CHRONO + REAL + [ADV, DCC, IMMLIB, "specs/prelude/brent.vrs: roots::find_root_brent by its documented contract (residual below the tolerance, or a sign change within it of the result)", "specs/prelude/datevec.vrs: Vec::sort and dedup by their documented contracts", "specs/prelude/bootstrap.vrs: slice::to_vec copies; Result::unwrap of the root finder panics without a root (the contract speaks about runs that return)"], ["quotes readable at the valuation date; futures only after a cash quote and maturing after every earlier quote, swaps not before any earlier quote", "the root finder finds a root (solve_zero_rate panics otherwise)", LIVE, FINYEARS], rlimit=60),
    "C42": P("Hull-White: duration, variances, affine bonds and simulated paths", "C42", REAL + ["specs/prelude/rng.vrs: the generator and its standard normal draws as a deterministic stream", "specs/prelude/hullwhite.vrs: the drift target as a function with state (Box<dyn FnMut>)"], ["with_theta_fn is only exercised by the executable contract"]),
    "C43": P("Cox-Ingersoll-Ross: moments, mean square root and simulated paths", "C43", REAL + ["specs/prelude/rng.vrs: the generator and its standard normal draws as a deterministic stream", "specs/prelude/cir.vrs: statrs ln_gamma as the (uninterpreted) log-gamma function"], ["kappa, theta > 0 and sigma_0 >= 0 for the mean square root; a mean of at least 1e-300", "how close the cut series comes to the full one is checked by the executable contract against a quadrature of the Laplace transform"]),
    "C44": P("SABR: Hagan's implied volatility and simulated paths", "C44", REAL + ["specs/prelude/rng.vrs: the generator and its standard normal draws as a deterministic stream", "specs/prelude/sabr.vrs: powf of a positive base is positive, and a square to half an exponent is the base to the exponent"], ["alpha > 0, 0 <= beta <= 1, -1 < rho < 1, nu >= 0; positive forward, strike and expiry (asserted by the code)"]),
    "C45": P("Dupire local volatility: the surface on the market grid and its interpolation", "C45", REAL + NORMAL + ["specs/prelude/dupire.vrs: vec![x; n] repeats x; slice::to_vec copies"], ["strictly increasing expiries and strikes, positive strikes and spot, a rectangular grid (asserted by the code except for the sign of the strikes)"]),
    "C41": P("Nelder-Mead: the walk of the simplex and the best point seen", "C41", REAL + ["specs/prelude/simplex.vrs: the objective as a trait with a record of its calls (F: FnMut(&[f64]) -> f64 replaced by it)", "specs/prelude/simplex.vrs: slice sort_by and Iterator::min_by on indices compared by the values they point at; vec![x; n]; to_vec, clone"], ["the objective is a fixed function with values that can be compared (no NaN: the code panics), called in the recorded order", "at least one coordinate (asserted by the code)"], rlimit=60),
    "C46": P("Piecewise constant schedules and the effective parameters of the time-dependent SABR model", "C46", REAL + ["specs/prelude/effective.vrs: exp_m1 is e^x - 1, to_vec keeps the elements"], ["the root of Lemma 4.1 lies below 2^22 (asserted by the code)", "levels are not zero and schedules share their knots (asserted by the code)", "the segment formulas (with their expansions near zero) are the integrals: compared with quadrature on every run"], rlimit=60),
    "C47": P("Time-dependent SABR parameters and simulated paths", "C47", REAL + ["specs/prelude/rng.vrs: the generator is a function of its state"], ["the times asked for lie within the schedules (asserted by the code)", "the distribution of the draws is the generator's"], rlimit=60),
    "C48": P("SABR with a local volatility compensator: the particle simulation", "C48", REAL + ["specs/prelude/rng.vrs: the generator is a function of its state", "specs/prelude/slv.vrs: slice sort_by on the first component is the stable sort, div_ceil rounds up"], ["the schedules cover the horizon (asserted by the code)", "fewer than half of the address space of particles and bins"], rlimit=60),
    "C49": P("FX-Heston-Hull-White: correlation factor and simulated paths", "C49", REAL + ["specs/prelude/rng.vrs: the generator is a function of its state", "specs/prelude/fxhhw.vrs: a boxed target closure is a function of its state and the time"], ["the distribution of the draws is the generator's", "spot positive"], rlimit=60),
    "C50": P("FX-Heston-Hull-White with a foreign stock: simulated paths", "C50", REAL + ["specs/prelude/rng.vrs: the generator is a function of its state"], ["the distribution of the draws is the generator's", "FX spot and stock positive"], rlimit=60),
    "C51": P("Forward market model: volatilities, decay, bond prices and bank account", "C51", REAL + ["specs/prelude/fmm.vrs: x.powf(y) = exp(y ln x) for positive x"], ["1 + tau R is positive on the path and discount factors of the curve are positive", "the tenor and correlations satisfy what the constructors assert"], rlimit=60),
    "C52": P("Forward market model: correlation factor and simulated paths", "C52", REAL + ["specs/prelude/rng.vrs: the generator is a function of its state", "specs/prelude/fmmsim.vrs: a derived clone is the value"], ["the distribution of the draws is the generator's", "1 + tau R stays positive on the path"], rlimit=60),
    "C53": P("COS pricer: cosine series of calls and puts, default range, put-call parity", "C53", REAL + ["specs/prelude/complex.vrs: num_complex addition, multiplication, division, scaling and exp are those of complex numbers; sin and cos uninterpreted", "that chi and psi are the integrals of e^y cos and cos is calculus, checked numerically by the executable contract"], ["the truncation error of the series is not bounded"], rlimit=60),
    "C54": P("FX Heston-Hull-White characteristic function", "C54", REAL + ["specs/prelude/complex.vrs: num_complex addition, multiplication, division, scaling, exp and sqrt are those of complex numbers", "specs/prelude/chfbase.vrs: E sqrt(variance) is a function of the process and time (its contract is C43)", "that C solves the Riccati equation is checked numerically by the executable contract"], ["frequencies where the denominator of C vanishes (moment explosion) are outside the precondition"], rlimit=60),
    "C55": P("FX Libor-market-model coefficients and characteristic function", "C55", REAL + ["specs/prelude/complex.vrs: num_complex addition, multiplication, division, scaling, exp, ln and sqrt are those of complex numbers (ln 1 = 0)", "specs/prelude/chfbase.vrs: E sqrt(variance) is a function of the process and time (its contract is C43)", "that the closed forms solve their Riccati equations is checked numerically by the executable contract"], ["frequencies where a denominator vanishes (moment explosion) are outside the precondition", "LiborTenor::active (an iterator) is covered by the executable contract only"], rlimit=60),
    "C56": P("FX forward-market-model coefficients and characteristic function", "C56", REAL + ["specs/prelude/complex.vrs: num_complex addition, multiplication, division, scaling, exp, ln and sqrt are those of complex numbers (ln 1 = 0)", "specs/prelude/chfbase.vrs: E sqrt(variance) is a function of the process and time (its contract is C43)", "f64::is_finite is true of every real number", "that the closed forms solve their Riccati equations is checked numerically by the executable contract"], ["frequencies where a denominator vanishes (moment explosion) are outside the precondition"], rlimit=60),
    "C57": P("FX forward-market-model simulated paths", "C57", REAL + ["specs/prelude/rng.vrs: the generator is a function of its state", "specs/prelude/fxfmmsim.vrs: a derived clone is the value"], ["the distribution of the draws is the generator's", "1 + tau R stays positive in both currencies and spot stays positive, before and after each step"], rlimit=60),
    "C58": P("SABR smile calibration", "C58", REAL + ["specs/prelude/calib.vrs: tanh stays inside (-1, 1) and atanh inverts it; nelder_mead returns one of the points it asked for, no worse than its start (proved in C41)", "specs/prelude/sabrcal.vrs: hagan_implied_vol is a function of its arguments (its value is proved in C44)"], ["the quotes are finite"]),
    "C59": P("Heston-Hull-White smile calibration", "C59", REAL + ["specs/prelude/calib.vrs: tanh stays inside (-1, 1) and atanh inverts it; nelder_mead returns one of the points it asked for, no worse than its start (proved in C41)", "specs/prelude/hhwcal.vrs: the COS price and the implied volatility are functions of their arguments (their values are proved in C53 and C34)"], ["the quotes are finite"]),
    "C60": P("Market-model smile calibration", "C60", REAL + ["specs/prelude/calib.vrs: tanh stays inside (-1, 1) and atanh inverts it; nelder_mead returns one of the points it asked for, no worse than its start (proved in C41)", "specs/prelude/hlmmcal.vrs, fmmcal.vrs: the COS price and the implied volatility are functions of their arguments (their values are proved in C53 and C34), validation is a function of the parameters (proved in C55 and C56), a derived clone is the value"], ["the quotes are finite"], verus=["C60a", "C60b"]),
}
