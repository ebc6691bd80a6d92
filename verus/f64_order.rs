// ---------------------------------------------------------------- doubles as an ordered set
// Comparisons of doubles that are not NaN are comparisons of their ranks.  Every axiom here is an obligation that
// Kani discharges over all doubles (contracts/f64_axioms.rs), with rank = position of the value among the doubles.
pub uninterp spec fn rank(x: f64) -> int;
pub uninterp spec fn num(x: f64) -> bool; // not NaN
pub uninterp spec fn fin(x: f64) -> bool; // finite
pub broadcast axiom fn ax_lt(a: f64, b: f64, o: bool) requires num(a), num(b), #[trigger] vstd::std_specs::cmp::lt_ensures(a, b, o) ensures o == (rank(a) < rank(b));
pub broadcast axiom fn ax_le(a: f64, b: f64, o: bool) requires num(a), num(b), #[trigger] vstd::std_specs::cmp::le_ensures(a, b, o) ensures o == (rank(a) <= rank(b));
pub broadcast axiom fn ax_gt(a: f64, b: f64, o: bool) requires num(a), num(b), #[trigger] vstd::std_specs::cmp::gt_ensures(a, b, o) ensures o == (rank(a) > rank(b));
pub broadcast axiom fn ax_ge(a: f64, b: f64, o: bool) requires num(a), num(b), #[trigger] vstd::std_specs::cmp::ge_ensures(a, b, o) ensures o == (rank(a) >= rank(b));
pub broadcast axiom fn ax_eq(a: f64, b: f64, o: bool) requires num(a), num(b), #[trigger] vstd::std_specs::cmp::eq_ensures(a, b, o) ensures o == (rank(a) == rank(b));
pub broadcast axiom fn ax_ne(a: f64, b: f64, o: bool) requires num(a), num(b), #[trigger] vstd::std_specs::cmp::ne_ensures(a, b, o) ensures o == (rank(a) != rank(b));
pub broadcast axiom fn ax_fin(a: f64) requires #[trigger] fin(a) ensures num(a);
/// What lies between two finite numbers is finite.
pub axiom fn ax_between(a: f64, x: f64, b: f64) ensures fin(a) && fin(b) && num(x) && rank(a) <= rank(x) <= rank(b) ==> fin(x);
// sums and differences of finite numbers, as (uninterpreted) functions; a non-negative summand moves weakly up or down
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fsub(a: f64, b: f64) -> f64;
pub broadcast axiom fn ax_add(a: f64, b: f64, o: f64) requires fin(a), fin(b), #[trigger] vstd::std_specs::ops::add_ensures(a, b, o) ensures o == fadd(a, b);
pub broadcast axiom fn ax_sub(a: f64, b: f64, o: f64) requires fin(a), fin(b), #[trigger] vstd::std_specs::ops::sub_ensures(a, b, o) ensures o == fsub(a, b);
pub broadcast axiom fn ax_fadd(a: f64, b: f64) ensures fin(a) && fin(b) ==> num(#[trigger] fadd(a, b)) && (rank(b) >= rank(0.0f64) ==> rank(fadd(a, b)) >= rank(a)) && (rank(a) >= rank(0.0f64) ==> rank(fadd(a, b)) >= rank(b));
pub broadcast axiom fn ax_fsub(a: f64, b: f64) ensures fin(a) && fin(b) ==> num(#[trigger] fsub(a, b)) && (rank(b) >= rank(0.0f64) ==> rank(fsub(a, b)) <= rank(a));
/// Half the sum of two numbers up to half the largest double lies between them.
pub uninterp spec fn small(x: f64) -> bool;
pub uninterp spec fn fhalf(x: f64) -> f64;
pub broadcast axiom fn ax_half(a: f64, o: f64) requires #[trigger] vstd::std_specs::ops::div_ensures(a, 2.0f64, o) ensures o == fhalf(a);
pub axiom fn ax_mid(a: f64, b: f64) ensures small(a) && small(b) && rank(a) <= rank(b) ==> num(fhalf(fadd(a, b))) && rank(a) <= rank(fhalf(fadd(a, b))) <= rank(b);
/// Infinity is above all finite numbers.
pub uninterp spec fn infinite() -> f64;
pub axiom fn ax_inf(a: f64) ensures num(infinite()), fin(a) ==> rank(a) < rank(infinite()), num(a) ==> rank(a) <= rank(infinite());
pub uninterp spec fn minus_infinite() -> f64;
pub axiom fn ax_minus_inf(a: f64) ensures num(minus_infinite()), num(a) ==> rank(minus_infinite()) <= rank(a);
pub axiom fn ax_zero() ensures fin(0.0f64);
pub broadcast axiom fn ax_add_req(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast axiom fn ax_sub_req(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn ax_div_req(a: f64, b: f64) ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b);
pub broadcast group f64_order { ax_add_req, ax_sub_req, ax_div_req, ax_lt, ax_le, ax_gt, ax_ge, ax_eq, ax_ne, ax_fin, ax_add, ax_sub, ax_fadd, ax_fsub, ax_half }
