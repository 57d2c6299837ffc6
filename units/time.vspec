@@include prelude.vinc
verus! {
@@set time on
@@set clock on
@@include time.vinc
proof fn theorem_whole(n: int, unit: int) requires unit > 0 ensures whole(n * unit, unit) == n
{ if n >= 0 { assert(n * unit >= 0) by (nonlinear_arith) requires n >= 0, unit > 0; vstd::arithmetic::div_mod::lemma_div_by_multiple(n, unit); } else { vstd::arithmetic::div_mod::lemma_div_by_multiple(-n, unit); assert((-n) * unit == -(n * unit)) by (nonlinear_arith); assert(n * unit < 0) by (nonlinear_arith) requires n < 0, unit > 0; } }
/// what a time is made from reads back
fn theorem_reads_back(n: i64) requires dur_ok(n * minute())
{
    proof { theorem_whole(n as int, minute()); theorem_whole(n as int, second()); theorem_whole(n as int, milli()); theorem_whole(n as int, micro()); }
    let t = Time::from_minutes(n); assert(t.ns() == n * minute()); let x = t.num_minutes(); assert(x == n);
    let t = Time::from_secs(n); let x = t.num_seconds(); assert(x == n);
    let t = Time::from_milliseconds(n); let x = t.num_milliseconds(); assert(x == n);
    let t = Time::from_microseconds(n); let x = t.num_microseconds(); assert(x == Some(n));
    let mut t = Time::from_nanoseconds(n); let x = t.num_nanoseconds(); assert(x == Some(n));
    let g = t; t.add_nanoseconds(n); t.sub_nanoseconds(n); assert(t.ns() == g.ns());
}
}
fn main() {}
