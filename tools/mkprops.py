#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))
T = "crates/aether_time/src/time/"
C = "crates/aether_core/src/"

prop("T01", "Durations and instants form one exact, canonical nanosecond line",
 "Every duration built from seconds, milliseconds, microseconds or nanoseconds (negative ones included), and every instant or duration obtained from canonical ones by adding or subtracting, denotes exactly the mathematical number of nanoseconds and is stored canonically with 0 <= nanoseconds < 1e9. Consequently (t + d) - t = d, (t + d) + e = t + (d + e), by-reference and by-value operators agree, and comparison, equality and order of instants and durations are those of the numbers they denote.",
 ["inputs", "histories"], "every sequence of constructions, additions, subtractions and comparisons on instants and durations whose results fit the i64 second field",
 "aether_time has no tests at all; the defects are in borrow/carry corner cases of negative and sub-second values.",
 [T+"duration.rs", T+"time.rs"], [("Duration", "sec + nano_sec/1e9 with 0<=nano_sec<1e9", T+"duration.rs"), ("Time<TS>", "an instant on scale TS", T+"time.rs")],
 [("carry/borrow normalisation", T+"duration.rs:Duration::normalize"), ("Add/Sub for Time and &Time", T+"duration.rs")],
 ["Duration::{sec,nano_sec}", "Time::{sec,nano_sec}", "Ord/Eq"])

prop("T02", "Time-scale conversions are exact, invertible and leap-second consistent",
 "For whatever leap-second count is currently set, Unix, UTC, TAI and GPS conversions satisfy UTC=Unix, TAI-UTC = 10 s + leap seconds (27 leap seconds until another count is set), and TAI-GPS = 19 s from the GPS epoch 1980-01-06 (Unix 315964800), keep the nanoseconds, and every round trip returns the original instant. Splitting a GPS instant into weeks yields a week number modulo 1024 in 0..1023, a second of week in 0..604799 that together with the week reproduces the instant modulo 1024 weeks, and the non-negative full week congruent to it that is nearest to the hint.",
 ["inputs", "histories"], "every instant (before and after each epoch), every history of leap-second settings, every week hint below 2^31",
 "No tests exist for this crate; the guarantee ranges over all instants, leap settings and rollover windows.",
 [T+"time.rs", T+"gps.rs"], [("LEAP_SECONDS", "process-wide leap second count", T+"time.rs:LEAP_SECONDS")],
 [("offset arithmetic", T+"time.rs"), ("rollover window choice", T+"gps.rs:Time<GPS>::to_gps_week")],
 ["to_utc/to_tai/to_gps/to_unix results", "GpsWeekTime fields"])

prop("T03", "TAI/GPS conversions never observe a torn leap-second update",
 "The TAI-GPS relation is a constant, so a TAI-to-GPS or GPS-to-TAI conversion returns the same instant no matter how many leap-second updates other threads perform while it runs. A conversion to or from UTC that overlaps updates returns the result for exactly one of the leap-second values in force during the call.",
 ["schedules"], "every interleaving of conversions with concurrent leap-second updates",
 "A unit test runs one schedule; no test sets the leap count at all.",
 [T+"time.rs"], [("LEAP_SECONDS", "shared atomic", T+"time.rs:LEAP_SECONDS")],
 [("single atomic load per conversion", T+"time.rs")], ["to_tai", "to_gps", "to_utc"])

prop("T04", "UTC calendar conversion is the proleptic Gregorian calendar, both ways",
 "Converting an instant to a UTC date and time gives the proleptic Gregorian year, month (1-12), day (1-31), hour, minute and second (with the nanoseconds preserved) of that instant, for instants before and after 1970 and years before and after 0. Converting back returns the original instant, and dates are ordered exactly as their instants.",
 ["inputs"], "every instant whose year fits in i32, every valid calendar date",
 "There are no calendar tests; leap-year centuries, negative days and negative eras are a handful of residue classes among billions of days.",
 [T+"schedule.rs"], [("UtcDateTime", "civil date", T+"schedule.rs:UtcDateTime")],
 [("era-based civil conversion", T+"schedule.rs:days_to_ymd"), ("inverse", T+"schedule.rs:from_utc_datetime")],
 ["Time<UTC>::to_utc_datetime", "Time<UTC>::from_utc_datetime"])

prop("T05", "Alarms and schedules fire exactly at the due instants, never twice, never skip",
 "An alarm, and a schedule with the Once pattern, fires on the first check whose time is not before its target and never again. A repeating schedule (interval, hourly, daily, yearly) fires on a check exactly when the check time is not before the announced next instant; after each creation or firing the announced next instant is the earliest instant matching the pattern (for an interval: start plus a whole number of periods) strictly later than the time of that creation or firing, before and after 1970 alike. A check always terminates, also for a zero or negative interval, which fires at every check that is not before its next instant.",
 ["histories", "inputs"], "every pattern and every non-decreasing or jumping sequence of check times; 29 February is observed on 1 March in common years",
 "No tests exist; the property relates unbounded histories of check calls to the calendar.",
 [T+"schedule.rs"], [("UtcSchedule::next_fire", "announced next instant", T+"schedule.rs:UtcSchedule"), ("UtcAlarm::fired", "one-shot latch", T+"schedule.rs:UtcAlarm")],
 [("next_* searches", T+"schedule.rs:next_hourly,next_daily,next_yearly"), ("catch-up loop", T+"schedule.rs:UtcSchedule::check")],
 ["UtcAlarm::check", "UtcSchedule::check", "UtcSchedule::next_fire"])

prop("T06", "Tick clocks and periodic timers lose no time and no firing",
 "A periodic timer fires on a step exactly when the accumulated time since creation crosses at least one further multiple of its period, carrying the remainder over exactly, each timer of a set behaving as if it were alone. A tick-based mission clock reports elapsed time as the ticks since start (counted modulo 2^64) divided by the tick rate, rounded down to a nanosecond, and its absolute TAI, UTC and GPS readings are the mission start plus that elapsed time on the respective scale (as long as the seconds fit the i64 field); per-loop deltas cover each tick once. A step always terminates, also for a zero or negative period, which fires at every step.",
 ["histories", "inputs"], "every history of steps/ticks including counter wrap-around, every tick rate, period and leap setting",
 "No tests exist; drift and lost remainders only show over histories, wrap-around once per 2^64 ticks.",
 [T+"mission.rs"], [("TimerEvent::acc", "time since last multiple of the period", T+"mission.rs:TimerEvent"), ("Epoch", "ticks0, ticks_per_sec, mission start", T+"mission.rs:Epoch")],
 [("remainder-preserving wrap", T+"mission.rs:TimerEvent::step"), ("u128 fraction scaling", T+"mission.rs:duration_from_ticks")],
 ["TimerSet::step", "TimerEvent::step", "TimeKeeper::{t_plus,now_tai,now_utc,now_gps,dt_from_ticks}"])

prop("V01", "CSV tailing shows exactly the complete rows of the current file",
 "After every successful poll, the plotted series equal what parsing the complete (newline-terminated) lines of the current file from its beginning would give - header resolved by column name (or by index without a header), rows with missing, unparsable or non-finite cells dropped, only the most recent max_points kept - no matter how the writer split its appends, including in the middle of a line, cell or character, how often polling or initialisation happened, or whether the file was absent, shrunk or replaced by a new file in between. All series always have the same length as the x axis, and a poll reports a change exactly when it consumed at least one new row (or reloaded). A multi-byte character cut at the end of what is there does not make a poll fail: its remaining bytes are read with a later poll. An unknown column is an error and shows no rows. The same holds when the writer appends, shrinks, replaces or removes the file while a poll is in progress: all series stay of one length, and the next undisturbed poll shows the file.",
 ["histories", "fault_sequences"], "every interleaving of partial appends, truncations to a shorter length, replacements, deletions, column re-selections, (re-)initialisations and polls, including writers that act between two file system calls of a poll",
 "aether_viz has no tests; the guarantee is about histories of a file growing under the reader.",
 ["crates/aether_viz/src/realtime.rs"], [("file_pos/partial_line", "bytes consumed / unfinished line", "crates/aether_viz/src/realtime.rs:CsvRealtimePlotter"), ("x_values/y_values", "parsed rows", "crates/aether_viz/src/realtime.rs:CsvRealtimePlotter")],
 [("incremental read + partial line carry", "crates/aether_viz/src/realtime.rs:parse_text_chunk"), ("identity/length reset", "crates/aether_viz/src/realtime.rs:should_reset_for_new_file")],
 ["x_values", "y_values", "available_columns", "update_once result"])

prop("V04", "The live plot comes to show the file and keeps running",
 "While the live plot runs (CsvRealtimePlotter::run_forever), whatever a writer does - appending in any pieces at any moment, starting before or after the loop, shrinking the file, putting another file in its place or removing it (even between the look for it and the opening of it) - once the writer rests the output file comes to hold exactly the drawing of the last max_points complete rows of the current file and keeps holding it. A file without rows is never drawn. The loop ends only with an error (a selected column missing from the header), which it reports promptly, and between changes it looks at the file no more often than poll_hz (5 per second if that is not positive).",
 ["schedules", "histories", "fault_sequences"], "every interleaving of the writer's changes with the loop's polls and redraws, every poll rate, column selection and bound",
 "The loop never returns, so no test runs it; what it shows depends on how its steps interleave with the writer's.",
 ["crates/aether_viz/src/realtime.rs"], [("output file", "the drawing shown", "crates/aether_viz/src/realtime.rs:render"), ("last_identity/file_pos", "which file and how much of it was read", "crates/aether_viz/src/realtime.rs:CsvRealtimePlotter")],
 [("poll, redraw on change, sleep", "crates/aether_viz/src/realtime.rs:run_forever"), ("reset on another file", "crates/aether_viz/src/realtime.rs:update_once")],
 ["output file contents", "run_forever result"])

prop("V02", "A written plot shows exactly the finite points of its series, in place",
 "A plot request either is refused (no series, x and y of different lengths, no finite point, an unusable output path) and leaves every existing file as it was, or replaces the whole output file with one complete SVG document. That document shows one line or one set of markers, each in its own colour, per series that has a finite point - in order, every finite (x, y) pair exactly once and no pair with a NaN or infinite coordinate - and all points of all series are placed by one common axis-parallel increasing map that stays within the axes, spans the data and agrees with the numbers written at the axis ticks, at whatever magnitude the data has. Title, axis labels and the legend (one entry per labelled series, in its series' colour, in order) appear with the text given, markup characters included. The same holds for the error-on-grid plot (the points of the grid a + (b-a) i/n where both functions are finite) and for the rows a CSV plotter renders.",
 ["inputs", "histories"], "every series list, grid and CSV content, with NaN and infinities anywhere, magnitudes from 2^-300 to 2^900, constant and empty data, and every order of requests to two output files",
 "aether_viz has no tests, and what a plot shows depends on all of its points together.",
 ["crates/aether_viz/src/lib.rs", "crates/aether_viz/src/realtime.rs"], [("output files", "the drawing each file holds", "crates/aether_viz/src/lib.rs:with_svg_root")],
 [("finite filter, common bounds, palette and legend", "crates/aether_viz/src/lib.rs:plot_series"), ("grid sampling", "crates/aether_viz/src/lib.rs:plot_error_on_grid"), ("CSV render", "crates/aether_viz/src/realtime.rs:render")],
 ["plot_series / plot / plot_error_on_grid / render result", "written SVG file"])

prop("R01", "Random generator is the exact, never-stuck xorshift64* stream",
 "For every seed (0 included, which is remapped to a non-zero state) the generator produces exactly the xorshift64* sequence determined by the seed: equal seeds give equal streams, the state never becomes zero, and clones continue identically. Uniform draws are in [0,1) for f32 as well as f64 and equal the top 53 bits of the raw word scaled by 2^-53 (rounded towards zero for narrower types is allowed, 1.0 is not) and normal draws are always finite and equal the Box-Muller transform of the next two uniform draws.",
 ["inputs", "histories"], "every seed and every interleaved history of raw, uniform and normal draws",
 "Unit tests look at a few draws of one seed; the claim covers 2^64 states and rare words at the ends of the range.",
 ["crates/aether_rand/src/randomizers/xor_shift.rs"], [("state", "non-zero u64", "crates/aether_rand/src/randomizers/xor_shift.rs")],
 [("xorshift + multiply", "crates/aether_rand/src/randomizers/xor_shift.rs")], ["next_u64", "next_f64", "next_real", "normal01"])

prop("O01", "Gradient descent follows its update rule, stays feasible, reports truthfully",
 "Without line search each iteration performs exactly the documented (momentum) update x - alpha*g + mu*v followed by the projection, for at most max_iters iterations; with line search an accepted step satisfies the sufficient-decrease condition or the step search has been exhausted. With a projection the returned point is always inside the feasible set, the returned value is the objective at the returned point, the iteration count is the number of iterations performed, and converged is reported exactly when the gradient or step tolerance was met. Settings left alone have the documented defaults; settings out of range are brought into it.",
 ["inputs", "histories", "configurations"], "every start point, objective, bound box and configuration (step, momentum, tolerances, max_iters, line search), every iteration",
 "Tests minimise a few convex bowls to loose tolerances; wrong momentum, off-by-one counts or infeasible returns still converge there.",
 ["crates/aether_opt/src/gradient_descent/basic.rs"], [("x, v", "iterate and velocity", "crates/aether_opt/src/gradient_descent/basic.rs")],
 [("update/projection loop", "crates/aether_opt/src/gradient_descent/basic.rs:minimize")], ["minimize result tuple", "objective/gradient/projection callbacks"])

prop("O02", "Stochastic descent: exact mini-batch steps, schedule-independent result",
 "Every iteration calls the gradient sampler exactly batch-size times, always at the current iterate, and steps by the documented momentum update x - a_k*g + mu*v on the mean of those samples, with rate a_k = lr0/(1+decay*k), followed by the projection. The sequential variant hands the sampler the one random stream of its seed; the parallel variant gives every worker and iteration its own stream and returns bit-identical results on every run for a given seed and worker count, whatever the thread schedule. The returned point is feasible, the reported value is the objective there, the iteration count is the number of steps taken, and converged is reported exactly when, after min_iters, the (bias-corrected) moving average of the gradient norm, a positive objective tolerance or the step tolerance was met. Settings left alone have the documented defaults; settings out of range are brought into it (a batch size of 0 is 1).",
 ["schedules", "inputs", "configurations"], "every sequence of sampled gradients, batch size (smaller or larger than the worker count), seed, worker count, configuration and thread schedule",
 "Tests run one or two configurations and only check loose convergence.",
 ["crates/aether_opt/src/gradient_descent/stochastic.rs", "crates/aether_opt/src/gradient_descent/stochastic_parallel.rs"],
 [("ema_g, v", "moving average of the gradient norm and last step", "crates/aether_opt/src/gradient_descent/stochastic.rs")],
 [("batch mean, decayed rate, momentum", "crates/aether_opt/src/gradient_descent/stochastic.rs:minimize"), ("scoped threads and ordered reduction", "crates/aether_opt/src/gradient_descent/stochastic_parallel.rs:minimize")],
 ["minimize result", "sampler call arguments"])

prop("N01", "Scalar functions mean the same in every build and for every float type",
 "The scalar trait (Real) gives, for f32 and f64 and in builds with and without std (and for f16 and f128 where enabled), the mathematical value of each function for every argument: rounding functions, abs, signum, copysign, min, max, fractional part, exact integer powers and exact square roots are exact, rounding halves away from zero; transcendental functions, their inverses and the angle conversions are accurate to a few units in the last place; casts round to nearest even. Infinities, NaN and signed zeros give the IEEE result (min and max ignore a NaN operand). No function hangs or panics.",
 ["inputs", "configurations"], "every argument of every trait function, special values included, in every build configuration",
 "The unit tests are built in the std configuration only, so the libm implementation used on embedded targets is never executed; and they test results of larger algorithms, not the scalar layer.",
 [C+"real/real.rs", C+"real/std_impl.rs", C+"real/no_std_impl.rs"],
 [("constants and casts", "associated constants and RealCast conversions", C+"real/real.rs")], [("std implementation", C+"real/std_impl.rs"), ("libm implementation", C+"real/no_std_impl.rs")],
 ["Real trait methods"])

prop("M01", "Vector, matrix and tensor algebra is exact on integer data for every shape",
 "For every shape and for f32 and f64, all vector, matrix and tensor operations (sum, difference, negation, scaling, elementwise, dot, cross, outer and matrix products, transpose, trace, element and row/column access, row-major tensor indexing) equal the mathematical result exactly when all values are integers small enough to be exactly representable. Owned, borrowed, in-place and SIMD variants of one operation all give that same result, whatever the size (blocked kernels included) and whatever the build configuration (scalar, SSE2, AVX, AVX+FMA; with and without std).",
 ["inputs", "programs"], "every straight-line program of operations over every shape and every small-integer content",
 "Tests check a few 2x2-4x4 examples and one variant of each operator; there are dozens of impl blocks per operation and size-dependent code paths.",
 [C+"math/matrix.rs", C+"math/vector.rs", C+"math/tensor.rs", C+"math/algorithms.rs", C+"math/arch/x86/matrix_simd.rs", C+"math/arch/x86/vector_simd.rs"],
 [("data", "row-major entries", C+"math/matrix.rs")], [("operator impls", C+"math/matrix.rs, "+C+"math/vector.rs"), ("SIMD kernels", C+"math/arch/x86")],
 ["operator results", "arch::x86 kernels"])

prop("M02", "Linear solvers return correct answers or say that there is none",
 "For every well-conditioned square system, determinant, inverse (both algorithms), LU factorisation with pivoting (P A = L U, determinant sign included), LU solves for one or many right-hand sides, and Cholesky factorisation and solves of symmetric positive definite matrices agree with the exact rational result up to rounding, for every size. This does not depend on the units of the entries (scaling by any power of two) or on the scalar type. Exactly singular matrices give a zero determinant and no inverse/solution, and symmetric matrices that are not positive definite are rejected by Cholesky, without panicking.",
 ["inputs"], "every small-integer matrix of every size up to 8 (and structured ones beyond), pivoting or not, singular or not",
 "Tests use a handful of hand-picked 2x2/3x3 systems that hardly pivot.",
 [C+"math/matrix.rs", C+"numerical_methods/solvers/lu.rs", C+"numerical_methods/solvers/spd.rs", C+"math/algorithms.rs"],
 [("LU factors, permutation, sign", "in-place factorisation", C+"numerical_methods/solvers/lu.rs")],
 [("partial pivoting", C+"numerical_methods/solvers/lu.rs"), ("Gauss-Jordan", C+"math/matrix.rs")], ["determinant", "inverse", "inverse_gauss_jordan", "Lu", "Cholesky"])

prop("M03", "Encoding any value and decoding it returns the same value",
 "For every vector, matrix, Cartesian and attitude value, serialising with serde or bincode and deserialising returns an equal value, bit for bit per component (infinities, negative zero and subnormals included), in the same component order. A serialised sequence that is too short or too long for the fixed-size target is rejected with an error rather than truncated, padded or panicking.",
 ["inputs", "fault_sequences"], "every value, every shape, every truncation or extension of an encoded value",
 "Tests round-trip one or two values of one shape.",
 [C+"math/vector.rs", C+"math/matrix.rs", C+"attitude/quaternion.rs", C+"coordinate/cartesian.rs"],
 [("component order", "row-major array", C+"math/matrix.rs")], [("manual serde visitors / bincode impls", C+"math")], ["serde_json", "bincode"])

prop("M04", "Integrators and root finders have their documented order and honest errors",
 "One Euler, trapezoidal or RK4 step (any step size, negative included, any state dimension) equals the documented formula evaluated at the documented stages, so RK4 integrates polynomial right-hand sides of degree 3 in time exactly, and chaining steps composes. Newton's method returns success only with a point whose last step was below the tolerance, within the iteration limit, and returns an error for a vanishing derivative or when the limit is exhausted.",
 ["inputs", "histories"], "every polynomial right-hand side and root problem, state, step size and iteration limit",
 "Tests integrate one exponential with a loose tolerance.",
 [C+"numerical_methods/integration/rk4.rs", C+"numerical_methods/integration/euler.rs", C+"numerical_methods/integration/trapezoidal.rs", C+"numerical_methods/solvers/newton.rs"],
 [("state vector", "integrated state", C+"numerical_methods/integration/rk4.rs")], [("Butcher weights", C+"numerical_methods/integration/rk4.rs")], ["step results", "Newton Result"])

prop("A01", "Quaternion, DCM, Euler and axis-angle attitudes describe the same rotation",
 "For every rotation, converting between unit quaternion, direction cosine matrix, Euler angles (gimbal lock included) and axis-angle in any order yields representations that map every vector to the same result; matrices stay orthonormal with determinant +1 and quaternion sign does not matter. Composition of From->Mid with Mid->To equals applying one after the other in every representation, inverse/transpose/conjugate undo it, and rotating preserves lengths, dot products and handedness.",
 ["inputs", "histories", "programs"], "every sequence of compositions, inversions and representation changes starting from any rotation",
 "Tests check three or four fixed attitudes, mostly round trips which hide a consistent transposition, and no composition.",
 [C+"attitude/quaternion.rs", C+"attitude/dcm.rs", C+"attitude/euler.rs", C+"attitude/rotation.rs"],
 [("q", "scalar-first unit quaternion", C+"attitude/quaternion.rs"), ("DCM", "row-major From->To matrix", C+"attitude/dcm.rs")],
 [("conversion formulas", C+"attitude"), ("typed composition", C+"attitude/quaternion.rs:Mul")], ["rotate_vector", "Mul", "From/TryFrom", "inverse/transpose"])

prop("A02", "Cartesian, spherical and cylindrical coordinates round-trip in all octants",
 "For every point, converting between Cartesian, spherical and cylindrical coordinates and back returns the point (on the polar axis too, where the azimuth is arbitrary), with radius equal to the norm and angles in the documented ranges and quadrants. Cartesian arithmetic, norms, dot and cross products agree with the plain vector operations, and angle unit conversions are mutually inverse and exact at multiples of a right angle up to rounding.",
 ["inputs"], "every point in every octant and on every axis/plane, every scale",
 "Tests check one first-octant point.",
 [C+"coordinate/cartesian.rs", C+"coordinate/spherical.rs", C+"coordinate/cylindrical.rs", C+"utils/angle_conversion.rs"],
 [("Cartesian/Spherical/Cylindrical", "point", C+"coordinate")], [("atan2/acos based conversion", C+"coordinate")], ["From conversions", "accessors"])

prop("A03", "Reference-frame transforms are proper rotations and come in inverse pairs",
 "Every frame transform (inertial/Earth-fixed by rotation rate and time, Earth-fixed/NED by latitude and longitude, wind/body, flight-path, lunar inertial/fixed with any epoch orientation) is a proper orthonormal rotation for all arguments, each documented pair is mutually inverse, has the direction its frame types state, and applying the transform for t1 then the additional rotation for t2 equals that for t1+t2. The NED axes computed for a site are the geodetic north, east and down directions of that site, and Earth/Moon rotation is prograde about +z at the given rate.",
 ["inputs"], "all latitudes, longitudes, angles, times (negative included) and epoch orientations",
 "Tests evaluate single angles or zero time.",
 [C+"reference_frame/transforms.rs", C+"reference_frame/itrf.rs", "crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs", "crates/aether_models/src/lunar/transforms.rs", "crates/aether_models/src/lunar/moon.rs"],
 [], [("closed-form DCMs", C+"reference_frame/transforms.rs")], ["returned DCM", "transformed vectors"])

prop("U01", "Unit conversions scale by the exact power of ten and are invertible",
 "Converting a quantity between any SI prefix and the base unit multiplies by exactly the prefix's power of ten up to one rounding of the value's own type (f64 is not degraded to f32 accuracy), and converting to a prefix and back returns the value up to rounding. Arithmetic on quantities of one dimension acts on the values exactly as on plain numbers and leaves the unit unchanged.",
 ["inputs"], "every prefix pair, every value in f32 and f64",
 "The unit tests compare a few conversions with tolerances wide enough to hide an f32 factor.",
 ["crates/aether_units/src/si/si_prefix.rs", "crates/aether_units/src/si/si.rs", "crates/aether_units/src/base/units.rs", "crates/aether_units/src/si/si_derived.rs"],
 [("value", "number in the unit", "crates/aether_units/src/base/units.rs")], [("prefix factors", "crates/aether_units/src/si/si_prefix.rs")], ["converted values"])

prop("I01", "Interpolants pass through their data and reproduce what they must",
 "Linear interpolation, its inverse and remapping are exact inverses hitting both end points at every magnitude; a barycentric polynomial through N points returns the data at every knot and reproduces every polynomial of degree below N; a natural cubic spline returns the data at every knot, is twice continuously differentiable with zero curvature at both ends, and coincides with the unique natural spline of the data on every segment, its end segments continuing outside the knots. Spline knots that are not strictly increasing, repeated polynomial knots and too few samples are rejected, and nothing else is.",
 ["inputs"], "every data set (uneven, negative, tightly spaced or large knots) and every evaluation point inside, at and between knots",
 "Tests evaluate two or three points of one data set.",
 ["crates/aether_interp/src/lerp.rs", "crates/aether_interp/src/polynomial.rs", "crates/aether_interp/src/spline.rs"],
 [("knots/coefficients", "spline segments", "crates/aether_interp/src/spline.rs")], [("tridiagonal solve", "crates/aether_interp/src/spline.rs"), ("barycentric weights", "crates/aether_interp/src/polynomial.rs")], ["eval results", "constructor errors"])

prop("S01", "Statistics equal their exact definitions, and impossible inputs are errors",
 "Mean, (sample) covariance, cross-covariance, correlation and their conversions equal the exact rational definitions up to rounding for every data set and dimension; covariance is symmetric and positive semidefinite, correlation has unit diagonal and entries in [-1,1]. Fitted Bernoulli, categorical and Gaussian parameters are the documented estimates of the data, probabilities are in [0,1] and sum to one, univariate and multivariate densities equal their formulas, Gaussian samples are the Box-Muller transform of the generator's stream, and too few samples or zero variance give the documented error or None rather than a wrong number.",
 ["inputs"], "every integer-valued data set of every size and dimension, every label sequence",
 "Tests use one tiny data set per function.",
 ["crates/aether_stats/src/covariance.rs", "crates/aether_stats/src/distributions/bernoulli.rs", "crates/aether_stats/src/distributions/categorical.rs", "crates/aether_stats/src/distributions/gaussian.rs", "crates/aether_stats/src/distributions/multivariate.rs"],
 [], [("two-pass sums", "crates/aether_stats/src/covariance.rs")], ["returned statistics", "error variants"])

prop("G01", "Geodetic and Earth-fixed positions convert into each other exactly",
 "Geodetic latitude, longitude and height convert to the Earth-fixed point given by the WGS84 ellipsoid, and both inverse algorithms return the original latitude, longitude and height (to sub-millimetre / nanoradian accuracy) for every longitude quadrant, both hemispheres, the equator, near-polar points, and heights from below the surface to beyond geostationary orbit. The two inverse algorithms agree with each other.",
 ["inputs"], "all latitudes, longitudes and heights from -10 km to 50000 km",
 "No test round-trips a position.",
 ["crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs", "crates/aether_models/src/terrestrial/earth.rs", "crates/aether_models/src/terrestrial/wgs84/constants/mod.rs"],
 [], [("Ferrari closed form", "crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs:ecef_to_geocentric_ferrari"), ("fixed-point iteration", "crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs:ecef_to_geocentric")], ["geocentric_to_ecef", "ecef_to_geocentric", "ecef_to_geocentric_ferrari"])

prop("G02", "Gravity and frame forces obey the physics of the rotating ellipsoid and Moon",
 "Normal gravity on the ellipsoid follows Somigliana's formula from the equatorial to the polar value, and the Earth-fixed gravity vector has that magnitude on the surface, points inward along the ellipsoid normal there, is symmetric about the axis and equator and decreases with height. Coriolis force is -2m(w x v), centrifugal force -m w x (w x r), gravity-gradient torque 3 mu/r^5 (r x I r), and lunar gravity -mu r/|r|^3 (zero at the centre), each proportional to mass and in the frame of its argument; the lunar orbit's mean motion and Keplerian period follow from its period, semi-major axis and total mu.",
 ["inputs"], "every position outside the Earth/Moon surface, velocity, mass and inertia",
 "The only Earth gravity test prints a value without asserting.",
 ["crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs", "crates/aether_models/src/terrestrial/earth.rs", "crates/aether_models/src/lunar/moon.rs"],
 [], [("closed-form expressions", "crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs")], ["gravity_normal", "gravity_rectangular", "solve_* forces"])

prop("G03", "Standard atmospheres follow the layer model and are defined or refused",
 "Within the tabulated altitude range (the lowest layer continuing below sea level) the ISA and US-1976 temperatures are the standard's piecewise-linear profile in geopotential altitude (and the standard's upper-layer profiles up to 1000 km), pressure is the hydrostatic integral from sea level through the layers (above 86 km it passes through the tabulated bases and decreases between them), and density, speed of sound and viscosity are the ideal-gas, sqrt(gamma R T) and Sutherland values of that same temperature and pressure; each layer joins the next without a jump beyond the table's rounding. Altitudes above the table are refused with an error, never an out-of-bounds access or a value from a wrong layer, and geometric and geopotential altitude are mutually inverse.",
 ["inputs"], "every altitude, in particular both sides of every layer boundary and outside the table",
 "The single USSA test prints a value; ISA has no assertions.",
 ["crates/aether_models/src/terrestrial/atmospheres/isa.rs", "crates/aether_models/src/terrestrial/atmospheres/ussa.rs", "crates/aether_models/src/terrestrial/earth.rs"],
 [("layer tables", "base altitude, temperature, pressure, lapse rate", "crates/aether_models/src/terrestrial/atmospheres")], [("layer lookup", "crates/aether_models/src/terrestrial/atmospheres/ussa.rs:get_base_index")], ["temperature", "pressure", "density", "speed_of_sound", "dynamic_viscosity"])

prop("P01", "Mass properties of composite bodies obey additivity and parallel-axis laws",
 "Volumes and principal inertias of spheres, cylinders and prisms are the analytic ones; joining two bodies adds masses and volumes, puts the centre of mass at the mass-weighted mean and gives the parallel-axis inertia about it, for every pose, independently of operand order, of whether the operator or the matrix-first form is used, and of a common rotation or translation. Cutting one body out of another is the inverse of joining: the remainder joined with the removed body has the mass properties of the original. Impossible combinations (a body of non-positive volume, or nothing of positive volume and mass left) give None.",
 ["inputs", "histories"], "every shape, density, rotation and offset of the two bodies",
 "Tests use a few aligned or centred arrangements where cross terms vanish.",
 ["crates/aether_shapes/src/attributes.rs", "crates/aether_shapes/src/sphere.rs", "crates/aether_shapes/src/cylinder.rs", "crates/aether_shapes/src/prism.rs"],
 [], [("parallel_axis", "crates/aether_shapes/src/attributes.rs")], ["MassProps", "Solid::volume", "Solid::inertia_principal_cm"])

prop("P02", "Tank limits and aggregates stay physical for every specification",
 "Usable volume is the geometric volume times the fill fraction clamped to [0,1], propellant capacity is usable volume times a non-negative density, and none of them is ever negative. Aggregate mass and inertia over any list of tanks equal the sum over tanks with negative masses counted as zero, independently of order, and each tank's inertia is the analytic value for its shape and mass.",
 ["inputs"], "every shape dimension, density, fill fraction and list of tanks, including negative and out-of-range ones",
 "Tests check one in-range and one clamped example.",
 ["crates/aether_fluids/src/lib.rs"], [], [("clamping", "crates/aether_fluids/src/lib.rs:limits")], ["limits", "aggregate_tank_mass_kg", "aggregate_tank_inertia_principal_cm_kg_m2"])

prop("C01", "Orbit camera keeps a consistent orthonormal view under any control history",
 "After any sequence of set-angle, drag and world-axis orbit commands the camera's forward, right and up vectors are unit length and mutually orthogonal (up in the +Z hemisphere), the camera sits exactly at its distance behind the target along forward, setting yaw and pitch gives the Z-up spherical direction regardless of history, drags add to azimuth (about +Z) and elevation, world-axis commands turn the view about world X and Y, the reported yaw and pitch are those of the view, and a drag followed by the opposite drag away from the poles returns the view. The look-at matrix is an isometry with axes up × forward, forward × that, and -forward; it maps the eye to the origin and the target onto the negative z axis at its distance. The perspective matrix (same column-vector layout) maps the near and far planes to -1 and +1 and the edges of the field of view to ±1, and translating an affine matrix composes it with the translation.",
 ["histories", "inputs"], "every sequence of camera commands, every eye/target/up configuration that is not degenerate, every frustum",
 "aether_graphics has almost no tests; the guarantee is over command histories.",
 ["crates/aether_graphics/src/cameras/orbit_camera.rs", "crates/aether_graphics/src/graphics/transforms.rs"],
 [("orientation", "camera quaternion", "crates/aether_graphics/src/cameras/orbit_camera.rs")], [("incremental quaternion rotation", "crates/aether_graphics/src/cameras/orbit_camera.rs")], ["forward/right/cam_up/position", "look_at", "perspective"])

prop("L01", "Learning models perform exactly their stated training and decision rules",
 "Every training epoch of linear, ridge and logistic regression, perceptron and linear SVM changes weights and bias by exactly the documented gradient or mistake-driven update on the whole data set, and every iteration of training with the optimizer is a step of it on the model's documented loss and that loss's gradient (mean squared error, with alpha times the squared weight norm for ridge, mean cross-entropy, mean perceptron and hinge loss with the squared weight norm over 2C). Predictions are the sign, probability or value of the affine score. Gaussian naive Bayes, LDA and QDA store the class counts, priors, means, variances (divided by n) and covariances (divided by n-1; pooled with the priors as weights) and predict the class with the largest discriminant among those where it is defined, never a class without samples when one with samples has a defined discriminant.",
 ["inputs", "histories"], "every data set, labelling, learning rate and number of epochs",
 "Tests train one tiny separable data set to convergence, which a wrong update rule also reaches.",
 ["crates/aether_ml/src/regression/linear.rs", "crates/aether_ml/src/regression/ridge.rs", "crates/aether_ml/src/regression/logistic.rs", "crates/aether_ml/src/classification/perceptron.rs", "crates/aether_ml/src/classification/svm.rs", "crates/aether_ml/src/classification/naive_bayes.rs", "crates/aether_ml/src/classification/lda_qda.rs"],
 [("weights, bias", "model parameters", "crates/aether_ml/src")], [("train_epoch / fit", "crates/aether_ml/src")], ["weights", "bias", "predict"])

prop("W01", "Magnetic model evaluates the spherical-harmonic field and its exact time rate",
 "At every date and geodetic point away from the poles the reported field is the gradient of the degree-12 potential with coefficients linear in time, so it is periodic in longitude, linear in the date with slope equal to the reported secular variation, and continuous in position. Horizontal and total intensity, declination, inclination and their rates are the stated functions of the field components and their rates, the geocentric position is that of the geodetic one, and at the poles an error is returned instead of a value.",
 ["inputs"], "all dates, latitudes, longitudes and heights",
 "The official table covers 100 points with tolerances of 0.1 nT and never the poles or other dates.",
 ["crates/aether_catalogs/src/wmm/mod.rs"], [("coefficients g,h", "time adjusted Gauss coefficients", "crates/aether_catalogs/src/wmm/mod.rs")], [("Legendre recursion", "crates/aether_catalogs/src/wmm/mod.rs:schmidt_semi_normalized_legendre")], ["evaluate", "coefficients_at"])

prop("W02", "Star catalogue reading is verified and propagation is consistent",
 "A catalogue is loaded through the verified path only if the SHA-256 of what is loaded equals the expected one (case-insensitively), also when the file is replaced while it is being read; well-formed rows are all returned in file order with every field intact and malformed rows are skipped without affecting others. A star's propagated position has the direction given by right ascension and declination at the epoch, the parallax distance, a velocity that is the time derivative of the position, and uncertainties that grow from the catalogue values by the stated law; photometric colours stay in [0,1] and are present exactly when all three magnitudes are.",
 ["inputs", "fault_sequences"], "every record (optional fields present or absent), epoch and every corruption of the file",
 "The star catalogue code has no tests.",
 ["crates/aether_catalogs/src/star_catalogs/mod.rs", "crates/aether_catalogs/src/star_catalogs/color.rs"], [("records", "rows in file order", "crates/aether_catalogs/src/star_catalogs/mod.rs")], [("streamed SHA-256", "crates/aether_catalogs/src/star_catalogs/mod.rs:verify_catalog_checksum")], ["GncCatalogReader", "icrs_sample", "photometric_color"])

prop("B01", "Assertion helpers accept exactly the values within tolerance",
 "Each approximate-equality helper for vectors and matrices accepts if and only if every component differs by at most the tolerance (NaN never passes) and otherwise reports the first offending position and difference; the maximum-error-over-grid helper panics if and only if some grid point, both ends included, deviates by more than the tolerance or is not a number, and otherwise returns the worst point. Symmetry and finiteness assertions and the norm/difference helpers decide according to the exact definitions.",
 ["inputs"], "every vector/matrix pair, tolerance and offending position",
 "The helpers are only exercised by examples that obviously pass or fail.",
 ["crates/aether_test/src/assert/vector.rs", "crates/aether_test/src/assert/matrix.rs", "crates/aether_test/src/assert/function.rs"], [], [("elementwise loops", "crates/aether_test/src/assert")], ["Ok/Err/panic of the helpers"])

prop("B02", "Concurrent benchmark logging writes every sample as one intact line",
 "However many threads write samples and timing spans concurrently, the log file contains its header followed by exactly one intact line per sample or finished span, with the given stage or source name and values, and absent values left empty. Energy and power readings are the sensor file's value scaled from micro-units, or nothing when the sensor is missing or unreadable.",
 ["schedules", "inputs"], "every interleaving of writers, every combination of present and absent values",
 "Tests write from one thread.",
 ["crates/aether_benchmark/src/performance/performance.rs", "crates/aether_benchmark/src/performance/timer.rs", "crates/aether_benchmark/src/performance/power.rs"], [("file", "append-only log behind a mutex", "crates/aether_benchmark/src/performance/performance.rs")], [("mutex around the write", "crates/aether_benchmark/src/performance/performance.rs")], ["CSV file content", "read_total_j/read_watts"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
