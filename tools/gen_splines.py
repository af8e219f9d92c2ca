#!/usr/bin/env python3
"""Writes harness/src/splines_list.rs: the B-spline instantiations of the harness."""
import os
# (dimension, degrees, span counts), every combination instantiated
TAB = [(1, 5, [1, 2, 3, 5, 9]), (2, 7, [1, 2, 3, 4, 6, 8]), (3, 4, [1, 2, 3, 5]), (5, 3, [1, 2]),
       # many control points, high degree
       (1, 3, [20, 33, 70]), (2, 3, [14, 30]), (1, 12, [2]), (3, 9, [4]), (10, 2, [3]), (1, 16, [1]), (1, 3, [260]), (16, 3, [2]), (33, 2, [2])]
PROBE = [(1, 2, [1, 3]), (2, 4, [1, 2, 3, 5]), (2, 10, [2]), (3, 2, [1, 3]), (2, 2, [40])]
out = ["// Generated by tools/gen_splines.py: (knots, control points, degree) per point type."]


def rows(tab, dim):
    s = {(d, m) for q, dm, ms in tab if q == dim for d in range(dm + 1) for m in ms}
    return " ".join(f"({m + 2 * d + 1} {m + d} {d})" for d, m in sorted(s))


def table(name, tab):
    return f"pub const {name}: [(usize, usize, &[usize]); {len(tab)}] = [" + ", ".join(f"({q}, {dm}, &{ms})" for q, dm, ms in tab) + "];"


for dim in sorted({t[0] for t in TAB}):
    out.append(f"impl_spline!(PointN<F, {dim}>; {rows(TAB, dim)});")
for dim in sorted({t[0] for t in PROBE}):
    out.append(f'#[cfg(feature = "probe")]\nimpl_spline!(Probe<{dim}>; {rows(PROBE, dim)});')
out.append("/// (dimension, largest degree, span counts) instantiated for the provided point type")
out.append(table("SPLINES", TAB))
out.append("/// the same for the instrumented point type")
out.append(table("PROBE_SPLINES", PROBE))


def dispatch(fn, ty, dims, cfg):
    c = '        #[cfg(feature = "probe")]\n' if cfg else ""
    body = "".join(f"{c}        {d} => {ty(d)}::bspline(d, knots, pts),\n" for d in dims)
    return f"/// Build a spline of degree `d`; None when the combination is not instantiated.\npub fn {fn}(d: usize, knots: &[F], pts: &[Co]) -> Option<Result<DynS, BSplineError>> {{\n    match pts[0].len() {{\n{body}        _ => None,\n    }}\n}}"


out.append(dispatch("spline", lambda d: f"PointN::<F, {d}>", sorted({t[0] for t in TAB}), False))
out.append(dispatch("probe_spline", lambda d: f"Probe::<{d}>", sorted({t[0] for t in PROBE}), True))
open(os.path.join(os.path.dirname(__file__), "../harness/src/splines_list.rs"), "w").write("\n".join(out) + "\n")
