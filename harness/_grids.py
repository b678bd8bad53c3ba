"""Independent reference model of grid specifications (written from the documentation)."""

SCAN = ("i_scans_negatively", "j_points_consecutive", "j_scans_positively")
TIGHT, LOOSE = 5e-9, 2e-8  # around the 1e-8 degree coordinate tolerance


def near(cx, x, y, tol):
    d = x - y
    return cx.and_(d <= tol, d >= -tol)


def mod360_near(cx, d, tol, kmax=4):
    """d within tol of a multiple of 360."""
    return cx.or_(*[near(cx, d, 360 * k, tol) for k in range(-kmax, kmax + 1)])


def off_wrap(cx, x, gap, kmin=-2, kmax=2):
    """x is a multiple of 360, or at least `gap` away from one."""
    return cx.or_(*[cx.or_(x == 360 * k, near(cx, x, 360 * k + 180, 180 - gap)) for k in range(kmin, kmax)])


def global_ew(cx, d, area, dx, tol):
    """All longitudes of the circle are covered: flagged global, the default area, a closed
    span, or a span that is one increment short of the full circle."""
    span = area[3] - area[1]
    default = cx.and_(*[near(cx, a, b, tol) for a, b in zip(area, [90, 0, -90, 360])])
    flagged = d.get("global", 0)
    flagged = False if "global" not in d else flagged == 1
    return cx.or_(flagged, default, mod360_near(cx, span, tol), mod360_near(cx, span + dx, tol))
