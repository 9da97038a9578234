"""Small strategies shared by the checks.  Everything they make is JSON-able."""
from hypothesis import strategies as st


def unit(open_ends=True):
    """A number in (0,1): lattice points (which make exact coincidences likely) or arbitrary floats."""
    lo = 1 if open_ends else 0
    return st.one_of(
        st.integers(lo, 16 - lo).map(lambda i: i / 16),
        st.integers(lo, 1000 - lo).map(lambda i: i / 1000),
        st.integers(lo, (1 << 30) - lo).map(lambda i: i / (1 << 30)),
    )


def rng_unit():
    return st.integers(1, (1 << 40) - 1).map(lambda i: i / (1 << 40))


def in_range(lo, hi):
    return unit().map(lambda u: lo + (hi - lo) * u)


def seeds():
    return st.integers(0, 2 ** 31 - 1)


def tiny():
    """A small signed offset whose size spans many orders of magnitude."""
    return st.tuples(st.sampled_from([-1, 1]), st.integers(-7, -1), st.integers(1, 9)).map(
        lambda t: t[0] * t[2] * 10.0 ** t[1])
