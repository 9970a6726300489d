"""Strategies for crystals: space groups with cells that fit them, and pole families."""
from hypothesis import strategies as st
from . import gen
from .ref import xtal as X

_len = lambda: st.one_of(st.sampled_from([1.0, 0.3, 2.0]), gen.floats(0.2, 3.0))


def cell_for(l):
    """(a, b, c, alpha, beta, gamma) in the conventional setting of Laue class l"""
    @st.composite
    def f(draw):
        a, b, c = draw(_len()), draw(_len()), draw(_len())
        if l in (23, 43): return [a, a, a, 90.0, 90.0, 90.0]
        if l in (3, 32, 6, 62): return [a, a, c, 90.0, 90.0, 120.0]
        if l in (4, 42): return [a, a, c, 90.0, 90.0, 90.0]
        if l == 22: return [a, b, c, 90.0, 90.0, 90.0]
        if l == 2: return [a, b, c, 90.0, draw(gen.floats(60, 125)), 90.0]
        return [a, b, c] + list(draw(angles()))
    return f()


@st.composite
def angles(draw):
    for _ in range(20):
        x = [draw(st.one_of(st.sampled_from([90.0, 60.0, 120.0, 75.0]), gen.floats(50, 130))) for _ in range(3)]
        if X.cell_ok(*x): return x
    return [80.0, 95.0, 105.0]


sg = st.one_of(st.sampled_from([1, 2, 3, 15, 16, 74, 75, 88, 89, 142, 143, 148, 149, 167, 168, 176, 177, 194, 195, 206, 207, 225, 229, 230]), st.integers(1, 230))
