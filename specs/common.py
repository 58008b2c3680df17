"""Layouts and helpers shared by the specifications."""
import z3
from irv.core import *
from irv.task import *
I = z3.IntSort()
def bytes_layout(base, n): return [(base + i, 1) for i in range(n)]
def words_layout(base, n): return [(base + 4 * i, 4) for i in range(n // 4)]
RESP_BYTES = {'DPPIR::Response': (52, [(0, 4)] + bytes_layout(4, 48)), 'std::array<char, 48ul>': (48, bytes_layout(0, 48)), 'std::array<char, 52ul>': (52, bytes_layout(0, 52))}
RESP_WORDS = {'DPPIR::Response': (52, words_layout(0, 52)), 'std::array<char, 48ul>': (48, words_layout(0, 48)), 'std::array<char, 52ul>': (52, words_layout(0, 52))}
def lanes_of(st, rid):
    r = st.mem[rid]
    return r.segs[0].lanes if len(r.segs) == 1 else {}
def val(ex, st, v): return zi(ex.U(st, v))
def rd(ex, st, p, bits): return zi(ex.U(st, ex.load(st, p, ('i', bits))))
def has(ctx, pat): return len(ctx.mod.find(pat)) == 1
RESP_BYTES_ALL = {'DPPIR::Response': (52, bytes_layout(0, 52)), 'std::array<char, 48ul>': (48, bytes_layout(0, 48)), 'std::array<char, 52ul>': (52, bytes_layout(0, 52))}
