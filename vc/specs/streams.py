"""Helpers to specify byte streams."""
from ..spec import *

def sdata(c, lv):
    return c.read(lv).f['data']
def appending(c, lv):
    """writing position at the end of the stream, no earlier failure"""
    s = c.read(lv)
    return [('the writing position is the end of the stream', eq(s.f['p'], s.f['data'].n)),
            ('the stream has not failed', not_(s.f['fail']))]
def readable(c, lv, n):
    s = c.read(lv)
    return [('the bytes to read are present', le(add(s.f['g'], n), s.f['data'].n)),
            ('the stream has not failed', not_(s.f['fail']))]
def put(c, lv, seq):
    """append bytes"""
    s = c.read(lv)
    c.write(lv, s.set('data', cat(s.f['data'], seq)).set('p', add(s.f['p'], seq.n)))
def take(c, lv, n):
    """advance the reading position; returns at(i) = byte i of what was read"""
    s = c.read(lv)
    d, g = s.f['data'], s.f['g']
    c.write(lv, s.set('g', add(g, n if isinstance(n, Term) else I(n))))
    return lambda i: seq_get(d, add(g, i if isinstance(i, Term) else I(i)))
def le_bytes(v, n):
    return [byte(v, i) for i in range(n)]
def d_bytes(v):
    return [dbyte(v, i) for i in range(8)]
def get_int(at, off, n, signed):
    return wrap(frombytes([at(add(off, I(i)) if isinstance(off, Term) else off + i) for i in range(n)]), 8 * n, signed)
def get_dbl(at, off):
    return dfrom([at(off + i) for i in range(8)])
def uchars(s):
    """char sequence as unsigned bytes"""
    return s
def within(c, lv):
    """writing position inside the stream or at its end, no earlier failure"""
    s = c.read(lv)
    return [('the writing position lies in the stream', le(s.f['p'], s.f['data'].n)),
            ('the stream has not failed', not_(s.f['fail']))]
def over(c, lv, seq):
    """write bytes at the writing position, over what is there"""
    if not isinstance(seq, Seq):
        seq = lit(seq)
    c.T.std.stream_write(c.ex, c.st, lv, seq)
def seek_end(c, lv):
    s = c.read(lv)
    c.write(lv, s.set('p', s.f['data'].n))
def seek(c, lv, pos):
    c.write(lv, c.read(lv).set('p', pos if isinstance(pos, Term) else I(pos)))
def padded(s, n):
    """the first n characters of a text, zero-padded"""
    return [I(0) if lt(I(i), s.n) is FALSE else ite(lt(I(i), s.n), wrap(seq_get(s, I(i)), 8, False), I(0)) for i in range(n)]
