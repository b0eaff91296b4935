"""Registry of contracts and lemmas (vc/specs/*.py) and helpers for writing them."""
import re, importlib, pkgutil, os
from .term import *
from .values import *
from .contract import Contract, Lemma, Ctx

RAW = []          # (short name, spec function, props, pre, opts)
LEMMAS = []

def short(fid):
    g = fid.replace('std::basic_ostream<char, std::char_traits<char>>', 'ostream')
    g = g.replace('std::basic_istream<char, std::char_traits<char>>', 'istream')
    g = g.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')
    while True:
        h = re.sub(r', std::allocator<[^<>]*(<[^<>]*>)?[^<>]*>', '', g)
        if h == g:
            break
        g = h
    g = re.sub(r', std::less<[^<>]*>', '', g)
    for a, b in (('unsigned long', 'u64'), ('unsigned int', 'u32'), ('unsigned short', 'u16'), ('unsigned char', 'u8'),
                 ('signed char', 'i8')):
        g = g.replace(a, b)
    return g.replace('copc::', '')

def contract(name, props, pre=None, **opts):
    """name: short(fid)"""
    def deco(f):
        RAW.append((name, f, props.split() if isinstance(props, str) else props, pre, opts))
        return f
    return deco

def lemma(name, props):
    def deco(f):
        LEMMAS.append(Lemma(name, f, props.split() if isinstance(props, str) else props))
        return f
    return deco

def load(prog):
    """-> ({fid: Contract}, [Lemma], [unresolved short names])"""
    from . import specs
    for m in pkgutil.iter_modules(specs.__path__):
        importlib.import_module('vc.specs.' + m.name)
    byshort = {}
    for f in prog.funs:
        byshort.setdefault(short(f), f)
    cons, miss = {}, []
    for name, f, props, pre, opts in RAW:
        fid = byshort.get(name)
        if fid is None:
            miss.append((name, props))
            continue
        if fid in cons:
            raise Exception('two contracts for ' + name)
        cons[fid] = Contract(fid, f, props, pre, opts)
    return cons, LEMMAS, miss, byshort
