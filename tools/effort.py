"""How much work a grammar makes of an input.  Ordered choice without memory can take time exponential in the input; a random
grammar may be of that kind, and inputs on which it is are left out (C26 is about the work that is done)."""
from gram import *
import sys

class Over(Exception): pass
CL = {"(": ")", "[": "]", "{": "}"}
def effort(g, w, most=60000):
    """number of productions tried when w is read; most + 1 where it is more"""
    nodes = g.nodes; n = 0
    close, st = {}, []
    for i, t in enumerate(w):
        if t in CL: st.append(i)
        elif t in ")]}" and st: close[st.pop()] = i
    info = [tokinfo(t) for t in w]
    def lone(t): return t[0] if len(t) == 2 and t.endswith("~") else t
    def tok(N, i, e):
        s = N["s"]
        if s == "punct":
            x = ptoks("".join(N["f"])); m = len(x)
            return i + m if i + m <= e and list(w[i:i+m-1]) == list(x[:-1]) and lone(w[i+m-1]) == lone(x[-1]) else -1
        if i >= e: return -1
        t = info[i]
        if s in ("kw", "rkw"): return i + 1 if w[i] == N["f"][0] else -1
        if s == "ident": return i + 1 if t["k"] == "ident" else -1
        if s in ("word", "cident"): return i + 1 if t["k"] in ("ident", "rkw") else -1
        if w[i] in ("-", "-~") and s in ("LitInt", "LitFloat", "Lit"): i += 1
        return i + 1 if i < e and (info[i]["k"] == "lit" or w[i] in ("true", "false")) else -1
    def go(k, i, e):
        nonlocal n
        n += 1
        if n > most: raise Over
        N = nodes[k-1]; o = N["op"]; a = N["a"]
        if o == "tok": return tok(N, i, e)
        if o == "seq":
            for c in a:
                i = go(c, i, e)
                if i < 0: return -1
            return i
        if o in ("alt", "either"):
            for c in a:
                j = go(c, i, e)
                if j >= 0: return j
            return -1
        if o == "maybe":
            j = go(a[0], i, e)
            return i if j < 0 else go(a[1], j, e)
        if o == "any":
            while True:
                j = go(a[0], i, e)
                if j <= i: return i
                i = j
        if o == "punct":
            while i < e:
                j = go(a[0], i, e)
                if j < 0 or j >= e: return j
                l = go(a[1], j, e)
                if l < 0 or l == i: return l
                i = l
            return i
        if o in ("sep", "left", "right"):
            i = go(a[0], i, e)
            while i >= 0:
                j = go(a[1], i, e)
                if j < 0: return i
                l = go(a[0], j, e)
                if l == i: return i
                i = l
            return -1
        if o == "group":
            if i >= e or w[i] != N["s"] or i not in close: return -1
            return close[i] + 1 if go(a[0], i + 1, close[i]) == close[i] else -1
        if o == "empty": return i
        if o == "eof": return i if i == e else -1
        if o == "noteof": return i if i < e else -1
        return -1
    old = sys.getrecursionlimit(); sys.setrecursionlimit(100000)
    try: go(g.startnode, 0, len(w))
    except Over: return most + 1
    except RecursionError: pass
    finally: sys.setrecursionlimit(old)
    return n

def fit(g, w):
    """no more work than the length of the input explains"""
    return not getattr(g, "random", False) or effort(g, w, m := 20000 + 200 * len(w)) <= m
