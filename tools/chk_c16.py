from fmtlib import run
