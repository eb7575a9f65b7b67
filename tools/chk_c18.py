from contlib import run
