#!/usr/bin/env python3
"""check.py <property id>: the registered entry point of every check."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vf
CHECKS = {
    "C01": "eitheror",
    "C02": "latch",
    "C03": "barrier",
    "C06": "cord",
    "C08": "clock:durations",
    "C09": "calendar_",
    "C10": "clock:wall",
    "C13": "status", "C14": "lru", "C15": "pool", "C04": "threads", "C05": "files:temps", "C28": "files:utils", "C11": "response",
    "C16": "calendar_:dates", "C17": "value:ops", "C18": "value:order", "C07": "value:holder", "C35": "value:shapes", "C40": "wire",
    "C19": "expr:evaluation", "C36": "expr:structure",
    "C34": "times",
    "C37": "funcs:functions", "C20": "funcs:aggregates", "C21": "worker", "C22": "client:route", "C23": "client:cache", "C25": "client:schema", "C24": "client:calls", "C29": "client:settings",
    "C26": "stats", "C27": "conf",
}
if __name__ == "__main__":
    prop = sys.argv[1]
    mod, _, fn = CHECKS[prop].partition(":")
    m = importlib.import_module(mod)
    vf.main(prop, getattr(m, fn or "body"), getattr(m, "LEVEL", "model_checking"))
