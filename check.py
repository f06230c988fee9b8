#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's working tree."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
import vp

MODULES = {"C31": "conc", "C32": "conc", "C30": "services", "C29": "inherit", "C28": "conc", "C19": "logger", "C13": "conc", "C27": "conc", "C04": "conc", "C06": "conc", "C10": "conc", "C14": "conc", "C26": "wrapper", "C18": "whole", "C17": "namespace", "C15": "readfile", "C16": "readfile", "C11": "posixfile", "C12": "posixfile", "C20": "pure", "C21": "pure", "C22": "pure", "C23": "pure", "C24": "pure", "C25": "pure", "C08": "memenv", "C09": "memenv", "C07": "arena", "C05": "skiplist", "C01": "cache", "C02": "cache", "C03": "cache"}

def main():
    if sys.argv[1:] == ["--setup"]:
        sys.exit(vp.setup())
    prop = sys.argv[1]
    mod = importlib.import_module(MODULES[prop])
    sys.exit(vp.run_check(prop, lambda ctx: mod.CHECKS[prop](ctx), getattr(mod, "LEVEL", "model_checking")))

main()
