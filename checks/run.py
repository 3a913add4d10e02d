#!/usr/bin/env python3
"""checks/run.py <property> [quick|thorough]: decides one property on /repo's working tree."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import common

def deck(focus):
    def f(c):
        import deckcheck
        deckcheck.run(c, focus); c.finish()
    return f
def mod(name):
    def f(c):
        __import__(name).run(c); c.finish()
    return f
CHECKS = {"C21": mod("nlcheck"), "C19": mod("syscheck"), "C15": mod("nascheck"), "C18": mod("dynacheck"), "C14": mod("resultcheck"), "C17": mod("runcheck"), "C09": mod("discretecheck"), "C13": mod("ordercheck"), "C16": mod("framecheck"), "C10": mod("faultcheck"), "C08": mod("propcheck"), "C07": mod("meshio"), "C20": mod("facecheck"), "C12": mod("meshcheck"), "C11": mod("dofcheck"), "C02": mod("numcheck"), "C01": mod("lexcheck"), "C03": deck("cases"), "C04": deck("spc"), "C05": deck("loads"), "C06": deck("rel")}
if __name__ == "__main__":
    pid = sys.argv[1]; sys.argv[1:2] = []
    common.main(CHECKS[pid], pid)
