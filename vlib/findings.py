"""Known findings: genuine defects recorded (not repaired), matched narrowly.

known_findings.txt, one entry per line:
  known: property=C12 facet=<facet> id=<name in PREDICATES> <what fails>
  fixed: property=C01 <commit> <what failed>            (suppresses nothing)
"""
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.path.join(HERE, 'known_findings.txt')
_cache = None

# name -> function(case, msg) -> bool ; identifies exactly the recorded failing input/history
PREDICATES = {
    # the day of year index of the periodic seasonal component stops at 365
    'cods-leap': lambda case, msg: msg == 'the model is missing on the last day of leap years only',
}


def load():
    global _cache
    if _cache is None:
        _cache = []
        if os.path.exists(PATH):
            with open(PATH) as f:
                for line in f:
                    m = re.match(r'known: property=(\S+) facet=(\S+) id=(\S+) (.*)', line)
                    if m:
                        _cache.append(dict(property=m[1], facet=m[2], id=m[3], what=m[4]))
    return _cache


def known_for(prop):
    return [e for e in load() if e['property'] == prop]


def match(prop, facet, case, msg):
    for e in known_for(prop):
        if e['facet'] == facet:
            pred = PREDICATES.get(e['id'])
            if pred is not None and pred(case, msg):
                return e['id']
    return None
