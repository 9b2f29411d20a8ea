"""Prints the per-property section of DESIGN.md from the check modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    m = importlib.import_module('checks.' + p['id'].lower())
    print(f"### {p['id']} {p['title']}\n")
    print(f"*{m.LEVEL}.* {m.RULE[0].upper() + m.RULE[1:]}.")
    for a in getattr(m, 'ASSUME', None) or []:
        print(f"\nAssumption: {a}.")
    if getattr(m, 'WHY', None):
        print('\n' + m.WHY)
    print()
