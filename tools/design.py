"""DESIGN.md = head + per-property + tail + table of planted bugs (tools/caught.json: id -> result)"""
import glob, json, os, subprocess, sys
T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
out = open(T + '/design_head.md').read() + '\n'
out += subprocess.run([sys.executable, T + '/design_props.py'], capture_output=True, text=True, check=True).stdout
out += open(T + '/design_tail.md').read()
c = json.load(open(T + '/caught.json')) if os.path.exists(T + '/caught.json') else {}
out += '| planted bug | property | needs | caught by |\n|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    out += f"| {i} | {m['property']} | {m['needs']} | {c.get(i, '')} |\n"
open(V + '/DESIGN.md', 'w').write(out)
