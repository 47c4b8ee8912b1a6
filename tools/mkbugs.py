"""Writes the table of planted bugs into DESIGN.md (between the last heading's text and the end)."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {'b15': 'C14: every number of every description swept through pairs with equal hashes', 'b17': 'C01: bundles that are lost entirely on the way',
         'b18': 'optics: strongly curved surfaces hit near the axis', 'b19': 'C08: nearly matched media', 'b23': 'C19: media stated on one face of a lens',
         'b28': 'C10: stop surface that is the same object as an item', 'b30': 'C13, C14: polygons of thousands of vertices',
         'b36': 'C02: rays that miss passive interfaces', 'b51': 'C12: perturbation by a surface of the same kind'}
FIRST.update(json.load(open(os.path.join(R, 'tools', 'missed.json'))) if os.path.exists(os.path.join(R, 'tools', 'missed.json')) else {})
rows = []
for d in sorted(glob.glob(os.path.join(R, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json'))); b = os.path.basename(d)
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {FIRST.get(b.split('-')[0], '')} |")
p = os.path.join(R, 'DESIGN.md'); t = open(p).read()
i = t.index('<!-- bugs -->')
open(p, 'w').write(t[:i] + '<!-- bugs -->\n\n| bug | caught by | breaks | needs | missed at first; strengthened by |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n')
print(len(rows), 'bugs')
