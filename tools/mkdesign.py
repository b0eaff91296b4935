"""DESIGN.md from tools/design.in, properties.jsonl, tools/notes.json, MANIFEST.json and tools/matrix.txt"""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t = open('tools/design.in').read()
m = json.load(open('MANIFEST.json'))
lv = {c['property']: c for c in m['checks']}
na = {c['property']: c['reason'] for c in m['not_applicable']}
notes = json.load(open('tools/notes.json'))
out = []
for l in open('properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in na:
        out.append('**%s %s** — not applicable. %s\n' % (i, p['title'], na[i]))
        continue
    out.append('**%s %s** — level: %s. %s %s\n' % (i, p['title'], lv[i]['level'], notes[i], lv[i]['level_note']))
mt = open('tools/matrix.txt').read() if os.path.exists('tools/matrix.txt') else '(run tools/matrix.py)'
open('DESIGN.md', 'w').write(t.replace('@@PROPS@@', '\n'.join(out)).replace('@@MATRIX@@', '```\n' + mt.strip() + '\n```'))
