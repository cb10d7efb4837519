"""print the table of planted bugs for DESIGN.md (section 6) from seeded/*/meta.json"""
import json, pathlib
for d in sorted(pathlib.Path(__file__).resolve().parent.parent.glob('seeded/*')):
    m = json.loads((d / 'meta.json').read_text())
    print('|', d.name, '|', m['property'], '|', m['what_it_breaks'].replace('|', '/'), '|', m['property'], '|')
