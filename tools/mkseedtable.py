"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | needs | effect | caught by |', '|---|---|---|---|---|']
base = os.path.join(HERE, 'seeded')
for name in sorted(os.listdir(base)):
    meta = json.load(open(os.path.join(base, name, 'meta.json')))
    rows.append('| {} | {} | {} | {} | {} |'.format(
        name, meta['property'], meta['needs'], meta['what_it_breaks'], meta.get('caught', meta['property'])))
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
text = re.sub(r'<!-- seeds -->.*<!-- /seeds -->',
              lambda m: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', text, flags=re.S)
open(path, 'w').write(text)
