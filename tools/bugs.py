# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json; "missed" says which were not caught at first
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
 'S22': 'variables of up to 6000 characters', 'S24': 'waits of any length under a clock of the harness',
 'S26': 'completions throw values that are no exceptions of the library', 'S28': 'failures of file streams',
 'S35': 'movies of more than 256 segments',
}
rows = []
for i in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), 'missed at first: ' + MISSED[i] if i in MISSED else 'caught'))
text = ('## Planted bugs\n\nEach lies in `seeded/<id>/` with its patch and demonstration. All are caught by the quick check of the\n'
        'property they were written for; those that were missed at first say what was strengthened.\n\n'
        '| id | property | needs | |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
p = R + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'## Planted bugs\n.*?(?=\n## |\Z)', '', s, flags=re.S).rstrip('\n') + '\n\n' + text
open(p, 'w').write(s)
