"""diagnostic: group the findings of the last run of a property"""
import json, sys
from collections import defaultdict
g = defaultdict(list)
for x in json.load(open(f'evidence/{sys.argv[1]}.violations.json')):
    k = x['key'].split('|')
    g[(k[0], k[1])].append(('|'.join(k[2:]), x['where']))
for k, v in sorted(g.items()):
    print(k, [a for a, _ in v], v[0][1])
