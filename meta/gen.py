"""python3 meta/gen.py: writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props, checks
V = os.path.dirname(HERE)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
man = {'version': 1,
       'setup_cmd': 'sh ./setup.sh',
       'hooks': {'guard': 'MARINEQC_VERIF', 'enable': 'no hooks are needed: the public interface shows the abstract state', 'source_commits': []},
       'checks': [], 'not_applicable': []}
for p in props.P:
    i = p['id']
    c = checks.CHECKS.get(i)
    if c is None or c.get('off'):
        man['not_applicable'].append({'property': i, 'reason': checks.NA.get(i, 'specification not written yet')})
        continue
    man['checks'].append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                          'technique': c.get('technique', 'TLA+ specification checked with TLC; TLC behaviours replayed into the code, recorded runs validated by a TLA+ trace specification'),
                          'level': 'model_checking',
                          'level_note': c['note']})
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

# DESIGN.md
import design_props, re
R = lambda n: open(os.path.join(HERE, n)).read()
out = [R('design_head.md')]
for p in props.P:
    i = p['id']
    c = checks.CHECKS.get(i)
    out.append('### %s %s\n\n%s\n\n' % (i, p['title'], p['statement']))
    if c is None:
        out.append('Not claimed: %s\n\n' % checks.NA.get(i, ''))
        continue
    out.append('- Specified: %s\n- Models: %s; trace specification `%s`; driver `harness/%s.py`.\n- Explored: %s\n- Beyond the tests: %s\n- Cost: quick %s s.\n\n' % (
        design_props.D[i], ', '.join('`%s`' % m['module'] for m in c['mc']), c['trace'], i.lower(), c['note'], p['why_tests_cant'], design_props.COST.get(i, 'about 10')))
t = R('design_tail.md')
fixed = json.load(open(os.path.join(V, 'known_findings.json')))['fixed']
t = t.replace('FIXED_LIST', '\n'.join('- ' + x[7:] for x in fixed))
seeds = []
sd = os.path.join(V, 'seeded')
for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, n, 'meta.json')))
    seeds.append('- `%s` (%s): %s. Needs: %s. %s' % (n, m['property'], m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'), design_props.CAUGHT.get(n, 'Caught by %s.' % m['property'])))
t = t.replace('SEED_LIST', '\n'.join(seeds))
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(out) + t)
