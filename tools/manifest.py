# Writes /verif/MANIFEST.json: one check per property registered in run.py.
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
import run
T = {  # property: (technique, note)
}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'levels.py')).read())
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd="python3 -c \"import run\" && g++ --version >/dev/null", checks=[], not_applicable=[],
         notes="Every check compiles /repo's headers from the working tree into a scratch directory together with the explorer (mc/), a stand-in for the numerical solver or the real one, and the body of the check; no hooks in /repo are needed.")
for i in ids:
    if i in run.CHECKS:
        t, n = T[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + i,
                                evidence_file='evidence/%s.json' % i, technique=t, level='model_checking', level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), len(m['not_applicable']))
