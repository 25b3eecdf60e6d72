"""claim.py <id> <note>; kf.py entries: claim.py -f <prop> <id> <commit> <what>"""
import json, sys, subprocess
if sys.argv[1] == '-f':
    k = json.load(open('/verif/known_findings.json'))
    k.append({"property": sys.argv[2], "id": sys.argv[3], "status": "fixed", "what": "fixed: property=%s %s %s" % (sys.argv[2], sys.argv[4], sys.argv[5])})
    open('/verif/known_findings.json', 'w').write('[\n' + ',\n'.join(' ' + json.dumps(x) for x in k) + '\n]\n')
else:
    c = json.load(open('/verif/claims.json'))
    c[sys.argv[1]] = {"note": sys.argv[2]}
    json.dump(c, open('/verif/claims.json', 'w'), indent=1)
    for x in ('gen_properties.py', 'gen_manifest.py'):
        subprocess.run(['python3', '/verif/' + x])
