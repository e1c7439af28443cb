import json,sys
d=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))
for h in d['coverage']['harnesses']: print(h['name'],h['status'],h['reason'],h['obligations'],h['discharged'],h['wall'],h['paths'],h['loops'] if len(sys.argv)>2 else '')
