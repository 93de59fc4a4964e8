#!/opt/venv/bin/python
import json,glob,sys
d=json.load(open(sys.argv[1] if len(sys.argv)>1 else sorted(glob.glob('/verif/replays/*'))[0]))
print(d["workload"],len(d["choices"]),d['shrink_attempts'],[[y[:600] for y in x] for x in d['violation']], d['outcome'],d['live']); 
for t in d['trace'][-150:]: print(t[:int(sys.argv[2]) if len(sys.argv)>2 else 300])
