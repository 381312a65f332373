"""dev tool: note.py PID technique note; kf.py-like: fixed lines via stdin 'PID commit text'"""
import json, sys
p='/verif/tools/notes.json'; n=json.load(open(p))
n[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}
json.dump(n,open(p,'w'),indent=1)
