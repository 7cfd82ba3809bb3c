import json,sys
for f in sys.argv[1:]:
    d=json.load(open(f)); v=d["violation"]
    print(f.split("/")[-1], str(v)[:700]); print("   ", json.dumps(d["plan"])[:600])
