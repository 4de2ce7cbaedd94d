import os, json
print(json.dumps({f[:-2].replace("subjects_", ""): os.path.getsize(f) for f in sorted(os.listdir(".")) if f.endswith(".o")}, indent=0))
