"""Development tool: list the survivors of a mutation campaign with their source line.  survivors.py MUT.jsonl [skip-N] """
import json
import sys
sk = int(sys.argv[2]) if len(sys.argv) > 2 else 0
for k, l in enumerate(open(sys.argv[1])):
    d = json.loads(l)
    if k < sk or d["result"] not in ("survived", "uncovered", "error"):
        continue
    src = open("/repo/" + d["file"]).read().splitlines()[d["line"] - 1].strip()
    print(k, d["file"], d["line"], "|", d["what"], "|", d["result"][:4], "|", src[:110], "|", " ".join(x.split()[0] for x in d.get("log", [])))
