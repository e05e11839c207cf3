"""record the parameter lists of the functions under contract (run on the tree the contracts were written for)"""
import sys, os, json, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
import check
from irv import ir, extract, contract
d = tempfile.mkdtemp()
mod = ir.Module(open(extract.extract(check.REPO, d, os.path.join(ROOT, "cfg"), tool=True)).read())
out = {}
for c in check.load_contracts()[0]:
    if getattr(c, "data", False): continue
    ss = []
    for n in mod.find(c.match):
        s = contract.signature(mod, n)
        if s not in ss: ss.append(s)
    if ss: out[c.match] = ss
shutil.rmtree(d)
json.dump(out, open(os.path.join(ROOT, "irv", "signatures.json"), "w"), indent=0, sort_keys=True)
print(len(out), "signatures")
