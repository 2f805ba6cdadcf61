"""Prints the table of planted bugs for DESIGN.md"""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | property | what it breaks | needs |\n|---|---|---|---|")
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    print("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"], m["needs"]))
