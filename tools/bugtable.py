#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md from seeded/*/meta.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("\n## Planted bugs\n\nEach is confirmed with `tools/plant.py ID --tests`: the patch applies, the stable tests pass, the demo fails\n"
      "with it and passes without.  All are caught by the quick check of their property (column 2).\n")
print("| bug | check | breaks | needs |\n|---|---|---|---|")
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    print("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
print()
