"""Print the table of planted bugs for DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | property | needs | caught by |\n| --- | --- | --- | --- |")
for name in sorted(os.listdir(HERE + "/seeded")):
    with open("%s/seeded/%s/meta.json" % (HERE, name)) as fh:
        m = json.load(fh)
    print("| %s | %s | %s | %s |" % (name, m["property"], m["needs"].replace("|", "/"), m.get("caught", m["property"])))
