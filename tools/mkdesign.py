"""Write DESIGN.md: the text of tools/design.md with the table of planted bugs in place of its marker line."""
import glob, json, os

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ["| planted bug | caught by | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[1]} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} |")
text = open("tools/design.md").read()
open("DESIGN.md", "w").write(text.replace("@SEEDED@", "\n".join(rows)))
