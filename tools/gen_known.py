"""Write sa/known_functions.txt: the functions of the tree the rules were written for."""
import ast
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.inline import KNOWN, names_of_tree  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
out = set()
for dp, dn, fn in os.walk(os.path.join(REPO, "mplang")):
    for f in fn:
        if f.endswith(".py"):
            path = os.path.join(dp, f)
            parts = os.path.relpath(path, REPO)[:-3].split(os.sep)
            if parts[-1] == "__init__":
                parts = parts[:-1]
            with open(path) as h:
                out |= set(names_of_tree(".".join(parts), ast.parse(h.read())))
with open(KNOWN, "w") as h:
    h.write("\n".join(sorted(out)) + "\n")
print(len(out))
