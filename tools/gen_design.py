"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/."""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MARK = "## Planted bugs and which check catches them\n"
s = open("DESIGN.md").read()
s = s[:s.index(MARK)] + MARK + """
Every one builds, passes the 46 stable tests, has a demonstration, and is caught by the quick check of its property
(seed 1; `tools/plant.py tools/bugsN.py` builds and confirms them). Candidates that broke stable tests or sat on lines
of a fix are not kept. Ones that were missed at first and what was added for them: transform-close-relative (C08: positions
far from the origin), msg-reuse-equal (C24 *history*), iter-small-angle (C18: tolerances down to 1e-10, which also exposed a genuine
defect), tess-tip-sticks and unapply-cached-tool (sessions), urdf-file-cache and rr-shared-cache (loading rounds), sub2-drops-close-pair
(nearly parallel and nearly tangent modes), slerp-lazy-normalise (near-unit sizes), tess-name-clean (random names).

| planted bug | property | needs |
|---|---|---|
"""
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    s += "| %s | %s | %s |\n" % (f.split("/")[1], m["property"], m["needs"])
open("DESIGN.md", "w").write(s)
