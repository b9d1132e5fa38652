"""Which harness entries decide which property, and within which bounds (from catalog.py)."""
import catalog
P = {}
for c in catalog.C:
    P[c["id"]] = dict(quick=c["quick"], thorough=c["thorough"] or c["quick"], bounds=c["bounds"], thorough_bounds=c["tb"] or c["bounds"], max_steps=c["max_steps"], stubs=c["stubs"], timeout=c["timeout"])
