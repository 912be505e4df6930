#!/usr/bin/env python3
"""Rewrites known-findings.json: the known findings below, and one "fixed" entry per fix commit of /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
    ("C10", "plane-strain-von-mises",
     "in plane strain, Deformation::von_mises leaves out the out-of-plane normal stress nu*(sxx+syy): the value reported is "
     "exactly that of the in-plane components alone. The stress state of a plane problem carries three components and no "
     "material, so supplying the fourth needs a new kind of stress state. Any other wrong value is still a violation."),
]
# property of each fix, by its subject
PROP = {
    "element stiffness of clockwise": "C08", "element mass matrix": "C11", "loads meeting at a node": "C09", "graph built from edges": "C05",
    "reordering failed on graphs": "C05", "gaussian elimination pivoted": "C01", "fully fixing a node": "C12", "adding a second force": "C09",
    "cauchy stress tensor": "C10", "von Mises stress of plane": "C10", "stresses at nodes on the axis": "C10", "cholesky solver reported": "C01",
    "gauss-seidel iteration": "C01", "envelope forward substitution": "C02", "reading an all-zero": "C03", "transposed dictionary": "C03",
    "compressed row matrix accepted": "C03", "converting a dictionary matrix": "C03", "cholesky solver panicked": "C01",
    "matrices whose element count": "C04", "fixed size matrix accepted": "C03", "matrices without columns": "C03", "inverse of matrices": "C02",
    "eigensolver skipped": "C06", "free constraint could not": "C12", "in-sphere predicate": "C16", "rounding decided the predicates": "C16",
    "rounding put points": "C16", "midpoint of points": "C16", "drawing failed when all": "C17", "drawing small pictures": "C17", "lines lost their pixels": "C17",
    "equal node values": "C17", "write mesh files with all": "C13", "refuse malformed mesh files": "C13", "refuse mesh files with text": "C13",
    "refuse unknown materials and": "C14", "refuse polygons that cross": "C14", "refuse distributed forces and": "C14",
    "forces and constraints given for": "C14", "meshes without a condition": "C15", "meshing never ended beside": "C15",
    "ruppert meshing left": "C15", "meshing depended on the unit": "C15",
    "element sizes that are not": "C18", "eigensolver overflowed": "C06", "eigenvalue counts were": "C06", "eigensolver never ended": "C06", "eigensolver returned vectors": "C06", "eigensolver repeated modes": "C06",
    "triangulating a boundary again": "C15", "the last piece of a divided": "C15",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = [{"property": p, "key": k, "status": "known", "what": w} for p, k, w in KNOWN]
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        pid = [v for k, v in PROP.items() if s[5:].startswith(k)]
        if len(pid) != 1:
            sys.exit("no property for: " + s)
        out.append({"property": pid[0], "key": "", "status": "fixed", "commit": h, "what": s[5:], "line": "fixed: property=%s %s %s" % (pid[0], h, s[5:])})
with open(os.path.join(V, "known-findings.json"), "w") as f:
    f.write('{"findings": [\n' + ",\n".join(json.dumps(x) for x in out) + "\n]}\n")
print(len(out), "entries")
