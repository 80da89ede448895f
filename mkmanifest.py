"""Generates MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ".")
TECH = {
    "C01": "bounded exhaustive exploration of the implementation over block layouts, against a byte model",
    "C02": "bounded exhaustive exploration of lengths and short-read schedules on the implementation",
    "C03": "exhaustive exploration on a virtual block device, monitoring the write log, with fault points",
    "C04": "exhaustive enumeration of corruptions over bounded layouts on the implementation",
    "C05": "exhaustive enumeration of truncations and contradictions over bounded layouts",
    "C06": "exhaustive enumeration of single edits of bmap files on the implementation",
    "C07": "bounded exhaustive exploration over format versions, spellings and malformed files",
    "C08": "exhaustive exploration over hole layouts on a simulated kernel bound to real file systems",
    "C09": "exhaustive exploration over layouts, windows and extent answers on a simulated kernel bound to real file systems",
    "C10": "exhaustive enumeration of environment answers against a decision table",
    "C11": "stateless model checking of thread schedules (preemption-bounded DFS) on the implementation",
    "C12": "exhaustive system-call fault enumeration on the implementation",
    "C13": "exhaustive crash-point enumeration over the logged write/sync history of the implementation",
    "C14": "exhaustive enumeration of setting states, faults and interrupts on a virtual block device",
    "C15": "exhaustive enumeration of option and input combinations of the command line against a decision table",
    "C16": "exhaustive exploration of operation sequences in lock step with a reference file model",
    "C17": "exhaustive enumeration of truncations and transfer faults on the implementation",
    "C18": "exhaustive exploration of operation prefixes followed by close, monitoring resources",
    "C19": "exhaustive enumeration of signature states against a decision table",
    "C20": "exhaustive enumeration of candidate-file subsets against a reference model",
    "C21": "exhaustive exploration of copy histories and pipe states, monitoring every progress report",
    "C22": "exhaustive enumeration of server and credential states, monitoring the request log",
    "C23": "exhaustive enumeration of aliasing forms of the commands' arguments",
    "C24": "bounded exhaustive differential exploration of the two writers",
    "C25": "exhaustive enumeration of sizes, times, layouts and clock histories, comparing every figure shown with a reference",
    "C26": "exhaustive exploration of merges and nestings of operation scripts, compared with each script alone",
    "C27": "exhaustive enumeration of interrupt points and endings of the commands, monitoring files and processes",
    "C28": "exhaustive exploration of histories of runs with faults, and preemption-bounded schedules of consecutive runs",
    "C29": "exhaustive exploration of layouts, monitoring every read and write against the set of mapped areas, and of image sizes, monitoring memory",
    "C30": "exhaustive enumeration of file names and process environments against the result in a plain one",
    "C31": "exhaustive interleaving of a command with replacements of its files at every access by path (two deep, three for new builds)",
}
checks, na = [], []
props = [json.loads(l) for l in open("properties.jsonl")]
for p in props:
    i = p["id"]
    if not os.path.exists("checks/%s.py" % i.lower()):
        na.append(dict(property=i, reason="the check for this property is not built yet"))
        continue
    m = importlib.import_module("checks." + i.lower())
    note = "Every case within the bounds (quick: %s; thorough: %s) was executed on the code of /repo: %s." % (
        m.BOUNDS["quick"], m.BOUNDS["thorough"], m.RULE)
    if getattr(m, "ASSUMPTIONS", None):
        note += " Assumes: " + "; ".join(m.ASSUMPTIONS) + "."
    checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                       evidence_file="evidence/%s.json" % i, technique=TECH[i], level=m.LEVEL, level_note=note))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: everything is observed from outside (LD_PRELOAD interposer, controlled scheduler, local servers). "
                     "MANIFEST.json is generated by mkmanifest.py, properties.jsonl by mkprops.py."),
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
