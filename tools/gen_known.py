"""Regenerates the `fixed` entries of known_findings.json from /repo's fix commits."""
import json, subprocess
log = subprocess.run("git -C /repo log --reverse --format=%h%x09%s", shell=True, capture_output=True, text=True).stdout.splitlines()
MAP = [("Bunch","C18"),("self'","C18"),("bunchify","C18"),("dictionary unpacking","C01"),("empty tuple as a subscript","C01"),("ast.Expression","C01"),("type parameters of functions","C01"),("only context manager is a tuple","C01"),
("complex numbers in patterns","C01"),("or-patterns","C01"),("f-strings","C01"),("rename also","C12"),("getdocstring","C12"),("scrub_uuid","C12"),("empty docstring","C13"),("split_futureimports","C13"),
("match_syspath","C17"),("bytecode cache cleaner","C20"),("splice_statements accepts","C11"),("combined module docstring","C11"),("walkers honor","C10"),("delete_markers","C09"),("MacroCollector","C05"),("splice_dialect output compiles","C11"),("splice_dialect accepts","C11"),
("infinite floats","C19"),("complex constants","C02"),("list-valued","C02"),("lookup_value","C03"),("fix_ctx","C08"),("restores sys.modules also when it fails","C13"),("with phase[True]","C13"),("detect_highest_phase","C13"),
("reinstate also a falsey","C13"),("empty module body","C13"),("phase[n,]","C13"),("temporary_module","C15"),("macro-import cache file","C16"),("cycle in the macro-dependency","C16"),("no Python source file","C16"),("dialect-import in source text","C14"),("new surface syntax","C16"),("dump mode","C21"),("expand_first","C22"),("expand1sq","C22")]
try:
    from known_extra import EXTRA; MAP = EXTRA + MAP
except ImportError: pass
k = json.load(open("/verif/known_findings.json"))
k["fixed"] = []
for l in log:
    h, s = l.split("\t")
    if not s.startswith("fix:"): continue
    ps = [p for t, p in MAP if t in s]
    if not ps: print("UNMAPPED", l); continue
    k["fixed"].append(f"fixed: property={ps[0]} {h} {s[5:]}")
json.dump(k, open("/verif/known_findings.json", "w"), indent=1)
print(len(k["fixed"]))
