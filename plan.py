"""Which machines decide which property."""
SEQ = ["C%02d" % i for i in range(1, 26)] + ["C27", "C29"]
# C20 is about comparing values, there is nothing to schedule; C29 about long histories.
CONC = [p for p in SEQ if p not in ("C20", "C29")]
PLAN = {p: {"seq": {}} for p in SEQ}
for p in CONC:
    PLAN[p]["conc"] = {}
for p in ("C11", "C15", "C16", "C17"):
    PLAN[p]["spawn"] = {}
PLAN["C22"]["instr"] = {}
PLAN["C26"] = {"instr": {}}
PLAN["C28"] = {"derive": {}}
NOTES = {}
NOT_APPLICABLE = {}
