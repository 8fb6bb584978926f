"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "leptos-mview-core/src/"
TEST = "The tests expand a few dozen fixed views; "
P = []
NA = []


def prop(id, title, statement, text, why, files, mech, technique, note, over=("programs",)):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=[C + f if not f.startswith("/") else f[1:] for f in files], mech=mech, technique=technique, note=note))


AI = "abstract interpretation of the macro's MIR; templates of all outcomes compared with the documented expansion"
NOTE = ("Covers every input of any size: loops are summarised over one generic element, branches are split into facts about the input. "
        "Trusted: the models of std/syn/quote/proc-macro2 calls in engine/, and the specification in check/spec_expand.py. "
        "Parts of the output the engine cannot describe are reported as undecided in the evidence and raise no alarm.")
ALL = "every syntax tree the parser can build: any tag kind, any number and mix of attributes, directives, selectors, spreads, children and slots, nested to any depth"

exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P + NA:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")

man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in P],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "Static analysis only: no macro expansion is executed by any check.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
