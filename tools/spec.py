"""Source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md (python3 tools/spec.py)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, design, observe=()):
    assert len(title) <= 80, (id, len(title))
    ns = len(re.findall(r"[.;]\s+[A-Z]", statement)) + 1
    assert ns <= 3, (id, ns)
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, design=design, observe=list(observe)))


NOT_APPLICABLE = []
exec(open(os.path.join(ROOT, "tools", "spec_props.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             **({"observe_at": p["observe"]} if p["observe"] else {}), hook_needed=None))) + "\n")
    man = dict(version=1, setup_cmd="bash setup.sh", checks=[dict(
        property=p["id"], quick_cmd=f"bash check.sh {p['id']} --tier quick",
        thorough_cmd=f"bash check.sh {p['id']} --tier thorough", technique=p["technique"], level="exploration",
        level_note="Generated cases only: the property held on everything explored, absence of violations elsewhere is "
                   "not established. " + p["text"]) for p in PROPS], not_applicable=NOT_APPLICABLE)
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    head = open(os.path.join(ROOT, "tools", "design_head.md")).read()
    tail = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
    rows = []
    sd = os.path.join(ROOT, "seeded")
    for k in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, k, "meta.json")))
        rows.append(f"| {k} | {m['property']} | {m.get('caught', 'caught by ' + m['property'] + ' quick')} | {m['what_it_breaks']} | {m['needs']} |")
    tail = tail.replace("@@PLANTED@@", "| bug | property | result | what it breaks | what it needs |\n|---|---|---|---|---|\n" + "\n".join(rows))
    body = ["## Properties\n"]
    for p in PROPS:
        body.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*How it is decided.* {p['design']}\n\n"
                    f"*Domain.* {p['text']}\n\n*What the tests reach.* {p['why']}\n\n*Anchored in* "
                    + ", ".join(f"`{x}`" for x in p["files"]) + f" (module `harness/props/p{p['id'][1:]}_*.py`).\n")
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(head + "\n" + "\n".join(body) + "\n" + tail)


main()
