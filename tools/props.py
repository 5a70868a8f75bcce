"""The listed properties.  `python3 tools/props.py` rewrites properties.jsonl and MANIFEST.json from this table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EO = "resippy/image_objects/earth_overhead/"
PC = EO + "earth_overhead_point_calculators/"
PROPS = []
NA = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, technique, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=list(observe)))


exec(open(os.path.join(HERE, "tools", "table.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["quantifier"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}}
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
    m = {"version": 1,
         "setup_cmd": "./setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh %s --thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
                     "level_note": p["note"]} for p in PROPS],
         "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in NA],
         "notes": "One seeded Hypothesis campaign per sub-check against /repo's working tree; see DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    import subprocess
    code = ("import json,jsonschema\n"
            "m=json.load(open('%s/MANIFEST.json'));jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))\n"
            "s=json.load(open('/root/.vp/PROPERTIES.schema.json'))\n"
            "[jsonschema.validate(json.loads(l),s) for l in open('%s/properties.jsonl')]\nprint('valid')" % (HERE, HERE))
    subprocess.call(["python3-vt", "-c", code])


main()
