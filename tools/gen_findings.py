"""Writes KNOWN_FINDINGS.jsonl: one record per repaired defect, and the recorded findings with their pinned scenarios."""
import json
import subprocess

PROP = {"334d099": "C11", "d34f95a": "C17", "1fe4343": "C17", "8daa28b": "C17", "ca68392": "C09", "836f6e8": "C09",
        "f5d207d": "C15", "a975793": "C09", "6f5dc50": "C01", "695b3bd": "C03", "12d9f83": "C08", "a9fceff": "C19",
        "bfff818": "C09", "15beb92": "C10", "ec1d85a": "C19", "03b0162": "C10", "bdbf055": "C10", "d3d9fe5": "C18",
        "c5673f3": "C18", "c6e424d": "C20", "58a7305": "C20", "cb0492e": "C20", "639b788": "C06", "5a7754f": "C06", "6ef0998": "C06", "1ded544": "C12",
        "c605665": "C05", "9b81c48": "C09", "a1637de": "C09", "9d84165": "C16", "3c8754f": "C16", "2b73769": "C16",
        "59d7641": "C16", "31621ca": "C06", "0c4345e": "C09", "5e1a883": "C13", "a2fcce0": "C13", "840958f": "C13",
        "166e341": "C06", "290a675": "C11", "117175b": "C06", "f793d60": "C06", "3af6472": "C11", "f3ee277": "C11",
        "f2701c7": "C12", "912a485": "C13", "80f8174": "C13", "b92ef10": "C16", "1e56461": "C16", "94338ba": "C15",
        "d32c8af": "C15", "7c675c5": "C10", "8f26794": "C10", "6e0ddc5": "C15", "97efc66": "C15", "247772a": "C10", "89279be": "C09",
        "7a2b08f": "C21", "7e90f53": "C21", "cde2e8c": "C21", "c27ce58": "C21", "03190ab": "C21", "d666ed6": "C06", "f5a9d87": "C14", "f1edd1d": "C16", "027824b": "C06", "f50244f": "C21", "33c98fe": "C06", "91bd215": "C22", "c951d2c": "C16", "fc40f62": "C23", "75079c8": "C23", "e2d4008": "C23", "4d4fad9": "C17"}
KNOWN = json.load(open("/verif/tools/known.json", encoding="utf-8"))

log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True,
                     check=True).stdout.splitlines()
out = []
for line in log:
    commit, _, what = line.partition(" ")
    if what.startswith("fix: "):
        prop = PROP[commit]
        out.append({"status": "fixed", "property": prop, "commit": commit,
                    "what": f"fixed: property={prop} {commit} {what[5:]}"})
out += KNOWN
with open("/verif/KNOWN_FINDINGS.jsonl", "w", encoding="utf-8") as f:
    for rec in out:
        f.write(json.dumps(rec, ensure_ascii=False) + "\n")
print(len(out))
