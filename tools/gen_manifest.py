#!/usr/bin/env python3
"""Regenerates MANIFEST.json: one check per property that has a monitor in harness/."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
have = set()
for f in glob.glob(V + "/harness/*_test.go"):
    have |= set(re.findall(r"(?m)^func Test(C\d\d)\(", open(f).read()))
TECH = {
 "C01": "runtime monitor: answers checked online against a brute-force reference model over generated registries",
 "C02": "runtime monitor: answers checked online against a label-wise reference model over generated registries",
 "C03": "runtime monitor: answers checked online against a linear-scan reference model over generated registries",
 "C04": "runtime monitor: answers checked online against a reference model over generated registries",
 "C05": "runtime monitor: parse results checked against an independent structural parse of generated and mutated files",
 "C06": "runtime monitor: trace checker of fetches and answer versions over random histories in virtual time / aged files",
 "C07": "runtime monitor with fault injection: before/after snapshots around every kind of failed download",
 "C08": "runtime monitor with crash and fault injection: unique-version trace checker over concurrent and killed processes",
 "C09": "runtime monitor: trace checker of fetch URLs and provenance-tagged answers of clients sharing caches",
 "C10": "runtime monitor: cache operation histories checked against a model (virtual time, aged files)",
 "C11": "runtime monitor: built and on-the-wire URLs decoded back and compared with the request",
 "C12": "runtime monitor: deep before/after snapshots and repeat-equality of caller-owned values",
 "C13": "runtime monitor: classification checked against an independent classifier",
 "C14": "runtime monitor: trace checker of the attempt sequence over scripted server behaviours",
 "C15": "runtime monitor: helper results checked for every answer kind, wire requests compared with explicit requests",
 "C16": "runtime monitor in virtual time: elapsed time and contacts after the limit over injected stalls",
 "C17": "runtime monitor: ledgers of bodies, goroutines and connections over success and failure paths",
 "C18": "Go race detector over concurrent workloads and fresh processes, plus same-result-as-alone monitor",
 "C19": "runtime monitor: crash and hang monitor over generated, mutated and hostile documents",
 "C20": "runtime monitor: decoded type checked against the precedence table over generated member combinations",
 "C21": "runtime monitor: decoded objects compared field by field with the generated document",
 "C22": "runtime monitor: metamorphic single-member corruption with conversion table and note checker",
 "C23": "runtime monitor: decoded cards compared with an independent walk of generated and corrupted jCards",
 "C24": "runtime monitor: accessor results compared with a reference table over generated cards",
 "C25": "runtime monitor: output lines checked against the expected multiset for hostile strings",
 "C26": "runtime monitor: parsed output tree compared with the tree expected from the generated document",
 "C27": "runtime monitor: parsed output tree compared with the tree expected for each option combination",
 "C28": "runtime monitor: WHOIS map and printed lines compared with a reference table",
 "C29": "runtime monitor: command line output compared with the bytes the answering loopback server sent",
 "C30": "runtime monitor: exit status and streams of command line runs compared with the scripted outcome",
 "C31": "runtime monitor: requests recorded at loopback servers compared with those the options describe",
 "C32": "runtime monitor: inotify watch and directory snapshots on canary files during sandboxed command line runs",
 "C33": "runtime monitor: TLS handshakes and requests recorded at loopback TLS servers",
 "C34": "runtime monitor: recorded raw members compared with the generated document",
 "C35": "runtime monitor: repetition equality of dumps and outputs in process and across processes",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
            "technique": TECH[i], "level": "exploration",
            "level_note": "Held on every execution observed (counts and samples in evidence/%s.json); the real code runs, the oracle is independent of it. Trusts the Go runtime and standard library, the harness and the workload's reach." % i})
    else:
        na.append({"property": i, "reason": "monitor not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor observes the exported API, HTTP exchanges, files and streams."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "not")
