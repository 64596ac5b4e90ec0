#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks registered in mc (run by hand)."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
done = {}
for f in glob.glob(root + "/mc/cmd/mc/*.go"):
    for id, level in re.findall(r'register\("(C\d\d)", "(\w+)"', open(f).read()):
        done[id] = level
G = "explicit-state exploration of the real library"
T = {
 "C01": (G + ": all interleavings of sends, deliveries, losses and re-initiations to a depth, against a delivery model", ""),
 "C02": (G + "; at every state every consumed message is replayed in every envelope variant", ""),
 "C03": (G + "; at every state an exhaustive set of forgeries is offered and state and genuine delivery are checked", ""),
 "C04": (G + " in lockstep with a session-establishment model", ""),
 "C05": (G + " in lockstep with a model of one-time pre-keys, envelope variants at every state", ""),
 "C06": ("exhaustive enumeration of bundle alterations in every state of bounded histories of the real library", ""),
 "C07": (G + " of trust decisions: all histories with all trust policies to a depth, in lockstep with a trust model", ""),
 "C08": ("systematic fault injection on the real library: every store/random call x every fault kind, single and double, at all states of bounded histories", ""),
 "C09": (G + " with fault injection; header and key uniqueness on every history", ""),
 "C10": (G + " of groups: all interleavings to a depth, against a delivery model", ""),
 "C11": (G + " of groups; every consumed message replayed at every state", ""),
 "C12": (G + " of groups; exhaustive forgeries at every state", ""),
 "C13": ("bounded exhaustive exploration around every limit on the real library, driven by the reference model", ""),
 "C14": ("exhaustive enumeration of structural and byte mutations of all encodings and stored records on the real library, followed by all operations", ""),
 "C15": ("exhaustive enumeration of field-value grids of all messages on the real library", ""),
 "C16": ("exhaustive enumeration of edge-case grids on the real library against an independent model of the curve", ""),
 "C17": ("exhaustive enumeration of lengths, paddings and alterations on the real library against an independent model", ""),
 "C18": ("exhaustive enumeration of identity, identifier and iteration grids on the real library against an independent model", ""),
 "C19": ("conformance exploration: all interleavings between the library and an independent model of the protocol to a depth", ""),
 "C20": (G + " with several confusable conversations; every store access monitored, every message offered everywhere", ""),
 "C21": ("systematic enumeration of all interleavings of store and random calls of concurrent operations under a controlled scheduler, plus a race-detector run", ""),
 "C22": ("exhaustive enumeration of operations x buffer layouts with canaries, and " + G + " re-checking all earlier results", ""),
 "C23": ("explicit-state exploration of all operation sequences of the stores to a depth, in lockstep with a map model", ""),
 "C24": (G + "; at every state stored bytes are searched for all consumed keys computed by the reference model", ""),
 "C25": (G + " with save/restore at every point, compared with the uninterrupted run", ""),
 "C26": (G + " with the whole log and all errors searched for every secret", ""),
 "C27": ("conformance exploration: all interleavings between the library and an independent model of sender keys to a depth", ""),
 "C28": ("exhaustive enumeration of identity pairs and alterations on the real library against an independent model", ""),
 "C29": (G + " with archiving, in lockstep with a session-list model", ""),
 "C31": (G + ", under several trust policies, each call failing once, classifying every error", ""),
 "C32": (G + ", each operation with its context ending at each of its store calls", ""),
 "C33": (G + ", records compared with the model at every state; explicit-state exploration of all sequences of record operations against a list model", ""),
 "C30": (G + "; every state as point of theft, all continuations to a depth, the stolen copy used on all later traffic", ""),
}
NOTE = ("Exhaustive within the bounds recorded in the evidence (operation alphabet, depth, roots, grids); histories longer than the depth are covered only "
        "through the listed root states. Trusted: Go runtime, the standard library's and protobuf's code, the checker's own model. States are merged on a digest "
        "of all stored bytes and of the model; samples of every level are re-executed from scratch without snapshots.")
checks, na = [], []
for p in props:
    id = p["id"]
    if id in done:
        checks.append({"property": id, "quick_cmd": f"bash check.sh {id} quick", "thorough_cmd": f"bash check.sh {id} thorough",
            "evidence_file": f"evidence/{id}.json", "technique": "model checking: " + T[id][0], "level": done[id], "level_note": NOTE})
    else:
        na.append({"property": id, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use the exported API only. Findings: KNOWN_FINDINGS.jsonl."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
