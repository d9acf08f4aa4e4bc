#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("model_checking", "TLA+ FileTree/Runs; TLC trace validation of boundary-exhaustive, model-tour and random scripts", "Exhaustive pairs (thorough: triples) of boundary writes/truncations and exhaustive small model tours on the real code; beyond those bounds sampled. Trusts the tagging of bytes and TLC."),
 "C02": ("model_checking", "TLA+ FileTree; TLC-exhaustive TreeMC, its transitions replayed in the code, TLC trace validation of random scripts", "Every transition of the bounded model is executed in the real code and judged; larger trees sampled. The driver stands in for the kernel VFS."),
 "C03": ("model_checking", "TLA+ FileTree; TreeMC tours with short/long names, TLC trace validation of random scripts in every name mode", "As C02, with names around every threshold; foreign files included. Two known findings listed."),
 "C04": ("model_checking", "TLA+ FileTree with a remount action; TLC trace validation across processes", "Remounts in a new process after random histories; cache-evicting histories; sampled."),
 "C05": ("model_checking", "TLA+ FileTree; refused transitions of TreeMC replayed with full snapshots; TLC trace validation", "Every refused transition of the bounded model executed and compared by complete snapshots; the rest sampled."),
 "C06": ("model_checking", "TLA+ BTree specification, exhaustive in TLC; page dumps of the real directory validated by TLC after every operation", "The algorithm is explored exhaustively at small order; the real code's pages and answers are judged after each operation of random and adversarial histories."),
 "C07": ("model_checking", "TLA+ FileTree with name classes; TreeMC tours over spellings; TLC trace validation", "Every transition of the bounded model with three spellings of one class plus random scripts over Unicode samples."),
 "C08": ("fault_enumeration", "TLA+ Tamper specification; enumerated alterations of stored bytes, reads judged by TLC against the history", "Enumerates alterations of a corpus of repositories (bits, truncation, exchange, replay, splice); every read is judged by TLC."),
 "C09": ("fault_enumeration", "TLA+ Tamper specification; enumerated alterations of stored metadata and names, observations judged by TLC", "Enumerates alterations of names, pages, headers, attributes and objects of a corpus; every observation is judged by TLC."),
 "C10": ("model_checking", "TLA+ Nonce specifications: designs of drawing nonces explored exhaustively by TLC; every encryption of recorded histories judged by TLC; everything written searched for plaintexts and keys", "Nonces, their halves and distances, identities and cipher texts of every write of the recorded histories, including histories continued from copies of the repository. Unpredictability only in so far as values neither repeat nor relate."),
 "C11": ("model_checking", "TLA+ FileTree storage accounting; TLC trace validation with the number of stored objects observed", "Stored objects counted at quiescent points of tours and random histories with open handles."),
 "C12": ("fault_enumeration", "TLA+ LongNames specification, exhaustive in TLC; crash/failure enumeration at every storage call, outcomes judged by TLC", "Every storage mutation of each operation is made to fail or kill the process; the resulting tree is judged by TLC."),
 "C13": ("fault_enumeration", "TLA+ Crash specification; process death enumerated at every storage call, remounted trees judged by TLC", "Every storage mutation of each operation of the histories is a crash point; the remounted tree is judged by TLC."),
 "C14": ("model_checking", "TLA+ FileTree attribute maps; TreeMC tours; TLC trace validation", "Every transition of the bounded model, plus random histories over sizes and flags."),
 "C15": ("model_checking", "TLA+ Config specification of create/chpass with crashes; histories of the real commands judged by TLC", "Histories of the real command line over formats and key derivations; crash points of re-keying enumerated."),
 "C16": ("model_checking", "TLA+ Locker specification of two or three processes, exhaustive in TLC; interleavings replayed on real processes", "Protocol explored exhaustively; real processes stepped through the interleavings at every file system call of locking."),
 "C17": ("model_checking", "TLA+ Lin specification over FileTree: TLC searches a sequential order for recorded concurrent histories", "Histories of real threads with injected delays; each is accepted only if some order explains results and final tree. Interleavings are sampled."),
 "C18": ("model_checking", "TLA+ Timer specification, exhaustive in TLC; real timer and mount traces validated with time bounds", "Protocol explored exhaustively; real traces are judged with one-sided time bounds."),
 "C19": ("model_checking", "TLA+ FileTree attributes and time sets; TLC trace validation under a virtual clock", "Random histories under a virtual clock; modes exhaustively by tours."),
 "C20": ("model_checking", "TLA+ Layout over FileTree: TLC checks that the layout covers and determines stored objects, and judges what an independent reader decodes and what the real code shows of independently written repositories", "All reference repositories and configurations, random trees by an independent writer with every configuration version, random histories of the real code decoded at every remount. Earlier builds are represented by the references and that writer."),
 "C21": ("model_checking", "TLA+ Look specifications: readers over cached headers explored exhaustively by TLC; byte images and views around processes that only look judged by TLC", "Random repositories of both formats looked at in random orders, by threads, read-only and by informing or refused commands; images and views compared. One known finding."),
 "C22": ("model_checking", "TLA+ Migrate specification; migrated repositories judged by TLC against FileTree", "Random trees and suffixes through the real command; outcomes judged by TLC."),
}
DEFAULT = "not claimed yet: its specification and check are still being built"
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        lv, t, n = T[i]
        src = open(os.path.join(V, "checks", i.lower() + ".py")).read()
        m = re.search(r'^LEVEL = "(\w+)"', src, re.M)
        assert m and m.group(1) == lv, i
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": t, "level": lv, "level_note": n})
    else: na.append({"property": i, "reason": DEFAULT})
M = {"version": 1, "setup_cmd": "python3 tools/build.py vdrv", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, judged by TLC; harness/vdrv.cpp drives the real code built from /repo's working tree. No hooks in /repo: storage calls are interposed in the driver."}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
