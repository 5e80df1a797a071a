import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sim = "deterministic simulation with fault injection"
T = {
 "C01": "verdict of a reference LR(1)/Earley model on the delivered stream",
 "C02": "exact action trace of the reference model, also under crashes",
 "C03": "error position, name and silence afterwards against the reference model",
 "C04": "expected list against the model's viable next tokens, aimed at every (state, token) cell",
 "C05": "source errors at every position",
 "C06": "interleaving of requests and actions on resuming and multi-document sources",
 "C07": "ledger of every payload, value and error under crashes at every callback",
 "C08": "interleaved, nested, first and post-crash parses, preempted anywhere, against the same parse alone",
 "C09": "step budgets, watchdog, long and deep streams on small stacks, stalls",
 "C10": "interleaved, first and sequential expansions under seeded hash order, entropy, clock, addresses and environment against the same expansion alone",
 "C11": "corrupted payloads over overlapping patterns against a first-match model",
 "C12": "accepted shift/reduce grammars against a shift-preferring LR(1) model",
 "C13": "interleaved and sequential expansions of conflicting and conflict-free grammars under seeded hash orders against the reference LR(1) model's verdict",
 "C14": "interleaved and sequential expansions of sound definitions and ones with a planted flaw, which must be rejected each time",
}
note = ("Seeded search, no proof: holds on every run explored. Parsers are expanded by /repo's macro from generated grammars and run as compiled. "
        "Trusts rustc, the reference model (cross-checked LR(1) vs Earley in each run) and that generated user code covers the interface.")
note10 = ("Seeded search, no proof. /repo/src runs as a plain library under cfg(parsegen_sim) with proc_macro2 token streams; C10 compares it "
          "with the real macro inside rustc on a sample of grammars in each run.")
log = os.popen("git -C /repo log --format='%h %s'").read().splitlines()
m = {
 "version": 1,
 "setup_cmd": "python3 run.py setup",
 "hooks": {
  "guard": "cfg(parsegen_sim)",
  "enable": "sim10/plain/build.rs prints cargo:rustc-cfg=parsegen_sim and compiles /repo/src/lib.rs as a plain library (checks C10, C13 and C14 only; the other checks use the unmodified proc macro)",
  "source_commits": [l.split()[0] for l in log if "parsegen_sim" in l],
 },
 "checks": [
  {
   "property": p,
   "quick_cmd": f"python3 run.py check {p}",
   "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {p}",
   "evidence_file": f"evidence/{p}.json",
   "technique": f"{sim}: {T[p]}",
   "level": "exploration",
   "level_note": note10 if p in ("C10", "C13", "C14") else note,
  }
  for p in T
 ],
 "not_applicable": [],
 "notes": "Known findings: known-findings.txt. Replay: python3 run.py replay FILE; python3 run.py trace FILE shows model and real trace.",
}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
