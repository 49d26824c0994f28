"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C20", "C21", "C24"]
MPC = ["C13", "C14"]
REN = ["C15", "C16", "C17", "C18", "C19"]
PAGE = ["C23"]
TODO = {p: "check not finished yet" for p in ("C13", "C14", "C15", "C16", "C17", "C18", "C19") if p not in MPC + REN}
NA = {
    "C22": "construction-time validation is a pure function of one argument: no schedule, time, I/O, fault or history can "
           "influence it, so simulating executions adds nothing to enumerating inputs",
    **TODO,
}
NOTE = {
    "core": "Seeded search: every run executes the real gym_anm code on a generated network, history and fault sequence; the "
            "verdict comes from an independent reference model or from a second execution. Assurance is that of the explored "
            "seeds. Trusted: the oracles in sim/oracles.py and sim/refmodel.py, NumPy, and the generator staying inside the "
            "documented input domain.",
    "mpc": "Seeded search over networks, episodes and agent histories with an independent DC-OPF (SciPy linprog) as oracle.",
    "ren": "Seeded search over schedules: the real environment, server and client code runs on simulated processes, threads, "
           "sockets, clock and browser; every choice is made by the seeded scheduler and recorded for replay.",
    "page": "Seeded search over histories and loading schedules: the real environment and rendering code produce the messages, "
            "the real page, scripts and drawing run in Node under a simulated document model, event loop, clock and socket. "
            "Trusted: that document model and the oracle of what each place of the drawing has to show.",
}
checks = []
for p in CORE + MPC + REN + PAGE:
    g = "core" if p in CORE else "mpc" if p in MPC else "page" if p in PAGE else "ren"
    checks.append({
        "property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection (seeded search over %s)" % {
            "core": "histories, schedules and faults", "mpc": "episodes and agent histories",
            "ren": "schedules, network faults and crashes", "page": "histories of states, loading orders and connection losses"}[g],
        "level": "exploration", "level_note": NOTE[g]})
json.dump({
    "version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sim.seams'", "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
    "notes": "No hooks in /repo: all seams are outside (library wrappers installed before gym_anm is imported). "
             "Replay a violation with ./check --replay FILE.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
