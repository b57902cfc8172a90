"""Which simulated workloads decide which property: (harness binary, workload, share of the time)."""
import json
import os

NP = ["h_bake", "h_bakec", "h_multi", "h_three"]


def each(bins, w, share=1.0):
    return [(b, w, share) for b in bins]


SCENARIOS = {
    "C01": [("h_binary", "fidelity", 2), ("h_binary", "choices", 1), ("h_binary", "crashes", 2)],
    "C02": each(NP, "fidelity", 2) + each(NP, "crashes", 1),
    "C03": [("h_binary", "choices", 1)] + each(NP, "choices", 2),
    "C04": [("h_binary", "fidelity", 1)] + each(NP, "fidelity", 2),
    "C05": [("h_binary", "crashes", 1)] + each(NP, "crashes", 2),
    "C06": [("h_binary", "closes", 1)] + each(NP, "closes", 2) + [("h_close", "single", 1), ("h_close", "several", 1)],
    "C07": [("h_binary", "dead_sends", 1), ("h_bake", "dead_sends", 1), ("h_bakec", "dead_sends", 3), ("h_multi", "dead_sends", 3), ("h_three", "dead_sends", 1)],
    "C08": [("h_timed", "sends", 3), ("h_tmulti", "late", 1)],
    "C09": [("h_timed", "recvs", 3), ("h_tmulti", "late", 1)],
    "C10": [("h_timed", "resets", 2), ("h_timed", "sends", 1), ("h_tmulti", "late", 1)],
    "C11": [("h_tmulti", "punctual", 1), ("h_tmulti", "late", 2), ("h_tmulti", "crashes", 2)],
    "C12": [("h_select", "selects", 1), ("h_select", "select_crashes", 1)],
    "C13": [("h_net", "tcp_exact", 1), ("h_net", "tcp_faults", 2)],
    "C14": [("h_net", "udp_exact", 1), ("h_net", "udp_faults", 2)],
    "C15": [("h_inter", "together", 2), ("h_inter", "failures", 4), ("h_inter", "timed", 1), ("h_inter", "timed_failures", 2), ("h_inter", "solos", 1), ("h_close", "several", 1)],
    "C16": [("h_broad", "watched", 1), ("h_broad", "cancelled", 2), ("h_broad", "lost", 2)],
    "C17": [("h_inter", "forks", 1), ("h_binary", "forks", 1), ("h_timed", "forks", 1), ("h_tmulti", "forks", 1), ("h_net", "forks", 1)] + each(NP, "forks", 2),
    "C18": [("h_nuscr", "chance", 1), ("h_nuscr", "failures", 2)],
    "C19": [("h_nuscr", "projection", 1)],
    "C20": [("h_check", "automata", 1)],
    "C21": [("h_check", "verdict", 1)],
}

_f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
# Each has: property, scenario (a workload that executes exactly the failing input), class, match, what.
FINDINGS = [x for x in json.load(open(_f))["findings"] if "scenario" in x] if os.path.exists(_f) else []
