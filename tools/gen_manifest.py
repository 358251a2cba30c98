#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTE = ("Bounded exploration: inputs are drawn from a seeded generator and, where stated, enumerated; "
        "a property that holds on them is not proved for all inputs.")
REFERENCE = ("online monitor: every prediction is compared with an independent reference model "
             "whose rounding error is measured by stochastic-rounding runs")
CHECKS = {
    "C01": REFERENCE,
    "C02": REFERENCE,
    "C03": REFERENCE,
    "C04": "online monitor: the outcome (success or kind of divergence, with its values) is compared with the one of the reference model, in particular around bisected divergence times",
    "C05": "online monitor: every initialiser is compared with the documented recipe and with the published conversion, whose rounding error is measured by stochastic-rounding runs",
    "C06": "online monitor of request histories: each answer and each carried state is compared with a fresh propagation",
    "C07": "online monitor: both modes are compared with each other and with the reference model",
    "C08": "online monitor: every decoded field is compared with the value from which the TLE text was generated",
    "C09": "fault injection with an online monitor of the reported error",
    "C10": "hostile input fed to builds with overflow checks, without them, with the address sanitizer and to an undefined-behaviour interpreter (Miri)",
    "C11": "online monitor: every entry of a parsed list is compared with its group decoded alone",
    "C12": "online monitor: every decoded field of an OMM is compared with the value written, every rejection with the reason for it",
    "C13": "online monitor: values are written, read back and compared, and the propagators read back are run",
    "C14": "online monitor: epochs and sidereal times are compared with their definitions in integer and double-double arithmetic",
    "C15": "online monitor: conversions between dates and minutes are compared with integer arithmetic on nanoseconds",
    "C16": "online monitor of panics and processor time on extreme values, in builds with and without overflow checks and with the address sanitizer",
    "C17": "online monitor of purity over call orders and threads, thread sanitizer, and a data-race detecting interpreter (Miri)",
    "C18": "online monitor: programs built with every feature configuration are run side by side and their outcomes compared",
    "C19": "counting allocator: the heap calls, the peak and the remaining bytes of every call are compared with what the statement allows",
    "C20": "online monitor: the text of every error provoked or built is searched for the cause and the values that the error holds",
}

manifest = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": [
        {
            "property": prop,
            "quick_cmd": "VERIF_TIER=quick python3 run.py check " + prop,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + prop,
            "evidence_file": "evidence/%s.json" % prop,
            "technique": technique,
            "level": "exploration",
            "level_note": NOTE,
        }
        for prop, technique in CHECKS.items()
    ],
    "not_applicable": [],
    "notes": "Runtime monitoring and sanitizers. No hooks are needed in /repo: all observations are made through the public API.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
