#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table; a property is claimed when checks/<id>.py exists."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                               **({"observe_at": list(observe)} if observe else {}), hook_needed=None)))
    META[id] = (technique, note)
META = {}
TRACE = "TLA+ specification checked with TLC; recorded library runs validated against it event by event"

prop("P01", "Halo exchange gives every rank its periodic neighbours' slices",
     "After an exchange of n boundary layers completes, the n layers in front of each rank's slab are the last n slices of the previous rank and the n layers behind it are the first n slices of the next rank, with the first and the last rank neighbours of each other. Interior values never change, whichever exchange call, depth, field type, precision or rank count is used, and the exchange never blocks.",
     ["schedules", "histories", "configurations"], "all interleavings of the ranks' sends, receives and waits; all histories of exchanges, overwrites and layout changes; ranks, depths, types, precisions",
     "The test programs run on one or two ranks with one stencil depth and look at end results only; a wrong or stale layer, or a deadlock, shows only for certain ranks, depths and call orders.",
     ["lib/scalar/scalarField.cpp", "include/scalar/scalarField.h", "lib/comms/comms.cpp"],
     [("neighbours of a rank", "lib/comms/comms.cpp (commNeighbour)"), ("boundary messages and tags", "lib/scalar/scalarField.cpp (sendGhosts, sendGhosts2, sendGeneral, exchangeGhosts)")],
     state=[("ghost layers", "copies of the neighbours' boundary slices", "include/scalar/scalarField.h")],
     technique="TLA+ (TLC): message-level model of the exchange; histories of real exchanges validated against the store specification",
     note="Halo.tla is exhaustive for 1-3 ranks (all interleavings and matchings); the binding to the code replays random histories of real exchanges on 1-4 ranks and compares every layer")
prop("P02", "Changing the storage layout never changes the field",
     "Switching a field, its velocity or its work copy between the plain and the vectorised storage order moves every site value to its documented place and back unchanged, does nothing when the field is already in the requested order, and reports the current order correctly. Slices taken across z or across x are always in plain order and equal to the field's values, whatever order the field is stored in and whatever was called before.",
     ["histories", "inputs", "configurations"], "all sequences of layout changes, slice extractions, overwrites and exchanges; all types, precisions, sizes and depths",
     "The tests fold and unfold once, for one size and type; an error that depends on the vector length, the depth, the flag history or the slice is not reached.",
     ["lib/scalar/folder.cpp", "include/scalar/folder.h", "include/scalar/scalarField.h"],
     [("layout conversions", "lib/scalar/folder.cpp (foldField, unfoldField, unfoldField2D, unfoldField2DYZ, foldField2, unfoldField2)"), ("vector length of a type", "include/scalar/scalarField.h (Shift)")],
     state=[("layout flags", "which order the pair (field, velocity) and the work copy are in", "include/scalar/scalarField.h")],
     technique="TLA+ (TLC): store specification, exhaustive on a small lattice; model-generated call sequences replayed on the library and validated",
     note="StoreMC.tla is exhaustive on a small lattice; sequences simulated from the model are executed by the real library on many types and sizes")
exec(open(f"{ROOT}/tools/more_properties.py").read()) if os.path.exists(f"{ROOT}/tools/more_properties.py") else None

def main():
    with open(f"{ROOT}/properties.jsonl", "w") as o:
        for p in P:
            o.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        t, note = META[i]
        if os.path.exists(f"{ROOT}/checks/{i}.py"):
            checks.append(dict(property=i, quick_cmd=f"python3-vt tools/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3-vt tools/check.py {i}",
                               evidence_file=f"evidence/{i}.json", technique=t or TRACE, level="model_checking", level_note=note or "conformance of recorded runs; see DESIGN.md for the bounds"))
        else:
            na.append(dict(property=i, reason="not built yet"))
    json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na), open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
main()
