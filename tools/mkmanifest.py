#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "TLA+ specification checked with TLC; "
NOTES = {
 "C01": (TLA + "recorded programs executed on the specified RS274 machine and judged block by block",
         "Every history of up to 2 requests of the program design is model-checked against the rapid-motion clauses; recorded programs of random histories with real geometry are validated block by block. Assumes stock below the job surface only."),
 "C08": (TLA + "all histories of the model replayed on the real code, recorded programs validated",
         "All request histories of the bounded model are replayed on the real Job API and the printed programs executed on the specified machine; random longer histories in addition."),
 "C02": (TLA+ "pocket passes cut from recorded programs judged point by point by a trace specification over exact integer geometry",
         "Exhaustive small cell layouts of the model are replayed as real pockets; random outlines, islands, avoids, open sides and placements in addition. Containment is decided on sampled points of every cutting move in micrometres."),
 "C03": (TLA+ "pocket passes of recorded programs judged for coverage by a trace specification over exact integer geometry",
         "Exhaustive small cell layouts of the model are replayed as real pockets; random outlines in addition. Coverage is decided at witness points of the millable region, of its boundary and of the narrowest spots between passes."),
 "C10": (TLA + "recorded programs for all mode combinations validated against the specified RS274 machine",
         "All combinations of units, work offset, path mode and coolant, difficult names, empty jobs and random histories; the text is parsed independently of the code under test."),
 "C11": (TLA + "planned moves and printed blocks compared move by move in a trace specification",
         "All lattice arcs of the bounded model; planned commands of random and corner-case shapes against the text they print. Trusts the planned commands as recorded (their geometry is judged by C02-C07)."),
 "C04": (TLA + "profile passes of recorded programs judged against the requested offset outlines by a trace specification",
         "All profile requests of the bounded model and random outlines; every cutting move is matched against the offset outline by exact integer distances at sampled points, in both directions. Trusts the outlines the scenario was generated from."),
 "C05": (TLA + "passes of recorded programs judged layer by layer by the profile and pocket trace specifications",
         "All stepdown/depth combinations of the bounded models are replayed; random requests in addition."),
 "C06": (TLA + "tab spans computed by the specification compared with the heights of recorded profile passes",
         "All tab settings of the bounded model and random tabs on random outlines; heights are compared at sampled points of every pass and at both sides of every span end."),
 "C07": (TLA + "drilling requests of the model replayed and random selections recorded, judged by a trace specification",
         "All selections of up to three holes on a grid and random selections of up to twenty; ties may be drilled in any order."),
 "C09": (TLA + "all histories of the model replayed on the real Job API, every job compared after every request",
         "All histories of three requests on any of the jobs so far, with failing requests, shared shapes and tabs; longer random histories in addition."),
 "C12": (TLA + "edges of the real preview judged against the planned moves and the program text by a trace specification",
         "Random histories on random planes, every preview edge is compared in the world, move by move, with the moves of the program text placed by the specification. Only edge previews (cq_editor is not installed)."),
 "C13": (TLA + "programs of the same request in different placements compared by a trace specification",
         "Random requests of all operations in several placements each; paths are compared both ways at sampled points in micrometres, heights absolutely. Links inside pockets may differ."),
 "C14": (TLA + "all contour-tree histories of the model replayed, recorded offers and sequences judged by a trace specification",
         "All histories of four branchings and closings (all trees they build) and random larger trees; trees recorded from real pockets in addition."),
 "C15": (TLA + "boundary walks of the model replayed, fillings of random regions judged by a trace specification",
         "All rings of the bounded model with all orders of queries; random regions for filling."),
 "C16": (TLA + "surfaces of the model replayed through a modelled drop cutter, recorded programs judged by a trace specification",
         "All heights of a row of four positions with all stepdowns of the bounded model, and random parts of steps and slopes and flat faces of any outline; opencamlib is not installed and replaced by a model (an exact flat cutter, or given heights)."),
 "C17": (TLA + "histories of builds replayed in this and other processes, equal requests compared by a trace specification",
         "All histories of the model with shared inputs and random histories, rendered repeatedly and in several processes with different hash seeds."),
 "C18": (TLA + "all requests of the model replayed, outcome compared with the specification's verdict",
         "Every kind of impossible request of the model and a shuffle of all its requests (thorough: all of them) at several positions of a job's history."),
}
def main():
    exist = [p for p in sorted(NOTES) if os.path.exists(f"{V}/checks/{p.lower()}.py")]
    m = dict(version=1, setup_cmd="bash /verif/setup.sh",
             checks=[dict(property=p, quick_cmd=f"/verif/run {p} --tier quick", thorough_cmd=f"/verif/run {p} --tier thorough",
                          evidence_file=f"evidence/{p}.json", technique=NOTES[p][0], level="model_checking", level_note=NOTES[p][1]) for p in exist],
             not_applicable=[dict(property=json.loads(l)["id"], reason="check not built yet") for l in open(f"{V}/properties.jsonl") if json.loads(l)["id"] not in exist],
             notes="Specification language: TLA+ with TLC (spec/). No hooks in /repo: everything is observed through the public API and the program text.")
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    print(len(exist), "checks")
main()
