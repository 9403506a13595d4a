#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.  CLAIMED lists the properties with a working check.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
CLAIMED = {
 'C01': 'Seeded search over constraint networks, edit histories, propagation placement and agenda orders; exact brute-force solution enumeration as oracle. Sampled, small domains.',
 'C02': 'Seeded search over edit histories; oracle is the real engine rebuilt from the surviving postings. Library constraints whose filtering is not confluent are left out (DESIGN.md). Sampled.',
 'C03': 'Seeded search over edit/query histories of the temporal network; exact all-pairs shortest-path oracle on every verdict, bound, distance and conflict. Sampled, up to 12 timepoints.',
 'C04': 'Seeded search over plan histories on generated models; oracle is an independent shortest-path recomputation of every time bound, verdict and temporal-advisor answer, plus each constraint re-checked on the reported state. Sampled, up to 15 tokens.',
 'C05': 'Seeded search over plan histories with a snapshot; every decision made since is withdrawn in a random permitted order and the full dump of the plan must be what it was. State, merge and support relations checked at every step. Sampled.',
 'C06': 'Seeded search over plan histories; the set of rule-created constraints, slaves and local variables is compared with an independent interpretation of the generated rules at every propagated state. Sampled.',
 'C08': 'Seeded search over activity histories on generated resources (all profile and detector kinds); levels, flaws, tokens to order, ordering choices and violations are compared with an independent computation. Sampled; orderings by way of times of other tokens are left out for flow profiles (known finding).',
 'C09': 'Seeded search over problems, solver configurations and interruptions of the search: every solution is re-checked independently, every exhaustion against an independent depth-first search confirmed in a fresh engine, and an interrupted search must end as the uninterrupted one did. Sampled, small problems.',
 'C10': 'Seeded search: the full dump of the plan at every search depth must come back whenever the search returns to that depth (backtrack, backjump, reset, failed step), and solving again after a reset must repeat the answer. Sampled.',
 'C11': 'Seeded search over plan edits, propagation and solver operations between observations of an attached solver; open decisions, scope and handler of each are compared with an independent computation from the configuration and with a solver attached fresh. Sampled.',
 'C07': 'Seeded search over plan histories; timeline sequences, tokens to order and offered ordering choices are compared with an independent computation. Sampled.',
 'C14': 'Seeded search over interleaved programs for up to three engines with broken and cut scripts, invalid operations, shutdowns and restarts at any point; each engine is compared with its lone run, entities are attributed to their engine and none may survive its shutdown. Sampled.',
 'C15': 'Seeded search over plan and solver histories with listeners attached and detached at any point; mirrors built from the notifications alone are compared with the engine, and a twin run shows that listening changes nothing. Sampled.',
 'C16': 'Seeded search over edit histories with violations allowed: totals, lists and explanations must agree with each other, and consistency, domains and conflicts with fresh engines holding all, the unviolated and the connected constraints. Sampled; constraints which post others in their place are left out.',
 'C12': 'Seeded search over client histories and crash points: the log is cut off between or inside entries, fed back whole or in chunks, and the plan it rebuilds must be the one at the last complete operation. Sampled; cancellations, and deletions other than of the newest token, are left out of the histories.',
 'C18': 'Seeded search over thread schedules: every memory access of the shared tables is a switch point, preemptions are chosen by the seed; interval-based judgement of every answer plus an exact check at rest. Sampled.',
 'C17': 'Seeded search over programs (model, operations, solver configuration): each is run in two forked processes, plainly and with scrambled heap placement after, beside and between other engines; every visible line must be the same. Sampled.',
}
NA = {
 'C19': 'A pure function of two values: no schedule, time, I/O, fault or history for a simulator to control; exercised indirectly through C01.',
 'C20': 'A pure function of one document: no schedule, time or history; the crash-torn documents that do matter are decided under C12.',
 'C21': 'A pure function of one program text: nothing nondeterministic for a simulator to control; failing scripts inside a live engine are decided under C14.',
}
PENDING = 'Applicable to this technique (the log can be rewound inside a simulated history), but not claimed: the inverse operations of the player are unfinished (no inverse of restrict and assign, uncancel and undelete guess from the log), so that no sound statement over all histories holds for the code as it is.'
m = {'version': 1, 'setup_cmd': './check.sh build', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks were needed in /repo: every seam is an existing extension point (component factories, propagator and listener classes, streams) or a link-time interposition in /verif/sim.'}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
          'technique': 'deterministic simulation with fault injection (seeded schedule, history and fault search)', 'level': 'exploration', 'level_note': CLAIMED[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, PENDING)})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
