#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REACH = ("Assurance: held on the executions of this run (random cases, stress, injected delays at instrumented "
         "library locations); says nothing about schedules and inputs that were not produced. ")
T = {
 'C01': ("model replay of recorded histories of random machines (trace oracle)",
         "The expected callbacks are computed from the generated table in the order in which events were processed; the order itself is C05."),
 'C02': ("online recorded callback protocol compared with the expected protocol of each transition",
         "Trusts the recorder's sequence numbers (one atomic counter)."),
 'C03': ("interval monitor over recorded callbacks under stress, injected delays and held threads",
         "A blocked fire is only reported if its thread is provably blocked inside the library; otherwise the run is inconclusive."),
 'C04': ("conservation and exactly-once accounting over recorded fires and outcomes under stress",
         "Termination is judged when the executor is provably idle (own executor or parked workers)."),
 'C05': ("real-time order of fires against processing order over recorded histories",
         "Only pairs whose fire calls do not overlap are ordered; overlapping fires may go either way."),
 'C06': ("trace monitor for callbacks, state and reports after the end, with ends placed in racing schedules",
         "The listener call of the ending transition itself counts as before the end."),
 'C07': ("trace monitor around stop() calls from other threads and from callbacks, transitions held at each step",
         "'Without waiting' is decided while the transition in progress is held open by the monitor."),
 'C08': ("exactly-one-success and effect accounting over concurrent starts and early fires",
         "Covers configurations made before the start only."),
 'C09': ("fault injection at recorded callbacks with a report-exactly-once oracle",
         "Exceptions of all kinds, also sneaky checked ones; Errors are only required not to stall other events."),
 'C10': ("payload identity oracle over recorded fires and callbacks with mutation of shared events",
         "Only events of the library's own class (NamedStateEvent)."),
 'C11': ("exact occupancy history of the monitored queue against refusals and maximum",
         "Occupancy is observed through a monitored user-supplied queue and through gates for the default queue."),
 'C12': ("exact history of waiting events against dropped events",
         "Duplicates are judged by intervals of the fire and of the wait; 'in progress' is held open by gates."),
 'C13': ("per-machine attribution and isolation oracle over several machines in one run",
         "Queues or strategies shared on purpose by the user are outside the property."),
 'C14': ("bounds on each observed queue size from recorded accept and completion intervals",
         "Exact at points where the machine is held, interval bounds elsewhere."),
 'C15': ("reference model of the configuration rules over random call sequences, then behavioural replay",
         "Accept/reject by exception type, never by message."),
 'C16': ("registration-interval oracle over concurrent add, remove and notify with throwing listeners",
         "Exact when calls do not overlap; bounds when they do."),
 'C17': ("order, count, thread and context monitor for subsystem calls and lifecycle trace automaton",
         "Apps are driven through their public interface by random and model-based scripts."),
 'C18': ("return and rejection oracle for start() and stop() over scripted and concurrent calls",
         "A start() that does not return is reported only when the app's threads are provably idle."),
 'C19': ("fault injection into subsystems with a lifecycle trace oracle",
         "One known finding (stale completion of an overtaken start) is listed in known_findings.txt."),
 'C20': ("reachability monitor: weak references after forced collections, heap histograms for growth",
         "Reclaimability is only judged after repeated full collections with no live monitor reference."),
 'C21': ("thread monitor in callbacks, factories and a child JVM",
         "Only threads which the library creates; a child JVM shows that machines do not keep a process alive."),
 'C22': ("identity laws over random names and behavioural equivalence of instances through machines",
         "Names are random, adversarially similar and hash-colliding."),
 'C23': ("log monitor (capturing appender) with a layout learned from unmistakable names",
         "The wording around the names is free; count, level, names and prefix are judged."),
 'C24': ("call-accounting oracle over random nestings and exception kinds, alone and in machines",
         "Sneaky checked exceptions included."),
 'C25': ("happens-before race detector by bytecode instrumentation, and visibility oracle over observers",
         "The detector over-approximates synchronisation, so it can miss races but not invent them; JIT effects are reached only as far as the JVM produces them."),
 'C26': ("recording strategies in front of or instead of the library's, hand-over and trace oracles",
         "Strategies are the harness's own; whatever other strategies do beyond the interface is theirs."),
 'C27': ("model replay of recorded lifecycle histories against the documented table",
         "The table is written down in the harness from the documentation of the utility."),
 'C28': ("deadlock monitor (JVM lock graph and provable stalls) over groups of machines driving each other",
         "Only deadlocks that a run produced are seen; injected delays at lock sites make them likely."),
}
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [],
     "notes": "All checks are one harness (harness/src) driven by bin/check: it compiles /repo's working tree, "
              "weaves delay points (and for C25 a race detector) into the copies of the classes, and runs the "
              "monitors in several JVMs. No hooks in /repo. DESIGN.md says what each monitor observes."}
for p in props:
    t, n = T[p['id']]
    m["checks"].append({"property": p['id'], "quick_cmd": "bin/check " + p['id'],
                        "thorough_cmd": "bin/check " + p['id'], "evidence_file": "evidence/%s.json" % p['id'],
                        "technique": "runtime monitoring: " + t, "level": "exploration",
                        "level_note": REACH + n})
with open(ROOT + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
