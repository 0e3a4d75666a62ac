#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import profiles

BASE = ("Seeded exploration, not proof: every schedule, delay and fault of a "
        "run is drawn from the seed; the real server code runs against a "
        "simulated transport, clock and operating system and is compared "
        "continuously with a reference model. Trusts the libxcm/epoll "
        "stand-in and the model. ")
NOTES = {
 'P01': "Also a CPU-time bound per turn (hang). Messages beyond the transport's size limit are a recorded finding.",
 'P14': "The real event loop and timers as a component with random registrations, and the whole server under late and early wake-ups.",
 'P16': "Real paf.client processes against the real server and against a scripted peer which misbehaves.",
 'P17': "A violation counts for this property if it names it or disappears when the other domains' activity is removed.",
 'P18': "Growth is judged over five repetitions of the same activity.",
 'P19': "Crashes at arbitrary system calls; only the clients' state survives, as the server is without durable state.",
 'P21': "The real app/pafc as a process of two threads, which the simulator interleaves at system calls, terminal output and thread synchronisation; the terminal is simulated.",
 'P20': "A violation counts for this property if it names it or disappears without the clock steps.",
}
TECH = "deterministic simulation with fault injection (seeded schedules, reference model oracle)"
NA = {
 'N01': "Pure function of filter string and properties: no concurrency, time, I/O or second party is involved, so there is no schedule or fault to simulate. (Filters are exercised incidentally with an independent matcher in the model.)",
 'N02': "Pure function of a message: nothing for a scheduler or fault injector to decide. (Every message of every run is decoded independently in the model.)",
 'N03': "Evaluated once from a file and arguments before the system starts; sequential and fault-free, so simulation adds nothing over ordinary input testing.",
}
checks = []
for p in sorted(profiles.PROFILES):
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py %s quick' % p,
        'thorough_cmd': 'python3 check.py %s thorough' % p,
        'technique': TECH, 'level': 'exploration',
        'level_note': (BASE + NOTES.get(p, '')).strip()})
props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
have = {c['property'] for c in checks}
na = [{'property': p, 'reason': NA.get(p, "machinery not built yet")}
      for p in props if p not in have]
json.dump({'version': 1, 'setup_cmd': 'python3 check.py setup',
           'checks': checks, 'not_applicable': na,
           'notes': "No hooks were added to /repo: the code is loaded unmodified and every source of nondeterminism is intercepted at the module boundary (sim/loader.py)."},
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
