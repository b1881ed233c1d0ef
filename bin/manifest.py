#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NA = {
 'C20': "A pure function from a version string and a list of tags to a list: no schedule, clock, fault, interleaving or second party is involved, so there is nothing for a simulator to decide. (C14's oracle contains an independent model of the selection and compares it with what auto-patch makes in every simulated auto-patch, so the part of it that users observe is covered there.)",
 'C21': "A pure function on strings (formatting and parsing file names): no schedule, clock, fault, interleaving or second party is involved. (Every simulated command goes through it with several naming styles; a name that does not round-trip shows up under C03/C04/C07.)",
}
NOTE = {
 'C01': 'Every file in every store is verified against reference content after every operation that changed it, at every kill point, under power loss, and with concurrent commands.',
 'C02': 'Where `current` leads is checked after every operation of every process and after every simulated power loss.',
 'C03': 'Exit status compared with the stores at the moment the process exits, under injected I/O, disk-full and network faults.',
 'C04': 'After disturbed histories the same commands are repeated without faults and have to succeed; commands that meet no fault have to succeed too.',
 'C05': 'Installs over damaged, missing, vanishing and unreadable patches have to end with the genuine build.',
 'C06': 'Bytes fetched from the remote are compared with an independent cheapest-path model.',
 'C07': 'Requests that reach the simulated service, and writes to a file system remote, are compared with a set model.',
 'C08': 'The simulated service and transport corrupt, cut, mix up, refuse, lose and repeat requests and responses.',
 'C09': 'The simulated service pages its listings at 1 to 4 entries, orders them as configured and fails pages; sibling and nested keys are present.',
 'C10': 'Directory listings of stores, remote and temporary directories before and after each command that ended by itself.',
 'C11': 'Two or three processes of the real program interleaved at system-call granularity by the seeded scheduler.',
 'C12': 'Everything that existed before is compared after every operation and at the end.',
 'C13': 'Packages of the same tree at other places, times and listing orders have to be byte-identical; entries are compared with the tree; edits race with packaging.',
 'C14': 'Patches made and exit status compared with an independent model of the tag selection, under faults.',
 'C15': 'Every ending of every process is classified: panics, aborts, signals and endless loops (by step bound or confirmed by wall clock) are violations.',
 'C16': 'Twin executions, with and without foreign files, have to have the same outcome; foreign files have to stay as they are.',
 'C17': 'After a reported success power fails at arbitrary later moments; the simulated disk keeps a prefix of the metadata journal and only synced (or happened-to-be-written) data.',
 'C18': 'Twin executions that differ in incidental choices only have to have the same outcome, byte for byte.',
 'C19': 'Commands are repeated right away; writes and transfers of the repetition are recorded.',
}
TRUST = ' Seeded sampling, not enumeration. Trusted: the simulated file system, S3 service and transport, the reference content, and that threads inside one command do no I/O of their own that the simulator does not see (it intercepts the C library).'
m = {
 'version': 1,
 'setup_cmd': 'bin/setup.sh',
 'hooks': {'guard': 'cfg artefacta_sim', 'enable': 'RUSTFLAGS="--cfg artefacta_sim" (see bin/build.sh)', 'source_commits': ['178abb4']},
 'checks': [], 'not_applicable': [],
 'notes': 'All checks are one simulator (sim/) with a workload, fault profile and oracle per property. bin/replay.sh <file> runs a replay file again.',
}
for p in props:
    i = p['id']
    if i in NA:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
        continue
    m['checks'].append({
        'property': i,
        'quick_cmd': 'bin/check.sh %s quick' % i,
        'thorough_cmd': 'bin/check.sh %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection',
        'level': 'exploration',
        'level_note': NOTE[i] + TRUST,
    })
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
