#!/usr/bin/env python3
# Writes MANIFEST.json from the list of properties that have checks.
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl') if l.strip()]
notes = {
 'P01': 'Whole node under hostile datagrams on both groups, operator commands, stalls, clock jumps and crashes; then a probe beacon, request and command have to be acted on.',
 'P02': 'Wire bytes and values handed on are compared with an independent codec; two real nodes and stub hosts over a network with loss, duplication, delay and reordering.',
 'P03': 'Every delivered datagram is judged by an independent decoder: handed on, dropped or answered by exactly one bad-packet status.',
 'P04': 'Peer table and listings against a reference table built from the beacons handed on; clock jumps, restarts and concurrent readers.',
 'P05': 'Datagrams leaving the node with their simulated send times against the settings in force when each command was given; send, statfs and working-directory faults.',
 'P06': 'Requests, statuses, transfers and the simulated disk against a reference responder that allows every order of concurrent requests; removal faults.',
 'P07': 'Every path handed to the simulated file system and a snapshot of everything outside the directory, for hostile names through requests, commands and library calls.',
 'P08': 'Concurrent receptions, sends, removals and local creation on the same names against ownership rules; disk faults at any call.',
 'P09': 'Positioned reads and writes against a reference byte array, with short, failing and torn I/O and full disks.',
 'P10': 'Metadata, directory entries and checksums against independent computation on the simulated disk, with faults at any call.',
 'P11': 'Range bookkeeping against a bitmap model, and end-to-end reassembly between two nodes that use the real frames, holes and file code over a faulty network.',
 'P12': 'Datagrams of status reports against the holes computed by a model for every MTU, descriptor and flag combination; send errors at any frame.',
 'P13': 'Concurrent transfer commands against list invariants and a reference of what may be listed; dial and disk failures.',
 'P14': 'Concurrent and random command lines against a reference of each setting (the value of some last valid command), snapshots of transfers, and liveness.',
 'P15': 'Timestamps of frames and library calls against the simulated clock for every format, with skew and jumps.',
 'P16': 'Settings, tables, sockets and exit of a starting node against its configuration file; read errors, short reads, truncated and wrong files, missing directories and interfaces; restart.',
 'P17': 'Contents of the windows of the real user-interface library on a stub terminal against the messages reported by many tasks at once.',
 'P19': 'Exit of a real node and its level, or full service to probes, after commands, keys, terminal sizes, traffic and failures of sockets, options, interface listing and terminal at start or later.',
 'P20': 'What enquiries show on the real window library against the settings in force before and after, with concurrent changes; nothing else changes and nothing is sent.',
 'P21': 'Entries of the packet window, and answers in the message window, of the real user-interface library against the datagrams on the simulated network, read by an independent decoder.',
 'P22': 'What the windows of the real user-interface library show after every kind of command line, alone and many at once, with dial and disk faults, against what each line calls for.',
 'P23': 'Three simulated nodes, each running the whole program, through histories of settings, beacon commands, partitions, crashes and other faults; their peer tables once the faults have stopped against what the operators know of the nodes.',
 'P24': 'What the simulated terminal shows (cells and cursor of the real window library on a stub screen) after histories of reports, commands, clears, keys, control characters, sizes and a slow user interface, against the texts of the windows, the keys pressed and what was typed.',
 'P25': 'Open sockets and files of the simulated process at rest against its listeners and the transfers it lists, after histories with failing dials, sends, disk calls and too few descriptors; then a probe beacon, request and beacon command have to be acted on.',
}
done = sys.argv[1].split(',') if len(sys.argv) > 1 else sorted(notes)
na = {'P18': 'Pure functions of their arguments: no schedule, clock, I/O, fault or second party for a deterministic simulation to vary, so the family adds nothing to ordinary generated tests; their effects on frames are covered by P02, P05 and P12.'}
checks = []
for p in props:
    i = p['id']
    if i in done:
        checks.append({
            'property': i, 'quick_cmd': f'bash check.sh {i} quick', 'thorough_cmd': f'bash check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'deterministic simulation with fault injection: seeded search over schedules, inputs and faults of the real node code, checked against a reference model',
            'level': 'exploration',
            'level_note': notes[i] + ' Exploration by seeds: no violation among the runs made, no exhaustiveness claimed. Trusts the source rewriting, the simulated system calls and the reference model.',
        })
    elif i not in na:
        na[i] = 'No check yet.'
m = {
 'version': 1,
 'setup_cmd': 'bash check.sh build',
 'checks': checks,
 'not_applicable': [{'property': k, 'reason': na[k]} for k in sorted(na)],
 'notes': 'No hooks in /repo: sim/cmd/simgen rewrites the sources of the working tree into a scratch directory so that goroutines, channels, locks, shared memory, clocks, sockets, files and the terminal belong to the simulator. Every check regenerates and compiles the worker. bash check.sh replay FILE repeats a recorded violation. DESIGN.md describes everything, KNOWN_FINDINGS lists defects found.',
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
