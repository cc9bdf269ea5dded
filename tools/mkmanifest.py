#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the checks the harness lists (`mc list`).
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = dict(l.split() for l in subprocess.check_output([root + '/harness/target/debug/mc', 'list'], text=True).splitlines())
T = {
 'C01': ('explicit-state enumeration of operation sequences on the real ledger against an exact reference model', 'All operation sequences to depth 2-3 over three accounts, both assets, and every representation boundary (bytes, limbs) of 256-bit amounts; sled is trusted.'),
 'C02': ('explicit-state enumeration of refusals at every acceptance boundary against an exact reference model', 'Every operation in every boundary state with amounts at and around the threshold; whole state compared after each refusal.'),
 'C03': ('stateless model checking: preemption-bounded exhaustive schedule enumeration with linearizability checking', 'All schedules of 2-3 threads at storage-operation and lock granularity within 3 preemptions (quick) / 8 (thorough); sequential consistency, storage operations atomic.'),
 'C04': ('explicit-state enumeration of submissions around every admission threshold against a reference admission model', 'Every combination of threshold class (gas, coins, amount, payload, signature, repetition, tip difficulty) within the stated value sets; whole observable state compared.'),
 'C05': ('stateless model checking: preemption-bounded exhaustive schedule enumeration of concurrent submissions', 'All schedules of 2-3 submitting threads within the preemption bound, judged by linearizability against the admission model.'),
 'C06': ('bounded exhaustive enumeration of values against an independent reference codec', 'Every value of the boundary sets is encoded, compared with a reference encoder byte for byte, decoded and re-encoded.'),
 'C07': ('bounded exhaustive enumeration of malformed encodings, monitored for crashes', 'Every truncation, every length/type byte value at every position and all short strings; overflow checks and debug assertions on; crashes of the process are caught.'),
 'C08': ('bounded exhaustive enumeration of single-field and single-bit differences', 'Every single-bit change of every field and all pairs of the boundary value sets; SHA-256 is trusted.'),
 'C09': ('bounded exhaustive enumeration of single-bit alterations of signed transactions', 'Every single-bit alteration of every byte, all key pairs of a set, curve-order boundary signatures; libsecp256k1 trusted.'),
 'C10': ('bounded exhaustive enumeration of lists, items and proof alterations against a reference tree', 'All list lengths around powers of two, all permutations up to the bound, every step altered; two algebraic weaknesses are listed as known findings.'),
 'C11': ('exhaustive enumeration of difficulty states and nonces against a reference verdict', 'All 257 difficulty widths crossed with hashes of every attainable width; every input altered bit by bit.'),
 'C12': ('explicit-state exploration of the complete retarget state machine', 'All reachable difficulties crossed with every boundary time difference: the complete state graph of the rule.'),
 'C13': ('explicit-state exploration of emitted chains with exhaustive single-field corruption against a reference verdict', 'Every emitted block and every single-field/single-bit corruption of it, judged by an independent verdict.'),
 'C14': ('explicit-state enumeration of append/query sequences against a reference index', 'All sequences of good and bad appends to the depth bound, long chains, and crafted heights at byte boundaries.'),
 'C15': ('explicit-state enumeration of multi-owner histories against a reference model', 'All sequences of create/append/flush/reopen over several owners to the depth bound.'),
 'C16': ('explicit-state enumeration of emission attempts against a reference model', 'All histories of accepted and refused emissions to the depth bound at both sides of every admission condition.'),
 'C17': ('explicit-state enumeration of ledger states at an epoch boundary against a reference snapshot', 'Rollover executed from every enumerated ledger state; the snapshot databases are opened and compared.'),
 'C18': ('stateless model checking: preemption-bounded exhaustive schedule enumeration of chain operations', 'All schedules of 2-3 threads appending, querying and flushing within the preemption bound; deadlocks and crashes detected.'),
 'C19': ('explicit-state enumeration of histories with flush/reopen inserted at every position', 'Whole observable state compared after every reopen, repeated.'),
 'C20': ('exhaustive crash-point enumeration over the recorded file-system effects of real histories', 'Every crash point with completed-prefix, torn-write and lost-unsynced-data images; each image is reopened and judged.'),
 'C21': ('exhaustive crash-point enumeration over the file-system effects of an epoch rollover', 'Every crash point of the rollover; reopen, compare with before/after, redo the rollover.'),
 'C22': ('exhaustive single- and double-fault enumeration over storage operations', 'Each storage operation of each call fails in turn (and pairs); state compared, call repeated.'),
 'C23': ('explicit-state enumeration of pool operation sequences against a reference queue', 'All insertion orders and push/pop interleavings to the bound, with timestamp ties.'),
 'C24': ('explicit-state enumeration of recording histories against a reference map', 'All sequences of recording operations to the depth bound; everything recorded re-read after each step.'),
 'C25': ('bounded exhaustive enumeration of contents and trees, with file-system fault enumeration', 'All content classes and directory shapes of the bound; every file-system call failing in turn.'),
 'C26': ('explicit-state enumeration of operation sequences plus crash-point enumeration', 'All sequences to the depth bound against an exact model; every crash image after each completed operation.'),
 'C27': ('exhaustive crash-point enumeration of the first opening plus state comparison with the defined genesis', 'Every crash point of the first run; the reopened state must be exactly genesis.'),
 'C30': ('explicit-state enumeration of block delivery sequences between two real trees against a reference verdict', 'All delivery sequences to the depth bound of genuine, repeated, altered and competing blocks, both chain kinds; hash functions trusted.'),
 'C31': ('stateless model checking: preemption-bounded exhaustive schedule enumeration, with the crash image at every flush return reopened', 'All schedules of 2-3 threads within the preemption bound; the disk image (killed and power loss) at each flush return is reopened and judged.'),
 'C32': ('explicit-state enumeration of histories and written folders against an independent reader and writer', 'All histories of the bound read back by a reference reader of the stores; a bounded family of states written by a reference writer, opened and continued; sled itself is trusted.'),
 'C33': ('explicit-state enumeration of merges of histories over two trees, and schedule enumeration of two threads on two trees', 'All merges of the listed histories and all schedules within the preemption bound; each tree compared with the same history run alone.'),
 'C34': ('stateless model checking: exhaustive enumeration of cancellation points of asynchronous operations under a gate on helper threads', 'Every wait and every helper-thread file-system call of each operation, with the call let through or held up, and each listed continuation; state and folder compared with the model.'),
 'C35': ('explicit-state enumeration of histories with questions inserted at every point, compared with the same history without them', 'All histories to the depth bound with every question at every point, each question alone at each point of longer ones; the complete folder content compared; all orders of questions to one value.'),
 'C36': ('exhaustive enumeration of single damages to stored records and configurations', 'Every record of a tree removed, cut at every length, retyped and lengthened, every configuration cut at every length; every question and operation under it, judged by what is stored, and the state after mending.'),
 'C37': ('exhaustive enumeration of histories and file-call failures, open files and folder content observed', 'All histories of three library operations carried out twice with refusals between, every operation around the end of an epoch, every single and lasting failure of a file call in it; compared with a tree that was only opened.'),
}
NA = {
 'C28': 'Computational hardness of SHA-256 and ECDSA: a statement about all feasible computations, with no bounded space of behaviours of this code to enumerate.',
 'C29': 'A statistical limit over random mining times, not a property of individual executions; model checking enumerates executions and has no probability measure (the per-step rule itself is C12).',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        t, n = T[i]
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique=t, level=have[i], level_note=n))
    else:
        na.append(dict(property=i, reason=NA[i]))
m = dict(version=1, setup_cmd='./setup.sh',
         hooks=dict(guard='none', enable='/repo carries no hooks: scheduling points and storage faults live in copies of sled and parking_lot substituted by [patch.crates-io] in harness/Cargo.toml; file-system calls are interposed at link level', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='All checks explore the real code built from /repo by one harness (harness/). Genuine defects that were repaired or recorded are in KNOWN_FINDINGS.json.')
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
