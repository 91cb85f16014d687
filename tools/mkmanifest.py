#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and the registered checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import obl
PROD = 'relational abstract interpretation of optimised-out MIR: lock-step product of implementation and contract over a value-numbering/position domain with linear inequalities, fixpoint with widening'
NOTE = ('Every path of the current code, for arbitrary (opaque) sub-parsers, inputs and callbacks, is analysed against a contract; unbounded loops by fixpoint. '
        'Trusts rustc\'s MIR, the transfer functions for the standard library in sa/, and the contracts in harness/src. '
        'What the analysis cannot decide is listed as undecided in the evidence and is not counted as discharged.')
T = {}
def t(ids, technique, level, note):
    for i in ids.split():
        T[i] = (technique, level, note)
t('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C20 C25 C26', PROD, 'proof', NOTE)
t('C16', 'memory-state abstract interpretation of MIR: initialised-slot and heap-block domain for raw pointers, unions and the allocator, in lock-step with a model stack; fixpoint with widening', 'proof', NOTE + ' A panicking destructor is followed along the unwind edges (storage may then be left behind, never misused); allocation is assumed to succeed.')
t('C21', PROD + ' (raw storage domain; panicking destructors followed along the unwind edges of the MIR)', 'proof', NOTE)
t('C22 C24', PROD + ' (raw storage domain)', 'proof', NOTE)
t('C17', PROD + ' (raw storage domain; allocation forbidden while the requested capacity fits)', 'proof', NOTE)
LN = ('Decided over the generic MIR, types, impls and statics of every library crate, for every instantiation at once. Trusts rustc\'s MIR and type information and the rule in sa/lint.py. ')
t('C14', 'interprocedural taint analysis over generic MIR: the wrapped input may flow only into a rewind or back into the wrapper', 'proof', LN + 'Functions marked unsafe are the caller\'s responsibility.')
t('C15', 'type-level rule: inhabitedness of every marked type under the worst-case substitution, plus lock-step product of the accessors with their contract', 'proof', LN)
TR = ('Decided over every path of Notify::send and of Notify::wait followed by any number of polls. The paper argument in DESIGN.md turns the rules into the schedule property: it trusts Mutex, the atomics and slab, '
      'and takes a 32-bit counter not to wrap within one wait. ')
t('C18', 'typestate analysis over MIR: order of counter, lock, list and waker operations on every path of the notifier and the waiter', 'proof', TR)
t('C19', 'typestate analysis over MIR: no waker operation between locking and unlocking the list on any path of the notifier', 'proof', TR)
t('C27', 'typestate analysis over MIR: order of looks for data, looks for the end, waits and wake-ups on every path of every number of polls', 'proof',
  'The buffer is an opaque one that someone else fills; the notifier is taken to behave as C18 says. Lengths are machine integers. ')
t('C23', 'abstract interpretation over MIR of one buffer on an opaque chain of blocks of any length (ghost position), and lock-step product with a contract through the public interface', 'proof',
  'The chain part takes as given that the position lies within its block, which the rules re-establish. Blocks committed concurrently with one advance are covered by the links being set at most once. ')
t('C28', 'call-graph reachability from every public entry point and trait method to todo!/unimplemented! expansions', 'proof', LN)
t('C29', 'effect and ownership lint: type walk for interior mutability, statics, ambient reads and writes behind shared references in the parser crates', 'proof', LN)
t('C30', 'type-checker query: Send of every library future in the analysed program, instantiated with thread-safe opaque parts', 'proof', 'Each future type is instantiated with opaque parts that are Send and Sync; the answer comes from the compiler\'s trait solver.')
t('C33', 'typestate analysis over generic MIR: parts reached through a pinned pointer followed through reborrows, projections and helpers; Unpin and frame-pinning rules', 'proof', 'Pinning done by the standard library and pin_project is taken as correct; what the generated projections pin is read from their MIR. Poll bodies of futures supplied by the caller are the caller\'s responsibility.')
t('C34', 'type-checker query: Send and Sync of every public type in the analysed program, plus a bound check of every hand-written Send/Sync claim against the field types', 'proof', 'Types are instantiated with opaque parts that are Send and Sync; the answer comes from the compiler\'s trait solver.')
t('C35', 'call-graph and ownership-graph cycles over the generic MIR and types; typestate of links in the destructors that cut an ownership cycle', 'proof', 'Calls through type parameters go into parts the user supplied and are not followed; a std-provided trait method is taken to call the library methods of that trait for its receiver.')
exec(open(os.path.join(V, 'tools', 'manifest_table.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'manifest_table.py')) else None
NA = {
 'C31': 'termination and stack depth of arbitrary user grammars are runtime quantities: repeating a non-consuming parser loops by design and nothing in the source bounds it, so no static argument in reach decides it',
 'C32': 'the runner is an unimplemented placeholder (its parse entry points are todo!()), so there is no code whose paths could be analysed; the placeholder itself is reported under C28',
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in obl.CHECKS:
        te, lv, no = T[p]
        checks.append({'property': p, 'quick_cmd': f'python3 sa/check.py {p}', 'thorough_cmd': f'python3 sa/check.py {p} --thorough',
                       'evidence_file': f'evidence/{p}.json', 'technique': te, 'level': lv, 'level_note': no})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 sa/build.py',
     'hooks': {'guard': 'parcom_verif', 'enable': 'RUSTFLAGS="--cfg parcom_verif" (set by sa/build.py)', 'source_commits': ['58c9b86', '7c7a801']},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
