import json,glob,os
head = r'''# parcom: what is checked and how

One family of technique is used: static analysis. Nothing of parcom is executed, concretely or symbolically with a
solver; every check re-extracts the compiler's intermediate representation of /repo's current working tree, and an
abstract interpreter written for this task (`sa/`) decides obligations over it. A violation names a source line of
/repo, the obligation, and the path of branch decisions that leads there.

## 1. Pipeline

1. `sa/build.py` (also `setup_cmd`) builds `extractor/` (a rustc driver: nightly, rustc-dev) and runs it over the
   workspace's library crates and over `harness/` (a crate with path dependencies on /repo's crates, compiled with
   `--cfg parcom_verif --cap-lints allow`). The extractor writes, per crate, the *generic* MIR, types, impls, statics
   and traits (for the rules of section 4), and for the harness the *monomorphic* MIR of everything reachable from its
   roots (for sections 2 and 3). Results are cached by content of /repo, harness and extractor.
2. `sa/check.py Cnn` runs the obligations listed for the property in `sa/obl.py`, writes `evidence/Cnn.json` and
   exits 0 / 1. Exit 2 = no answer: /repo does not build, or fewer obligations were found than the number confirmed by
   hand (an anchor went missing; fail closed instead of passing vacuously).
3. Three outcomes per obligation: *discharged*, *violated* (a path of the code on which abstraction lost nothing
   disagrees with the rule), *undecided* (the analysis met something it cannot represent, or only a generalised path
   disagrees). Undecided obligations are listed in the evidence and on stdout, are not counted as discharged, and raise
   no alarm. On the current tree nothing is undecided.

## 2. Contracts by lock-step product (C01-C13, C15-C17, C20-C26)

Harness modules (`harness/src/*.rs`) have a `spec` root, a plain Rust statement of the contract, and one or more roots
that call the library in the ways a user can (by value, by reference, through `Box`, as iterator, ...). Both are run by
the same abstract machine (`sa/engine.py`) in lock-step (`sa/product.py`):

- *Abstract values* (`sa/absdom.py`, `sa/terms.py`, `sa/facts.py`): structural values over symbols; linear terms
  over symbols with an equality/inequality fact base (own closure and Fourier-Motzkin style elimination, no solver);
  byte/char/slice sequences as concatenations of named parts; owned storage with provenance; raw storage of the small
  vector and writers with initialised/moved-out parts (`sa/rawmem.py`); locks, atomics, lists, wakers (`sa/sync.py`).
- *Library code is real code*: std's iterator adaptors are analysed from their MIR; where std specialises one (unrolled
  `try_fold`, `Zip` over random access, ...) the plain default definition is taken instead, which the standard library
  guarantees to be equivalent. Constants that are not scalars are evaluated from their bodies.
- *User code is opaque*: sub-parsers, meters, sources, closures, growth policies, wakers are uninterpreted items of
  `harness/src/u.rs`. A pure one is an uninterpreted term of its arguments; one with effects is an **event**. Events,
  with all their arguments, must occur in the same order with provably equal arguments in implementation and contract;
  results are fresh symbols shared by both, so all behaviours of the user's code are covered, including all errors,
  all poll results, and unwinding where `unwinds` is set.
- *Loops*: the product stops at joint points (events); states are compared by instance pruning; after `precise` visits a
  location is widened and the path marked *tainted*. A fixpoint over the widened states discharges the obligation for
  any number of rounds. A disagreement on a tainted path is retried with greater depth (3, 6, 12 rounds; then a probe of
  80 and 400 rounds looking only for untainted differences) and otherwise reported as undecided, never as a violation.
  One exception: a tainted path that is taken only when a count, seen to grow by a constant from one round to the next, has
  become large (a comparison of it entails >= 100, and not >= 2^48), is reported: iterating often enough reaches it (not in
  the small vector, where generalising may lose the tie between length and capacity). This is how narrowed
  counters and caps that no exact depth reaches are found (narrowing casts and masks fork on whether the value fits).
- *Whole histories*: for stateful components (growable buffer, small vector, writers, measured inputs) root and spec
  are a loop that takes the next operation and its arguments from user events; the fixpoint of the product therefore
  covers every history of operations.

The oracle of each contract is the spec root, kept short enough to be read against the property text.

## 3. Path rules by a tracer (C18, C19, C23, C27)

`sa/trace.py` explores one function and feeds its events (atomic reads and writes, lock and unlock, list put/take,
wake, clone, poll, buffer calls) to a monitor automaton with ghost state that takes part in the same fixpoint. Here the
rule is not agreement with a sequential spec but an ordering/typestate discipline which, by the arguments below,
implies the property for every interleaving. Everything other threads may do is havocked: each atomic read
returns a fresh value, the content of a locked list is unknown at each lock.

## 4. Rules over the generic program (C14, C15, C28, C29, C30, C33, C34, C35)

`sa/lint.py` reads the generic MIR, types and impls of every library function, no instantiation: reachability of
placeholders (C28), flow of the unspecified input out of `UnknownLocation` (C14), the value-less-type judgement over
impls of the marker (C15), hidden interior or global state (C29) and the auto traits of every parser future (C30, decided by
rustc's trait solver on obligations that the extractor poses for each public future-returning method).

## 5. Per property

| id | anchored in | deciding rule | limits |
|---|---|---|---|
| C01 | parcom-parsers combinators | product; on any path where a sub-parser failed without `should_terminate`, the next consumer's input term equals the anchor's position | - |
| C02 | same | product; a path with an error of which `should_terminate` is true makes no further event and returns a failure; composed error types by structural contract | - |
| C03 | same | product of each form (value, reference, `Ref`, `Box`, closure) against one contract, and against the by-reference form | - |
| C04-C06 | parcom-parsers, parcom-util | product against the contract of each combinator and adaptor, unbounded iterations | callbacks are events, so calls are counted |
| C07 | parcom-parsers combinator/bin_expr | product against a precedence-climbing spec; the operator stack is `ShortVec`, abstracted as a stack (that it is one is C16/C17) | tables are uninterpreted functions |
| C08 | parcom-parsers primitive/* | product over streams given as any sequence of segments, including empty ones | text literals: over byte prefixes and char boundaries |
| C09 | parcom-core primitive/{str,slice} | product, exact slice terms and panics | - |
| C10 | parcom-core sequence/measured | product over all histories of advance/rewind | - |
| C11-C12 | parcom-metrics line_colmn, end_of_line | product; one char at a time (`chars` is an event), unbounded text, every cut | - |
| C13 | parcom-metrics, parcom-core lengths | product over symbolic fields, all orders of the comparison | - |
| C14 | all crates | taint from the `UnknownLocation` field: no safe public function, impl or closure argument outside core may return, pass on, or read it except `recover`/`rewind`; formatting/comparison are allowed by the property text | - |
| C15 | all crates | every impl of the marker is for a type without values (inductive judgement on ADTs, bounds); `extract` by product | - |
| C16, C17 | parcom-internals shortvec | product over histories of every operation; raw storage with element-wise initialisation, ownership and allocation sizes; inline capacity symbolic per const; panicking destructors followed | allocation is assumed to succeed (failure aborts); leaking under unwinding is allowed; capacity growth is bounded by rounds `bounded` |
| C18, C19 | parcom-internals future/notify | tracer rules, see 6.1 | weak memory beyond release/acquire pairs and locks is not modelled |
| C20 | parcom-internals option_future, reactive filter | product on hand-written polls | - |
| C21 | parcom-sequence-core buffer_writer | product with `unwinds`; element initialisation of the announced buffer | `BufferWriter::push` is reached through the public helpers only; `WriteTo` is not exported |
| C22 | parcom-sequences generic/{buffer,control,loader} | product over all histories of requests, writes, growth, forced commits, cancellation (drop of the loader future at any await), source failure and end | growth policy opaque |
| C23 | parcom-sequences generic/buffer | product of bounded histories through the public API + tracer invariants on a chain of any length, see 6.2 | - |
| C24 | parcom-sequence-sources utf8_validator | product over all chunkings; scalar values abstracted by their encoded length (`scalars`) | an invalid sequence is only reported when more than 3 bytes are left over, or at the end |
| C25 | parcom-sequence-sources iterator_source | product | dependence on a limit of > 400 rounds within one chunk is not found by probing |
| C26 | parcom-sequence-core load_info | product | - |
| C27 | parcom-runners default_runner/sequence/* | tracer rules, see 6.3 | length arithmetic on `usize` |
| C28 | all crates | no call path from a public function reaches `todo!`/`unimplemented!` | 4 known findings |
| C29 | core, parsers, util, metrics | no field of any type can change behind a shared reference; no mutable static or thread-local; no function uses ambient state (cells, atomics, env, time, threads), writes through a raw pointer or shared reference, or casts a shared reference to a mutable one | types behind user parameters excluded |
| C30 | all crates | `Send` of each parser future given `Send + Sync` parts, by trait obligations | requires `Send + Sync` of the parts: a future holds `&parser` |
| C33 | every function that gets a plain reference out of a pin, the helpers it lends it to, every `Drop` impl of a pinning type, every `Pin::new_unchecked` (`sa/pins.py`) | a field ever pinned is never read out, swapped or taken through a pinned pointer; its owner is `Unpin` only if it is; a value pinned in a frame is not moved afterwards | fields are followed through reborrows, tuples, projection structs, closures and library calls; code outside the library that gets a mutable reference makes the obligation undecided unless it is known to move |
| C34 | every reachable type in the analysed program; every `Send`/`Sync` impl | trait obligations with opaque thread-safe parts; a claim made by hand must ask of each type parameter in its fields what it claims | interior cells and references may ask for the other trait: undecided |
| C35 | every library function; every library type | no cycle in the call graph (resolved callees, bodies of closures and futures made, library methods a std-provided method of the same trait calls back); no cycle in the graph of what releasing a value releases, unless a `Drop` on the cycle passes a typestate analysis: on every path each value of the chain is released only after its link was taken, swapped for an emptied one, or found absent or shared, and so is the link of the value itself | calls through type parameters (the user's parts) are not followed; a destructor the typestate cannot follow is undecided |

Not applicable:

- **C31** (termination, stack depth of arbitrary grammars): repeating a parser that does not consume loops by design and
  recursion depth is the user's grammar's; no bound follows from the source.
- **C32** (a runner delivers the source's data end to end): the runner is `todo!()`; there is no code to analyse. The
  placeholders are reported under C28.

## 6. Paper arguments the tracer rules rest on

### 6.1 Notifications (C18, C19)
Rules on `notify`: every path changes the counter (of at least 32 bits, by a non-zero constant), and afterwards there is a
hold of the list lock that ends with the list empty; every waker taken is woken, after the lock is released. Rules on a
wait: it records the counter when created; a poll is ready only on a counter that differs from it; a pending poll has its
own waker in the list under the lock and read the counter unmoved *after* acquiring that same lock. Then: if the counter
moved before the wait's hold, the look under the lock sees it (lock order), so the poll is ready. If it moved after, then
the notifier's emptying hold comes after the wait's hold and takes the waker. Either way nothing is lost. The obligation
`send and wait meet` ties both to the same lock and counter. Wrap-around needs 2^32 notifications between two polls. A
poisoned lock (a waker's clone panics) is propagated as a panic and only noted. *What went before*: a completed wait must also see
what the notifier wrote before `notify`; rule `note: what went before` takes the memory orders and locks of every way the counter
moves and of every read a ready answer can rest on, and asks that each pair synchronises (release with acquire, or one lock).

### 6.2 Chains (C23)
Invariant: a position is (block, offset) with offset at most the block's length, or the end of the chain. Tracer rules: after
`advance(n)` from any position satisfying it, in a chain of unknown length with unknown block lengths, the first segment
starts exactly n items further (ghost count of skipped lengths), the answer is n less what there was; the
reading iterator hands out each block whole and once, the first from its offset; it ends only on a missing next block and looks
again on the next call. Construction of the chain by commits is the product obligation `grow::run`/`blocks`/`follow`.

### 6.3 Streaming input (C27)
The end may be reported only when the flag was read true *before* a look for data that found none (data appended before the
flag is then visible). Not ready may be returned only if this poll woke the task, or a wait was begun before the last looks
for data and flag and was itself polled pending. With C18 no wake-up is lost. The sequence's own signals (what the appending
side notifies) come through hook `DefaultSequence::signals()`. A poll that wakes its own task must have seen news since it last
did so (a notification arrived, data found): otherwise the task is run for ever without anything new (rule `spin`).

## 7. Changes in /repo

Hooks (cfg `parcom_verif`, off by default): 58c9b86, 7c7a801 - accessors only.

Genuine defects repaired (each shown on the real code with a failing input before the repair):

@FIXED@

Known findings, not repaired (the implementation is missing, not wrong): the four placeholder functions of the default
runner (C28). Each is keyed by function; another reachable placeholder is still reported.

Observed, not claimed: a meter made by `LineColumnMeter::new(start)` takes its first character as the start of a new line,
whatever `start` is; the property speaks of meters of a text from its beginning.

## 8. False alarms met while building, and what was done

- C30 first asked for `Send` parts only; a future holding `&parser` needs `Sync` parts as well: property text corrected.
- C24 first demanded that invalid input be reported at once; the filter may hold up to three bytes: text corrected.
- C22 first counted data left pending by a finished write as lost; pending data waits by design: text corrected.
- C14 first flagged formatting and comparing the wrapper: diagnostics are allowed by the text.
- In general: anything the abstract machine cannot represent is *undecided* rather than a violation.

## 9. Planted bugs

Written from the property text and the code; `seeded/<id>/` has patch, demo and meta (`tools/seeds/*.py` generate them,
`tools/plant.py` confirms: demo clean, 17 tests pass with the patch, demo fails with it, the property's check reports it).
All are caught by the check of their property:

@SEEDS@

Strengthening that bugs of this kind led to: deeper unrolling and probing before widening (`c25-long-chunk`, `c27-restart-amount`);
narrowing casts and widths of additions as terms of their own (`c13-bytes-reversed`, `c18-narrow-counter`); written cells
kept alive in pruned states (`c23-short-advance-stays`); drops and unwinding inside truncation (`c21-shrink-half`). Known
blind spot: a threshold that is a *round count* above ~400 (e.g. items of a chunk counted one at a time up to 4096) is
generalised away and ends undecided.

## 10. Cost

Quick: 0.2-40 s each after a shared extraction of ~15 s. Thorough: the same obligations with deeper unrolling before
widening (3, 8, 16, 32) and longer probes; the fixpoint already covers unbounded rounds, so thorough only turns
would-be undecided outcomes into definite ones.
'''
fixed=[]
for k in json.load(open('/verif/known_findings.json')):
    if k['status']=='fixed':
        fixed.append(f"- {k['property']} `{k['commit']}`: "+k['what'].split(k['commit'],1)[1].strip())
seeds=['| seed | property | breaks | needs |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    seeds.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
open('/verif/DESIGN.md','w').write(head.replace('@FIXED@','\n'.join(fixed)).replace('@SEEDS@','\n'.join(seeds)))
