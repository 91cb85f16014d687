import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
C="crates/parcom-parsers/src/"
K="crates/parcom-core/src/"
I="crates/parcom-internals/src/"
p("C01","Recoverable failures backtrack to where the attempt started",
 "Whenever a sub-parser fails with an error that does not ask to terminate and the surrounding parser goes on (next alternative, optional value, end of a repetition, operator without right operand), parsing resumes exactly at the position the failed attempt started from. No input consumed by the failed attempt is lost and none before it is re-read.",
 ["inputs","programs"],"every input stream, every sub-parser behaviour, every number of preceding iterations, by-value and by-reference and iterative forms of or, optional, repeat, collect and binary expressions",
 "sub-parsers are arbitrary code and may consume any amount before failing; tests use a few atoms that never consume before failing",
 [C+"combinator/or.rs",C+"combinator/optional.rs",C+"combinator/repeat.rs",C+"combinator/bin_expr.rs",C+"iterative/collect.rs"],
 [("choice","or.rs Or::parse/parse_once"),("optional","optional.rs parse/parse_once/parse_next"),("repetition","repeat.rs"),("collect","collect.rs parse"),("binary expressions","bin_expr.rs parse_impl")])
p("C02","Terminating errors abort the whole parse and are never swallowed",
 "An error that asks to terminate, raised by any sub-parser at any point, ends every surrounding parser at once with failure: no alternative is tried, no repetition continues, no success is reported, and the resulting error still asks to terminate. Composed error values ask to terminate exactly when an error they carry does; the always-fatal and never-fatal wrappers do so unconditionally.",
 ["inputs","programs"],"every parser composition, every error value, every point in a repetition",
 "needs a terminating error at an arbitrary iteration of an arbitrary composition; the suite never raises one",
 [C+"combinator",C+"iterative",K+"parse_error.rs","crates/parcom-util/src/error.rs","crates/parcom-util/src/either.rs","crates/parcom-util/src/either_both.rs"],
 [("termination flag",K+"parse_error.rs ParseError"),("composition","either.rs, either_both.rs, error.rs"),("every combinator's error arms",C)])
p("C03","By-value, by-reference and wrapped parsers behave identically",
 "Running a parser by value, by reference, through a reference wrapper, through the boxing wrapper, or as an ordinary function gives the same sub-parser calls in the same order, the same result and the same final position. The same holds for the by-value and by-reference forms of iterative parsers.",
 ["inputs","programs"],"every parser, every input, every way of invoking it",
 "each combinator is written twice; tests run only one of the twins on a few inputs",
 [C+"combinator",C+"iterative",C+"util.rs",K+"parser.rs"],
 [("twins","parse vs parse_once in every combinator"),("wrappers","reference.rs Ref, util.rs Boxed, parser.rs blanket impls")])
p("C04","Sequencing and mapping combinators are transparent",
 "Sequencing runs its two parts in order, the second starting where the first ended, and returns both outputs in order or the error of the part that failed, labelled with that part. Mapping, error mapping, fallible mapping and unification call the supplied function or conversion exactly once on the relevant branch, change only the value they are meant to change, and leave consumption and the other branch untouched.",
 ["inputs","programs"],"every pair of sub-parsers, every mapping function and every outcome",
 "quantifies over arbitrary sub-parsers and callbacks",
 [C+"combinator/join.rs",C+"combinator/map.rs",C+"combinator/and_then.rs",C+"combinator/unify.rs"],
 [("join","join.rs"),("map, map_err","map.rs"),("and_then","and_then.rs"),("unify, unify_err","unify.rs")])
p("C05","Choice and optional report exactly what their parts did",
 "Choice tries its first part, then only on a recoverable failure its second from the same position, and its output or error names the part that succeeded, the part that terminated, or carries both recoverable errors in order. Optional turns success into the value, a recoverable failure into a success carrying the error, and never runs its part more than once.",
 ["inputs","programs"],"every pair of sub-parsers and every combination of outcomes",
 "tests try a handful of literal alternatives",
 [C+"combinator/or.rs",C+"combinator/optional.rs","crates/parcom-util/src/either.rs","crates/parcom-util/src/either_both.rs"],
 [("choice","or.rs"),("optional","optional.rs")])
p("C06","Repetition and iteration adaptors deliver each item once, in order",
 "Repetition, collection, folding, scanning, per-item mapping, mapping while, fallible mapping and taking a prefix each see every item of the underlying iteration exactly once and in order, apply the supplied function once per item, stop at the first end signal or error without reading on, and report the accumulated result or that error. Taking n items reads at most n items and nothing after the nth.",
 ["inputs","histories","programs"],"every number of items, every adaptor, every callback, every point at which iteration ends or fails",
 "iteration counts are unbounded and the failing iteration is arbitrary",
 [C+"iterative",C+"combinator/repeat.rs",C+"combinator/optional.rs"],
 [("adaptors",C+"iterative/*.rs"),("repeat","repeat.rs"),("iterative optional","optional.rs IterationState")])
p("C07","Binary expressions respect precedence, associativity and operand order",
 "For every operator table and every token sequence the expression built groups operators of higher precedence first, equal precedence by the left operator's associativity, keeps operands and operators in input order, and uses each exactly once. Parsing stops before the first operator that is missing or has no right operand and reports that reason.",
 ["inputs","programs"],"every sequence of operands and operators of any length, every precedence number and associativity",
 "expression length and operator tables are unbounded",
 [C+"combinator/bin_expr.rs",I+"shortvec.rs"],
 [("precedence climbing","bin_expr.rs parse_impl, next_precedence")])
p("C08","Primitive parsers consume exactly what they match",
 "The any-character, any-item, given-character, given-item and literal parsers succeed exactly when the upcoming input starts with what they accept, consume exactly that much, and otherwise fail without panicking. The outcome does not depend on how the input is cut into segments, including empty segments and matches spanning several segments.",
 ["inputs"],"every text, every segmentation, every pattern including empty and multi-byte ones",
 "segmentations and multi-byte boundaries are not enumerated by tests, which only use single-segment ASCII input",
 [C+"primitive/any.rs",C+"primitive/the.rs",C+"primitive/atom.rs"],
 [("any","any.rs"),("the","the.rs"),("atom","atom.rs")])
p("C09","In-memory text and slice inputs advance and rewind exactly",
 "Advancing an in-memory text or slice by n yields exactly the suffix after n units (nothing when n exceeds what is left, never a panic for lengths that fall on element boundaries), its segments are exactly the unread data, and rewinding to a position taken from the same input restores exactly that position. Rewinding to a position of a different input is rejected instead of silently moving there. Text lengths count bytes, and the zero length is zero.",
 ["inputs","histories"],"every text or slice, every advance length, every interleaving of taking positions, advancing and rewinding, including zero-sized elements",
 "needs over-long advances, zero-sized elements and rewinds after exhaustion",
 [K+"primitive/str.rs",K+"primitive/slice.rs",K+"primitive.rs"],
 [("advance","Sequence::advance"),("rewind","RewindSequence::rewind"),("segments","Nodes::next")])
p("C10","Measured inputs report the measure of exactly the consumed prefix",
 "After any series of advances and rewinds a measured input's reported position equals its meter applied to exactly the consumed prefix, piece by piece in order. Rewinding restores position and data together, and wrapping an input with a meter does not change what it yields.",
 ["inputs","histories"],"every text or slice, meter, and interleaving of advance, position and rewind, including advances beyond the end",
 "relates two pieces of state over arbitrary histories",
 [K+"primitive/str.rs",K+"primitive/slice.rs",K+"sequence/measured.rs"],
 [("measured text","str.rs Measured"),("measured slice","slice.rs Measured"),("count meter","measured.rs usize")])
p("C11","Line and column positions are correct for every text and chunking",
 "The line and column meter counts every character once, starts a new line (column restarting) exactly at the first character after a line terminator, and numbers columns consecutively within a line. Measuring a text in one piece or in any series of pieces gives the same position, and a meter started explicitly at the origin measures like a default one.",
 ["inputs","histories"],"every text, every way to cut it into pieces, every line-terminator recogniser",
 "chunkings are never tested; texts are unbounded",
 ["crates/parcom-metrics/src/line_colmn.rs"],
 [("meter","LineColumnMeter::advance")])
p("C12","Line-terminator recognisers accept exactly their terminator",
 "Each recogniser reports a match exactly at the last character of every non-overlapping occurrence of its terminator (line feed, carriage return, or carriage return followed by line feed) in the character stream, whatever precedes it. A partial match is reported exactly while a proper prefix of the terminator has just been read.",
 ["inputs","histories"],"every character stream, from every reachable recogniser state",
 "recognisers carry state across characters and chunks; tests never use the two-character one",
 ["crates/parcom-metrics/src/end_of_line.rs"],
 [("automata","EndOfLine::next for LF, CR, CRLF")])
p("C13","Position ordering is a total order consistent with equality",
 "Comparing two positions (or two text lengths) reports equal exactly when they are equal field by field, the two comparison operators agree, and the order is antisymmetric, transitive and follows the total character count.",
 ["inputs"],"every pair and triple of positions",
 "a relation over all triples of values",
 ["crates/parcom-metrics/src/line_colmn.rs",K+"primitive.rs"],
 [("ordering","LineColumn Ord/PartialOrd/PartialEq")])
p("C14","After a failure the input is usable only by rewinding",
 "Safe code outside the core crate can obtain a readable input from the input handed back by a failed parse only by rewinding it to a recorded position. No safe function, trait implementation or field exposes the unspecified position (formatting, comparing or hashing the wrapper for diagnostics, and copying the wrapper itself, do not count as reading it).",
 ["programs"],"every safe client program",
 "absence of an escape hatch cannot be shown by any number of programs that do not find one",
 [K+"unknown.rs",K+"lib.rs"],
 [("wrapper","unknown.rs UnknownLocation")])
p("C15","Types marked as impossible really have no values",
 "Every type that carries the never-constructed marker has no values, so the accessors that rely on it can never reach their impossible branch. Extracting the remaining side of a two-way value with an impossible side returns exactly the value held.",
 ["programs"],"every instantiation of the marker's implementations and every value",
 "quantifies over all types implementing the marker",
 [K+"never.rs","crates/parcom-util/src/either.rs","crates/parcom-util/src/either_both.rs"],
 [("marker","never.rs ShouldNever impls"),("accessors","either.rs, either_both.rs always_first/always_last")])
p("C16","The small vector never touches memory it does not own",
 "For every sequence of operations, every read, write, copy, allocation, reallocation and release done by the small inline vector is within its own current storage and on initialised elements, each element is dropped exactly once, and heap storage is released exactly once with the size it was obtained with. Its documented capacity invariant holds after every operation.",
 ["histories","inputs","configurations"],"every sequence of operations, inline capacity and element type including zero-sized ones",
 "undefined behaviour is invisible to assertions; sequences and types are unbounded",
 [I+"shortvec.rs"],
 [("storage","ShortVec::{with_capacity,push,pop,reserve,reserve_exact,as_slice,as_slice_mut,drop}")])
p("C17","The small vector is a stack and stays off the heap until it must",
 "Push and pop behave as a last-in first-out stack, the slice views show exactly the stored elements in insertion order, and emptiness and growth never lose, duplicate or reorder an element. No heap storage is obtained while the requested capacity fits the inline capacity.",
 ["histories","configurations"],"every operation sequence, inline capacity and element type",
 "growth across the inline/heap boundary at every length",
 [I+"shortvec.rs"],
 [("stack","ShortVec push/pop/as_slice/reserve")])
p("C18","A notification is never lost",
 "A wait that began before a notification completes when polled after it, and a wait that was polled as pending before the notification has its most recent waker woken by it, for every interleaving of waiters and notifiers. A wait does not complete without a notification after it began. What the sender did before notifying is visible to whoever sees the notification.",
 ["schedules"],"every interleaving of concurrent waits, polls and sends",
 "depends on interleavings of atomic and lock operations that tests hit only by chance",
 [I+"future/notify.rs"],
 [("send","Notify::send"),("poll","Wait::poll")])
p("C19","Wakers are never invoked while the waiter list is locked",
 "No foreign code supplied by the caller (wakers) is run by a notification while the internal list of waiters is locked, so a waker may itself start, poll or drop waits or send notifications without deadlock.",
 ["schedules","programs"],"every waker implementation and interleaving",
 "a re-entrant waker deadlocks only when scheduled inside the critical section",
 [I+"future/notify.rs"],
 [("send","Notify::send")])
p("C20","Optional futures and observer filters pass everything through unchanged",
 "The optional future completes exactly when and with what its inner future does, or at once with nothing if it has none, polling the inner future once per poll. A filtered observer forwards exactly the items its predicate accepts, once each, unchanged and in order.",
 ["inputs","histories"],"every inner future, poll history, predicate and item sequence",
 "quantifies over arbitrary futures, predicates and histories",
 [I+"future/option_future.rs",I+"reactive/extension/filter.rs"],
 [("optional future","OptionFuture::poll"),("filter","Observer::next, Filter::subscribe")])
p("C21","Buffer writer helpers stay within the announced buffer",
 "The ready-made writer operations write only inside the announced capacity, report exactly the items written so far, refuse an item (handing it back) exactly when the buffer is full, and when shortening drop exactly the removed items once, even if dropping one of them panics.",
 ["inputs","histories"],"every writer honouring its contract, every fill level, every item type",
 "out-of-bounds writes and double drops are invisible to assertions",
 ["crates/parcom-sequence-core/src/buffer_writer.rs"],
 [("defaults","BufferWriter::{as_slice,as_mut_slice,spare_capacity,push_item,shrink_to}")])
p("C22","The growable buffer neither loses, duplicates nor reorders loaded data",
 "Everything a source hands over through a finished write, in any mixture of requests, buffer growth, forced commits, cancellations and end of data, reaches the sequence exactly once and in order, and data of a cancelled or abandoned request never does, with the buffer then being as it was before the request. Data waits in the buffer until a forced commit, the end of data, or the finished write of a request for more room than was left makes it available. A request always offers at least the space asked for, whatever growth policy is supplied, all the space it announces is really there, and the reported amounts of committed, pending and reserved data are the real ones.",
 ["histories","inputs","fault_sequences"],"every interleaving of requests, writes, cancellations, commits and end of data, every growth policy",
 "histories are unbounded and no existing test exercises the loader",
 ["crates/parcom-sequences/src/generic/control.rs","crates/parcom-sequences/src/generic/loader.rs","crates/parcom-sequences/src/generic.rs","crates/parcom-sequences/src/buffer_strategy.rs"],
 [("requests","control.rs Control/Request"),("commit","loader.rs Load::poll, force_commit, commit_to")])
p("C23","Reading position and segments of the growable buffer are exact",
 "Advancing the growable buffer by n skips exactly n committed items (across any number of committed blocks, including empty ones) and returns exactly the part of n not yet available. Its segments are exactly the committed items from the reading position on, in order, and an iteration that has reached the end continues with data committed later.",
 ["histories","inputs"],"every chain of committed blocks, position and length, and commits interleaved with reading",
 "block structures and lengths are unbounded",
 ["crates/parcom-sequences/src/generic/buffer.rs"],
 [("advance","GenericSequenceBuffer::advance"),("segments","Iter::next")])
p("C24","The UTF-8 filter passes on all valid text and nothing else",
 "For every way a byte stream is cut into chunks, what the filter passes on is the input, in order and without loss, always ends on a character boundary, and is valid text; at most three bytes are held back between chunks, and the room it offers the inner source is really there. Invalid input, including a character cut off by the end of the stream, ends in the invalid-sequence error, and errors of the inner source are passed through.",
 ["inputs","histories"],"every byte stream, every chunking, every place the stream may end or fail",
 "chunkings and truncation points are unbounded",
 ["crates/parcom-sequence-sources/src/utf8_validator.rs"],
 [("carry-over","Control::request_writer, Writer::advance, Next::poll"),("end of stream","Control::finish")])
p("C25","The iterator source delivers every item of every chunk",
 "A source made from an iterator of chunks takes one chunk per call, hands all its items to the buffer in order and commits them, requests room for exactly that chunk, and reports the end exactly when the iterator ends.",
 ["inputs","histories"],"every iterator and every chunk length",
 "chunk contents and lengths are unbounded",
 ["crates/parcom-sequence-sources/src/iterator_source.rs"],
 [("next","IteratorSource::next")])
p("C26","Load reports keep their documented relations",
 "A load report returns exactly the amounts it was built from; a final report has no pending data, no reserved capacity and is marked done, and a non-final one is not marked done.",
 ["inputs"],"every amount",
 "holds for all values, tests sample none",
 ["crates/parcom-sequence-core/src/load_info.rs"],
 [("constructors","LoadInfo::new, LoadInfo::done")])
p("C27","The streaming input never ends early and never stalls",
 "The streaming input reports the end of its segments, or stops an unfinished advance, only if the end had been flagged before its last look for data, so data appended before the flag is always seen. An advance that has to wait continues with exactly the amount still missing, the waiting is always tied to a notification registered before the last look for data, and whenever it reports not ready yet a wake-up has been arranged. A waiting task sleeps: having woken itself to look again, it does so again only after a notification.",
 ["schedules","histories"],"every interleaving of appends, end of data, notifications and polls",
 "the losing interleavings are a few instructions wide",
 ["crates/parcom-runners/src/default_runner/sequence/segments.rs","crates/parcom-runners/src/default_runner/sequence/advance.rs"],
 [("segments","DefaultSegmentsNext::poll"),("advance","DefaultSequenceAdvance::poll")])
p("C28","Every public entry point of the runner is implemented",
 "No public operation of the library ends in an unimplemented placeholder for any arguments.",
 ["programs","inputs"],"every public function and trait implementation, every argument",
 "a test can only show the entry points it calls",
 ["crates/parcom-runners/src/default_runner.rs","crates/parcom-runners/src/default_runner/parse.rs","crates/parcom-runners/src/default_runner/parse_iterative.rs"],
 [("runner","DefaultRunner::parse, parse_iterative, Parse::poll, ParseIterative::poll_next")])
p("C29","A parser value can be used again and carries no hidden state",
 "Using a parser by reference never changes it: no parser or combinator keeps interior mutable state or global state of its own, so any number of uses, nested or concurrent, give results that depend only on the input and the parts supplied.",
 ["programs","histories"],"every parser type and every history of uses",
 "hidden state shows only in particular histories",
 [C+"combinator",C+"iterative",C+"primitive",C+"util.rs"],
 [("parser types","every type implementing Parser or IterativeParser")])
p("C30","Parsers built from thread-safe parts give thread-safe futures",
 "When the input, the sub-parsers and their futures, outputs and errors are thread-safe (may be sent to and shared between threads), the futures may be sent between threads: this holds for the future of every combinator, adaptor and primitive parser built from them.",
 ["programs"],"every composition of sendable parts",
 "a compile-time property of every instantiation",
 [C+"combinator",C+"iterative",C+"primitive"],
 [("async bodies","every parse, parse_once and parse_next")])
p("C31","Arbitrarily nested parsers terminate and use bounded stack",
 "Repeating a parser that succeeds without consuming, or nesting parsers to any depth, neither loops forever nor overflows the stack.",
 ["inputs","programs"],"every grammar and input",
 "non-termination and depth are runtime quantities",
 [C+"combinator/repeat.rs",C+"util.rs"],
 [("repetition","repeat.rs"),("boxing","util.rs Boxed")])
p("C32","A runner run delivers the source's data to the parser end to end",
 "Running a parser over a source yields the result the parser would give on the concatenation of everything the source delivers, and source errors surface as source errors.",
 ["schedules","inputs","histories"],"every source, parser and interleaving",
 "end-to-end behaviour over all schedules",
 ["crates/parcom-runner-core/src/lib.rs","crates/parcom-runners/src"],
 [("runner","ParseRunner::parse")])
p("C33","A future polled in place is never moved while pinned",
 "Once a future the caller or the source supplied has been polled through one of the library's own futures, the library never moves it until it is dropped: no wrapper reads it out, swaps it or takes it through a pinned pointer, no wrapper is Unpin unless the future it pins is, and no async body moves a value it has pinned in its frame.",
 ["programs","histories"],"every wrapper future, every future supplied, every sequence of polls",
 "a moved future misbehaves only when it refers to itself, which no test future does",
 ["crates/parcom-internals/src/future","crates/parcom-sequence-sources/src/utf8_validator.rs","crates/parcom-sequences/src/generic/loader.rs","crates/parcom-runners/src/default_runner/sequence",C+"combinator",C+"iterative",C+"primitive"],
 [("optional futures","OptionFuture, PinOption"),("load and validation","Load, utf8_validator::Next"),("sequence futures","DefaultSequenceAdvance, DefaultSegmentsNext"),("async bodies","every .await in the parsers")])
p("C34","Library values are exactly as thread-safe as their parts",
 "Every public type built from parts that may be sent to and shared between threads may itself be sent and shared, and no type claims by hand to be Send or Sync when what it contains is not.",
 ["programs"],"every public type and every choice of parts",
 "a compile-time property of every instantiation; a wrong claim shows only as a data race",
 ["crates/parcom-core/src","crates/parcom-internals/src/shortvec.rs","crates/parcom-sequences/src/generic","crates/parcom-sequence-sources/src",C+"combinator",C+"iterative",C+"primitive","crates/parcom-metrics/src"],
 [("public types","every reachable struct, enum and union"),("claims made by hand","unsafe impl Send/Sync for ShortVec")])
p("C35","The library's own stack use does not grow with the amount of data",
 "However long the input and however many blocks, items, tokens or waiters there are, the library's own code uses a bounded amount of call stack: no library function calls itself, directly or through other library functions, except by going into a part the user supplied, and releasing a value never releases a chain of further values one from within the release of the other.",
 ["inputs","histories"],"every library function, every type and every length of input",
 "no test input is long enough to exhaust the stack",
 ["crates/parcom-sequences/src/generic.rs","crates/parcom-sequences/src/generic/buffer.rs",C+"combinator",C+"iterative","crates/parcom-core/src","crates/parcom-internals/src","crates/parcom-metrics/src","crates/parcom-sequence-sources/src"],
 [("call graph","every library function"),("release","every type that owns others; Drop of the growable buffer's blocks")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
