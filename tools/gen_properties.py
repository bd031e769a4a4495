#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                               observe_at=observe or [], hook_needed=hook)))

RR = "src/rel/rel_runner.cc"
OPS = ["src/rel/op/filter_op.cc", "src/rel/op/project_op.cc", "src/rel/op/tandem_op.cc"]
AGG = ["src/rel/op/agg.h", "src/rel/op/agg.cc", "src/rel/op/agg_op.cc", "src/rel/op/grouped_agg_op.cc", "src/rel/op/ungrouped_agg_op.cc"]

p("C01", "Streaming plans give the documented result for every Put/Get history",
  "For every well-formed plan chaining filter, project and aggregate operators, every sequence of rows and every way the caller interleaves Put and Get over any number of live runners, each Put returns exactly the row the chain yields for that row (or nothing when it is filtered out or absorbed by an aggregate), and Get hands out exactly the rows the plan yields from what its aggregates absorbed. "
  "No row is dropped, duplicated, altered, or mixed up with another row, another operator of the chain or another runner.",
  ["histories", "programs", "inputs"],
  "all plans (operator chains with typed expressions), all row sequences, all interleavings of Put/Get/partial drains over several runners",
  "The tests push nine fixed rows through nine fixed plans, always all Puts before all Gets, one runner at a time, at most two operators per chain; nothing samples interleaved histories, long chains, many columns or several live runners.",
  [RR] + OPS + AGG + ["src/expr/runner.cc", "src/expr/operand_stack.h", "src/expr/operator.h", "src/expr/operators.cc"],
  [("chain of operators, output of one into the next", "src/rel/op/tandem_op.cc TandemOp::Put/Get"),
   ("predicate evaluated on the row, only TRUE passes", "src/rel/op/filter_op.cc"),
   ("all expressions of a projection evaluated on one stack, read out bottom to top", "src/rel/op/project_op.cc, src/expr/runner.cc GetAll"),
   ("operator stack cleared at the start of each evaluation", "src/expr/runner.cc Runner::Run")],
  [("operand stack", "values of the evaluation in progress", "src/expr/operand_stack.h"),
   ("aggregate cache", "rows absorbed and not delivered yet", "src/rel/op/*agg_op.h")],
  ["RelRunner::Put return value", "RelRunner::Get return value"])

p("C02", "Every absorbed row is counted in exactly one delivered group",
  "At any instant the rows an aggregating plan still has to deliver are one per distinct group key among the rows absorbed since that key was last delivered (keys are equal when all key columns are equal; NULL is a key value like any other), carrying exactly the aggregates of those rows: COUNT_ALL counts rows, COUNT, SUM, MIN and MAX skip NULL, and an aggregate that met no value is NULL. "
  "Neither the arrival order nor draining partially and then putting further rows loses a row or counts one twice.",
  ["histories", "inputs"],
  "all sequences of rows (keys, NULLs, orders, numbers of groups) and of partial or complete drains between them",
  "Three fixed inputs with at most five groups over one string key, drained once at the end; no NULL key, no colliding or multi-column keys, no drain in the middle, MIN and MAX never run.",
  AGG + ["src/expr/operand.h", "src/expr/utils.cc", "src/expr/expr_string.h"],
  [("hash map from key tuple to partial aggregates", "src/rel/op/grouped_agg_op.cc"),
   ("hash and equality of tuples", "src/expr/operand.h std::hash<Tuple>, Operand::operator=="),
   ("a delivered group is removed from the map", "src/rel/op/grouped_agg_op.cc GroupedAggOp::Get"),
   ("NULL-skipping accumulation", "src/rel/op/agg.h CountAgg/CalcAgg")],
  [("m_caches", "group key -> partial aggregates", "src/rel/op/grouped_agg_op.h"),
   ("m_cache", "partial aggregates of the single group", "src/rel/op/ungrouped_agg_op.h")],
  ["RelRunner::Get return values"])

p("C03", "Draining ends, runs upstream first, and leaves the runner as new",
  "After a bounded number of Get calls, never more than one per row absorbed, Get reports the end and keeps reporting it until further rows are put; in a chain with several aggregates nothing is delivered by a later one before everything the earlier ones hold has flowed into it. "
  "Once drained, the runner treats the next batch of rows exactly as a newly created runner with the same plan would, and a runner that absorbed nothing delivers nothing.",
  ["histories", "programs"],
  "all batches, chains with any number of aggregates, any number of drain/refill cycles and surplus Get calls",
  "The tests drain each runner once, never reuse it, and no test chains two aggregates or drains an empty one.",
  ["src/rel/op/tandem_op.cc"] + AGG,
  [("Get of a chain pulls the upstream operator dry before asking the downstream one", "src/rel/op/tandem_op.cc TandemOp::Get"),
   ("delivered state is forgotten", "src/rel/op/ungrouped_agg_op.cc Get, src/rel/op/grouped_agg_op.cc Get")],
  [("m_caches / m_cache", "what is still to deliver", "src/rel/op")],
  ["RelRunner::Get return values, number of Get calls until nullptr"])

p("C04", "Everything is released exactly once, wherever a stream is abandoned",
  "A row put into a runner belongs to it until it is handed back, consumed, or the runner is destroyed or given another plan; rows handed out belong to the caller. "
  "Over every history - partial drains, rows whose evaluation fails, rejected plans, a new plan in mid-stream, destruction at any point - all memory the library takes or takes over is released exactly once, and no released or foreign memory is read or written.",
  ["histories", "crash_points", "fault_sequences"],
  "all histories of decode/put/get/re-decode/destroy with abandonment at any point and failing rows or plans in between",
  "The tests never check for leaks, never abandon a runner in mid-stream, never decode twice and never make an evaluation fail inside a plan.",
  [RR, "src/rel/rel_runner.h"] + OPS + AGG + ["src/expr/operator_vector.h", "src/expr/operator_vector.cc", "src/expr/codec.h", "src/expr/utils.cc"],
  [("runner takes over the tuple, operators delete what they consume", "src/rel/op/*_op.cc"),
   ("destructors release caches and plan", "src/rel/op/grouped_agg_op.cc, src/rel/op/agg_op.cc, src/rel/op/tandem_op.cc"),
   ("operators created by decoding are owned by the vector, shared ones are not", "src/expr/operator_vector.h AddRelease/Release")],
  [("live heap blocks", "allocated and not released", "operator new / operator delete")],
  ["operator new / operator delete balance and every memory access"])

p("C05", "Running out of memory in any call is contained",
  "When any single allocation, or every allocation from some point on, fails inside a call (creating a runner, Decode, Put, Get, Run), the call reports it by an exception or completes correctly; it never crashes, leaks, damages memory or returns wrong data. "
  "A Put that fails has no effect on what is delivered later - never part of a row's aggregates - a Get that fails delivers nothing wrong, losing at most the row in flight between two operators, and the runner stays usable, re-decodable and destroyable.",
  ["fault_sequences", "histories"],
  "all positions of a failing allocation (one-shot or lasting) inside all calls of all histories",
  "No test makes an allocation fail.",
  [RR] + OPS + AGG + ["src/expr/operator_vector.cc", "src/expr/operator_vector.h", "src/expr/codec.h", "src/expr/utils.cc", "src/expr/calc/casting.cc", "src/expr/runner.cc"],
  [("C++ exceptions with owners releasing what was taken", "src/rel/op, src/rel/rel_runner.cc"),
   ("aggregates of a row applied together", "src/rel/op/agg_op.cc AddToCache")],
  [("aggregate cache", "must not hold part of a failed row", "src/rel/op/agg_op.cc")],
  ["operator new (fault), exceptions, later Get results"])

p("C06", "Truncated or damaged encodings are rejected safely",
  "For every byte string (up to 64 KB) handed to Decode, of a plan or of an expression - cut off at any byte, with flipped, inserted or overlong bytes - Decode never reads outside the given length, never crashes or leaks, and either throws or returns a position inside the given bytes. "
  "An encoding cut inside an element, or containing an undefined operator, type, function or aggregate code, is rejected, intact ones are accepted and consumed up to exactly their end, and after a rejection the same runner decodes an intact one as if nothing had happened.",
  ["inputs", "fault_sequences"],
  "all intact encodings and all cuts and corruptions of them, on new and on reused runners",
  "The tests decode only intact encodings; neither the error paths nor the buffer limits are exercised.",
  ["src/expr/operator_vector.cc", "src/expr/codec.cc", "src/expr/codec.h", RR, "src/rel/rel_runner.h", "src/expr/exception.h"],
  [("length-limited decoding loop", "src/expr/operator_vector.cc Decode, src/rel/rel_runner.cc Decode"),
   ("unknown codes throw", "src/expr/exception.h UnknownCode, MoreElementsRequired"),
   ("tables of supported operators per type", "src/expr/operators.cc")],
  [], ["Runner::Decode / RelRunner::Decode: return value, exception, bytes read"])

p("C07", "Decode replaces the previous plan completely",
  "After a successful Decode a runner, of plans or of expressions, behaves exactly like a newly created one given the same bytes, whatever it did before: another plan, rows absorbed but not delivered, a failed evaluation, a rejected or failed Decode. "
  "Nothing of the earlier plan, its expressions, its aggregates or its cached rows shows in any later result.",
  ["histories", "fault_sequences"],
  "all histories before the Decode (including failed ones) and all plans and rows after it",
  "Every test creates a new runner and decodes once.",
  ["src/rel/rel_runner.h", RR, "src/expr/operator_vector.h", "src/expr/operator_vector.cc", "src/expr/runner.h", "src/expr/runner.cc"],
  [("Release at the start of Decode", "src/rel/rel_runner.h, src/expr/operator_vector.h"),
   ("stack cleared by Run", "src/expr/runner.cc")],
  [("m_op", "current chain", "src/rel/rel_runner.h"), ("m_vector/m_to_release", "current operators", "src/expr/operator_vector.h")],
  ["results after re-Decode"])

p("C08", "Runners on different threads never affect each other",
  "When several threads use different runners at the same time - decoding from the same bytes, evaluating on the same read-only tuple, holding rows that share string payloads - each thread gets exactly the results, exceptions included, it would get running alone, under every interleaving. "
  "No unsynchronised access to shared memory takes place inside the library.",
  ["schedules"],
  "all interleavings, at the granularity of single memory accesses, of the calls of 2 to 4 threads on different runners",
  "All tests are single-threaded.",
  ["src/expr/operators.cc", "src/expr/operator.h", "src/expr/expr_string.h", "src/expr/operand_stack.h", "src/expr/calc/casting.cc", "src/expr/calc/string_fun.cc", "src/rel/op/agg.h"],
  [("shared operator objects are immutable", "src/expr/operators.cc, src/expr/operator.h (const call operators)"),
   ("all evaluation state lives in the runner", "src/expr/runner.h m_operand_stack"),
   ("strings are shared through atomically counted pointers and never written", "src/expr/expr_string.h")],
  [("static operator tables", "shared by all runners", "src/expr/operators.cc"), ("string payload", "shared by operands", "src/expr/expr_string.h")],
  ["per-thread results; every memory access of library code"])

p("C09", "Partitioned runs with retries, crashes and spills give the one-run answer",
  "Spreading the rows over any number of runners with the same plan, delivering partial aggregates early at any points, abandoning and re-running any part, and merging the parts' outputs in any order with the matching merge plan (COUNT and SUM by SUM, MIN by MIN, MAX by MAX, grouped by the same keys) gives the same rows as one runner fed all input. "
  "Each re-run of a part, on a new or a reused runner, delivers the same rows as the first.",
  ["histories", "fault_sequences", "schedules"],
  "all partitionings, early deliveries, message losses, duplications and reorderings, node crashes and restarts, retries and merge orders of a simulated store cluster (values with exact arithmetic)",
  "No test runs the same plan on more than one runner or feeds the output of one plan into another.",
  AGG + [RR, "src/rel/op/tandem_op.cc"],
  [("aggregates are decomposable (AVG is left to the caller)", "src/rel/op/agg.h, README 'Aggregation Functions'"),
   ("runner keeps no state outside itself", "src/rel/rel_runner.h")],
  [("partial aggregates", "state of one part", "src/rel/op/*agg_op.h")],
  ["rows delivered by the merge runner"])

p("C10", "Lent buffers and delivered values are never altered or kept",
  "The bytes given to Decode may be overwritten or freed as soon as it returns, a bound tuple is only read and only during Run, and neither it nor string payloads the caller shares with a row are ever modified. "
  "A row or value once delivered keeps its content and stays valid through every later call on any runner, including a new plan and the destruction of the runner it came from; so does its optional-in-any form, which may outlive it.",
  ["histories"],
  "all later histories (puts, drains, re-decodes, destruction) after a buffer was lent or a row delivered",
  "The tests compare each output at once and drop it; inputs and earlier outputs are never looked at again.",
  ["src/expr/codec.cc", "src/expr/operator_vector.cc", "src/expr/operand_stack.h", "src/expr/operand.h", "src/expr/operand.cc", "src/expr/runner.cc", "src/expr/expr_string.h", "src/expr/calc/string_fun.cc", "src/rel/op/agg_op.cc", "src/rel/op/ungrouped_agg_op.cc", "src/expr/utils.cc"],
  [("decoded constants are copied", "src/expr/codec.cc"), ("string payloads are shared but immutable", "src/expr/expr_string.h"),
   ("delivered tuples leave the cache", "src/rel/op/ungrouped_agg_op.cc, src/rel/op/grouped_agg_op.cc")],
  [], ["content of lent and delivered values after each later call"])

p("C11", "A row that fails to evaluate fails alone",
  "A row whose evaluation is an error (a checked conversion or absolute value out of range, a number in a string out of range, a column of another type than the plan expects) makes exactly the call evaluating it throw, rows whose evaluation is defined never throw, and no row, whatever its values, crashes the process. "
  "The failed row has no effect, not even partial, on anything delivered before or after, and the runner goes on with the next row as if the failed one had never been put.",
  ["histories", "fault_sequences", "inputs"],
  "all positions of failing rows in all streams, in every operator of the chain, including rows flowing out of an upstream aggregate",
  "No test makes an evaluation fail inside a Runner or a plan; the three casting functions' exceptions are tested in isolation.",
  OPS + AGG + ["src/expr/runner.cc", "src/expr/calc/casting.cc", "src/expr/calc/mathematic.cc", "src/expr/calc/arithmetic.h", "src/expr/operand.h"],
  [("stack cleared before each evaluation", "src/expr/runner.cc"), ("aggregates of a row applied together", "src/rel/op/agg_op.cc AddToCache"),
   ("range checks throw", "src/expr/calc/casting.cc CastCheck, src/expr/calc/mathematic.cc AbsCheck")],
  [("operand stack", "left-overs of a failed evaluation", "src/expr/operand_stack.h"), ("aggregate cache", "partial update", "src/rel/op/agg_op.cc")],
  ["exceptions of Put/Get, later results"])

p("C12", "An expression's result depends only on its code and the bound tuple",
  "Whatever was decoded, bound, run, read or failed before on this or on other runners, running an expression on the currently bound tuple gives the values a newly created runner gives for the same code and tuple, and running it again gives the same again, whatever global C++ locale, errno or floating-point flags the rest of the process left behind. "
  "All values an expression leaves are available after the run in evaluation order, read in part or whole, until the next run, whatever becomes of the tuple; running an expression which reads a column while no tuple is bound throws. "
  "No call, failing ones included, changes that environment for the rest of the process: how it rounds and traps, its locales, its handlers.",
  ["histories", "programs", "inputs"],
  "all histories of decode, bind, run and read on several runners, including failed runs and reuse of a tuple object with other content",
  "Every test case uses a new runner, binds once and runs once.",
  ["src/expr/runner.cc", "src/expr/runner.h", "src/expr/operand_stack.h", "src/expr/operator.h", "src/expr/operator.cc", "src/expr/operators.cc"],
  [("stack cleared by Run", "src/expr/runner.cc"), ("operators hold only constants", "src/expr/operator.h"), ("variables read from the bound tuple at run time", "src/expr/operand_stack.h PushVar")],
  [("operand stack", "results of the last run", "src/expr/operand_stack.h"), ("bound tuple", "lent by the caller", "src/expr/operand_stack.h")],
  ["Runner::Get, GetAll, GetOptional"])

p("C13", "A runner's memory does not grow with its history",
  "A runner holds memory for its plan and for the groups and rows it has absorbed and not delivered yet, and for nothing else: rows which passed through, were filtered out or failed, groups which were delivered, evaluated expressions, rejected encodings and earlier plans leave nothing behind. "
  "So however long a runner lives and however often a cycle of puts, drains, runs and decodes is repeated, the memory in use at the same point of the cycle stops growing after the first few cycles, whether the cycles bring the same values or always new ones.",
  ["histories", "fault_sequences"],
  "all cycles of calls (including failing rows, rejected plans and failing allocations), repeated without bound, with equal and with ever new values",
  "The tests process at most nine rows per runner and never look at memory; growth which the destructor releases is no leak to any leak checker.",
  OPS + AGG + ["src/expr/runner.cc", "src/expr/operand_stack.h", "src/expr/operator_vector.h", RR, "src/rel/rel_runner.h"],
  [("stack cleared by each Run", "src/expr/runner.cc"), ("delivered groups leave the map", "src/rel/op/grouped_agg_op.cc Get"),
   ("Release at the start of Decode", "src/rel/rel_runner.h, src/expr/operator_vector.h")],
  [("m_caches", "groups not delivered yet", "src/rel/op/grouped_agg_op.h"), ("m_to_release", "operators of the current code", "src/expr/operator_vector.h")],
  ["bytes held through operator new at the end of each cycle"])

p("C14", "A runner can be handed from thread to thread",
  "A runner belongs to no thread: as long as its calls do not overlap, each may be made on any thread - created here, decoded there, fed, drained and destroyed elsewhere, with threads ending in between - and gives exactly what the same calls on one thread give. "
  "Rows and values it delivered stay valid when the thread that obtained them ends, and may be read and released on any other.",
  ["histories", "schedules"],
  "all histories of calls and all assignments of the calls to threads, with threads created and ended between any two calls",
  "All tests run on the main thread.",
  [RR, "src/rel/rel_runner.h", "src/expr/runner.h", "src/expr/runner.cc", "src/expr/operand_stack.h", "src/expr/operators.cc", "src/expr/expr_string.h", "src/expr/calc/casting.cc"] + AGG,
  [("all state lives in the runner, none in the thread", "src/expr/runner.h, src/rel/rel_runner.h, src/rel/op"), ("delivered rows are plain heap objects", "src/expr/operand.h Tuple")],
  [("m_operand_stack", "results of the last run", "src/expr/runner.h"), ("m_caches", "absorbed rows", "src/rel/op/grouped_agg_op.h")],
  ["results of each call, content of delivered values"])

p("C15", "The work of a call does not grow with what the runner has done or holds",
  "The work done for a row, a delivered group, an instruction or a byte of text stays what it was, within a constant factor of two: a row put into a grouped aggregate costs no more, and a group takes no more to deliver, when tens of thousands of groups are held than when a few hundred are (keys without deliberate hash collisions), nor after a large stream has come and gone; a row costs no more after many rows; decoding and running take work in proportion to the length of the encoding, string functions to the length of the text. "
  "And however often a cycle of puts, drains, runs, decodes and failures is repeated, the work of a cycle does not go on growing.",
  ["histories", "inputs"],
  "all histories of calls, repeated without bound, and all numbers of rows, groups, instructions and bytes",
  "The tests process at most nine rows and a few dozen bytes per runner and take no measure of work; wall-clock time on a small case shows nothing.",
  OPS + AGG + ["src/expr/operand.h", "src/expr/expr_string.h", "src/expr/runner.cc", "src/expr/operand_stack.h", "src/expr/operator_vector.h", RR, "src/rel/op/tandem_op.cc", "src/expr/calc/string_fun.cc"],
  [("groups found by hash of the whole key", "src/rel/op/grouped_agg_op.h, src/expr/operand.h hash<Tuple>"), ("the first group of the map is delivered and leaves it", "src/rel/op/grouped_agg_op.cc Get"),
   ("one pass over the operators per run", "src/expr/runner.cc")],
  [("m_caches", "hash table of groups", "src/rel/op/grouped_agg_op.h")],
  ["memory accesses, bytes moved and memory requested by each call, counted by the simulator"])

p("C16", "A plan may be cut anywhere",
  "A plan is the composition of its operators and nothing else: cut between any two of them into parts, each decoded by a runner of its own - on another machine, as a rule - with every row which a part delivers put into the next one, and Get asking the parts in order, every Put and every drain comes out as with the whole plan: the same rows (those of a drain in any order), nothing where the whole plan delivers nothing, an error where the whole plan fails, for failing rows and groups, partial drains and later streams too. "
  "It makes no difference that rows are carried between the parts by value, nor that a part is lost and rebuilt by repeating the calls it had.",
  ["histories", "inputs", "faults"],
  "all plans, all ways to cut them, all histories of Put, Get and Decode with failing rows among them, and all points at which a part is lost",
  "The tests run four fixed plans of at most three operators over nine rows, always in one piece, and none with a failing row.",
  OPS + AGG + [RR, "src/rel/op/tandem_op.cc", "src/rel/op/rel_op.h"],
  [("each operator decoded on its own and appended", "src/rel/rel_runner.cc Decode, AppendOp"), ("rows handed from operator to operator", "src/rel/op/tandem_op.cc Put, Get")],
  [("m_in, m_out", "the earlier and the later part of a chain", "src/rel/op/tandem_op.h")],
  ["outcome of each call, rows delivered by each complete drain"])

# ---- properties which deterministic simulation cannot decide (pure functions of their input)
p("C20", "Operators compute the documented values",
  "Arithmetic, relational, logical (three-valued), MIN/MAX/ABS, IS_NULL/IS_TRUE/IS_FALSE operators and mathematical functions give, for every operand values and types, the documented value; a NULL operand gives NULL except where three-valued logic decides, and a zero divisor gives NULL.",
  ["inputs", "programs"], "all operand values of all supported types", "37 sampled expressions.",
  ["src/expr/operators.cc", "src/expr/operator.h", "src/expr/operator.cc", "src/expr/calc/arithmetic.h", "src/expr/calc/relational.h", "src/expr/calc/mathematic.cc", "src/expr/calc/special.h"],
  [("tables of operators by type", "src/expr/operators.cc")])
p("C21", "Casts convert every value as documented",
  "Casting between the supported types rounds to nearest, maps non-zero to true, prints the shortest fixed form up to 15 decimals and parses the longest numeric prefix of a string (0 if there is none); the checked form throws exactly when the value does not fit.",
  ["inputs"], "all values of all type pairs", "a dozen sampled values",
  ["src/expr/calc/casting.cc", "src/expr/calc/casting.h"], [("Cast/CastCheck specialisations", "src/expr/calc/casting.cc")])
p("C22", "String functions cut, trim, join and change case as documented",
  "CONCAT, LOWER, UPPER, LEFT, RIGHT, TRIM, LTRIM, RTRIM, SUBSTR and MID give the documented string for every string and position, including empty strings, positions outside the string and negative ones.",
  ["inputs"], "all strings and positions", "no test runs a string function",
  ["src/expr/calc/string_fun.cc"], [("string functions", "src/expr/calc/string_fun.cc")])
p("C23", "Immediate numbers decode to the value they encode",
  "Every immediate INT32, INT64, FLOAT, DOUBLE and STRING decodes to exactly the value its varint, big-endian or length-prefixed encoding denotes.",
  ["inputs"], "all values", "a few sampled constants",
  ["src/expr/codec.cc"], [("DecodeValue", "src/expr/codec.cc")])
p("C24", "Operand adaptors and hex helpers round-trip",
  "Converting an operand to the optional-in-any form and back, and bytes to hex and back, gives the original for every value, NULL included.",
  ["inputs"], "all values", "no test uses the adaptors",
  ["src/expr/operand.h", "src/expr/operand.cc", "src/expr/utils.cc"], [("ToOperand/FromOperand, HexToBytes/BytesToHex", "src/expr/operand.h, src/expr/utils.cc")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
