D = r'''# Model checking iomz/gosstrak

## 1. The two machines

Every property is decided by exhausting a stated, bounded space of behaviours of the
**real code of the working tree** — there is no hand-written model of gosstrak whose
fidelity would have to be argued. What is hand-written is the *reference* each behaviour
is compared with, and it is written from the property's text (and the EPC/ISO/LLRP
formats), deliberately naive, sharing no code with /repo.

**A. `go/seq` — explicit-state exploration of the sequential code** (C01–C13, C18, C20, C22, C25).
`run.sh` compiles it against /repo (`replace` in go.mod). Where the property is about
histories (C03–C06, C13, C25) the explorer is a breadth-first search over the states of the
implementation itself: a state is an engine, the transitions are the calls of its API, a
state is recognised by a digest of its deep structure (`state.go`: unexported fields
through reflect, pointers and map contents normalised, so every field added later is part
of the state automatically), and the search runs until it closes (no new state) — the
evidence says "closed under N operations" — so histories of *every* length over the universe
are covered, not only those up to a depth. Where the property quantifies over data
(C01, C07–C10, C20, C22) the space is an enumerated lattice: all patterns up to a length
at every offset, all boundary tuples of fields, all 1/2/3-bit flips, all 2^16 PC values …
Map iteration is a source of nondeterminism in the code under test, so it is enumerated
too: `go/rewrite -mode maps` gives the check a copy of `filtering` whose `range` over maps asks
the explorer for the order. A panic is caught and is a violation.

**B. `go/mc` + `go/sched` + `go/rewrite` — stateless model checking of the concurrent code**
(C14–C17, C19, C21, C23, C24, C26). `go/rewrite -mode sched` type-checks the packages of
/repo that `cmd/gosstrak-fc` depends on (found with `go list -deps`), the command itself and
its FSM dependency, and writes copies (used through `go build -overlay`; /repo is not touched)
in which `go`, channels, `select`, `range` over channels and maps, `sync`, `sync/atomic`, `time`,
`context`, `net` connections, `net/http` clients, `os.Exit`/`log.Fatal`, `reflect.Select` and friends
call the scheduler. The scheduler runs one goroutine at a time, with virtual time, and
the explorer drives it through **every** schedule with at most *k* deviations (section 3).
Deadlock, panic, process exit, leaked work and the property's monitor are judged on every
execution. The package's global variables are reset between executions (generated
`ResetGlobals`).

The technique is therefore *model checking the implementation*: exhaustive enumeration of
states or schedules of the code itself, never sampling. There is no model, hence no
conformance gap; what stands between the explorer and the code is the rewriter, which
is tested by `go test ./sched` (channel, select, mutex, timer, deadlock, race and exploration semantics,
with expected counts of schedules) and by the fact that all of C14–C26 hold on the tree
and that the planted bugs are found.

## 2. Properties

`properties.jsonl` has the statements. For each: what is enumerated (quick), what it is
compared with, quick cost, and what makes tests insufficient. "Thorough" enlarges the bounds
as said; evidence/*.json has the exact counts of the last run.

| id | space enumerated (quick → thorough) | oracle | quick |
|---|---|---|---|
| C01 bit filter | every pattern over {0,1,x} of length ≤ 8 (→ 10) at every bit offset 0..17 × every assignment of the window bits × backgrounds × every single-bit change outside × every ID length around the end; long patterns with one deviating position | bitwise definition | ~20 s |
| C02 fresh engine | "large tables" (below) and every subset of 4 universes of 10–13 patterns (chains, branches, twins, all schemes) × 3 distributions over destinations × map orders, each of List, Patricia, Splay × every tag | set comprehension over the reference prefix of each pattern | ~10 s |
| C03 add/delete | closed BFS over all engine states from every initial table × add/delete of one and two patterns, incl. held ones and absent ones; every state × every tag, also against a fresh engine | set model | ~45 s |
| C04 search is pure | closed BFS with searches as transitions (the splay tree reorganises); each answer compared; sequences that interleave updates | set model | ~25 s |
| C05 save/restore | every state of that BFS: marshal, unmarshal, deep equality or observational equality two operations deep; wrong kind; every truncation | the saved engine | ~16 s |
| C06 text engine | closed BFS of LegacyEngine over well-formed and malformed patterns; field-boundary lattice | field-wise comparison of identities | ~3 s |
| C07 pattern ↔ tag | every scheme × partition × filter value × number of given fields × every pair of boundary values; full products of a handful in all fields; both derivations (tdt and scheme) | reference EPC encoder | ~35 s |
| C08 ISO 17363/17365 | 26³ owner codes × categories × boundary serials (→ all 10⁶ serials); every 6-bit character at every position, every length 1..82 in every split | reference ISO 6346/6-bit codec | ~8 s |
| C09 encode/translate | full product of boundary values of all fields × partitions × filters, plus 10⁴ (→ 2·10⁵) low values of each field | inverse: identity encoded | ~16 s |
| C10 totality of Translate | all PCs, all header × filter × partition with limits of each field, all lengths 0..33, all 1- and 2- (→ 3-) bit flips of valid tags, every AFI × character × position | reference decoder: identity or error | ~20 s |
| C11 malformed subscriptions | 29 213 malformed patterns from a grammar, in every place of a table, at build/add/delete, on all engines | table without the pattern | ~70 s |
| C12 tables | every file of ≤ 4 (→ 5) lines over a line alphabet; 7056 tables × map orders: load, clone, convert, serialise, mutate | reference CSV reading and set semantics | ~15 s |
| C13 isolation | every sequence of ≤ 4 (→ 5) steps over pairs of engines sharing a table: operations through caller-held tables, in-place mutation by the caller | own model of each side | ~20 s |
| C14 best engine deployed | all schedules: ≤ 4 stub engines with per-scenario search times, generators that never finish, clients, 1–3 statistics intervals; deviation bound 2 (→ 3+) | deployed = ready; once settled the in-use engine is ready and was best at the last boundary; no later change without a better one | ~50 s |
| C15 answers | same machine, stub engines whose answers identify them and real engines; clients before, during and after generation | every call returns; answer is an engine's that was deployed at call time; real engines: set model | ~40 s |
| C16 statistics | stubs with a different virtual duration for every search; interval boundaries placed at every point | each search is counted in exactly one interval of each engine; matched ≤ total; throughput within 1 % of virtual time | ~100 s |
| C17 notifications | capacity 0/1/… of the management channel, slow reader, intervals; the stream is parsed with a grammar | each status, statistics, throughput and selection message exactly once, in order; last selection = engine in use | ~60 s |
| C18 database | every sequence of ≤ 2 (→ 3) messages of an alphabet incl. malformed, one manager each, plus a de Bruijn sequence of order 4 (→ 5) through one manager; a local HTTP server parses each write | one point per message, fields equal, no repetition | ~3 s |
| C19 framing | 15 511 scenarios: message sequences × every split of the stream in ≤ 3 chunks (and byte-wise), truncation at every byte, wrong lengths, repeated sessions, × schedules (bound ≤ 2) | independent LLRP encoder/decoder: replies and searched tags | ~10 s |
| C20 composite filter | all pairs and triples of a filter family at 4 offsets; all IDs over the bits the members look at | conjunction/disjunction definition on bits | ~10 s |
| C21 data races | schedules of C14–C17/C23-like scenarios executed under the Go race detector with the scheduler hidden from it (bound 1, 2 for ≤ 2 engines) | no report | ~40 s |
| C22 tag files | all bit strings ≤ 16, walking bits to 512, all PCs, the command on all files of ≤ 2 (→ 3) lines | reference converter | ~10 s |
| C23 end to end | 512 scenarios of the whole collector (`main` of gosstrak-fc): file, engines, reader messages, statistics on/off, × schedules (bound 1–2) | every tag searched once, every management message written once, engine in use best | ~80 s |
| C24 life cycle | 410 scenarios around one generator: 0–3 initialising threads × up to 3 updating threads (at once / when ready) × construction that never ends × searching clients × intervals × a late or slow reader of its channel, capacity 0/1, × schedules (bound ≤ 2, → 5); every command tried in every state at rest; 20–60 updates in a row | the automaton of the statement; announcements = 1 + accepted updates | ~45 s |
| C25 dump | every state of a closed BFS (engine kind × universe, adds, deletes of one and two patterns, searches) dumped and read back; large tables along four walks | model's table; deep hash before/after; dump of the restored engine | ~30 s |
| C26 clients | 4,837 scenarios: every sequence of up to 3 (4) clients of 11 kinds (5 well-behaved: short, open, many large streams, late, long idle in between; 6 others: silent, half a frame, no SPDY, vanishing, vanishing inside a frame, never reading) at once or 1 s apart × both endpoints, crowds of up to 42, other addresses, × schedules of program *and* SPDY library (rewritten too) (bound 0–2) | what each well-behaved client was sent, decoded, against what it sent; the session oracle of C19; the address | ~240 s |

*Large tables and long histories.* Besides the exhausted small universes, C02–C06, C12 and C25 walk tables
with up to several hundred patterns (chains of 40 nested prefixes, 18×18 siblings, a bushy binary trie, every scheme/partition/filter:
`large.go`) through complete lists of histories (adding and deleting everything in four orders, taking out each pattern, searching all tags
repeatedly), and C14–C17, C19, C23, C24 run sessions of hundreds of searches/messages/intervals in the default schedule, so that
behaviour that depends on a size, a depth or a count beyond the small scope is exercised as well. These are deterministic
enumerations, additional to the exhaustive part and not counted as closed spaces.

*Other environments.* C14–C17, C23 vary the statistics interval (1–60 s), a slow main program, a slow database and
a main program that cannot keep up (judged: what it receives is a gapless prefix).

Why tests cannot settle these: C01–C13, C20, C22 are statements over all inputs or all histories
(the defects found — section 5 — needed a root-level prefix, a delete below a one-child
node, a search between two insertions, a field at its decimal limit …); C14–C19, C21, C23, C24, C26 depend on
where a goroutine is preempted or where the TCP stream is cut.

Nothing is under `not_applicable`: the repository's guarantees are all about finite
data or a finite number of goroutines.

## 3. The scheduler

*Bounding.* From a deterministic default (run the current goroutine until it blocks, then the
lowest-numbered enabled one), a deviation is a preemption, a choice of a different enabled
goroutine, a different ready select case, or letting a timer fire while a goroutine
could still run. `bound k` = all schedules with ≤ k deviations. Order of map iteration is a parameter
of the scenario (sorted/reversed/…), not a deviation.

*State caching.* Two schedule prefixes with the same happens-before structure (hash of each
goroutine's history of operations and of what they read) lead to the same state; the second is cut
(`traces_validated_against_impl` counts executions that ran to their end and were judged, `states`
and `transitions` what the explorer visited). The hash includes the number of deviations left.

*Time* is virtual: timers fire when nothing else can run (or as a deviation). `time.Now` is the
virtual clock plus what stubs consume, so throughput is a function of the scenario.

*Process ends.* `log.Fatal`, `os.Exit` and unrecovered panics end the execution and are reported to the monitor.

*Race mode (C21).* The whole check is built with `-race`, except `go/sched`
(`-gcflags=verif.local/v/sched=-race=false`), so the hand-overs of the scheduler create no
happens-before edges; `race_on.go` raises acquire/release edges for exactly the operations of the code
under test (channels, mutexes, atomics, WaitGroup, Once, goroutine creation). Hence a report is
a race of *that schedule's* happens-before relation, found on every explored schedule without needing the
bad timing. `sync.Map` is in `sched/smap` since generic instantiations are compiled into the
(instrumented) caller.

*Harness points.* `go/gosstrakfc` and `go/gobtags` are package clauses under which the `main` packages are
compiled as libraries; nothing is added to /repo (no hooks: MANIFEST's `hooks` is empty).

*Assumption.* Between scheduling points (synchronising operations) a goroutine runs atomically; C21 checks that
shared plain accesses are ordered by them, which makes the assumption sound for race-free code.

## 4. What the machinery judges, where the statement leaves room

* C02 is restricted to tags that translate; `List` returns destinations together with an error otherwise.
* A destination may be reported once per matching pattern of it, not more.
* C06/C11: letter case of the legacy engine's texts and the filter field of its patterns (even `sgtin-96:` with nothing) are not judged. GIAI
  references are not zero-padded; the 97-bit GIAI filter is pinned by an existing test.
* C10: GRAI partition 0 has identity `cp.ser` (pinned by tests); GRAI asset-type bits and SSCC reserved bits are not
  enforced; empty or odd ISO identifiers are lax.
* C12: the loader lower-cases destinations (existing behaviour).
* C14: `SelectedEngine` may carry an empty name at interval boundaries before any engine is ready.
* C15: searches are also run on the other ready engines for measuring, so "searched once" is per engine.
* C16: throughput within 1 % of virtual time, for one client.
* C17: interval counts only if no tick was dropped by the ticker.
* C18: malformed = traffic with counts of a wrong type; a closed channel or a failing database ends the process by design.
* C19: after the end of the stream a prefix of the replies/tags is accepted; process exit or closing the connection both count as
  ending the session. Reports carry C1G2-PC: go-llrp mis-slices a TagReportData that ends in the EPC (dependency, out of scope).
* C22: characters other than 0/1 in bit strings are not judged.
* The connections of the management listener are not exercised (Accept blocks forever).

## 5. Defects found

`known_findings.txt`: 30 repaired (one `fix:` commit each) and two recorded:

* C02 `same-pattern-two-destinations`: the table that the binary engines are built from is keyed by prefix and holds one destination;
  a repair changes the exported types `Subscriptions`/`Info` (pinned by the tests), so it is not a small one.
* C20 `same-string`: `NewComposition` keys children by bit string, so two members with equal strings at different offsets collide;
  again the exported shape of the composition would have to change. The composition is not used by an engine at present.

## 6. False alarms met and corrected

* C19 demanded that all tags before a stream end be searched; the process may end first. A prefix is accepted.
* C19/C23 reports without C1G2-PC alarmed because of the go-llrp dependency; the reader of the scenarios now sends it.
* C14/C17 objected to an empty `SelectedEngine` name before any engine is ready; allowed.
* C21 reported races inside the scheduler (generic `sync.Map` instantiated in an instrumented package): moved to `sched/smap`.

* A tag of C23's with another filter value matched in the legacy engine only (the legacy engine has no filter field,
  see section 4); replaced by one all engines agree on.

*Refactorings.* To test for alarms on harmless edits, four larger behaviour-preserving rewrites of the collector and the factory
(atomic.Value, typed atomics, fan-in goroutines, mutexed maps, range over tickers, time.Tick, buffered readers, context cancellation) were
run through C14–C17, C19, C21, C23: quiet. Four still larger ones followed: the whole `filtering` package (C01–C06, C12, C13, C20, C25),
`tdt` and `scheme` rewritten (C07–C11), `main.go` split into functions and a session type with mutexed counters and reset timers, and the
factory with its selection and callbacks extracted (C14–C17, C19, C21, C23, C24): quiet.

## 7. Planted bugs

`tools/plant.py SPEC` builds, tests, and demonstrates a bug and writes seeded/<id>; `tools/try_seed.sh ID [tier] [PROP]` runs a check
against it in a private mount namespace (never in /repo itself).

@SEEDS@

## 8. Limits

* Bounds: see the table; scheduling bound 2–3 deviations, ≤ 4 engines, ≤ 3 clients, ≤ 3 statistics intervals.
* Weak memory is not modelled (Go's race detector on every schedule stands in for it).
* Real sockets, `influxdb` server behaviour beyond accepting writes, the management listener, signals and flag parsing of the
  two commands are out of scope.
'''
import json,glob,os
rows=['| bug | property | needs | caught by quick |','|---|---|---|---|']
missed=json.load(open('/verif/tools/missed.json')) if os.path.exists('/verif/tools/missed.json') else {}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=f.split('/')[-2]; m=json.load(open(f))
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/').replace('\n',' ')[:170], missed.get(i,'yes')))
open('/verif/DESIGN.md','w').write(D.replace('@SEEDS@','\n'.join(rows)))
