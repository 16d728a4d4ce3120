#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A bit filter matches exactly the IDs that carry its bits",
 "A filter built from a bit pattern over {0,1,x} and a bit offset accepts an ID if and only if every 0/1 bit of the pattern equals the ID's bit at that position; x bits and bits outside the pattern never influence the answer. An ID too short to contain the filter is not matched and never crashes the caller. The filter's byte-level view (which bytes it covers, their filter and mask values, whether it is transparent) agrees with that same meaning.",
 ["inputs"],"every pattern, offset and ID (any length)",
 "The tests evaluate a handful of (pattern, offset, ID) triples, all byte aligned or nearly so and all with IDs at least as long as the filter.",
 ["filtering/filter_object.go"],[("padding/masking of filter bytes","filtering/filter_object.go makeFilter/NewFilter"),("byte-wise match","filtering/filter_object.go Match")],
 ["FilterObject.Match","FilterObject.HasByteAt","FilterObject.GetByteAt","FilterObject.IsTransparent"])

p("C02","A freshly built engine reports a tag to exactly its subscribers",
 "For any set of subscriptions, each binary filtering engine (list, Patricia trie, splay tree) built from it answers a search for a tag with exactly the destinations that own at least one pattern the tag's binary code begins with, and reports an error with no destinations when there are none. All engines give the same destinations and the same pure identity for the same tag, whatever the order in which subscriptions are enumerated.",
 ["inputs","configurations"],"every subscription set (including empty, single, nested, overlapping and sibling prefixes) and every tag",
 "The engine tests that looked at search results are commented out; what remains checks names and table lookups. No test compares engines or tries nested prefixes, single subscriptions, or tags shorter than a filter.",
 ["filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/subscriptions.go","filtering/engine.go"],
 [("trie construction","filtering/patricia_trie.go NewPatriciaTrie/build"),("nesting of subset filters","filtering/subscriptions.go linkSubset"),("splay construction and search","filtering/splay_tree.go build/splaySearch"),("linear scan","filtering/list.go Search")],
 ["Engine.Search"])

p("C03","Adding and deleting subscriptions is equivalent to rebuilding",
 "After any sequence of subscription additions and deletions, a binary filtering engine answers every search exactly as an engine freshly built from the resulting subscription set would; deleting a subscription that does not exist (unknown pattern, or a pattern held by another destination) changes nothing, and adding one twice is the same as adding it once.",
 ["histories"],"every sequence of add/delete operations over any patterns, starting from any initial set, for each engine; each pattern is held by one destination at a time",
 "Restructuring a trie or splay tree depends on the shape left by all earlier operations; the add/delete tests are commented out and covered single operations on a fixed tree.",
 ["filtering/patricia_trie.go","filtering/splay_tree.go","filtering/list.go"],
 [("trie split/merge","filtering/patricia_trie.go add/delete"),("splay add/delete","filtering/splay_tree.go add/delete"),("list add/delete","filtering/list.go AddSubscription/DeleteSubscription")],
 ["Engine.AddSubscription","Engine.DeleteSubscription","Engine.Search"])

p("C04","Searching never changes what later searches report",
 "However many searches an engine has served and in whatever order, with additions and deletions in between, its answer to a tag depends only on the current subscriptions and that tag; in particular the self-adjusting tree may reorganise itself but no subscription is ever lost, duplicated or applied to tags outside its prefix.",
 ["histories"],"every interleaved sequence of searches, additions and deletions from every initial subscription set",
 "The splay tree rewrites its links on each successful search, so its reachable shapes depend on the whole search history; no test performs two searches on one engine.",
 ["filtering/splay_tree.go","filtering/patricia_trie.go","filtering/list.go"],
 [("move-to-front on match","filtering/splay_tree.go splaySearch")],["Engine.Search","Engine.Dump"],
 [("tree links","matchNext/mismatchNext order","filtering/splay_tree.go SplayTreeNode")])

p("C05","A saved engine restores to an equivalent engine",
 "Serialising any engine in any reachable state and restoring the bytes into an empty engine of the same kind yields an engine that answers every search, and every later addition or deletion, as the original does. Restoring bytes that belong to another kind of engine, or that are truncated anywhere, returns an error and never crashes.",
 ["inputs","histories","fault_sequences"],"every engine state reachable by build/add/delete/search, and every truncation point and engine kind mismatch of its serialised form",
 "The marshalling tests use empty or one-element engines and compare bytes, never behaviour; truncation and kind mismatch beyond one case are not tried.",
 ["filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/legacy_engine.go"],
 [("gob encode/decode of nodes","MarshalBinary/UnmarshalBinary in each engine")],["Engine.MarshalBinary","Engine.UnmarshalBinary","Engine.Search"])

p("C06","The text-matching engine reports by pure-identity fields",
 "After any sequence of additions and deletions, the text-based (legacy) engine reports a tag to exactly the destinations that currently hold a pattern whose fields, ignoring the filter value, are leading fields of the tag's pure identity: whole fields for EPC schemes, leading characters for ISO schemes. It returns the pure identity, or an error if the tag cannot be translated or nobody subscribes; patterns it cannot parse match nothing.",
 ["histories","inputs"],"every subscription history with one or several destinations per pattern and every tag",
 "The tests only run it on empty tables; multi-element deletes, shared patterns and field boundaries are never exercised.",
 ["filtering/legacy_engine.go"],[("pattern rewrite and prefix test","filtering/legacy_engine.go Search"),("table maintenance","filtering/legacy_engine.go AddSubscription/DeleteSubscription")],
 ["LegacyEngine.Search","LegacyEngine.AddSubscription","LegacyEngine.DeleteSubscription"])

p("C07","An EPC pattern selects exactly the tags it describes",
 "For every EPC pattern scheme and every number of leading fields given, the binary prefix filter derived from the pattern is a prefix of the encoded tag if and only if the tag has the same scheme, filter value, company prefix and further given fields. The same holds between the tag generator's own pattern mode and its tag mode, and the pattern text the generator prints denotes the filter it returns.",
 ["inputs"],"every scheme, company-prefix length, filter value and in-range field value, and every pair of (pattern, tag)",
 "Tests compare a few fixed filter strings; they never relate a filter to an encoded tag and never cross company-prefix lengths with boundary field values.",
 ["tdt/epc.go","tdt/core.go","scheme/epc.go","scheme/generate.go"],
 [("partition tables","tdt/epc.go, scheme/epc.go"),("prefix construction","tdt/epc.go NewPrefixFilter*; scheme/epc.go Make*96 with pf")],
 ["tdt.MakePrefixFilterString","scheme.MakeEPC","scheme.Make*96"])

p("C08","ISO container and transport-unit codes survive encode, filter, decode",
 "An ISO 17363 or 17365 code encoded into a tag decodes to the same characters in the pure identity for the standard named by its AFI, with padding removed and word length announced correctly in the PC bits. The check digit of a container code is the ISO 6346 one, and the filter of a pattern with any number of leading fields is a prefix of the encoded tag exactly when those fields' characters lead the code.",
 ["inputs"],"every owner code, equipment identifier, serial number, data identifier, agency code, company number and serial; every AFI byte; every padding length",
 "Tests check a few literal codes; the pattern path with all four container fields has no test against an encoded tag, and only some AFI bytes and padding remainders occur.",
 ["tdt/iso.go","tdt/core.go","scheme/iso.go","scheme/generate.go"],
 [("6-bit packing and padding","scheme/iso.go MakeISO17363/MakeISO17365/Pad6BitEncodingRuneSlice"),("6-bit parsing","tdt/core.go parse6BitEncodedByteSliceToString/buildUII"),("check digit","tdt/iso.go getISO6346CD, scheme/iso.go GetISO6346CD")],
 ["tdt.Core.Translate","tdt.MakePrefixFilterString","scheme.MakeISO","scheme.MakeISOPC","scheme.GetISO6346CD"])

p("C09","EPC tags translate back to the identity they were encoded from",
 "Encoding any valid company prefix, reference and serial into a 96-bit tag and translating the tag yields the pure identity with exactly those values: company prefix, item reference, extension and asset type padded with leading zeros to their scheme width, individual asset reference and serial without; the filter value is not part of the identity and distinct identities never encode to the same tag.",
 ["inputs"],"all four schemes, all seven partitions, all filter values, every in-range field value",
 "Decoding is hand-written bit arithmetic for 28 scheme/partition layouts; the tests translate a few tags of a few layouts.",
 ["tdt/core.go","scheme/epc.go"],[("per-layout bit extraction","tdt/core.go buildEPC"),("per-scheme bit assembly","scheme/epc.go Make*96")],
 ["tdt.Core.Translate","scheme.MakeEPC","scheme.Make*96"])

p("C10","Translation is total: a correct identity or an error, never a crash",
 "Translating any protocol-control bytes and any ID bytes, as an interrogator might deliver them, never crashes. It returns a pure identity only if the bytes are a well-formed tag of a supported scheme whose identity is that one, and returns an error with no identity for every other input: wrong length, unknown header, reserved partition, field value outside its decimal range, unknown AFI.",
 ["inputs"],"every PC value and every ID byte string of any length",
 "Tests feed valid tags and one malformed one; the error space (all headers, partitions, lengths, overflowing fields) is untouched.",
 ["tdt/core.go"],[("dispatch and bit extraction","tdt/core.go Translate/buildEPC/buildUII")],["tdt.Core.Translate"])

p("C11","A malformed subscription never affects the others or matches tags",
 "A subscription pattern that cannot be understood (unknown scheme, wrong number of parts or fields, impossible company-prefix length, non-numeric or out-of-range field) is ignored: it never makes any tag match, never crashes an engine, and every other subscription in the same table is honoured exactly as if the malformed one were absent.",
 ["inputs","configurations"],"every table mixing well-formed and malformed patterns, at build time and when added later, for every engine (the text engine disregards filter values, so it does not judge them)",
 "Tests only use well-formed patterns.",
 ["filtering/subscriptions.go","tdt/core.go","tdt/epc.go","tdt/iso.go"],
 [("pattern conversion","filtering/subscriptions.go ToByteSubscriptions"),("field validation","tdt/epc.go, tdt/iso.go NewPrefixFilter*")],
 ["Subscriptions.ToByteSubscriptions","Engine.Search","tdt.MakePrefixFilterString"])

p("C12","Loading and copying subscription tables loses and invents nothing",
 "Loading a subscription file yields, for each line whose first column is an http(s) destination, exactly the EPC patterns on the lines of that destination in file order, destinations and the pattern prefix being recognised regardless of letter case, and ignores everything else. Cloning a table, or serialising it and reading it back, yields an equal table that shares no storage with the original; the converted binary table has one entry per distinct prefix, with the destination that asked for it, and survives its own serialisation.",
 ["inputs","configurations"],"every file content over the CSV grammar and every subscription table",
 "One sample file is loaded in the tests; cloning and serialisation have no test.",
 ["filtering/subscriptions.go"],[("CSV loader","filtering/subscriptions.go LoadSubscriptionsFromCSVFile"),("gob codecs","filtering/subscriptions.go MarshalBinary/UnmarshalBinary"),("copy","filtering/subscriptions.go Clone")],
 ["LoadSubscriptionsFromCSVFile","Subscriptions.Clone","Subscriptions.MarshalBinary","PartialSubscription.MarshalBinary","ByteSubscriptions.Dump"])

p("C13","Engines and callers never share mutable state",
 "Building an engine from a subscription table, or passing a table to an add or delete operation, never modifies the table, and later modification of the table by the caller or of one engine by its own operations never changes the answers of an engine or of any other engine built from the same table.",
 ["histories"],"every sequence of build/add/delete on several engines sharing tables, interleaved with caller mutation of those tables",
 "Aliasing shows only when one table feeds several engines or is changed afterwards; tests use each table once.",
 ["filtering/legacy_engine.go","filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/subscriptions.go","filtering/engine_factory.go"],
 [("cloning on build and add","filtering/legacy_engine.go NewLegacyEngine/AddSubscription")],["Engine.*","Subscriptions"])

p("C14","The factory always deploys the best engine available",
 "Whatever the order and timing in which engines finish generating: once one is ready an engine is selected and from then on some ready engine is always selected; until throughput has been measured a newly finished engine takes over if and only if its deployment priority is higher; and at each statistics interval the engine with the highest latest measured throughput is selected.",
 ["schedules","histories"],"every interleaving of the engine generators, their monitors, the management listener and the selection ticker, and every order of generation and throughput figures",
 "The engine factory and generator have no tests at all; the outcome depends on goroutine timing.",
 ["filtering/engine_factory.go","filtering/engine_generator.go"],
 [("management listener","filtering/engine_factory.go Run"),("selective adoption ticker","filtering/engine_factory.go Run"),("generator state machine","filtering/engine_generator.go")],
 ["EngineFactory.Search","EngineFactory.IsActive","management channel"],
 [("currentEngineName","engine used for searches","filtering/engine_factory.go EngineFactory")])

p("C15","Searches through the factory are always answered correctly",
 "Under every schedule, from the moment the factory reports itself active, every search submitted to it completes (no deadlock, no crash) with the answer the selected engine gives for the current subscriptions, while engines are still being generated, while statistics are being reported and while the selected engine is replaced; before that moment a search fails with an error rather than crashing.",
 ["schedules"],"every interleaving of searching clients with generation, monitoring, statistics and selection activity",
 "No test starts the factory; the blocking hand-offs between searcher, monitor, listener and main loop are invisible to single-threaded tests.",
 ["filtering/engine_factory.go","filtering/engine_generator.go"],
 [("search dispatch","filtering/engine_factory.go Search"),("time-per-event hand-off","filtering/engine_generator.go Search/monitor")],
 ["EngineFactory.Search","EngineFactory.IsActive"])

p("C16","Traffic statistics count every event exactly once",
 "For each engine, the traffic reports it publishes add up: every search it has completed is counted as an event in exactly one interval, and as a match in that same interval exactly when it found a subscriber, under every interleaving of searches with interval boundaries; throughput figures are finite, positive and computed from the events and time of one interval.",
 ["schedules"],"every interleaving of searches and interval ticks, and every search duration including zero",
 "Counters are updated by two goroutines around a channel hand-off; losing or misattributing a count needs a tick at a particular point.",
 ["filtering/engine_generator.go"],[("monitor loop","filtering/engine_generator.go NewEngineGenerator"),("matched counter","filtering/engine_generator.go Search")],
 ["management channel TrafficStatus/EngineStatus messages"],
 [("EventCount, MatchedCount, totalTime","interval counters","filtering/engine_generator.go EngineGenerator")])

p("C17","Every management notification reaches the main program once",
 "Each traffic report, throughput report and engine-selection notification produced by the engines and the factory is delivered to the main program's management channel exactly once and unaltered, each engine's reports in the order it produced them, and after every interval the last selection notification names the engine actually in use.",
 ["schedules"],"every interleaving of generators, listener, ticker and main program, for unbuffered and buffered management channels",
 "No test runs the listener; a notification that is consumed by the wrong goroutine or reordered needs a specific schedule.",
 ["filtering/engine_factory.go","filtering/engine_generator.go","filtering/management_message.go"],
 [("forwarding in the management listener","filtering/engine_factory.go Run")],["management channel of NewEngineFactory"])

p("C18","Each statistic is written to the database exactly once, intact",
 "For every sequence of statistics messages, the statistics manager performs one database write per well-formed message, containing exactly that message's point: the right measurement, engine tag and field values, with matching probability equal to matched over incoming events whenever there were events. No point is ever sent again with a later write and a traffic message whose counts are not integers is skipped without affecting the others.",
 ["histories","inputs"],"every sequence of traffic, throughput and selection messages with any values",
 "The monitoring package has no tests; re-sending shows only from the second message on.",
 ["monitoring/stat_manager.go","monitoring/stat_message.go"],[("message loop","monitoring/stat_manager.go NewStatManager")],["HTTP writes received by the InfluxDB endpoint"])

p("C19","The reader session survives any framing of the LLRP byte stream",
 "However the reader's byte stream is split by the network, the collector decodes the same messages: it answers each reader-event notification and each keep-alive with exactly one well-formed reply of the right type in order, passes every tag of every access report to the filtering engine exactly once in order, and stamps its own messages with the configured initial message ID. A message whose length field is shorter than a message header ends the session cleanly instead of being misread or exhausting memory.",
 ["inputs","schedules","fault_sequences"],"every sequence of LLRP messages and every segmentation of their bytes, plus truncation at every byte",
 "The command has no test of its session loop.",
 ["cmd/gosstrak-fc/main.go"],[("session loop","cmd/gosstrak-fc/main.go run")],["TCP bytes exchanged with the reader","searches seen by the engines"])

p("C20","A composite filter is a sound summary of its members",
 "For any group of filters over a common byte range, the composite filter accepts every ID that any member accepts, and an ID is accepted by a member if and only if it is accepted by both the composite filter and that member's residual filter.",
 ["inputs"],"every group of filters with distinct bit patterns (any offsets, lengths and wildcard bits) and every ID",
 "Two fixed groups are tested by comparing structures, not by meaning.",
 ["filtering/composition.go"],[("disjunction, mask and residual computation","filtering/composition.go NewComposition")],["NewComposition"])

p("C21","The collector's shared state is free of data races",
 "Under every schedule of the collector's goroutines, accesses to state shared between searching clients, engine generators, the management listener and the selection logic are ordered by synchronisation, so that no goroutine can observe a half-updated engine selection, counter or engine.",
 ["schedules"],"every interleaving of clients, generators, monitors, listener and ticker",
 "No test runs these goroutines, and a race detector only judges the one schedule a test happens to take.",
 ["filtering/engine_factory.go","filtering/engine_generator.go"],[("channels and locks around shared fields","filtering/engine_factory.go, filtering/engine_generator.go")],["memory accesses of the filtering package"])

p("C22","Converting tag files preserves every tag",
 "Converting a tag list from text to the binary tag file preserves every tag's PC bits and ID in order, bit strings that are not whole bytes and PC values that are not 16-bit hexadecimal are reported as errors rather than accepted as empty values, and the text forms the generator prints for a tag (bit string, byte literal, hexadecimal PC) denote the same bytes.",
 ["inputs"],"every tag list and every text field",
 "Two literal conversions are tested.",
 ["cmd/gobtags/main.go","scheme/generate.go","scheme/sixenc2bin/main.go"],[("field parsing","cmd/gobtags/main.go makeByteID/makeUint16PC"),("printing","scheme/generate.go PrintID/PrintGoBytes")],
 ["gobtags output file","scheme.PrintID","scheme.PrintGoBytes"])

p("C23","The collector runs end to end under every schedule",
 "Started with a subscription file and connected to a reader, the whole collector never deadlocks, panics or exits while the reader session lasts: every reported tag is searched, every statistic produced is written to the database, and the reader is still served while statistics, engine generation and engine replacement go on.",
 ["schedules"],"every interleaving of the main program's goroutines with the engine factory and the statistics manager, within the stated bounds",
 "Nothing starts the whole program in a test; its goroutines form a cycle of blocking channels whose deadlocks depend on timing.",
 ["cmd/gosstrak-fc/main.go","filtering/engine_factory.go","filtering/engine_generator.go","monitoring/stat_manager.go"],
 [("main program wiring","cmd/gosstrak-fc/main.go run")],["process liveness","TCP replies","database writes"])

p("C24","An engine generator becomes ready once per command and refuses the rest",
 "An engine generator constructs its engine exactly once, from the subscriptions it was initialised with, and is ready only from then on. Whatever the order and timing of commands from any number of threads: of several initialisations one is accepted; an update is accepted exactly when the generator is ready, and takes it back to ready; every other command is refused with an error and has no effect. Each time it becomes ready (after the construction and after each accepted update) it announces that on its management channel once, however slowly the channel is read, and once everything has come to rest it is ready (or still unavailable or generating, if it was never initialised or the construction never ended). Searches that go on meanwhile are answered correctly.",
 ["schedules","histories"],"every interleaving of initialisations, updates, searches, statistics intervals and the reader of the management channel, within the stated bounds, and every command in every state at rest",
 "No test sends an update or a second command; the transitions are made by nested events from several goroutines, and what is refused depends on where another one stands.",
 ["filtering/engine_generator.go"],
 [("life cycle","filtering/engine_generator.go NewEngineGenerator (FSM), enterGenerating/enterReady/enterPending/enterRebuilding")],
 ["EngineGenerator.FSM","the generator's management channel","EngineGenerator.Search","AvailableEngines constructors"])

p("C25","An engine's dump lists exactly its subscriptions",
 "After any history of builds, additions, deletions and searches, the dump of an engine lists exactly the patterns the engine holds, each with exactly the destinations that hold it, once: the list prints each pattern's bits, the tree engines print a tree whose paths concatenate to the patterns' bits with offsets and sizes that add up, the text engine prints each destination with its patterns, and a table of bit patterns dumps likewise. Dumping is repeatable, changes nothing, and gives the same text for an engine that was saved and restored.",
 ["histories"],"every history over the stated universes, for each engine; each pattern is held by one destination at a time in the binary engines",
 "The dump tests compare one literal per engine, freshly built; nodes left over, lost or misplaced by an update or a search only show after histories.",
 ["filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/legacy_engine.go","filtering/subscriptions.go"],
 [("printing of trees","filtering/patricia_trie.go print, filtering/splay_tree.go print, filtering/subscriptions.go print"),("printing of lists","filtering/list.go Dump, filtering/legacy_engine.go Dump")],
 ["Engine.Dump","ByteSubscriptions.Dump"])

p("C26","Each management and notification client is served, whatever the others do",
 "The management endpoint of the collector and the notification endpoint of ale-ec serve every client that connects, in any number and at any time: each SPDY stream a client opens is answered once and what the client sends on it is mirrored back byte for byte, in order and to its end, however large, slow or long idle it is, and whatever other clients do meanwhile: say nothing, send half a frame or something else altogether, vanish, or not read. No client affects the session with the reader or ends the program. The endpoints listen at the configured address (management: --managementAddr, by default 127.0.0.1:2784; notifications: --port, by default 9323).",
 ["inputs","schedules","fault_sequences"],"every sequence of clients and every interleaving of their handling with each other and with the session of the reader",
 "Neither command has a test of its listener; one client that hinders another needs several at once, in a certain order.",
 ["cmd/gosstrak-fc/main.go","cmd/ale-ec/main.go"],
 [("accepting clients of the collector","cmd/gosstrak-fc/main.go run, management interface"),("accepting clients of ale-ec","cmd/ale-ec/main.go main")],
 ["gosstrak-fc --managementAddr","ale-ec --port","SPDY streams of clients"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
