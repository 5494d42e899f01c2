package main

var plans = map[string]plan{
	"C01": {
		quick: legs(48000, 250, 12000, 100), thorough: legs(1000000, 2000, 300000, 400),
		rule: "a run draws a document, how it was made, 2 to 4 tasks and their read operations, and a schedule; non-trivial: every run",
	},
	"C02": {
		quick: legs(28000, 250, 7000, 100), thorough: legs(1000000, 2000, 300000, 400), order: true,
		rule: "a run draws 2 to 4 tasks with steps on data of their own (parsing, scanning, encoding, decoding, rendering, queries, YAML, failing and panicking hooks, same-named types), executes steps alone, all tasks interleaved, and again alone; some processes repeat their runs in the opposite order; non-trivial: every run",
	},
	"C03": {
		quick: legs(24000, 250, 5000, 250), thorough: legs(1000000, 2000, 300000, 1000),
		rule: "a run draws a history of up to 26 operations of one owner on containers that share members, then (one run in three, and all of the race leg) 2 or 3 owners at once on copies of that state; non-trivial: every completed run",
	},
	"C04": {
		quick: legs(32000, 250, 6000, 250), thorough: legs(1000000, 2000, 300000, 1000),
		rule: "a run draws source documents, target types with failing and panicking hooks, targets with earlier content, a sequence of decodings and updates with snapshots of everything else, tasks decoding at once, and edits of results and sources; non-trivial: every run",
	},
	"C05": {
		quick: legs(6000, 100, 0, 0), thorough: legs(300000, 1000, 0, 0),
		rule: "a run draws a document, a rendering form, preceding log records and a blank fill, and cuts the text at every byte (texts over 1200 bytes: both ends and a stride); non-trivial: text longer than 2 bytes",
	},
	"C06": {
		quick: legs(12000, 250, 0, 0), thorough: legs(1000000, 2000, 0, 0),
		rule: "a run draws a sequence of documents and a spelling for each, sends the bytes over a simulated faulty connection with crashing receiver and reads incrementally; non-trivial: at least one record",
	},
	"C07": {
		quick: legs(32000, 250, 0, 0), thorough: legs(1000000, 2000, 0, 0),
		rule: "a run draws up to 3 texts (documents in several spellings, graphs, typed records, queries), damages them 2 to 7 times and parses, scans or query-parses the result; what is accepted is put to drawn uses; non-trivial: every run",
	},
	"C08": {
		quick: legs(120000, 250, 0, 0), thorough: legs(1000000, 2000, 0, 0),
		rule: "a run draws up to 16 log records (60 to 200 mostly torn ones in one run of 16, up to 2000 in one of 200), crashes that leave a prefix of one on disk, and lines of noise; the log is scanned after crashes and at the end; non-trivial: every run",
	},
	"C09": {
		quick: legs(20000, 250, 3500, 250), thorough: legs(1000000, 2000, 300000, 1000), order: true,
		rule: "a run draws a value (document by insertion history, structure, maps of any key type, graph) and encodes and renders it 4 to 9 times under permuted map enumerations, clock jumps, changed zones, other work in between and other tasks; non-trivial: every run",
	},
	"C10": {
		quick: legs(80000, 250, 0, 0), thorough: legs(1000000, 2000, 0, 0),
		rule: "a run draws a query (a structure of nested parameters with repetitions in some spelling, a rendered document, or contradicting parameters) and parses it with its parameters arriving in 2 to 5 orders, one run in eight by several tasks at once; non-trivial: every run",
	},
	"C11": {
		quick: legs(10000, 250, 0, 0), thorough: legs(1000000, 2000, 0, 0),
		rule: "a run draws graphs of structures, encodes them (as pointer, value, slice, map or holder), reorders members and moves definitions behind references, sends the text over a simulated faulty connection and decodes into fresh values; non-trivial: something was sent",
	},
	"C12": {
		quick: legs(120000, 250, 0, 0), thorough: legs(1000000, 2000, 0, 0),
		rule: "a run draws 1 to 4 decodings and encodings of values with hooks (types, documents, which hooks fail and how), with the exact calls and results they must lead to; non-trivial: every run",
	},
	"C13": {
		quick: legs(36000, 250, 4000, 250), thorough: legs(1000000, 2000, 300000, 1000),
		rule: "a run draws a log of messages, a kind of target (typed value, dictionary merged or merged as defaults, value updated from values), its first content, and replicas that get messages again or have attempts interrupted; non-trivial: every run",
	},
	"C14": {
		quick: legs(30000, 250, 0, 0), thorough: legs(1000000, 2000, 0, 0),
		rule: "a run draws struct types (generated and fixed) and values, encodes them (omitting or complete form), sends the text over a simulated faulty connection and decodes into fresh values; non-trivial: more than 10 bytes sent",
	},
	"C15": {
		quick: legs(48000, 250, 4000, 250), thorough: legs(1000000, 2000, 300000, 1000),
		rule: "a run draws entities with a history of names, 2 to 5 versions that know some of them (chains, stars, trees; one run in four any declarations, loops among them), nodes that are upgraded and rolled back, and records that are passed on over up to 6 nodes by messages that are lost, duplicated and reordered; non-trivial: every run",
	},
	"C16": {
		quick: legs(120000, 250, 6000, 250), thorough: legs(1000000, 2000, 300000, 1000),
		rule: "a run draws 1 to 5 fields and 2 to 5 versions that give them different types, nodes that are upgraded and rolled back and migrate what they store, and records passed on over up to 6 nodes by messages that are lost, duplicated, reordered, read over one another or carry a field of a foreign kind; non-trivial: every run",
	},
	"C17": {
		quick: legs(32000, 250, 5000, 250), thorough: legs(1000000, 2000, 300000, 1000),
		rule: "a run draws requests, the forms (JSON, JSON as people type it, queries, YAML) in which clients and gateways pass them on over up to 5 hops, changes gateways make, and the questions one to three handlers ask about what arrived; non-trivial: every run",
	},
	"C18": {
		quick: legs(20000, 250, 2500, 250), thorough: legs(1000000, 2000, 300000, 1000),
		rule: "a run draws 2 to 4 sites with documents that differ in little, edits at any depth, exchanges of whole documents (as text, YAML, Go values, copies) and of differences, merged, mirrored or asked for, between sites that restart from what they wrote, and comparisons by one to three callers; one run in twelve compares encoded, copied and sent rings of objects; non-trivial: every run",
	},
	"C19": {
		quick: legs(56000, 250, 4000, 250), thorough: legs(1000000, 2000, 300000, 1000),
		rule: "a run draws messages held behind registered interfaces (written by hand, composed of several implementations, in rings, in envelopes, plain documents), spoils some, sends them over a network that loses, tears and duplicates, has one to three readers read each at once, and passes some on; non-trivial: every run",
	},
}
