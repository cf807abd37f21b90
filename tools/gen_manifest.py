"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("bounded exhaustive exploration of the real query path against a reference model of the graph", "Every query of the stated grids is run on the real code and its stored graph compared with the model up to renaming of numbers; nothing is sampled. Values outside the alphabets are not covered."),
 "C02": ("bounded exhaustive exploration of refused queries with a control run (differential oracle)", "Every malformation in every slot of the stated statement structures; state before and after compared exactly, and later behaviour compared with a database that never saw the query."),
 "C03": ("exhaustive enumeration of token sequences and edits against an independent reference parser", "All token sequences up to the stated length and all single edits of the base statements; what is accepted must mean what the reference parser reads. Longer sequences are not covered."),
 "C04": ("exhaustive enumeration of operation histories on the real code, process restarts by fork, invariant in every state", "All histories up to the stated depth over the stated operations, from empty databases and digit boundaries."),
 "C05": ("exhaustive enumeration of operation histories on the real code, index invariant in every state", "All histories up to the stated depth; the indexes are recomputed from the stored graph after every step."),
 "C06": ("exhaustive enumeration of histories over two databases with restarts; per step frame condition and differential runs", "All histories up to the stated depth; every byte-level relevant field of both databases compared before and after each step."),
 "C07": ("exhaustive product of stored graphs and FIND patterns against a set model", "All graphs and patterns over the stated alphabet, in-process and after restart."),
 "C08": ("exhaustive enumeration of patterns and criteria assignments against a reference model", "All shapes, placements and criteria assignments of the stated alphabet."),
 "C09": ("exhaustive enumeration of value texts against a reference reader", "All texts over the alphabet up to the stated length in each quoting style plus dictionaries, in every position; longer texts and other characters are not covered."),
 "C10": ("exhaustive enumeration of layouts and case patterns, differential against the canonical layout", "All choices of whitespace at up to two gaps, all case patterns of the clause words."),
 "C11": ("bounded exhaustive exploration of malformed queries on the real code", "Every malformation of the list at every position of every shape in every slot of the stated structures."),
 "C12": ("exhaustive enumeration of statement sequences against a reference acceptor", "All sequences up to the stated length over the statement alphabet and all REPORT bodies up to three items."),
 "C13": ("exhaustive enumeration of all letter orders in all positions on the real code", "All 768 orders in several cases at every position among correct statements."),
 "C14": ("explicit exploration of the database lifecycle state machine on the real code against a reference model", "All operation sequences up to the stated depth over colliding names; the whole file tree compared after each step; run as an unprivileged user in a scratch folder."),
 "C15": ("explicit exploration of the storage state machine on the real code against a reference model", "All operation sequences up to the stated depth (state space exploration with merging of equal file contents)."),
 "C16": ("exhaustive crash point enumeration on the real code under an interposed file system layer", "Every file operation of every query of the histories as crash point, before, after and torn, on the real write path; every disk that a power loss can leave comes from a model of the disk that is compared with the real disk at every kill point; the model assumes that changes of names persist in order."),
 "C17": ("exhaustive enumeration of shell sessions on the real shell against direct execution", "All sessions up to the stated length over the line alphabet."),
 "C18": ("stateless model checking: all interleavings of file operations of real processes under a controlled scheduler", "All schedules of the stated process groups (preemption bound stated in the evidence) at the granularity of file operations."),
 "C19": ("exhaustive enumeration of histories of queries and clock steps under a controlled clock", "All histories up to the stated depth; the clock that the processes see is chosen by the harness."),
 "C20": ("exhaustive fault enumeration on the real code under an interposed file system layer", "Every file operation of every query of the histories fails with each listed error, alone, persistently, and in pairs."),
 "C22": ("exhaustive crash point, fault and schedule enumeration on the real code under an interposed file system layer", "Every file operation of creating and deleting a database as crash point and as fault, and all schedules of two processes up to the stated preemption bound; which other databases exist, and the names, are a small alphabet."),
 "C21": ("exhaustive enumeration of small objects against a reference model", "All nodes with up to three relationships over the stated alphabet."),
 "C23": ("exhaustive enumeration of query histories in one process, each step compared with a new process on the same files (differential oracle)", "All sequences up to the stated length over the stated queries and databases."),
 "C24": ("exhaustive enumeration of texts with repeated parts on the real code, under a limit of processor time", "All texts of the stated grammar; a violation is a text that exceeds the limit, which is some hundred times what the slowest text takes."),
 "C25": ("exhaustive enumeration of one mistake in every place, and of short token sequences, on the real code against the expected error", "All queries of the stated grammar."),
 "C26": ("exhaustive enumeration of damaged files x queries on the real code against a model of what can be read", "All damages and queries of the stated enumeration."),
 "C27": ("exhaustive enumeration of histories with changes of the files from outside, of layouts of the files, and of places, against a model that reads the files", "All sequences up to the stated length, all small graphs and places of the stated lists."),
 "C28": ("exhaustive enumeration of interruption points on the real code (every call), with continued use of the same process", "Every function start and builtin return of every query of the histories, one interruption and pairs; interruptions within a builtin are covered as before or after it."),
 "C29": ("exhaustive enumeration of executions of parsed queries, each compared with a new process that runs the text on the same files (differential oracle)", "All sequences up to the stated length over the stated queries and databases."),
 "C30": ("stateless model checking: all interleavings of real threads under a controlled scheduler, up to a number of preemptions", "All schedules with one preemption at every call and return of the repository's code, and with two at the calls of the operating system, of the stated queries; switches inside the libraries only at calls of the operating system."),
 "C31": ("exhaustive enumeration of configurations: every query in every environment of the list, in real processes, compared with a process in a plain environment (differential oracle)", "The environments, queries and histories listed, all of them."),
 "C32": ("exhaustive enumeration of executions; the state of the process (settings, open files, threads, files, memory) is compared before and after each", "All operations, contents, pairs, single faults and interrupted calls listed; memory is counted under repetition of one query."),
 "C33": ("exhaustive enumeration of inputs: queries are generated from a grammar of known parts, and every field of the parsed form is compared with the part it comes from", "The shapes, parts, layouts, orders and words listed, all combinations stated."),
 "C34": ("exhaustive enumeration of inputs and histories: all combinations of rights and links of the files, and sequences of queries and changes of rights, run on the real code by an ordinary user against a model of what the rights allow", "The rights, kinds of links, masks and queries listed, all combinations stated; up to 3 steps (4 in thorough)."),
}
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
have = [i for i in ids if os.path.exists(f"{V}/mc/checks/{i.lower()}.py")]
fault = {"C16", "C20"}
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "checks": [{"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
   "technique": "model checking: " + TECH[i][0], "level": "model_checking", "level_note": TECH[i][1]} for i in have],
 "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in have],
 "notes": "No hooks in /repo: file operations and the clock are interposed from outside with LD_PRELOAD (mc/shim.c, compiled by each check that needs it)."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(have)
