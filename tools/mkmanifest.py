#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
T={
"C01":"seeded simulation of pull schedules against a generating reference model (text, AST, order)",
"C02":"seeded baton scheduling of parser threads, interleaved pulls and re-entrant parsers; each history compared with the same parser run alone",
"C03":"seeded comment injection at every token boundary; recorded deliveries checked against the model's comment list",
"C04":"seeded histories of items before a probe item; differential against a fresh parser",
"C05":"seeded crash points of the text (truncation); prefix durability checked against the model",
"C06":"seeded damage to the text (drop, duplicate, swap, flip, splice); prefix durability and containment checked against the model",
"C07":"seeded damaged texts and token soup under a step budget; progress and end-state invariants over the pull history",
"C08":"seeded histories of set/build/pull/drop over builders and parsers against a configuration model",
"C09":"seeded damage read under both tolerance settings; refinement between the two histories and against the model",
"C10":"seeded placement of a fault in the token stream; reported position checked against the model",
"C11":"seeded panics injected into handlers and log sink under the baton scheduler; histories of all neighbours compared with runs alone",
"C12":"seeded environment faults (hash seeds, clock, heap contents and placement, stack, thread, log level) between two runs of one text; histories must be equal",
"C13":"tokenizer steps and live bytes counted at every pull of seeded runs against linear bounds",
"C14":"seeded abandonment and panics; live bytes and handler drops counted over repeated runs",
"C15":"seeded damage and token soup; every accepted item's leaves compared with an independent token scan",
"C16":"seeded re-layouts of one program (spaces, line ends, comments, semicolons) and line-sensitive texts; histories must be equal",
}
NOTE="Exploration by seeded search: no violation in the runs reported in the evidence file; not a proof. Trusts the simulator's own model of the programs it generates (a bounded subset of ES2019, DESIGN.md) and the given ress tokenizer; scheduling and panic points are the log calls and callbacks of the code under test."
NA={
"C17":"Acceptance of the whole grammar is a relation between one input text and one output tree: no schedule, clock, fault, crash or other party takes part, so a simulator has nothing to decide. The part of the grammar the generator writes is compared exhaustively tree by tree inside C01, C03, C04 and C16.",
"C18":"Rejection of every invalid program (early errors, strict mode rules) is likewise a pure input relation and would need a full independent validator; RESSA documents itself as a parser that does not check everything. Acceptance that loses tokens is decided under C15, faults with a definite place under C10.",
"C19":"Stack use at unbounded nesting depends on the caller's stack size and on the compiler's frame layout, neither of which a simulator can decide; the parser is recursive by design and promises no depth.",
}
m={"version":1,
"setup_cmd":"cd sim && cargo build --release --offline",
"checks":[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","evidence_file":f"evidence/{p}.json","technique":"deterministic simulation with fault injection: "+t,"level":"exploration","level_note":NOTE} for p,t in T.items()],
"not_applicable":[{"property":p,"reason":r} for p,r in NA.items()],
"notes":"No hooks in /repo: the seams are the log facade, the comment handler, the builder, the global allocator and two libc symbols (getrandom, clock_gettime), all on the simulator's side. Replay a violation with: sim/target/release/ressa-sim replay FILE."}
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","MANIFEST.json"),"w").write(json.dumps(m,indent=1)+"\n")
