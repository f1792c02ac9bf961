#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS
try: from props import NOT_APPLICABLE, NA_PROPS
except ImportError: NOT_APPLICABLE, NA_PROPS = [], []
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i, p in sorted(list(PROPS.items()) + [(x["id"], x) for x in NA_PROPS]):
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}}) + "\n")
checks = [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
           "technique": "symbolic execution of the compiled Rust code (LLVM IR) with Z3 deciding every branch and assertion",
           "level": p["level"],
           "level_note": "Bounded model checking of the real code: holds for every input, choice and schedule within the bounds listed per harness in the evidence. Outside: " + p["outside"] + ". Trusted: the models of third-party crates in shims/, rustc/LLVM, Z3."}
          for i, p in sorted(PROPS.items())]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "none (no hook is compiled into /repo; harness modules are added to a generated copy)", "enable": "gen.py copies the crate from /repo and adds the harness modules", "source_commits": []},
           "checks": checks, "not_applicable": NOT_APPLICABLE,
           "notes": "See DESIGN.md. known_findings.json lists fixed and known defects."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

ORACLE = {
"C01": "the actor logs begin and end of every handler; the log must be well nested, contain each accepted message once, in the order each sender sent them; each call compares the value it gets with the one computed for its own message.",
"C02": "the same log with the hooks: started first, stopped last and once, nothing cut off; what each caller was told (handled / refused / stopped) must agree with the log at the moment it was told.",
"C03": "a reference count of who watches at the moment of the stop (a model of watch/unwatch), compared with the notifications each watcher received.",
"C04": "the hooks of every actor of the tree append to a log; the set that stopped must be the subtree, children before the parent is told, and the parent's list of children must equal the live ones.",
"C05": "a reference map id -> live actor, updated with each operation, compared with every lookup and with the number of actors; shutdown must return after all hooks ran.",
"C06": "arithmetic over symbolic times: the ticks' instants are compared with the specification (first tick, distance, count, none after the stop).",
"C07": "a reference journal (list of acknowledged and possibly-stored operations): the recovered state must be explained by a prefix-closed set that contains all acknowledged ones.",
"C08": "a reference list per key; every read is compared element by element, with sequence numbers and bounds ranging over all i64.",
"C09": "a reference count of attempts and delays per policy; what was returned to the caller, what was stored and whether the actor lives must follow from the number of failures.",
"C10": "decode(encode(x)) is compared field by field with x, through the real protobuf code; kinds of event must be preserved.",
"C11": "no assertion needed beyond absence of panics: every feasible panic, overflow or out-of-bounds access on any byte string within the bounds is a finding.",
"C12": "as C10, for the messages of sharding and singletons.",
"C13": "each handler counts what it handled; each caller compares its result with the one computed for its own request; the table of pending requests must be empty in the end.",
"C14": "a peer is served iff the bytes it presented are a token signed with the server's secret (ideal signature) in its first frame; whether an honest peer is served must not depend on what the others do.",
"C15": "a reference list of what was sent after the break; the peer must receive it in order and once.",
"C16": "a reference status function of the ping history (written from the documentation of the configuration, not the code), over symbolic times; leader = oldest healthy node; announcements counted.",
"C17": "what each node reports (nodes, attributes, where an actor is) is compared with what the harness created.",
"C18": "expected deliveries computed from the history of subscriptions and publications, compared with what each subscriber received.",
"C19": "entities register instances (a second one is a violation), the recipe they were made from, and count what they handle; each caller compares its answer.",
"C20": "a reference placement computed from the operations; compared with where the coordinator says shards are, and with the statistics it reports.",
"C21": "as C19 over two nodes; instances per entity never exceed one; after the move all requests from all nodes are answered on the right node.",
"C22": "a global instance counter in the singleton's hooks (two is a violation), and where it runs; after things settle a request from every node must be answered from the node that leads.",
"C23": "the expected description is computed from the hierarchy the harness built and from the (symbolic) time a child is busy against the time allowed.",
"C24": "a reference list per key, as C08, with operations not performed or not answered; recovery over it as in C07.",
"C25": "the expected list of addresses computed from the pods.",
}

# section 2 of DESIGN.md
d = open(os.path.join(V, "DESIGN.md")).read()
A, B = "<!-- generated by mk.py from props.py: begin -->\n", "<!-- end -->\n"
if A in d:
    t = ""
    for i, p in sorted(PROPS.items()):
        t += "### %s %s\n* **Oracle**: %s\n* **Quantified over**: %s.\n" % (i, p["title"], ORACLE[i], p["text"])
        for h in p["harnesses"]: t += "* `%s`%s%s: %s. *Bounds*: %s.\n" % (h["name"], " (T)" if h.get("thorough") else "", " [%s]" % h["variant"] if h.get("variant") else "", h["what"], h["bounds"])
        t += "* **Tests cannot**: %s.\n* **Outside**: %s.\n\n" % (p["why"], p["outside"])
    d = d[:d.index(A) + len(A)] + t + d[d.index(B):]
    open(os.path.join(V, "DESIGN.md"), "w").write(d)
