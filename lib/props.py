"""The properties that are claimed, with the rules that decide each."""
PROPS = {}
NOT_APPLICABLE = []
CACHE = ["tcp_tablet_cache_service"]
TRUST = ["rustc's type checker and MIR construction (the facts come from the compiler run on the current tree)",
         "stand-in declarations of third-party crates that are absent offline (world/): signatures only, no behaviour is taken from them"]

def prop(pid, title, statement, over, text, why, files, mech, crates, rules, explain, assumptions=(), technique=None, level_note=None):
    PROPS[pid] = {"id": pid, "title": title, "statement": statement, "over": over, "text": text, "why": why, "files": files, "mech": mech,
                  "crates": crates, "rules": rules, "explain": explain, "assumptions": TRUST + list(assumptions), "level": "other",
                  "technique": technique or "interprocedural dataflow and path rules over type-checked MIR",
                  "level_note": level_note or "Decides the rule for every path of the inlined control flow graph of the current source; branch outcomes are abstracted to variants, comparisons and truth values of access paths. " + explain}
def na(pid, title, statement, over, text, why, files, mech, reason):
    NOT_APPLICABLE.append({"id": pid, "title": title, "statement": statement, "over": over, "text": text, "why": why, "files": files, "mech": mech, "reason": reason})

import cat_cache
import cat_store
import cat_runtime
