"""Which scenario families decide which property, and how often they are run.

families: (name, executions in the quick tier, executions per round in the thorough tier)
other:    a rejected execution whose deviation consists of these kinds only is
          left to the properties these kinds belong to
own:      the kinds of deviation that count in scenarios that mix everything"""

DELIVERY = ["late", "early", "flags", "qos", "pid", "extra", "dup", "content", "lost", "order"]
RESPONSE = ["connack", "extraresp", "suback", "resp", "noconnack", "noresp"]
ENDS = ["noeof", "noclose", "badclose", "badrefusal", "nokick", "noexpire", "expire"]

PLAN = {}


def plan(prop, families, other, own):
    PLAN[prop] = {"families": families, "other": other, "own": own, "level": "model_checking"}


plan("C01", [("many_sessions", 1, 2), ("crowd", 1, 2), ("gen:Match", 30, 120), ("gen:Overlap", 30, 120), ("gen:All", 30, 120), ("match_table", 21, 21), ("match_odd", 16, 16), ("share_table", 16, 60), ("lookalikes", 24, 80), ("trie_history", 60, 200), ("match_random", 50, 200),
             ("many_filters", 16, 60), ("many_clients", 12, 40), ("wide", 2, 8), ("deep", 8, 40), ("big_requests", 4, 10), ("churn", 16, 60), ("mixed", 60, 120)],
     ["qos", "pid", "flags", "wire", "partial", "leak", "resp", "suback"], ["extra", "lost"])
plan("C02", [("wide", 1, 4), ("gen:Overlap", 30, 120), ("gen:All", 30, 120), ("overlap", 80, 300), ("overlap_pairs", 10, 10), ("many_filters", 24, 80), ("trie_history", 40, 120), ("mixed", 60, 120)],
     ["pid", "flags", "wire", "partial", "leak"], ["dup", "qos"])
plan("C03", [("gen:Match", 30, 120), ("content", 60, 200), ("sizes_exact", 26, 26), ("huge", 10, 20), ("long_strings", 6, 6), ("mixed", 60, 120)],
     ["pid", "qos", "leak"], ["content", "wire", "flags"])
plan("C04", [("backlog", 1, 1), ("gen:Order", 30, 120), ("gen:All", 30, 120), ("order", 80, 250), ("order_flood", 24, 80), ("mutual", 16, 60), ("mixed", 60, 120)],
     ["qos", "pid", "flags", "wire", "leak"], ["order", "lost"])
plan("C05", [("much_input", 1, 2), ("segment_every_cut", 60, 200), ("segment_random", 60, 200), ("segment_big", 24, 60), ("segment_pairs", 60, 200), ("fuzz", 40, 150), ("huge", 8, 16)],
     ["leak", "pid", "qos", "flags"], ["content", "lost"])
plan("C06", [("many_sessions", 1, 2), ("gen:Match", 30, 120), ("gen:Requests", 30, 120), ("gen:All", 30, 120), ("share_table", 12, 40), ("lookalikes", 16, 60), ("takeover_late", 24, 60), ("suback", 60, 200), ("self_pipeline", 60, 200), ("trie_history", 60, 200), ("subscription_churn", 6, 12),
             ("many_filters", 12, 40), ("big_requests", 6, 12), ("mixed", 60, 120)],
     ["pid", "flags", "wire", "partial"], ["suback", "resp", "extra", "lost"])
plan("C07", [("gen:Requests", 30, 120), ("gen:Qos2", 30, 120), ("gen:All", 30, 120), ("requests", 80, 300), ("request_pids", 6, 6), ("qos2_many", 16, 50), ("order_flood", 12, 40), ("pipelined_connect", 20, 60), ("mixed", 60, 120)],
     ["qos", "pid", "flags", "leak", "extra", "lost", "order", "dup", "content"], ["resp", "noresp", "extraresp", "suback", "connack", "noconnack"])
plan("C08", [("gen:Qos2", 30, 120), ("gen:All", 30, 120), ("qos2", 200, 400), ("qos2_many", 30, 80), ("qos2_hundreds", 6, 16), ("many_unreleased", 1, 2), ("mixed", 60, 120)],
     ["pid", "flags", "leak", "wire", "partial"], ["dup"])
plan("C09", [("gen:Pids", 30, 120), ("qos_pairs", 60, 200), ("long_series", 1, 2), ("held_series", 1, 2), ("overlap", 30, 80), ("order_flood", 12, 40), ("mixed", 60, 120)],
     ["leak", "order"], ["qos", "pid"])
plan("C10", [("gen:First", 30, 120), ("gen:All", 30, 120), ("preconnect", 60, 200), ("pipelined_connect", 60, 200), ("malformed_first", 40, 120), ("requests", 20, 60), ("mixed", 60, 120)],
     ["leak", "qos", "pid", "flags"], ["early", "connack"])
plan("C11", [("nameless", 1, 2), ("gen:First", 30, 120), ("refusal", 80, 250), ("anonymous", 40, 120), ("identifiers", 20, 60), ("malformed_first", 40, 120)],
     ["leak", "qos", "pid", "flags"], ["connack", "badrefusal"])
plan("C12", [("crowd", 1, 1), ("busy", 20, 60), ("many_sessions", 1, 2), ("gen:Takeover", 30, 120), ("gen:All", 30, 120), ("takeover", 80, 250), ("takeover_late", 120, 300), ("identifiers", 40, 120), ("stalled_request", 20, 60), ("takeover_race", 80, 250), ("churn", 16, 60), ("mixed", 60, 120)],
     ["qos", "pid", "flags", "wire"], ["nokick", "badclose", "lost", "extra"])
plan("C13", [("gen:First", 30, 120), ("gen:Ends", 30, 120), ("malformed", 100, 300), ("malformed_first", 40, 120), ("fuzz", 100, 400), ("refusal", 30, 100)],
     ["leak", "qos", "pid", "flags"], ["noclose", "badclose"])
plan("C14", [("backlog", 1, 2), ("gen:Stall", 30, 120), ("stalls", 48, 160), ("stalled_request", 80, 240), ("mutual", 24, 80), ("half_open", 24, 80), ("order_flood", 12, 40)],
     ["leak", "qos", "pid", "flags"], ["stuck", "noresp", "lost"])
plan("C15", [("gen:Time", 30, 120), ("keepalive", 60, 200), ("keepalive_fed", 60, 200), ("keepalive_zero", 30, 100), ("stalled_request", 24, 60), ("half_open", 20, 60)],
     ["leak", "qos", "pid", "flags"], ["expire", "noexpire"])
plan("C16", [("gen:Ends", 30, 120), ("gen:All", 30, 120), ("ends", 100, 300), ("stalled_request", 24, 60), ("end_drain", 60, 200), ("half_open", 20, 60), ("acked_then_gone", 20, 60), ("mixed", 60, 120)],
     ["qos", "pid", "flags"], ["noeof", "noclose", "lost"])
plan("C17", [("gen:Int", 30, 120), ("interrupt", 120, 400), ("stalled_request", 40, 120)], ["qos", "pid", "flags"], ["noexit"])
plan("C18", [("writes", 80, 250), ("write_windows", 60, 200), ("huge", 6, 10), ("stalls", 16, 60)],
     ["leak", "qos", "pid"], ["wire", "partial", "content"])
plan("C19", [("backlog", 1, 2), ("gen:Ends", 30, 120), ("acked_then_gone", 120, 400), ("ends", 40, 120), ("takeover", 20, 60)],
     ["leak", "qos", "pid", "flags", "wire"], ["lost", "stuck"])
plan("C20", [("gen:Requests", 30, 120), ("invalid_topics", 100, 300), ("suback", 40, 120)],
     ["leak", "qos", "pid", "flags"], ["suback", "extra", "noclose"])
plan("C21", [("gen:Takeover", 30, 120), ("gen:Ends", 30, 120), ("churn", 60, 200), ("memory", 12, 30), ("subscription_churn", 8, 16), ("ends", 40, 120), ("takeover", 30, 80), ("takeover_late", 40, 100)],
     ["qos", "pid", "flags", "wire"], ["leak", "extra"])
plan("C22", [("many_sessions", 1, 2), ("crowd", 1, 2), ("arrivals", 60, 250), ("busy", 40, 150), ("gen:First", 30, 120), ("half_open", 30, 80), ("refusal", 20, 60), ("pipelined_connect", 20, 60), ("stalled_request", 20, 60), ("gen:All", 30, 120)],
     ["leak", "qos", "pid", "flags", "wire"], ["noconnack", "stuck", "badexit", "bind"])
