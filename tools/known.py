"""Genuine defects of GerryChain that are recorded, not repaired (see DESIGN.md)."""
KNOWN = [
    {"property": "C27", "status": "known", "case": "separate-later",
     "message": "a partition offers an updater that was given to an earlier partition of its class",
     "what": "Partition(graph, plan, {'x': f}) and then Partition(graph, plan, {'y': g}): the second one offers x as well (_first_time adds the given updaters to the class's shared default_updaters)"},
    {"property": "C27", "status": "known", "case": "separate-earlier",
     "message": "an updater given to a later partition of the class answers for this one",
     "what": "a = Partition(graph, plan, {'x': f}) and then Partition(graph, plan, {'x': g}): a['x'] is now computed by g (_first_time adds the given updaters to the class's shared default_updaters)"},
]
