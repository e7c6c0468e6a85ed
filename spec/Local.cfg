SPECIFICATION Spec
CONSTANTS Servers = {1, 2} Addrs = {"a", "b", "all", "far"} Ports = {1, 2} MaxOps = 4
INVARIANTS OneAnswers OnlyWhereTold OnlyTheAsked Authentic
CHECK_DEADLOCK FALSE
