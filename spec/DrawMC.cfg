SPECIFICATION Spec
CONSTANTS
    Inner = 2
    Spoil = {"edge-lost", "edge-turned", "node-lost", "node-more", "shape", "frozen", "line"}
INVARIANT Faithful
INVARIANT Noticed
CHECK_DEADLOCK FALSE
