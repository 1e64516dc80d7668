"""Which module decides which property, and how."""
MODULES = {}
TECH = {}
NOTAPP = {}
def _r(mod, ids, tech, note):
    for i in ids.split():
        MODULES[i] = mod; TECH[i] = (tech, note)

_TRACE = ("Every recorded execution of the current tree is checked by TLC, event by event, against the explicit specification; the specification itself "
          "is checked exhaustively within small bounds. Assurance is exhaustive for the model and sampled (seeded random plus specification-drawn programs) for the code.")
_r("t_tensor", "T01 T06", "TLA+ state machine of tensor handles and buffers (TLC exhaustive) + trace validation of random and TLC-drawn programs", _TRACE)
_r("t_tensor", "T02 T03 T04 T05", "TLA+ tensor algebra with laws checked by TLC + trace validation of random programs", _TRACE)
_r("t_graph", "G01 G02 G03 G07", "TLA+ graph machine (evaluation, adjoints; operator laws checked by TLC) + trace validation of random expression graphs", _TRACE)
_r("t_graph", "G10", "TLA+ graph machine with the relation between an expression and its drawing, checked by TLC on all faithful and spoilt drawings of small expressions + trace validation of statically typed random expression graphs", _TRACE)
_r("t_graph", "G04 G05", "TLA+ session/cache model (TLC exhaustive) + replay of all its small behaviours and trace validation of random graphs", _TRACE)
_r("t_util", "U01", "TLA+ model of the caching allocator over a finite memory (TLC exhaustive) + trace validation of random call sequences with injected failures", _TRACE)
_r("t_util", "U02", "TLA+ model of the loop's division and thread interleavings with modular index arithmetic (TLC exhaustive) + trace validation", _TRACE)
_r("t_util", "U03", "TLA+ model of the LZW coder (TLC exhaustive over small alphabets and dictionaries) + trace validation of round trips", _TRACE)
_r("t_util", "U04", "TLA+ specification of the decoded data set + trace validation of generated IDX files", _TRACE)
_r("t_store", "T07", "TLA+ machine of streams and files and a TLC-checked model of decimal round trips + trace validation of written and read tensors", _TRACE)
_r("t_store", "S01", "TLA+ model of saving and restoring by identity (TLC exhaustive) + trace validation of random histories", _TRACE)
_r("t_store", "S02", "TLA+ model of place holder cells and session lifetimes (TLC exhaustive) + trace validation of random histories", _TRACE)
_r("t_math", "G06 G08 G09", "TLA+ definitions of functions, losses and complex operations over decimal reals, their derivatives checked against difference quotients by TLC + trace validation of evaluations and backpropagations", _TRACE)
_r("t_store", "U05", "TLA+ machine of objects, copies and identities + trace validation of random construction histories in two translation units", _TRACE)
_r("t_train", "R01", "TLA+ update rules over decimal reals, checked against closed forms by TLC over all short gradient histories + trace validation of recorded steps", _TRACE)
_r("t_train", "R03 R04", "TLA+ model of the training loops as plans of runs (TLC exhaustive over short histories) + trace validation of recorded batches, updates, phases and losses", _TRACE)
_r("t_train", "R05 R06", "TLA+ definitions of the phase dependent operators with laws checked by TLC + trace validation of recorded stages and gradients over histories of runs in both phases", _TRACE)
_r("t_graph", "R02", "TLA+ model of gradient accumulation over interleaved runs and steps (TLC exhaustive) + trace validation of training histories on random graphs", _TRACE)
_r("t_graph", "M01", "TLA+ definition of models as expressions with a hole, substitution and chain laws checked by TLC + trace validation of random programs of models", _TRACE)
_r("t_rand", "T08", "TLA+ definition of plausible samples and machine of the generator (TLC exhaustive) + trace validation of recorded draws over histories of seeding", _TRACE)
_r("t_layer", "L01", "TLA+ composition of layers out of graph operators, their laws checked by TLC + trace validation of random networks of layers", _TRACE)
_r("t_view", "U06", "TLA+ machine of a memory addressed through views, iterators and ranges, addressing laws checked by TLC + trace validation of random programs", _TRACE)
_r("t_image", "I01", "TLA+ machine of a directory of image files with format and naming rules (TLC exhaustive) and symmetry laws of resizing + trace validation of random writes, reads and resizings", _TRACE)
