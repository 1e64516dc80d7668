SPECIFICATION Spec
CONSTANTS MaxRank = 3 MaxDim = 3
INVARIANTS RavelInv BroadcastLaws FlipLaws ConcatLaws ReduceLaws MatLaws RepmatLaws SqueezeLaws
CHECK_DEADLOCK FALSE
