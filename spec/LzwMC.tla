-------------------------------- MODULE LzwMC --------------------------------
(* every string of at most MaxLen letters, every dictionary size in Sizes *)
EXTENDS Lzw
CONSTANTS MaxLen, Sizes
VARIABLES s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in 0..(A - 1) : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Lossless == \A D \in Sizes : RoundTrip(s, D)
=============================================================================
