--------------------------------- MODULE Lzw ---------------------------------
(* LZW over an alphabet of A letters with a dictionary of at most D entries, codes of growing width packed into bits,     *)
(* and a dictionary reset when it is full.  The decoder learns each entry one code later than the encoder, which shows in *)
(* three places: the code-before-definition pattern, the width of the codes, and the reset.  Checked: for every string,   *)
(* decoding what was encoded gives the string, and the decoder leaves only zeros.                                         *)
EXTENDS Integers, Sequences
CONSTANTS A, W0, U   \* letters 0..A-1 (A a power of two), code A ends the stream; W0: initial width, holding A; U: bits of a byte
RECURSIVE Bits(_)
Bits(n) == IF n < 2 THEN 1 ELSE 1 + Bits(n \div 2)
\* a dictionary is a sequence of <<prefix code, letter>>; entry k has code k - 1; the first A + 1 are the letters and the end code
Nil == -1
Base == [k \in 1..(A + 1) |-> IF k <= A THEN <<Nil, k - 1>> ELSE <<-2, 0>>]
Find(dict, i, c) == IF \E k \in 1..Len(dict) : dict[k] = <<i, c>> THEN (CHOOSE k \in 1..Len(dict) : dict[k] = <<i, c>>) - 1 ELSE Nil
RECURSIVE ToBits(_, _)
ToBits(k, w) == IF w = 0 THEN <<>> ELSE <<k % 2>> \o ToBits(k \div 2, w - 1)
RECURSIVE Num(_)
Num(b) == IF b = <<>> THEN 0 ELSE b[1] + 2 * Num(Tail(b))
\* encoder state: [dict, i: code of the pending string, w: width, out: bits]
RECURSIVE Enc(_, _, _)
Enc(s, e, D) ==
    IF s = <<>> THEN IF e.i = Nil THEN [e EXCEPT !.out = @ \o ToBits(A, e.w)] ELSE [e EXCEPT !.out = (@ \o ToBits(e.i, e.w)) \o ToBits(A, e.w)]
    ELSE LET full == Len(e.dict) = D
             dict == IF full THEN Base ELSE e.dict
             c == Head(s)
             k == IF e.i = Nil THEN c ELSE Find(dict, e.i, c)
         IN IF k # Nil THEN Enc(Tail(s), [dict |-> dict, i |-> k, w |-> IF full THEN W0 ELSE e.w, out |-> e.out], D)
            ELSE LET d2 == Append(dict, <<e.i, c>>)
                     out == e.out \o ToBits(e.i, e.w)
                     w2 == IF full THEN W0 ELSE IF Bits(Len(d2) - 1) > e.w THEN e.w + 1 ELSE e.w
                 IN Enc(Tail(s), [dict |-> d2, i |-> c, w |-> w2, out |-> out], D)
Pad(b) == b \o [k \in 1..((U - (Len(b) % U)) % U) |-> 0]
Encode(s, D) == Pad(Enc(s, [dict |-> Base, i |-> Nil, w |-> W0, out |-> <<>>], D).out)
RECURSIVE Spell(_, _)
Spell(dict, k) == IF k = Nil THEN <<>> ELSE Append(Spell(dict, dict[k + 1][1]), dict[k + 1][2])
\* decoder: bad if the bits are not a coding
RECURSIVE Dec(_, _, _)
Dec(b, d, D) ==
    LET full == Len(d.dict) = D
        dict == IF full THEN Base ELSE d.dict
        w0 == IF full THEN W0 ELSE d.w
        w == IF Bits(Len(dict)) > w0 THEN w0 + 1 ELSE w0
        n == IF Len(b) < w THEN Len(b) ELSE w    \* the end code may be written one bit shorter than it is read: what is missing counts as zeros
    IN LET k == Num(SubSeq(b, 1, n)) rest == SubSeq(b, n + 1, Len(b)) IN
            IF k = A THEN [ok |-> TRUE, s |-> d.s, rest |-> rest]
            ELSE IF n < w \/ k > Len(dict) \/ (k = Len(dict) /\ d.i = Nil) THEN [ok |-> FALSE, s |-> d.s, rest |-> rest]
            ELSE LET d2 == IF k = Len(dict) THEN Append(dict, <<d.i, Spell(dict, d.i)[1]>>)
                           ELSE IF d.i = Nil THEN dict ELSE Append(dict, <<d.i, Spell(dict, k)[1]>>)
                 IN Dec(rest, [dict |-> d2, i |-> k, w |-> w, s |-> d.s \o Spell(d2, k)], D)
Decode(b, D) == Dec(b, [dict |-> Base, i |-> Nil, w |-> W0, s |-> <<>>], D)
RoundTrip(s, D) == LET r == Decode(Encode(s, D), D) IN r.ok /\ r.s = s /\ \A k \in 1..Len(r.rest) : r.rest[k] = 0
=============================================================================
