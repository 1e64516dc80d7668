------------------------------ MODULE SessionGen ------------------------------
(* All behaviours of Session for small graphs, printed for replay into the real session. *)
EXTENDS Session, TLC
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == \/ Build /\ hist' = hist
         \/ \E l \in 1..2 : Rebind /\ ver' = [ver EXCEPT ![l] = @ + 1] /\ hist' = Append(hist, -l)
         \/ \E r \in 3..N : Run /\ last'[1] = r /\ hist' = Append(hist, r)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Done == (steps = Depth /\ hist[Depth] > 0) => PrintT("SESS " \o ToString(dag) \o " | " \o ToString(hist))
=============================================================================
