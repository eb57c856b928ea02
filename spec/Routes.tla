------------------------------- MODULE Routes -------------------------------
(***************************************************************************)
(* One route and the tracks that may be added to it.                        *)
(*                                                                          *)
(* A state is [seq, name, col, tn, tc]: seq lists the route's tracks (0, 1, *)
(* ..; the same track may occur more than once), name and col are the       *)
(* route's name and colour, tn[x + 1] and tc[x + 1] those of track x (0: as *)
(* created).  id[x + 1] is the identifier of track x; two tracks may have   *)
(* the same.  Versions are kept apart: an operation gives, with the next    *)
(* state and its result, which versions go up (must), and which may.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min(S) == CHOOSE m \in S : \A n \in S : m <= n
RECURSIVE SumOf(_, _)
SumOf(len, q) == IF q = <<>> THEN 0 ELSE len[q[1] + 1] + SumOf(len, Tail(q))

New(nx) == [seq |-> <<>>, name |-> 0, col |-> 0, tn |-> [x \in 1..nx |-> 0], tc |-> [x \in 1..nx |-> 0]]

Find(id, st, i) == LET P == {p \in 1..Len(st.seq) : id[st.seq[p] + 1] = i} IN IF P = {} THEN 0 ELSE Min(P)

(* What happens: next state, result, versions that go up, versions that may. *)
R(s, r, up, may) == [s |-> s, r |-> r, up |-> up, may |-> may]
Same(st, r) == R(st, r, {}, {})
Route == -1   \* (as a member of up and may; tracks are 0, 1, ..)

(* A new route made of tracks; its version is its own. *)
From(st, q) == R([st EXCEPT !.seq = q, !.name = 0, !.col = 0], <<1>>, {Route}, {})
AddTrack(st, x) == IF x < 0 THEN Same(st, <<1>>) ELSE R([st EXCEPT !.seq = Append(@, x)], <<1>>, {Route}, {})
RemoveTrack(id, st, i) ==
    LET p == Find(id, st, i) IN
    IF p = 0 THEN Same(st, <<0>>)
    ELSE R([st EXCEPT !.seq = SubSeq(@, 1, p - 1) \o SubSeq(@, p + 1, Len(@))], <<1>>, {Route}, {})
ById(id, st, i) == LET p == Find(id, st, i) IN R(st, <<IF p = 0 THEN -1 ELSE st.seq[p]>>, {}, {Route})
At(st, i) == Same(st, <<IF i >= 0 /\ i < Len(st.seq) THEN st.seq[i + 1] ELSE -1>>)
Each(st, k) == Same(st, IF k < 0 \/ k >= Len(st.seq) THEN st.seq ELSE SubSeq(st.seq, 1, k))
(* A name has 3 to 256 characters, a colour must exist. *)
NameOk(n) == n >= 3 /\ n <= 256
Rename(st, n) == IF NameOk(n) THEN R([st EXCEPT !.name = n], <<1>>, {Route}, {}) ELSE Same(st, <<0>>)
Recolour(st, c) == IF c > 0 THEN R([st EXCEPT !.col = c], <<1>>, {Route}, {}) ELSE Same(st, <<0>>)
RenameTrack(st, x, n) == IF NameOk(n) THEN R([st EXCEPT !.tn[x + 1] = n], <<1>>, {x}, {}) ELSE Same(st, <<0>>)
RecolourTrack(st, x, c) == IF c > 0 THEN R([st EXCEPT !.tc[x + 1] = c], <<1>>, {x}, {}) ELSE Same(st, <<0>>)

Do(id, st, name, a) ==
    CASE name = "from" -> From(st, a)
      [] name = "add"  -> AddTrack(st, a[1])
      [] name = "rem"  -> RemoveTrack(id, st, a[1])
      [] name = "byId" -> ById(id, st, a[1])
      [] name = "at"   -> At(st, a[1])
      [] name = "each" -> Each(st, a[1])
      [] name = "num"  -> Same(st, <<Len(st.seq)>>)
      [] name = "name" -> Rename(st, a[1])
      [] name = "col"  -> Recolour(st, a[1])
      [] name = "tname" -> RenameTrack(st, a[1], a[2])
      [] name = "tcol"  -> RecolourTrack(st, a[1], a[2])
      [] name = "look" -> Same(st, <<1>>)     \* snapshots, properties and other reads

-----------------------------------------------------------------------------
(* A track from n points; q gives, for points 1..n, equality classes: equal  *)
(* numbers are equal points.                                                 *)
TrackOk(n) == n >= 2
Closed(q) == Len(q) >= 3 /\ q[1] = q[Len(q)]
=============================================================================
