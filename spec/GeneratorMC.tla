---------------------------- MODULE GeneratorMC ----------------------------
(***************************************************************************)
(* Exhaustive exploration of Generator for a few trackers.  The explored    *)
(* transitions are also printed (Edges) and become control sequences that   *)
(* are replayed on the code.                                                *)
(***************************************************************************)
EXTENDS Generator, TLC, TLCExt

CONSTANTS Trackers, Size,
          CbP, CbN, CbE,   \* which callbacks are set
          Ops,             \* enabled operations
          MaxTicks, MaxOps,
          Whole,           \* packets hold all that is left to report
          PrintEdges

VARIABLES g,
          started,         \* the run call was made
          seen,            \* trackers reported in this tick
          ticks, nexts, used,
          op               \* the last action: <<name, arguments>>

vars == <<g, started, seen, ticks, nexts, used, op>>
look == <<g, started>>
view == <<g, started, seen, ticks, nexts, used>>

Init == g = G0 /\ started = FALSE /\ seen = {} /\ ticks = 0 /\ nexts = 0 /\ used = 0 /\ op = <<"init", <<>>>>

Act(name, args) == op' = <<name, args>>
Use == used < MaxOps /\ used' = used + 1
Keep == UNCHANGED <<started, seen, ticks, nexts>>
Has(o) == o \in Ops

UserNext ==
    \/ \E x \in Trackers :
         \/ Has("att") /\ Use /\ g' = Attach(g, x)[1] /\ Act("att", <<x>>) /\ Keep
         \/ Has("det") /\ Use /\ g' = Detach(g, x)[1] /\ Act("det", <<x>>) /\ Keep
         \/ Has("bad") /\ Use /\ x \notin g.bad /\ g' = SetBad(g, x, TRUE) /\ Act("bad", <<x>>) /\ Keep
         \/ Has("bad") /\ Use /\ x \in g.bad /\ g' = SetBad(g, x, FALSE) /\ Act("good", <<x>>) /\ Keep
    \/ ~started /\ started' = TRUE /\ Act("run", <<>>) /\ UNCHANGED <<g, seen, ticks, nexts, used>>
    \/ Has("close") /\ ~g.ret /\ Use /\ g' = Close(g) /\ Act("close", <<>>) /\ Keep

TickStart == /\ started /\ ~g.cl /\ ticks < MaxTicks /\ g' \in TickBegin(g) /\ seen' = {} /\ ticks' = ticks + 1
             /\ Act("tick", <<>>) /\ UNCHANGED <<started, nexts, used>>
Taken == g' \in TickTaken(g) /\ Act("taken", <<>>) /\ UNCHANGED <<used>> /\ Keep
Packets == {SubSeq(g.cur, i, j) : i \in 1..Len(g.cur), j \in 1..Len(g.cur)}
PktBegin == /\ CbP /\ ~g.ret
            /\ \E q \in Packets :
                 /\ Whole => \E s \in g.todo : q = SubSeq(g.cur, s[1], s[2])
                 /\ q # <<>> /\ g' \in PacketBegin(g, q, Size) /\ seen' = seen \cup Elems(q)
            /\ Act("pB", <<>>) /\ UNCHANGED <<started, ticks, nexts, used>>
(* Only callbacks that began can end; which of them is not told apart in g. *)
PktEnd == CbP /\ g' \in PacketEnd(g) /\ Act("pE", <<>>) /\ UNCHANGED <<used>> /\ Keep
ErrBegin == CbE /\ g' \in ErrorBegin(g) /\ Act("eB", <<>>) /\ UNCHANGED <<used>> /\ Keep
ErrEnd == CbE /\ g' \in ErrorEnd(g) /\ Act("eE", <<>>) /\ UNCHANGED <<used>> /\ Keep
TickStop == g' \in TickEnd(g, CbP, CbE) /\ Act("done", <<>>) /\ UNCHANGED <<used>> /\ Keep
Cut == g' \in TickCut(g) /\ Act("cut", <<>>) /\ UNCHANGED <<used>> /\ Keep
NxtBegin == CbN /\ g' \in NextBegin(g) /\ nexts' = nexts + 1 /\ Act("nB", <<>>) /\ UNCHANGED <<started, seen, ticks, used>>
NxtEnd == CbN /\ g' \in NextEnd(g) /\ Act("nE", <<>>) /\ UNCHANGED <<used>> /\ Keep
Ret == started /\ g' \in Return(g) /\ Act("ret", <<>>) /\ UNCHANGED <<used>> /\ Keep

SysNext == TickStart \/ Taken \/ PktBegin \/ PktEnd \/ ErrBegin \/ ErrEnd \/ TickStop \/ Cut \/ NxtBegin \/ NxtEnd \/ Ret
Next == UserNext \/ SysNext
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Taken) /\ WF_vars(PktBegin) /\ WF_vars(PktEnd) /\ WF_vars(ErrBegin) /\ WF_vars(ErrEnd)
            /\ WF_vars(TickStop) /\ WF_vars(Cut) /\ WF_vars(NxtEnd) /\ WF_vars(Ret)

Edges == PrintEdges => PrintT(<<"EDGE", op[1], TLCFP(look), op', "x", TLCFP(look')>>)

-----------------------------------------------------------------------------
(* C14: within a tick nobody is reported twice, and at its end everybody was, in the absence of
   trackers that cannot be encoded. *)
MayInTodo == g.run # "no" => (g.must \subseteq g.may /\ \A m \in g.may : \E s \in g.todo : s[1] <= m /\ m <= s[2])
TodoIsRest == g.run # "no" => Missing(g) = Elems(g.cur) \ seen
NoOverlap == \A s, t \in g.todo : s # t => s[2] < t[1] \/ t[2] < s[1]
AllReported == [][(op'[1] = "done" /\ CbP /\ g.may = {}) => seen = Elems(g.cur)]_vars
BadUnreported == (g.run = "send") => {g.cur[m] : m \in g.must} \cap seen = {}
OrderKept == [][Len(g'.att) >= Len(g.att) => SubSeq(g'.att, 1, Len(g.att)) = g.att]_vars
NoDuplicates == \A i, j \in 1..Len(g.att) : i # j => g.att[i] # g.att[j]
TickFixed == [][(g.run # "no" /\ g'.run # "no") => g'.cur = g.cur]_vars

(* C21 *)
NextBound == nexts <= ticks
NextAfterPackets == [][g'.np > g.np => g.act = 0]_vars
NextAtMostOne == [][(g.nr /\ g'.nr) => g'.np <= 1]_vars

(* C22: a failed packet is told exactly once. *)
ErrorsMatch == [][(op'[1] = "done" /\ CbE) => (g.errs > 0) = (seen # Elems(g.cur)) \/ ~CbP]_vars

(* C16 *)
SilentAfter == [][g.ret => (g'.act <= g.act /\ (g'.nr => g.nr) /\ g'.ret /\ g'.act = 0)]_vars
Closes == (g.cl /\ started) ~> g.ret
TickEnds == (g.run # "no") ~> (g.run = "no" \/ ~started)
=============================================================================
