--------------------------- MODULE GeneratorImpl ---------------------------
(***************************************************************************)
(* How the code does it: the goroutines of generator.go with their          *)
(* channels, between the points at which another goroutine can notice.      *)
(* Every behaviour of this design is one Generator allows (Refines), all    *)
(* its goroutines end after closing (Closes), and none of them blocks for   *)
(* ever (ticks end, TickEnds).                                              *)
(*                                                                          *)
(*   runner   select -> take -> fill <-> send -> wait -> reset -> select    *)
(*   workers  idle -> got -> enc -> cb -> post -> reply -> idle             *)
(*   stepper  idle -> got -> cb -> idle                                     *)
(***************************************************************************)
EXTENDS Generator, TLC

CONSTANTS Trackers, Size, W,        \* packet size, number of workers
          CbP, CbN, CbE, MaxTicks, MaxOps, Ops

VARIABLES att, bad, closed, ret, started,
          rpc, cur, states, i, index, packet, left, then,   \* the runner
          ch, wch, nch,                                     \* slices, replies, step notification
          wpc, sl, got,                                     \* the workers
          spc,                                              \* the stepper
          ticks, used,
          aux                                               \* what only the abstract state has
user == <<att, bad, closed>>
runner == <<rpc, cur, states, i, index, packet, left, then, ticks>>
chans == <<ch, wch, nch>>
workers == <<wpc, sl, got>>
vars == <<att, bad, closed, ret, started, rpc, cur, states, i, index, packet, left, then, ch, wch, nch, wpc, sl, got, spc, ticks, used, aux>>

None == <<-1, FALSE>>
Workers == 1..W
Init == /\ att = <<>> /\ bad = {} /\ closed = FALSE /\ ret = FALSE /\ started = FALSE
        /\ rpc = "select" /\ cur = <<>> /\ states = <<>> /\ i = 1 /\ index = 0
        /\ packet = [k \in 1..Size |-> None] /\ left = <<>> /\ then = "fill"
        /\ ch = <<>> /\ wch = 0 /\ nch = 0
        /\ wpc = [w \in Workers |-> "idle"] /\ sl = [w \in Workers |-> <<0, 0>>] /\ got = [w \in Workers |-> <<>>]
        /\ spc = "idle" /\ ticks = 0 /\ used = 0
        /\ aux = [run |-> "no", rep |-> {}, may |-> {}, must |-> {}, errs |-> 0, np |-> 0]

-----------------------------------------------------------------------------
(* The user. *)
Use == used < MaxOps /\ used' = used + 1 /\ ~ret /\ UNCHANGED <<ret, runner, chans, workers, spc>>
UserNext ==
    \/ \E x \in Trackers :
         \/ "att" \in Ops /\ Use /\ rpc # "take" /\ x \notin Elems(att) /\ att' = Append(att, x) /\ UNCHANGED <<bad, closed, started, aux>>
         \/ "det" \in Ops /\ Use /\ rpc # "take" /\ x \in Elems(att) /\ att' = Without(att, Pos(att, x)) /\ UNCHANGED <<bad, closed, started, aux>>
         \/ /\ "bad" \in Ops /\ Use /\ bad' = (IF x \in bad THEN bad \ {x} ELSE bad \cup {x})
            /\ aux' = IF aux.run = "take" /\ x \in Elems(cur) THEN [aux EXCEPT !.may = @ \cup {x}, !.must = @ \ {x}] ELSE aux
            /\ UNCHANGED <<att, closed, started>>
    \/ "close" \in Ops /\ Use /\ ~closed /\ closed' = TRUE /\ UNCHANGED <<att, bad, started, aux>>
    \/ ~started /\ started' = TRUE /\ UNCHANGED <<user, ret, runner, chans, workers, spc, used, aux>>

-----------------------------------------------------------------------------
(* The runner. *)
RKeep == UNCHANGED <<user, ret, started, workers, spc, used>>
REnd == /\ closed /\ rpc \in {"select", "send", "wait"} /\ rpc' = "end"
        /\ UNCHANGED <<cur, states, i, index, packet, left, then, ticks, chans, aux>>
RTick == /\ rpc = "select" /\ ~closed /\ ticks < MaxTicks /\ ticks' = ticks + 1
         /\ rpc' = "take" /\ cur' = att /\ states' = <<>> /\ i' = 1
         /\ aux' = [aux EXCEPT !.run = "take", !.rep = {}, !.errs = 0, !.may = bad \cap Elems(att), !.must = bad \cap Elems(att)]
         /\ UNCHANGED <<index, packet, left, then, chans>>
RTake == /\ rpc = "take"
         /\ IF Len(states) < Len(cur)
              THEN /\ states' = LET x == cur[Len(states) + 1] IN Append(states, <<x, x \in bad>>)
                   /\ UNCHANGED <<rpc, index, aux>>
              ELSE rpc' = "fill" /\ index' = 0 /\ aux' = [aux EXCEPT !.run = "send"] /\ UNCHANGED states
         /\ UNCHANGED <<cur, i, packet, left, then, ticks, chans>>
Slices(n) == IF n <= W + Size \div W THEN << <<0, n>> >>
             ELSE LET step == n \div W IN
                  [k \in 1..W |-> <<(k - 1) * step, IF k = W THEN n ELSE k * step>>]
RFill == /\ rpc = "fill"
         /\ IF i <= Len(states)
              THEN /\ packet' = [packet EXCEPT ![index + 1] = states[i]] /\ index' = index + 1 /\ i' = i + 1
                   /\ IF index + 1 = Size THEN rpc' = "send" /\ left' = Slices(Size) /\ then' = "fill"
                      ELSE UNCHANGED <<rpc, left, then>>
              ELSE rpc' = "send" /\ left' = Slices(index) /\ then' = "reset" /\ UNCHANGED <<packet, index, i>>
         /\ UNCHANGED <<cur, states, ticks, chans, aux>>
RSend == /\ rpc = "send" /\ left # <<>> /\ Len(ch) < W
         /\ ch' = Append(ch, Head(left))
         /\ left' = (IF Len(left) = 1 THEN [k \in 1..(IF Head(left) = <<0, index>> THEN 1 ELSE W) |-> <<0, 0>>] ELSE Tail(left))
         /\ rpc' = (IF Len(left) = 1 THEN "wait" ELSE "send")
         /\ UNCHANGED <<cur, states, i, index, packet, then, ticks, wch, nch, aux>>
(* left holds one entry for each reply expected *)
RWait == /\ rpc = "wait" /\ wch > 0 /\ wch' = wch - 1 /\ left' = Tail(left)
         /\ IF Len(left) = 1 THEN rpc' = then /\ index' = (IF then = "fill" THEN 0 ELSE index) ELSE UNCHANGED <<rpc, index>>
         /\ UNCHANGED <<cur, states, i, packet, then, ticks, ch, nch, aux>>
RReset == /\ rpc = "reset" /\ packet' = [k \in 1..Size |-> None] /\ rpc' = "notify"
          /\ UNCHANGED <<cur, states, i, index, left, then, ticks, chans, aux>>
RNotify == /\ rpc = "notify" /\ nch' = 1 /\ rpc' = "select"
           /\ aux' = [aux EXCEPT !.run = "no", !.np = IF spc = "cb" THEN 1 ELSE IF @ < 2 THEN @ + 1 ELSE 2]
           /\ UNCHANGED <<cur, states, i, index, packet, left, then, ticks, ch, wch>>
Runner == started /\ RKeep /\ (REnd \/ RTick \/ RTake \/ RFill \/ RSend \/ RWait \/ RReset \/ RNotify)

-----------------------------------------------------------------------------
(* A worker. *)
WKeep == UNCHANGED <<user, ret, started, runner, nch, spc, used>>
Goto(w, p) == wpc' = [wpc EXCEPT ![w] = p]
WEnd(w) == wpc[w] \in {"idle", "got", "post"} /\ closed /\ Goto(w, "end") /\ UNCHANGED <<ch, wch, sl, got, aux>>
WRecv(w) == /\ wpc[w] = "idle" /\ ch # <<>> /\ ch' = Tail(ch) /\ sl' = [sl EXCEPT ![w] = Head(ch)] /\ Goto(w, "got")
            /\ UNCHANGED <<wch, got, aux>>
WCheck(w) == /\ wpc[w] = "got" /\ ~closed /\ Goto(w, IF sl[w] = <<0, 0>> THEN "reply" ELSE "enc") /\ UNCHANGED <<ch, wch, sl, got, aux>>
WEnc(w) == /\ wpc[w] = "enc"
           /\ LET q == SubSeq(packet, sl[w][1] + 1, sl[w][2])
                  fails == \E k \in 1..Len(q) : q[k][2]
              IN /\ got' = [got EXCEPT ![w] = q]
                 /\ Goto(w, IF fails THEN (IF CbE THEN "cb" ELSE "post") ELSE (IF CbP THEN "cb" ELSE "post"))
                 /\ aux' = (IF fails THEN (IF CbE THEN [aux EXCEPT !.errs = @ + 1] ELSE aux)
                            ELSE IF CbP THEN [aux EXCEPT !.rep = @ \cup {Pos(cur, q[k][1]) : k \in 1..Len(q)}] ELSE aux)
           /\ UNCHANGED <<ch, wch, sl>>
WBack(w) == wpc[w] = "cb" /\ Goto(w, "post") /\ UNCHANGED <<ch, wch, sl, got, aux>>
WPost(w) == wpc[w] = "post" /\ ~closed /\ Goto(w, "reply") /\ UNCHANGED <<ch, wch, sl, got, aux>>
WReply(w) == wpc[w] = "reply" /\ wch < W /\ wch' = wch + 1 /\ Goto(w, "idle") /\ UNCHANGED <<ch, sl, got, aux>>
Worker(w) == started /\ WKeep /\ (WEnd(w) \/ WRecv(w) \/ WCheck(w) \/ WEnc(w) \/ WBack(w) \/ WPost(w) \/ WReply(w))

-----------------------------------------------------------------------------
(* The stepper. *)
Stepper == /\ started /\ UNCHANGED <<user, ret, started, runner, workers, ch, wch, used>>
           /\ \/ spc \in {"idle", "got"} /\ closed /\ spc' = "end" /\ UNCHANGED <<nch, aux>>
              \/ spc = "idle" /\ nch = 1 /\ nch' = 0 /\ spc' = "got" /\ UNCHANGED aux
              \/ spc = "got" /\ ~closed /\ UNCHANGED nch
                 /\ IF CbN THEN spc' = "cb" /\ aux' = [aux EXCEPT !.np = @ - 1] ELSE spc' = "idle" /\ UNCHANGED aux
              \/ spc = "cb" /\ spc' = "idle" /\ UNCHANGED <<nch, aux>>
Return1 == /\ started /\ ~ret /\ rpc = "end" /\ spc = "end" /\ \A w \in Workers : wpc[w] = "end"
           /\ ret' = TRUE /\ UNCHANGED <<user, started, runner, chans, workers, spc, used, aux>>

Next == UserNext \/ Runner \/ (\E w \in Workers : Worker(w)) \/ Stepper \/ Return1
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Runner) /\ (\A w \in Workers : WF_vars(Worker(w))) /\ WF_vars(Stepper) /\ WF_vars(Return1)

-----------------------------------------------------------------------------
(* The state of Generator. *)
Rest == IF aux.run = "no" THEN {} ELSE 1..Len(cur) \ aux.rep
Stretches(S) == {p \in S \X S : p[1] <= p[2] /\ (\A k \in p[1]..p[2] : k \in S) /\ p[1] - 1 \notin S /\ p[2] + 1 \notin S}
InTick(v) == IF aux.run = "no" THEN {} ELSE v
Places(S) == {Pos(cur, x) : x \in S}
Abs == [att |-> att, bad |-> bad, run |-> aux.run, cur |-> IF aux.run = "no" THEN <<>> ELSE cur, todo |-> Stretches(Rest),
        may |-> InTick(Places(aux.may)) \ aux.rep, must |-> InTick(Places(aux.must)), act |-> Cardinality({w \in Workers : wpc[w] = "cb"}),
        errs |-> aux.errs, np |-> aux.np, nr |-> spc = "cb", cl |-> closed, ret |-> ret]

Stretch(q) == {SubSeq(q, a, b) : a \in 1..Len(q), b \in 1..Len(q)}
Allowed(g, h) ==
    \/ h = g
    \/ \E x \in Trackers : h \in {Attach(g, x)[1], Detach(g, x)[1], SetBad(g, x, TRUE), SetBad(g, x, FALSE)}
    \/ h \in TickBegin(g) \cup TickTaken(g) \cup TickEnd(g, CbP, CbE) \cup {Close(g)} \cup Return(g)
    \/ CbP /\ \E q \in Stretch(g.cur) : h \in PacketBegin(g, q, Size)
    \/ CbE /\ h \in ErrorBegin(g)
    \/ h \in PacketEnd(g)
    \/ CbN /\ h \in NextBegin(g) \cup NextEnd(g)
Refines == [][Allowed(Abs, Abs')]_vars

(* No packet with blank trackers, no more notifications than Generator counts, room for every reply. *)
NoBlank == \A w \in Workers : \A k \in 1..Len(got[w]) : got[w][k] # None
Notified == nch + (IF spc = "got" THEN 1 ELSE 0) <= aux.np
NoBlockedReply == \A w \in Workers : wpc[w] = "reply" => wch < W
Gone == ret => (rpc = "end" /\ spc = "end" /\ \A w \in Workers : wpc[w] = "end")
Closes == (closed /\ started) ~> ret
TickEnds == (aux.run # "no") ~> (aux.run = "no" \/ closed)
=============================================================================
