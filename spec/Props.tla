------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* Property maps.  A map takes keys to typed values <<t, v>>; "n" is no     *)
(* value.  Types: s string, b boolean, f floating point, i j k the three    *)
(* whole-number types that read as one, o anything else.                    *)
(*                                                                          *)
(* Do(M, name, a) is the pair of the maps after the operation and its       *)
(* result.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

None == <<"n", 0>>
Empty(keys) == [k \in keys |-> None]
Reads(t) == IF t = "i" THEN {"i", "j", "k"} ELSE {t}

Get(m, k, t) == IF m[k][1] \in Reads(t) THEN <<1, m[k][2]>> ELSE <<0, 0>>
Size(m) == LET RECURSIVE N(_)
               N(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN (IF m[k] = None THEN 0 ELSE 1) + N(S \ {k})
           IN N(DOMAIN m)
Put(m, k, v) == [m EXCEPT ![k] = v]
Over(m, other) == [k \in DOMAIN m |-> IF other[k] = None THEN m[k] ELSE other[k]]

Types == <<"s", "b", "f", "i", "j", "k", "o">>
Readers == <<"s", "b", "f", "i">>

Do(M, name, a) ==
    CASE name = "set"   -> <<[M EXCEPT ![a[1]] = Put(@, a[2], <<Types[a[3]], a[4]>>)], <<>>>>
      [] name = "get"   -> <<M, Get(M[a[1]], a[2], Readers[a[3]])>>
      [] name = "rem"   -> <<[M EXCEPT ![a[1]] = Put(@, a[2], None)], <<>>>>
      [] name = "reset" -> <<[M EXCEPT ![a[1]] = Empty(DOMAIN @)], <<>>>>
      [] name = "merge" -> <<[M EXCEPT ![a[1]] = Over(@, M[a[2]])], <<>>>>
      [] name = "len"   -> <<M, <<Size(M[a[1]])>>>>
=============================================================================
