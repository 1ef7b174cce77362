-------------------------------- MODULE Pure --------------------------------
(* Structures that are only queried.  There is no state but the contents: a query of a structure has
   one answer, fixed from the first time it is asked, and neither the order of queries, nor who asks (any
   number of threads at the same time, on the structure itself or a copy), nor other structures, alive or
   gone, wherever in memory they are or were, nor a query outside the contract, which may fail in any
   way, changes it.  Therefore the queries of several threads commute, and a log per thread determines
   whether the whole history is possible. *)
EXTENDS Base
VARIABLE ans               \* per structure: answer of each query, as far as known: << >> before the first log
PInit == ans = << << >>, << >> >>
(* somebody asked structure o the queries qs and got rs *)
Ask(o, qs, rs) ==
  IF ans[o] = << >>
  THEN (* the first log asks everything once *)
       /\ qs = [k \in 1..Len(rs) |-> k - 1]
       /\ \A k \in 1..Len(rs) : rs[k] # Panic          \* they are all within the contract
       /\ ans' = [ans EXCEPT ![o] = rs]
  ELSE /\ \A k \in 1..Len(qs) : rs[k] = ans[o][qs[k] + 1]
       /\ UNCHANGED ans
(* somebody asked in turns structures os[k] the queries qs[k] and got rs[k] *)
AskBoth(os, qs, rs) ==
  /\ \A k \in 1..Len(qs) : rs[k] = ans[os[k]][qs[k] + 1]
  /\ UNCHANGED ans
(* the compiler's verdict on sharing a structure between threads and handing it over *)
Shareable(sync, send) == sync /\ send /\ UNCHANGED ans
=============================================================================
