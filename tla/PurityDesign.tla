--------------------------- MODULE PurityDesign ---------------------------
(***************************************************************************)
(* Clients run programs of calls over shared handles (a problem and its    *)
(* data) and their own earlier results, in any interleaving.  What a       *)
(* routine computes is not known (any oracle table); some routines keep a  *)
(* workspace of their own between calls (as NLQT does with the linearised  *)
(* model, the condenser with its last problem).  A step is anything the    *)
(* rules of Purity allow.                                                  *)
(* Independent: each client has, at every time, exactly the results it     *)
(* would have got running alone on a fresh copy of the initial data.       *)
(***************************************************************************)
EXTENDS Purity, TLC, FiniteSets
CONSTANTS Clients, Vals, Names, MaxCalls, Seconds,
  Writer,   \* the routines with a workspace
  Stale     \* a wrong design, for comparison: the workspace is read before it is filled

VARIABLES oracle,   \* Names \X Vals \X Vals -> Vals: what each routine computes from two arguments
          init,     \* values of the two shared handles at the start
          store,    \* sequence of values: handles 1, 2 shared, then results in the order of the calls
          memo, own,   \* own[c]: the handles of client c's results
          prog,     \* prog[c]: the calls client c has made: <<name, a, b>>, a and b naming shared handles (1, 2) or its k-th result (2 + k)
          work      \* the workspace of each writer
vars == <<oracle, init, store, memo, own, prog, work>>

Init ==
  /\ oracle \in [Names \X Vals \X Vals -> Vals]
  /\ init \in Vals \X Vals
  /\ store = << init[1], init[2] >>
  /\ memo = << >>
  /\ own = [c \in Clients |-> << >>]
  /\ prog = [c \in Clients |-> << >>]
  /\ work = [n \in Writer |-> CHOOSE v \in Vals : TRUE]

\* the real handle behind a client's name for it
Real(c, a) == IF a <= 2 THEN a ELSE own[c][a - 2]

Call(c, n, a, b) ==
  /\ Len(prog[c]) < MaxCalls
  /\ a <= 2 + Len(own[c]) /\ b <= 2 + Len(own[c])
  /\ LET x == store[Real(c, a)] y == store[Real(c, b)]
         \* a writer first puts what it needs into its workspace, then computes from there
         filled == IF n \in Writer /\ ~ Stale THEN [work EXCEPT ![n] = x] ELSE work
         res == oracle[<<n, IF n \in Writer THEN filled[n] ELSE x, y>>]
         key == Key(n, << Real(c, a), Real(c, b) >>, store) IN
     /\ work' = IF n \in Writer THEN [work EXCEPT ![n] = x] ELSE work
     /\ store' = Append(store, res)
     /\ Assert(Frame(store, store'), "frame")
     /\ Assert(Repeatable(memo, key, res, LAMBDA p, q : p = q), "repeatable")
     /\ memo' = Append(memo, << key, res >>)
     /\ own' = [own EXCEPT ![c] = Append(@, Len(store) + 1)]
     /\ prog' = [prog EXCEPT ![c] = Append(@, << n, a, b >>)]
  /\ UNCHANGED <<oracle, init>>

Next == \E c \in Clients, n \in Names, a \in 1..(1 + MaxCalls), b \in Seconds : Call(c, n, a, b)
Spec == Init /\ [][Next]_vars

\* What the program of a client gives when it runs alone.
RECURSIVE Alone(_, _)
Alone(p, k) ==
  LET val(a) == IF a <= 2 THEN init[a] ELSE Alone(p, a - 2) IN
  oracle[<< p[k][1], val(p[k][2]), val(p[k][3]) >>]

Independent == \A c \in Clients : \A k \in 1..Len(own[c]) : store[own[c][k]] = Alone(prog[c], k)
DataKept == store[1] = init[1] /\ store[2] = init[2]
\* a result, once handed out, never changes
ResultsKept == [][\A h \in 1..Len(store) : store'[h] = store[h]]_vars
=============================================================================
