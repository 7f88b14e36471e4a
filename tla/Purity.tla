------------------------------ MODULE Purity ------------------------------
(***************************************************************************)
(* What a call may do to the world it runs in.  The world is what a caller *)
(* holds: problem objects, arrays, lists and earlier results (handles).    *)
(* A call reads its arguments and hands back one new handle.  Two rules:   *)
(*                                                                         *)
(*   Frame       no handle the caller holds has another value afterwards;  *)
(*   Repeatable  a call of the same routine with equal arguments, whoever  *)
(*               made it and whatever ran in between, had the same result. *)
(*                                                                         *)
(* PurityDesign shows what they buy: any interleaving of clients sharing   *)
(* handles gives each client what it would have got alone.  PurityTrace    *)
(* checks the two rules on recorded histories of the real code.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* `store` maps handles to values; `after` is what they are after the call.
Frame(store, after) == \A h \in 1..Len(store) : after[h] = store[h]
Touched(store, after) == { h \in 1..Len(store) : after[h] # store[h] }

\* `memo` holds every call so far: routine, argument values, result.
Key(name, args, store) == << name, [ i \in 1..Len(args) |-> store[args[i]] ] >>
Repeatable(memo, key, res, Same(_, _)) == \A k \in 1..Len(memo) : memo[k][1] = key => Same(memo[k][2], res)
=============================================================================
