------------------------------- MODULE Trees --------------------------------
(***************************************************************************)
(* Trees of commands put together by hand.  They may have what no template *)
(* text can say: marks on any command, separators between the parts of a   *)
(* sequence, and bounds in either order or below zero.                     *)
(***************************************************************************)
EXTENDS Semantics
RECURSIVE Norm(_)
Norm(e) ==
    CASE e.t = "seq" -> [e EXCEPT !.xs = [i \in 1..Len(e.xs) |-> Norm(e.xs[i])]]
      [] e.t = "var" -> [e EXCEPT !.lo = Max2(0, Min2(e.lo, e.hi)), !.hi = Max2(e.lo, e.hi),
                                  !.opts = [i \in 1..Len(e.opts) |-> [e.opts[i] EXCEPT !.v = Norm(@)]]]
      [] e.t = "wrap" -> [e EXCEPT !.w = Norm(@), !.i = Norm(@)]
      [] e.t = "set" -> [e EXCEPT !.v = Norm(@)]
      [] e.t = "get" -> IF e.d.t = "none" THEN e ELSE [e EXCEPT !.d = Norm(@)]
      [] e.t = "wc" -> [e EXCEPT !.path = Norm(@), !.vars = [i \in 1..Len(e.vars) |-> [e.vars[i] EXCEPT !.v = Norm(@)]]]
      [] OTHER -> e
=============================================================================
