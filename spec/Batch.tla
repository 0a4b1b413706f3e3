------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* The batch runner over a directory tree.                                  *)
(*                                                                         *)
(* State   files : <<stem, ext>> -> content      stem includes directories  *)
(*         recs  : <<stem, backend>> -> record                              *)
(*         any   : the <<stem, backend>> about which nothing is said: left  *)
(*                 over from before the file was broken                     *)
(*                                                                         *)
(* A content is a QASM document [doc, n], or junk (doc = <<>>, n = 0).      *)
(***************************************************************************)
EXTENDS QuDiet

Nothing == [files |-> [x \in {} |-> 0], recs |-> [x \in {} |-> 0], any |-> {}]
Drop(f, ks) == [x \in (DOMAIN f) \ ks |-> f[x]]

(* what parsing and running a content directly gives *)
Direct(content) ==
  IF content.n = 0 THEN [ok |-> FALSE]
  ELSE LET p == DoQasm([EmptyState EXCEPT !.doc = content.doc], [c |-> "a", n |-> content.n])
       IN IF p.o.r = "E" THEN [ok |-> FALSE]
          ELSE LET r == DoRun(p.st.circs["a"])
               IN IF r.r = "E" THEN [ok |-> FALSE]
                  ELSE [ok |-> TRUE, value |-> r, config |-> DoConfig(p.st.circs["a"])]

(* one run of the script: every file of the kind, whatever happens to others *)
Batch(st, mode, b) ==
  LET mine == {f \in DOMAIN st.files : f[2] = mode}
      out  == TLCEval([f \in mine |-> Direct(st.files[f])])
      good == {f \in mine : out[f].ok}
      bad  == mine \ good
      keys == {<<f[1], b>> : f \in good}
      lost == {<<f[1], b>> : f \in bad} \cap (DOMAIN st.recs \cup st.any)
      new  == [k \in keys |-> out[<<k[1], mode>>]]
      recs == [k \in ((DOMAIN st.recs) \cup keys) \ lost |-> IF k \in keys THEN new[k] ELSE st.recs[k]]
  IN [st |-> [st EXCEPT !.recs = recs, !.any = (@ \cup lost) \ keys],
      good |-> {f[1] : f \in good}, bad |-> {f[1] : f \in bad}]

Records(st) ==
  LET ks == SetToSeq(DOMAIN st.recs)
  IN [i \in 1..Len(ks) |-> [stem |-> ks[i][1], b |-> ks[i][2], value |-> st.recs[ks[i]].value,
                            width |-> st.recs[ks[i]].config.width, depth |-> st.recs[ks[i]].config.depth]]

Act(st, ev) ==
  CASE ev.e = "write" ->
         [st |-> [st EXCEPT !.files = Put(@, <<ev.stem, ev.ext>>, [doc |-> ev.doc, n |-> ev.n])],
          o |-> [r |-> "W", text |-> IF ev.n = 0 THEN "" ELSE Text(ev.doc)]]
    [] ev.e = "del" ->
         [st |-> [st EXCEPT !.files = Drop(@, {<<ev.stem, ev.ext>>})], o |-> [r |-> "N"]]
    [] ev.e = "batch" ->
         LET x == Batch(st, ev.m, ev.b)
         IN [st |-> x.st,
             o |-> [r |-> "R", good |-> SetToSeq(x.good), bad |-> SetToSeq(x.bad), recs |-> Records(x.st),
                    any |-> SetToSeq(x.st.any)]]
    [] ev.e = "records" -> [st |-> st, o |-> [r |-> "S", recs |-> Records(st), any |-> SetToSeq(st.any)]]

-----------------------------------------------------------------------------
BatchInv(st) == DOMAIN st.recs \cap st.any = {}
=============================================================================
