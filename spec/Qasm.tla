------------------------------- MODULE Qasm -------------------------------
(***************************************************************************)
(* The QASM dialect: a document is a sequence of lines, each a record of    *)
(* what the author means and how it is written down.  Text(doc) is what is  *)
(* handed to the library; Meaning(doc) is what the library must make of it. *)
(*                                                                         *)
(*  [k |-> "note",  t]                     a comment or blank line          *)
(*  [k |-> "size",  kw, n]                 .qubit / .qutrit / .qudit n      *)
(*  [k |-> "decl",  kind, i, d, ind, cm]   one register                     *)
(*  [k |-> "begin"], [k |-> "end"]                                          *)
(*  [k |-> "gate",  g, w, qs, px, p, sep, ind, cm]                          *)
(*       g    X RX H Z CX Toffoli        w    the word written              *)
(*       qs   register numbers           px   what precedes them: x, X or   *)
(*       p    <<>> or <<increment>>           nothing                       *)
(*       sep  between operands           ind, cm  indentation, comment      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Join(parts, sep) ==
  IF parts = <<>> THEN ""
  ELSE FoldLeft(LAMBDA acc, s : acc \o sep \o s, parts[1], Tail(parts))

LineText(l) ==
  CASE l.k = "note"  -> l.t
    [] l.k = "size"  -> "." \o l.kw \o " " \o ToString(l.n)
    [] l.k = "decl"  -> l.ind \o l.kind \o " x" \o ToString(l.i)
                        \o (IF l.kind = "qudit" THEN " (" \o ToString(l.d) \o ")" ELSE "") \o l.cm
    [] l.k = "begin" -> ".begin"
    [] l.k = "end"   -> ".end"
    [] l.k = "gate"  ->
         l.ind \o l.w \o " "
         \o Join([i \in 1..Len(l.qs) |-> l.px[i] \o ToString(l.qs[i])], l.sep)
         \o (IF l.g = "RX" THEN l.sep \o "180" ELSE "")
         \o (IF l.p = <<>> THEN "" ELSE l.sep \o ToString(l.p[1])) \o l.cm

Text(doc) == Join([i \in 1..Len(doc) |-> LineText(doc[i])], "\n")

DeclDim(l) == CASE l.kind = "qubit" -> 2 [] l.kind = "qutrit" -> 3 [] OTHER -> l.d

Decls(doc) == SelectSeq(doc, LAMBDA l : l.k = "decl")
Gates(doc) == SelectSeq(doc, LAMBDA l : l.k = "gate")

(* registers that are the middle of a Toffoli *)
Middles(doc) == {l.qs[2] : l \in {l \in Range(Gates(doc)) : l.g = "Toffoli"}}

QasmDims(doc) ==
  [i \in 1..Len(Decls(doc)) |->
     DeclDim(Decls(doc)[i]) + IF (i - 1) \in Middles(doc) THEN 1 ELSE 0]

Incr(l) == IF l.p = <<>> THEN 1 ELSE l.p[1]

(* the placement a gate line asks for *)
QasmCall(c, l) ==
  CASE l.g \in {"X", "RX"} -> [e |-> "x", c |-> c, q |-> l.qs[1], p |-> Incr(l), d |-> 0]
    [] l.g = "H" -> [e |-> "h", c |-> c, q |-> l.qs[1], d |-> 0]
    [] l.g = "Z" -> [e |-> "z", c |-> c, q |-> l.qs[1], d |-> 0]
    [] l.g = "CX" -> [e |-> "cx", c |-> c, ct |-> l.qs, p |-> Incr(l), d |-> 0, ref |-> ""]
    [] l.g = "Toffoli" -> [e |-> "tof", c |-> c, cs |-> <<l.qs[1], l.qs[2]>>, t |-> l.qs[3], p |-> 1, d |-> 0, ref |-> ""]

(* the calls that build the circuit by hand *)
Meaning(doc, c, n) ==
  <<[e |-> "new", c |-> c, form |-> "list", q |-> QasmDims(doc), qr |-> "", init |-> <<>>, ir |-> "",
     n |-> n, out |-> [t |-> "print", m |-> "amp", o |-> "own"]]>>
  \o [i \in 1..Len(Gates(doc)) |-> QasmCall(c, Gates(doc)[i])]
  \o <<[e |-> "meas", c |-> c]>>
=============================================================================
