------------------------------- MODULE MC_C25 -------------------------------
(* Two threads, three calls each, in every overlap: building, closing and    *)
(* running circuits of their own, from shared lists, an output object and a  *)
(* document; or looking at a measured circuit they share.                   *)
EXTENDS Overlap, Events
CONSTANTS Bound
Shared == [t |-> "print", m |-> "amp", o |-> "O1"]
New(c) == [NewO(c, <<2, 3>>, <<1, 2>>, 6, Shared) EXCEPT !.qr = "dims", !.ir = "init"]
Lists == <<ListE("dims", <<2, 3>>), ListE("init", <<1, 2>>), ListE("regs", <<0, 1>>), ListE("ctl", <<0>>)>>
Doc == <<LineE(NoteL("# read twice")), LineE(SizeL("qubit", 2)), LineE(DeclL("qutrit", 0, 3)), LineE(DeclL("qudit", 1, 4)), LineE(BeginL),
         LineE(GateL("H", "H", <<0>>, <<>>)), LineE(GateL("CX", "CX", <<0, 1>>, <<2>>)), LineE(EndL)>>
Ready(c) == <<NewE(c, <<3, 2>>, <<2, 1>>, 6), HE(c, 0), CXE(c, <<0, 1>>, 1)>>
Cut(s) == SubSeq(s, 1, Bound)
(* what a thread does with circuit c *)
Work(c) ==
  {Cut(<<New(c), HE(c, 1), WithRef(CXE(c, <<>>, 1), "regs")>>),
   Cut(<<WithRef(TofE(c, <<>>, 1, 2), "ctl"), MeasE(c), RunE(c)>>),
   Cut(<<RunE(c), InfoE(c), StrE(c)>>),
   Cut(<<UI(c, 1, Reflect3), ZE(c, 1), PeekE(c)>>)}
Before(c, w) ==
  IF w[1].e = "new" THEN <<>>
  ELSE <<New(c), HE(c, 1)>> \o (IF w[1].e = "run" THEN <<XE(c, 0, 1), MeasE(c)>> ELSE <<>>)
After(c) == <<MeasE(c), RunE(c), InfoE(c), PeekE(c), LastE(c)>>
Own == {[start |-> Lists \o Before("a", x) \o Before("b", y), th |-> <<x, y>>, close |-> After("a") \o After("b")] :
        x \in Work("a"), y \in Work("b")}
(* both look at, and run, the same measured circuit *)
Same == {[start |-> Lists \o Ready("a") \o <<MeasE("a")>>, th |-> <<x, y>>, close |-> After("a")] :
         x \in {Cut(<<RunE("a"), StrE("a"), RunE("a")>>)},
         y \in {Cut(<<RunE("a"), RunE("a"), InfoE("a")>>), Cut(<<PeekE("a"), InfoE("a"), RunE("a")>>)}}
(* both read the same document *)
Read == {[start |-> Doc, th |-> <<Cut(<<QasmE("a", 12, "default", "text"), RunE("a"), InfoE("a")>>), Cut(<<QasmE("b", 12, "default", "text"), RunE("b"), StrE("b")>>)>>,
          close |-> After("a") \o After("b")]}
P == Own \cup Same \cup Read
=============================================================================
