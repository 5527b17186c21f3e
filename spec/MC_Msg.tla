------------------------------- MODULE MC_Msg -------------------------------
(***************************************************************************)
(* C07, C14, C21, C22: what is handed out and reported after every parse   *)
(* of MC_Parse.                                                            *)
(***************************************************************************)
EXTENDS MC_Parse, Format
Ready == P.pc = "done"
\* a text that was handed out is the end of a word of the command line, starting where it says
Refers(x) == x = NoStr \/ (x.w[1] = 1 /\ x.w[2] + 1 \in 1..(Len(ws) + 1) /\ x.b = From(Argv(tb, ws)[x.w[2] + 1], x.w[3]))
HandedOut == Ready =>
  /\ \A i \in 1..Len(P.t.ent) : \A j \in 1..Len(P.t.val[i]) :
       CASE P.t.ent[i].k \in {"s", "r"} -> Refers(P.t.val[i][j])
         [] P.t.ent[i].k = "f" -> \A m \in 1..3 : Refers(P.t.val[i][j][m])
         [] OTHER -> TRUE
  /\ \A j \in 1..Len(P.t.errs) : P.t.errs[j].a = <<>> \/ Refers(P.t.errs[j].a[1])
\* C22: the slots beyond the count hold empty strings; values are whole words or what follows the option in its word
Empty == Ready =>
  \A i \in 1..Len(P.t.ent) : \A j \in 1..Len(P.t.val[i]) :
     P.t.ent[i].k = "s" /\ j > P.t.cnt[i] => P.t.val[i][j] = NoStr
Flags == Ready =>
  \A i \in 1..Len(P.t.ent) :
     P.t.ent[i].k = "l" /\ P.t.errs = <<>> /\ P.t.ent[i].mx = 9 /\ tb = 2 =>
       P.t.cnt[i] = Cardinality({k \in 1..Len(ws) : P.use[k + 1] = "opt" /\ \E r \in {Call(P.o, Start(<<[k |-> 0, s |-> <<>>], [k |-> 1, s |-> Argv(tb, ws)[k + 1]]>>))} : r.what = "long" /\ r.v = i - 1})
\* C14: a report is the messages of the errors, each starting with the program's name and ending with the line
Report == ErrorReport(P.t, B("tool"))
MsgOf(j) == ErrorText(P.t, P.t.errs[j], B("tool"))
Mentions(t, x) == \E a \in 0..(Len(t) - Len(x)) : Has(t, a, x)
Messages == Ready =>
  /\ Report = Cat([j \in 1..Len(P.t.errs) |-> MsgOf(j)])
  /\ \A j \in 1..Len(P.t.errs) :
       LET er == P.t.errs[j]
           own == er.p <= Len(P.t.ent) /\ (P.t.ent[er.p].k = "u" \/ Own(P.t.ent[er.p], CbError))
       IN  own \/ (/\ Len(MsgOf(j)) > 0 /\ Take(MsgOf(j), 6) = B("tool: ") /\ MsgOf(j)[Len(MsgOf(j))] = NL
                   \* the culprit, unless it is a flag that came too often
                   /\ er.a # <<>> /\ ~(er.p <= Len(P.t.ent) /\ P.t.ent[er.p].k = "l") => Mentions(MsgOf(j), er.a[1].b)
                   \* what is wrong with an option is said with its name
                   /\ er.p <= Len(P.t.ent) /\ P.t.ent[er.p].sh # <<>> => Mentions(MsgOf(j), <<DASH, P.t.ent[er.p].sh[1][1]>>))
  \* different problems of the same table are told apart
  /\ \A i, j \in 1..Len(P.t.errs) : MsgOf(i) = MsgOf(j) => P.t.errs[i].p = P.t.errs[j].p /\ P.t.errs[i].e = P.t.errs[j].e
\* C21: help goes before errors, errors before nothing
Choice == Ready =>
  \A help \in {0, 1, 2} :
    LET n == Len(P.t.errs)
        r == SyntaxErrHelp(P.t, <<B("mod")>>, B("cmd"), <<B("desc")>>, help, n)
    IN  /\ (r[1] = 0) = (help = 0 /\ n = 0)
        /\ r[1] = 0 => r[2] = 77 /\ r[3] = <<>>
        /\ help > 0 => r[2] = 0 /\ Take(r[3], 9) = B("cmd: desc")
        /\ help = 0 /\ n > 0 => r[2] = 1 /\ Mentions(r[3], B("Usage: ")) /\ Take(r[3], Len(ErrorReport(P.t, B("mod")))) = ErrorReport(P.t, B("mod"))
=============================================================================
