------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The texts the library produces from a table: usage lines, glossaries,   *)
(* error reports, help and usage-error messages.                           *)
(***************************************************************************)
EXTENDS ArgTable

(************************* one option, written out *************************)
(* An option is written into a buffer that holds 198 characters (199 if    *)
(* a long name fills it): longer ones are cut off.                         *)
AC(s, x) == LET t == Take(s, 198) IN t \o Take(x, 198 - Len(t))
SN(s, x) == s \o Take(x, 199 - Len(s))
Value(s, dt, opt) == IF opt THEN AC(AC(AC(s, B("[")), dt), B("]")) ELSE AC(s, dt)
FirstName(lo) == LET j == IndexFrom(lo, 44, 0) IN IF j = -1 THEN lo ELSE Take(lo, j)

\* compact: the first name only
CatOption(s, sh, lo, dt, opt) ==
  IF sh # <<>>
  THEN LET a == AC(s, <<45>> \o Take(sh[1], 1)) IN IF dt = <<>> THEN a ELSE Value(AC(a, B(" ")), dt[1], opt)
  ELSE IF lo # <<>>
  THEN LET a == SN(AC(s, B("--")), FirstName(lo[1])) IN IF dt = <<>> THEN a ELSE Value(AC(a, B("=")), dt[1], opt)
  ELSE IF dt # <<>> THEN Value(s, dt[1], opt) ELSE s

RECURSIVE CatShorts(_, _, _), CatLongs(_, _, _)
CatShorts(s, sh, sep) ==
  IF sh = <<>> THEN s
  ELSE LET a == AC(s, <<45, Head(sh)>>) IN IF Tail(sh) = <<>> THEN a ELSE CatShorts(AC(a, sep), Tail(sh), sep)
CatLongs(s, lo, sep) ==
  IF lo = <<>> THEN s
  ELSE LET n == FirstName(lo)
           a == SN(AC(s, B("--")), n)
       IN  IF Len(n) < Len(lo) THEN CatLongs(AC(a, sep), From(lo, Len(n) + 1), sep) ELSE a
\* verbose: all names
CatOptionV(s, sh, lo, dt, opt, sep) ==
  LET a == IF sh = <<>> THEN s ELSE CatShorts(s, sh[1], sep)
      b == IF sh # <<>> /\ lo # <<>> THEN AC(a, sep) ELSE a
      c == IF lo = <<>> THEN b ELSE CatLongs(b, lo[1], sep)
  IN  IF dt = <<>> THEN c
      ELSE Value(IF lo # <<>> THEN AC(c, B("=")) ELSE IF sh # <<>> THEN AC(c, B(" ")) ELSE c, dt[1], opt)

PrintOption(sh, lo, dt, sx) == CatOptionV(<<>>, sh, lo, dt, FALSE, B("|")) \o sx

(******************************* usage lines *******************************)
RECURSIVE Times(_, _)
Times(x, n) == IF n <= 0 THEN <<>> ELSE x \o Times(x, n - 1)
Occurs(e, x) ==
  Times(B(" ") \o x, e.mn) \o
  (LET o == B(" [") \o x \o B("]")
       d == e.mx - e.mn
   IN  CASE d = 0 -> <<>> [] d = 1 -> o [] d = 2 -> o \o o [] OTHER -> o \o B("..."))

RECURSIVE FirstShorts(_)
FirstShorts(es) == IF es = <<>> THEN <<>> ELSE Take(Head(es).sh[1], 1) \o FirstShorts(Tail(es))
Sel(es, P(_)) == SelectSeq(es, P)
IsSwitch(e) == e.sh # <<>> /\ ~HasValue(e)
GnuSwitch(es) ==
  LET M == Sel(es, LAMBDA e : IsSwitch(e) /\ e.mn >= 1)
      O == Sel(es, LAMBDA e : IsSwitch(e) /\ e.mn < 1)
  IN  (IF M = <<>> THEN <<>> ELSE B(" -") \o FirstShorts(M)) \o
      (IF O = <<>> THEN <<>> ELSE (IF M = <<>> THEN B(" [-") ELSE B("[")) \o FirstShorts(O) \o B("]"))

RECURSIVE SyntaxOf(_), SyntaxVOf(_)
SyntaxOf(es) ==
  IF es = <<>> THEN <<>>
  ELSE LET e == Head(es)
           x == CatOption(<<>>, e.sh, e.lo, e.dt, e.opt)
       IN  (IF IsSwitch(e) \/ x = <<>> THEN <<>> ELSE Occurs(e, x)) \o SyntaxOf(Tail(es))
SyntaxVOf(es) ==
  IF es = <<>> THEN <<>>
  ELSE LET e == Head(es) IN Occurs(e, CatOptionV(<<>>, e.sh, e.lo, e.dt, e.opt, B("|"))) \o SyntaxVOf(Tail(es))
Opt0(s) == IF s = <<>> THEN <<>> ELSE s[1]
Syntax(es, sx) == GnuSwitch(es) \o SyntaxOf(es) \o Opt0(sx)
SyntaxV(es, sx) == SyntaxVOf(es) \o Opt0(sx)

(******************************* glossaries ********************************)
PadR(s, n) == s \o Rep(SP, n - Len(s))
PadL(s, n) == Rep(SP, n - Len(s)) \o s
\* formatted output with %s, %Ns, %-Ns, %.Ns and %% conversions
RECURSIVE Printf(_, _), NumAt(_, _, _)
NumAt(f, i, v) == IF IsDigit(At(f, i)) THEN NumAt(f, i + 1, v * 10 + At(f, i) - 48) ELSE <<v, i>>
Printf(f, args) ==
  IF f = <<>> THEN <<>>
  ELSE IF f[1] # 37 THEN <<f[1]>> \o Printf(Tail(f), args)
  ELSE IF At(f, 1) = 37 THEN <<37>> \o Printf(From(f, 2), args)
  ELSE LET left == At(f, 1) = 45
           w == NumAt(f, IF left THEN 2 ELSE 1, 0)
           hasp == At(f, w[2]) = 46
           p == IF hasp THEN NumAt(f, w[2] + 1, 0) ELSE w
           x == IF hasp THEN Take(Head(args), p[1]) ELSE Head(args)
       IN  (IF left THEN PadR(x, w[1]) ELSE PadL(x, w[1])) \o Printf(From(f, p[2] + 1), Tail(args))

DefaultGlossary == B("  %-20s %s") \o <<NL>>
RECURSIVE GlossaryOf(_, _)
GlossaryOf(es, f) ==
  IF es = <<>> THEN <<>>
  ELSE LET e == Head(es)
       IN  (IF e.gl = <<>> THEN <<>>
            ELSE Printf(f, <<CatOptionV(<<>>, e.sh, e.lo, e.dt, e.opt, B(", ")), e.gl[1]>>)) \o GlossaryOf(Tail(es), f)
Glossary(es, f) == GlossaryOf(es, IF f = <<>> THEN DefaultGlossary ELSE f[1])

(* Text in a column from lm to rm: the first line is not indented, lines are broken at the last blank that leaves     *)
(* them at most the width of the column, or in a word that is longer than that; line feeds in the text are kept.      *)
RECURSIVE EatBlanks(_, _), BackToBlank(_, _, _), BackOverBlanks(_, _, _), Wrap(_, _, _, _)
EatBlanks(s, i) == IF IsSpace(At(s, i)) /\ At(s, i) # NL THEN EatBlanks(s, i + 1) ELSE i
BackToBlank(s, a, e) == IF e > a /\ ~IsSpace(At(s, e)) THEN BackToBlank(s, a, e - 1) ELSE e
BackOverBlanks(s, a, e) == IF e > a /\ IsSpace(At(s, e)) /\ At(s, a) # NL THEN BackOverBlanks(s, a, e - 1) ELSE e
Wrap(s, a0, lm, cw) ==
  LET n == Len(s)
      a == EatBlanks(s, a0)
      b == BackToBlank(s, a, a + cw)
      e == IF n - a <= cw THEN n
           ELSE IF b = a THEN a + cw
           ELSE BackOverBlanks(s, a, b) + 1
      nl == IndexFrom(s, NL, a)
      cut == nl # -1 /\ nl < e
      line == SubSeq(s, a + 1, IF cut THEN nl ELSE e)
      a1 == IF cut THEN nl + 1 ELSE e
      more == e < n
      \* without a break at the right margin the rest after a line feed belongs to the same line end, and is not indented
  IN  IF a0 >= n THEN <<>>
      ELSE line \o <<NL>> \o
           (IF more THEN Rep(SP, lm) \o (IF a1 >= n THEN <<>> ELSE Wrap(s, a1, lm, cw))
            ELSE IF a1 >= n THEN <<>> ELSE Wrap(s, a1, lm, cw))
Formatted(lm, rm, s) == Wrap(s, 0, lm, rm - lm + 1)

RECURSIVE GnuOf(_)
GnuOf(es) ==
  IF es = <<>> THEN <<>>
  ELSE LET e == Head(es)
           x == CatOptionV(IF e.sh = <<>> /\ e.lo # <<>> THEN Rep(SP, 4) ELSE <<>>, e.sh, e.lo, e.dt, e.opt, B(", "))
           long == Len(x) > 25
       IN  (IF e.gl = <<>> THEN <<>>
            ELSE (IF long THEN B("  ") \o x \o <<SP, NL>> ELSE <<>>)
                 \o B("  ") \o PadR(IF long THEN <<>> ELSE x, 25) \o <<SP>> \o Formatted(28, 79, e.gl[1])) \o GnuOf(Tail(es))
Gnu(es) == GnuOf(es) \o <<NL>>

(****************************** error reports ******************************)
\* the example date, 1999-12-31 23:59:59, in a given format
RECURSIVE Example(_)
Example(f) ==
  IF f = <<>> THEN <<>>
  ELSE IF f[1] # 37 \/ Len(f) = 1 THEN <<f[1]>> \o Example(Tail(f))
  ELSE LET i == IF f[2] \in {69, 79} THEN 3 ELSE 2
           c == f[i]
           x == CASE c = 37 -> B("%") [] c = 65 -> B("Sunday") [] c = 97 -> B("Sun")
                  [] c = 66 -> B("December") [] c \in {98, 104} -> B("Dec") [] c = 67 -> B("19")
                  [] c = 99 -> B("Sun Dec 31 23:59:59 1999") [] c \in {68, 120} -> B("12/31/99")
                  [] c \in {100, 101} -> B("31") [] c \in {72, 107} -> B("23") [] c \in {73, 108} -> B("11")
                  [] c = 106 -> B("001") [] c \in {77, 83} -> B("59") [] c = 109 -> B("12") [] c = 110 -> <<NL>>
                  [] c = 112 -> B("PM") [] c = 82 -> B("23:59") [] c = 114 -> B("11:59:59 PM")
                  [] c = 116 -> <<9>> [] c \in {84, 88} -> B("23:59:59") [] c = 85 -> B("01") [] c = 87 -> B("00")
                  [] c = 119 -> B("0") [] c = 89 -> B("1999") [] c = 121 -> B("99")
       IN  x \o Example(SubSeq(f, i + 1, Len(f)))

ErrorText(t, er, prog) ==
  LET a == IF er.a = <<>> THEN <<>> ELSE er.a[1].b
      e == t.ent[er.p]
      Opt(dt, sx) == PrintOption(e.sh, e.lo, dt, sx)
      Nl == <<NL>>
      Line(x) == prog \o B(": ") \o x
  IN  IF er.p <= Len(t.ent) /\ (e.k = "u" \/ Own(e, CbError))      \* what the driver's own callback prints, if there is one
      THEN (IF Own(e, CbError) THEN prog \o B("~") \o Dec(er.p) \o B("~") \o DecInt(er.e) \o B("~") \o (IF er.a = <<>> THEN B("(nil)") ELSE a) \o Nl ELSE <<>>)
      ELSE IF er.p = Len(t.ent) + 1
      THEN Line(CASE er.e = ELIMIT -> B("too many errors to display")
                  [] er.e = 2 -> B("insufficient memory")
                  [] er.e = ENOMATCH -> B("unexpected argument \"") \o a \o B("\"")
                  [] er.e = EMISSARG -> B("option \"") \o a \o B("\" requires an argument")
                  [] er.e = ELONGOPT -> B("invalid option \"") \o a \o B("\"")
                  [] OTHER -> B("invalid option \"-") \o <<er.e % 256>> \o B("\"")) \o Nl
      ELSE CASE er.e = EMINCOUNT -> Line(B("missing option ")) \o Opt(e.dt, Nl) \o (IF e.k = "l" THEN Nl ELSE <<>>)
             [] er.e = EMAXCOUNT -> IF e.k = "l" THEN Line(B("extraneous option ")) \o Opt(e.dt, Nl)
                                    ELSE Line(B("excess option ")) \o Opt(<<a>>, Nl)
             [] er.e \in {EBADINT, EBADDOUBLE} -> Line(B("invalid argument \"")) \o a \o B("\" to option ") \o Opt(e.dt, Nl)
             [] er.e = EOVERFLOW -> Line(B("integer overflow at option ")) \o Opt(e.dt, B(" ")) \o B("(") \o a \o B(" is too large)") \o Nl
             [] er.e = EREGNOMATCH -> Line(B("illegal value  ")) \o Opt(<<a>>, Nl)
             [] er.e = EBADDATE -> LET x == Example(e.aux[1])
                                   IN  Line(B("illegal timestamp format \"")) \o a \o B("\"") \o Nl
                                       \o B("correct format is \"") \o (IF Len(x) >= 200 THEN <<>> ELSE x) \o B("\"") \o Nl
RECURSIVE ErrorsFrom(_, _, _)
ErrorsFrom(t, i, prog) == IF i > Len(t.errs) THEN <<>> ELSE ErrorText(t, t.errs[i], prog) \o ErrorsFrom(t, i + 1, prog)
ErrorReport(t, prog) == ErrorsFrom(t, 1, prog)

(**************************** help messages ********************************)
ModName(m) == IF m = <<>> \/ m = <<<<>>>> THEN B("<name>") ELSE m[1]
ModVer(v) == IF v = <<>> THEN B("0.0.0.0") ELSE v[1]
GetHelp(m, v) ==
  ModName(m) \o B(" v") \o ModVer(v) \o <<NL>> \o B("Please type '") \o ModName(m) \o B(" help' to get more information.") \o <<NL>>
HelpGlossary == B("  %-23s %s") \o <<NL>>
\* desc: the description of the command, if it is registered
HelpMsg(es, m, name, desc) ==
  (IF desc = <<>> THEN <<>> ELSE name \o B(": ") \o desc[1] \o <<NL>>)
  \o B("Usage:") \o <<NL>> \o B("  ") \o ModName(m)
  \o SyntaxVOf(es) \o <<NL, SP, NL>> \o B("Available options:") \o <<NL>> \o GlossaryOf(es, HelpGlossary) \o <<NL>>
SyntaxErrMsg(t, m) ==
  ErrorReport(t, ModName(m)) \o B("Usage: ") \o <<NL>> \o B("  ") \o ModName(m) \o SyntaxVOf(t.ent) \o <<NL, NL>>
\* <<made, exit code, text>>; 77 stands for: exit code untouched
SyntaxErrHelp(t, m, name, desc, help, nerr) ==
  IF help > 0 THEN <<1, 0, HelpMsg(t.ent, m, name, desc)>>
  ELSE IF nerr > 0 THEN <<1, 1, SyntaxErrMsg(t, m)>> ELSE <<0, 77, <<>>>>
=============================================================================
