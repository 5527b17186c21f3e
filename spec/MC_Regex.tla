------------------------------ MODULE MC_Regex ------------------------------
(***************************************************************************)
(* Every pattern of up to PLen symbols against every text of up to TLen    *)
(* characters. C08: what the matcher accepts is in the language; what is   *)
(* in the language of a pattern without choices is accepted.               *)
(***************************************************************************)
EXTENDS Regex, Json, IOUtils, TLC

CONSTANTS PLen, TLen, Symbols, Letters
Gen == IOEnv.GEN = "1"

VARIABLES pat, phase, txt
vars == <<pat, phase, txt>>

PSym(i) == Symbols[i]
Pat == Cat([j \in 1..Len(pat) |-> PSym(pat[j])])
Init == pat = <<>> /\ phase = 0 /\ txt = <<>>
\* grow the pattern, then the text
Grow == phase = 0 /\ Len(pat) < PLen /\ \E i \in 1..Len(Symbols) : pat' = Append(pat, i) /\ UNCHANGED <<phase, txt>>
Begin == phase = 0 /\ Compile(Pat).ok /\ phase' = 1 /\ UNCHANGED <<pat, txt>>
Read == phase = 1 /\ Len(txt) < TLen /\ \E c \in Letters : txt' = Append(txt, c) /\ UNCHANGED <<pat, phase>>
Next == Grow \/ Begin \/ Read
Spec == Init /\ [][Next]_vars

Matches(ic) == RexMatch(Pat, ic, txt)
Sound == phase = 1 => \A ic \in BOOLEAN : Matches(ic) => InLanguage(Pat, ic, txt)
\* without repetition and alternatives there is nothing to choose
Plain == \A j \in 1..Len(Pat) : Pat[j] \notin {42, 43, 63, 123, 124}
Complete == phase = 1 /\ Plain => \A ic \in BOOLEAN : InLanguage(Pat, ic, txt) => Matches(ic)
\* ignoring case accepts more, never less, unless something is negated
Negates == \E j \in 1..Len(Pat) : Pat[j] \in {94, 92}
Wider == phase = 1 /\ Plain /\ ~Negates => (Matches(FALSE) => Matches(TRUE))
\* a malformed pattern never matches
Malformed == phase = 0 /\ ~Compile(Pat).ok => \A t \in {<<>>, <<97>>, Pat} : ~RexMatch(Pat, FALSE, t)
Emit == IF Gen /\ phase = 0 /\ pat # <<>> THEN PrintT(ToJson(<<"PAT", pat>>)) ELSE TRUE
=============================================================================
