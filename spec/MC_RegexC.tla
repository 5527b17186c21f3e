----------------------------- MODULE MC_RegexC -----------------------------
EXTENDS MC_Regex
Sym1 == <<B("a"), B("b"), B("."), B("*"), B("?"), B("+"), B("|"), B("("), B(")")>>
Sym2 == <<B("a"), B("[a-b]"), B("[^a]"), B("\\w"), B("*"), B("{2}"), B("{0,1}"), B("^"), B("$"), B("\\b"), B("("), B(")"), B("|")>>
Sym3 == <<B("a"), B("A"), B("["), B("]"), B("^"), B("-"), B("\\"), B("{"), B("1"), B(","), B("}")>>
Ab == {97, 98}
Aab == {97, 65, 32}
=============================================================================
