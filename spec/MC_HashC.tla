------------------------------ MODULE MC_HashC ------------------------------
EXTENDS MC_Hash
Mod(k) == k
Same(k) == 7
=============================================================================
