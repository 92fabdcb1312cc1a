---- MODULE MCTextSyntax ----
EXTENDS TextSyntax, TLC
MCChars == {34, 92, 110, 49, 45, 46, 101, 32, 10, 195, 169}
ASSUME EscapeInverse
ASSUME NegInverse
====
