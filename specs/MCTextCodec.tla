---- MODULE MCTextCodec ----
EXTENDS TextCodec, TLC
PendBound == Len(pend) <= 2 /\ TLCGet("level") < 4
MCPoints == {10, 13, 65, 127, 128, 233, 2047, 2048, 8364, 65533, 65535, 65536, 128512, 1114111}
ASSUME RoundTrip
====
