---- MODULE MCByteStream ----
EXTENDS ByteStream
MCDatas == {<<>>, <<65>>, <<10>>, <<65, 10, 66>>, <<1, 2, 3, 4, 5>>}
====
