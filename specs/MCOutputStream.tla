---- MODULE MCOutputStream ----
EXTENDS OutputStream
====
