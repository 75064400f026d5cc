---- MODULE MC_Forms ----
EXTENDS Forms
====
