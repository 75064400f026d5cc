---- MODULE MC_ParallelPool ----
EXTENDS ParallelPool
====
