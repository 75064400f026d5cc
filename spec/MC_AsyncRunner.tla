---- MODULE MC_AsyncRunner ----
EXTENDS AsyncRunner
====
