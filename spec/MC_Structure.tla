---- MODULE MC_Structure ----
EXTENDS Structure
V1 == <<<<2, 0>>, <<0, 2>>>>
V2 == <<<<2, 1>>, <<-1, 2>>>>
V3 == <<<<0, 1>>, <<3, 0>>>>
PerAll == <<TRUE, TRUE>>
PerOne == <<TRUE, FALSE>>
Pts == {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<0, -1>>, <<2, 1>>, <<-1, 2>>, <<3, 3>>}
PtsFew == {<<0, 0>>, <<1, 0>>, <<2, 1>>, <<-1, 2>>, <<0, -1>>}
====
