----------------------------- MODULE T_Drawing ------------------------------
(* Recorded images, legends, color maps and animations against Drawing.    *)
(* An execution has a grid: L, nx, ny.  The specification state is the     *)
(* sequence of steps (each the sequence of phases by site), one for a      *)
(* single state.                                                           *)
EXTENDS Drawing, TraceData
VARIABLES tid, pos, st, bad

Start(tr) == <<>>
PutAt(c, u) == [i \in DOMAIN c |-> IF ToString(i) \in DOMAIN u THEN u[ToString(i)] ELSE c[i]]
RECURSIVE Steps(_, _)
Steps(c, us) ==
    IF us = <<>> THEN <<c>> ELSE IF Len(us) = 1 THEN <<c, PutAt(c, us[1])>>
    ELSE LET h == Len(us) \div 2
             A == Steps(c, SubSeq(us, 1, h))
         IN A \o Tail(Steps(A[h + 1], SubSeq(us, h + 1, Len(us))))
\* every color of the legend is seen often enough in the rest of the image
Legend(phases, cmap, rest, swatch) == \A p \in phases :
    LET x == ColorOf(cmap, p)
    IN x = Black \/ \E z \in Range(rest) : z[1] = x /\ z[2] >= swatch
Ever(S) == UNION {Range(S[x]) : x \in DOMAIN S}

Check(S, e, tr) ==
    IF e.err # "" THEN {"CallCompletes"}
    ELSE CASE e.op \in {"state", "result", "more"} -> {}
      [] e.op = "image" ->
             F("EveryCellInPlace", Drawn(tr.L, tr.nx, tr.ny, S[e.step + 1], e.cmap, e.blocks))
             \cup F("LegendShowsColors", Legend(Range(e.legend), e.cmap, e.rest, e.swatch))
             \* the labels that can be read stand next to their colors
             \cup F("LabelsNextToTheirColors", e.words # <<>> =>
                    /\ \A x \in DOMAIN e.words : e.words[x][1] = ColorOf(e.cmap, e.words[x][2])
                    /\ {e.words[x][2] : x \in DOMAIN e.words} = Range(e.legend))
      \* boxes: <<location, color>> of everything drawn, with repetitions
      [] e.op = "solid" ->
             LET want == Solid(tr.L, tr.n, S[1], e.cmap, e.shell)
             IN F("OneBoxForEveryCell", /\ Len(e.boxes) = Cardinality(want)
                                        /\ {b[1] : b \in Range(e.boxes)} = {b[1] : b \in want})
                \cup F("BoxesHaveTheirColors", Range(e.boxes) \subseteq want)
                \cup F("PictureOfFullSize", e.size[1] > 0 /\ e.size[2] > 0 /\ e.inked)
      [] e.op = "legend" ->
             F("LegendOfPhases", /\ DOMAIN e.got = Range(S[e.step + 1])
                                 /\ \A p \in DOMAIN e.got : e.got[p] = ColorOf(e.cmap, p))
      [] e.op = "color" -> F("ColorOfCell", e.got = ColorOf(e.cmap, e.p))
      [] e.op = "map" ->
             F("EveryPhaseItsColor", GoodMap(
                 CASE e.of = "list" -> Range(e.phases)
                   [] e.of = "state" -> Range(S[1])
                   [] e.of = "result" -> Ever(S), e.got, e.palette))
      \* what a failed animation leaves behind
      [] e.op = "failed" -> F("NoFilesLeft", e.files = <<>>) \cup F("ResultUnchanged", e.after = S)
      [] e.op = "gif" ->
             F("FrameForEverySelectedStep", Len(e.frames) = FrameCount(Len(S), e.freq))
             \cup F("FramesShowTheirSteps", \A k \in DOMAIN e.frames :
                  StepOfFrame(k, e.freq) < Len(S) =>
                    Drawn(tr.L, tr.nx, tr.ny, S[StepOfFrame(k, e.freq) + 1], e.cmap, e.frames[k]))
             \cup F("FramesHaveLegends", \A k \in DOMAIN e.rests :
                  StepOfFrame(k, e.freq) < Len(S) =>
                    Legend(Range(S[StepOfFrame(k, e.freq) + 1]), e.cmap, e.rests[k], e.swatch))
             \cup F("LabelsOfTheirSteps", \A k \in DOMAIN e.labels :
                  e.labels[k] \in {-1, StepOfFrame(k, e.freq)})
             \cup F("ShownForTheSameTime", ShownFor(e.lasts, e.wait))
             \cup F("NoFilesLeft", e.files = <<>>)
             \cup F("ResultUnchanged", e.after = S)
      \* what a notebook displays: the steps asked for, in order
      [] e.op = "displayed" ->
             F("FrameForEverySelectedStep", Len(e.frames) = Len(e.steps))
             \cup F("FramesShowTheirSteps", \A k \in DOMAIN e.frames \cap DOMAIN e.steps :
                  Drawn(tr.L, tr.nx, tr.ny, S[e.steps[k] + 1], e.cmap, e.frames[k]))
             \cup F("FramesHaveLegends", \A k \in DOMAIN e.rests \cap DOMAIN e.steps :
                  Legend(Range(S[e.steps[k] + 1]), e.cmap, e.rests[k], e.swatch))
             \cup F("LabelsOfTheirSteps", \A k \in DOMAIN e.labels \cap DOMAIN e.steps :
                  e.labels[k] \in {-1, e.steps[k]})
             \cup F("ShownForTheSameTime", \A k \in DOMAIN e.pauses : e.pauses[k] >= e.wait - 1)
             \cup F("ResultUnchanged", e.after = S)

After(S, e, tr) == CASE e.op = "state" -> <<e.cells>>
                     [] e.op = "result" -> Steps(e.start, e.us)
                     [] e.op = "more" -> S \o Tail(Steps(S[Len(S)], e.us))
                     [] OTHER -> S
TC == INSTANCE TraceCheck WITH Traces <- Data
Spec == TC!Spec
=============================================================================
