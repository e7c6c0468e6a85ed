--------------------------- MODULE DownloadTrace ---------------------------
(* Follows what was observed of real downloads. Entries:                      *)
(*  start: S, N (files S..N-1), P (0: no request may be made, and a download    *)
(*         of anything has to fail), lines: number of lines of each file       *)
(*  file:  bytes of one (small) file and the lines which are expected of it   *)
(*  ask:   a request for file f was made (f = -1: for something else)         *)
(*  ans:   it was answered, well (good) or not                                *)
(*  out:   lines from..to of file f were written (f = -1: something else)     *)
(*  gone:  from now on the output fails                                       *)
(*  end:   exit status, whether the program came to an end, whether its       *)
(*         writer was made to fail (wfail)                                    *)
(* Each property judges what its own text says; `Prop` selects it.            *)
EXTENDS Base
VARIABLES l, e0, fly, over, tries, fails, got, pos, line, ordered,
          late       \* requests made since the output fails; -1: it does not
vars == <<l, e0, fly, over, tries, fails, got, pos, line, ordered, late>>
Prop == IOEnv.PROP
Ev == TraceLog[l]
Attempts == 6
Enough == 400      \* so many requests take a second: by then the threads know of the failure
Files == e0.S..(e0.N - 1)
LinesOf(f) == e0.lines[f - e0.S + 1]
Zero == [f \in Files |-> 0]

Init == /\ l = 1 /\ ReachInit /\ e0 = [S |-> 0, N |-> 0, P |-> 1, lines |-> <<>>]
        /\ fly = {} /\ over = FALSE /\ tries = <<>> /\ fails = <<>> /\ got = {}
        /\ pos = 0 /\ line = 0 /\ ordered = TRUE /\ late = -1

Start == /\ Ev.op = "start"
         /\ e0' = Ev /\ fly' = {} /\ over' = FALSE
         /\ tries' = [f \in Ev.S..(Ev.N - 1) |-> 0] /\ fails' = [f \in Ev.S..(Ev.N - 1) |-> 0]
         /\ got' = {} /\ pos' = Ev.S /\ line' = 0 /\ ordered' = TRUE /\ late' = -1

(* the lines of a file: separated by LF, without CRs at the end, not empty *)
RECURSIVE NoCR(_)
NoCR(s) == IF s # <<>> /\ s[Len(s)] = 13 THEN NoCR(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE LinesFrom(_, _, _)
One(s) == IF NoCR(s) = <<>> THEN <<>> ELSE <<NoCR(s)>>
LinesFrom(b, i, cur) ==
  IF i > Len(b) THEN One(cur)
  ELSE IF b[i] = 10 THEN One(cur) \o LinesFrom(b, i + 1, <<>>)
       ELSE LinesFrom(b, i + 1, Append(cur, b[i]))
File == /\ Ev.op = "file"
        /\ Assert(LinesFrom(Ev.bytes, 1, <<>>) = Ev.lines /\ LinesOf(Ev.f) = Len(Ev.lines),
                  <<"the recorder splits lines differently", Ev>>)
        /\ UNCHANGED <<e0, fly, over, tries, fails, got, pos, line, ordered, late>>

AskOK == /\ Prop = "P05" => /\ Ev.f \in Files
                            /\ Ev.f \notin got
                            /\ Ev.f \notin fly
                            /\ Cardinality(fly) < e0.P
                            /\ late < Enough
         /\ Prop = "P03" /\ Ev.f \in Files => /\ tries[Ev.f] < Attempts
                                              /\ fails[Ev.f] = tries[Ev.f]
Ask == /\ Ev.op = "ask"
       /\ AskOK = TRUE
       /\ IF Ev.f \in Files
          THEN fly' = fly \cup {Ev.f} /\ tries' = [tries EXCEPT ![Ev.f] = @ + 1]
          ELSE UNCHANGED <<fly, tries>>
       /\ late' = IF late >= 0 THEN late + 1 ELSE late
       /\ UNCHANGED <<e0, over, fails, got, pos, line, ordered>>
Gone == /\ Ev.op = "gone" /\ late' = 0
        /\ UNCHANGED <<e0, fly, over, tries, fails, got, pos, line, ordered>>

Ans == /\ Ev.op = "ans"
       /\ IF Ev.f \in Files
          THEN /\ fly' = fly \ {Ev.f}
               /\ IF Ev.good THEN got' = got \cup {Ev.f} /\ UNCHANGED fails
                  ELSE fails' = [fails EXCEPT ![Ev.f] = @ + 1] /\ UNCHANGED got
          ELSE UNCHANGED <<fly, got, fails>>
       /\ UNCHANGED <<e0, over, tries, pos, line, ordered, late>>

(* files without lines are passed over *)
RECURSIVE Skip(_)
Skip(f) == IF f < e0.N /\ LinesOf(f) = 0 THEN Skip(f + 1) ELSE f
(* where the output stands: `line` lines of file `pos` were written *)
Here == IF line = 0 THEN Skip(pos) ELSE pos
OutOK == Prop = "P03" => Ev.f # -1
Out == /\ Ev.op = "out"
       /\ OutOK = TRUE
       /\ LET p == Here IN
          IF ordered /\ Ev.f = p /\ p < e0.N /\ Ev.from = line + 1 /\ Ev.to <= LinesOf(p)
          THEN /\ ordered' = TRUE
               /\ IF Ev.to = LinesOf(p) THEN pos' = p + 1 /\ line' = 0 ELSE pos' = p /\ line' = Ev.to
          ELSE ordered' = FALSE /\ UNCHANGED <<pos, line>>
       /\ UNCHANGED <<e0, fly, over, tries, fails, got, late>>

Complete == ordered /\ line = 0 /\ Skip(pos) >= e0.N
NoFailure == \A f \in Files : fails[f] = 0
GaveUp == \E f \in Files : fails[f] >= Attempts
EndOK ==
  /\ Prop = "P01" => /\ Ev.term /\ Ev.rc = 0 => Complete
                     /\ NoFailure /\ ~ Ev.wfail /\ e0.P > 0 => Ev.term /\ Ev.rc = 0
  /\ Prop = "P02" /\ Ev.term => IF Ev.rc = 0 THEN Complete /\ got = Files /\ ~ Ev.wfail
                                ELSE Ev.wfail \/ (ordered /\ line = 0)
  /\ Prop = "P03" => IF Ev.term /\ Ev.rc = 0 THEN Complete /\ ~ GaveUp
                     ELSE GaveUp \/ Ev.wfail \/ e0.P = 0
  /\ Prop = "P04" => Ev.term
  /\ Prop = "P05" /\ Ev.term => (Ev.rc = 0 => \A f \in Files : tries[f] > 0)
End == /\ Ev.op = "end"
       /\ EndOK = TRUE
       /\ over' = TRUE
       /\ UNCHANGED <<e0, fly, tries, fails, got, pos, line, ordered, late>>

Next == l <= Len(TraceLog) /\ (Start \/ File \/ Ask \/ Ans \/ Gone \/ Out \/ End) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Constr == Reach(l)
=============================================================================
