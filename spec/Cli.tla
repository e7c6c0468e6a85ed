-------------------------------- MODULE Cli ---------------------------------
(* What a command does to existing files. A command is a record c of the      *)
(* options given and the state of the files. Each tool goes through phases    *)
(* (parse, contradictions, input, output, open, work) of which every one may  *)
(* refuse; opening an output truncates it. Refused(c) says, independently of  *)
(* the phases, which commands have to be refused with all files left alone;   *)
(* the design model shows that the phases, in the order of the tools, achieve *)
(* that (with "openFirst" they do not). CliTrace uses Refused on real runs.   *)
(*                                                                            *)
(* fields: tool; mode t2b b2t both none (convert); src file stdin both none;  *)
(*  dst file stdout both none; force, resume, ntlm, t64, txt: flags;          *)
(*  in good empty missing torn dir malformed; out absent exists empty link    *)
(*  (to another file) same hard sym (the input by another name) dangling dir  *)
(*  noparent; num less equal more (topn: -N against the size); opt fine     *)
(*  unknown badnum (the option parser)                                        *)
EXTENDS Base
CONSTANTS Order       \* "right" or "openFirst"
VARIABLES c, pc, inp, outp, rc
vars == <<c, pc, inp, outp, rc>>

Same == {"same", "hard", "sym"}
Exists(k) == k.dst \in {"file", "both"} /\ k.out \in {"exists", "empty", "dir", "link"} \cup Same

Contradictory(k) ==
  \/ k.opt # "fine"
  \/ k.tool = "convert" /\ (\/ k.mode \in {"both", "none"}
                            \/ k.src \in {"both", "none"}
                            \/ k.mode = "b2t" /\ k.src = "stdin"
                            \/ k.dst \in {"both", "none"})
  \/ k.tool = "topn" /\ (k.dst \in {"both", "none"} \/ (k.ntlm /\ k.t64))
  \/ k.tool = "download" /\ (\/ k.txt /\ k.resume
                             \/ k.force /\ k.resume
                             \/ k.ntlm /\ k.t64)
UnusableInput(k) ==
  \/ k.tool = "convert" /\ k.src = "file" /\
       (k.in \in {"missing", "dir"} \/ (k.in = "torn" /\ k.mode = "b2t"))
  \/ k.tool = "topn" /\ (k.in \in {"missing", "dir", "torn"} \/ k.num # "less"
                         \/ (k.in = "empty"))
WouldOverwrite(k) ==
  /\ k.dst = "file"
  /\ \/ Exists(k) /\ ~ k.force /\ ~ (k.tool = "download" /\ k.resume)
     \/ k.out \in Same                \* the input, even with --force
     \/ k.out = "dir"
Refused(k) == Contradictory(k) \/ UnusableInput(k) \/ WouldOverwrite(k)

(* ----- the phases ----- *)
Flag == BOOLEAN
Base0 == [mode |-> "t2b", src |-> "file", dst |-> "file", force |-> FALSE, resume |-> FALSE,
          ntlm |-> FALSE, t64 |-> FALSE, txt |-> FALSE, in |-> "good", out |-> "exists",
          num |-> "less", opt |-> "fine"]
With(r, s) == [x \in {"tool"} \cup DOMAIN Base0 |-> IF x \in DOMAIN s THEN s[x] ELSE r[x]]
Ins == {"good", "empty", "missing", "torn", "dir", "malformed"}
Outs == {"absent", "exists", "empty", "link", "same", "hard", "sym", "dangling", "dir", "noparent"}
Ways == {"file", "stdin", "both", "none"}
Dsts == {"file", "stdout", "both", "none"}

ConvertCmds ==
  {With(Base0, [tool |-> "convert", mode |-> m, src |-> s, dst |-> d, force |-> f, ntlm |-> n, in |-> i, out |-> o]) :
     m \in {"t2b", "b2t"}, s \in {"file", "stdin"}, d \in {"file", "stdout"}, f \in Flag, n \in Flag,
     i \in Ins, o \in Outs}
  \cup {With(Base0, [tool |-> "convert", mode |-> m, src |-> s, dst |-> d, force |-> f, out |-> o]) :
     m \in {"t2b", "b2t", "both", "none"}, s \in Ways, d \in Dsts, f \in Flag, o \in {"absent", "exists", "same"}}
  \cup {With(Base0, [tool |-> "convert", mode |-> m, force |-> f, opt |-> p, out |-> o]) :
     m \in {"t2b", "b2t"}, f \in Flag, p \in {"unknown", "badnum"}, o \in {"absent", "exists"}}
TopnCmds ==
  {With(Base0, [tool |-> "topn", dst |-> d, force |-> f, ntlm |-> n, t64 |-> t, in |-> i, out |-> o, num |-> u]) :
     d \in {"file", "stdout"}, f \in Flag, n \in Flag, t \in Flag, i \in Ins \ {"malformed"}, o \in Outs,
     u \in {"less", "equal", "more"}}
  \cup {With(Base0, [tool |-> "topn", dst |-> d, force |-> f, ntlm |-> n, t64 |-> t, out |-> o, opt |-> p]) :
     d \in Dsts, f \in Flag, n \in Flag, t \in Flag, o \in {"absent", "exists", "same"},
     p \in {"fine", "unknown", "badnum"}}
DownloadCmds ==
  {With(Base0, [tool |-> "download", force |-> f, resume |-> r, ntlm |-> n, t64 |-> t, txt |-> x, out |-> o, opt |-> p]) :
     f \in Flag, r \in Flag, n \in Flag, t \in Flag, x \in Flag,
     o \in {"absent", "exists", "empty", "dangling", "dir", "noparent", "link"},
     p \in {"fine", "unknown", "badnum"}}
AllCmds == ConvertCmds \cup TopnCmds \cup DownloadCmds
(* combinations which make sense *)
Sensible(k) ==
  /\ k.out \in Same => k.in \in {"good", "empty", "torn", "malformed"} /\ k.src # "stdin"
  /\ k.dst = "stdout" => k.out \in {"absent", "exists"}        \* a file nobody mentioned
  /\ k.in = "torn" => k.mode = "b2t" \/ k.tool # "convert"
  /\ k.in = "malformed" => k.mode = "t2b"
  /\ k.src = "stdin" => k.in \in {"good", "empty", "malformed"}
Cmds == {k \in AllCmds : Sensible(k)}

Init == c \in Cmds /\ pc = "parse" /\ inp = "old" /\ outp = (IF Exists(c) THEN "old" ELSE "none") /\ rc = -1

Stop == pc' = "exit" /\ rc' = 1 /\ UNCHANGED <<inp, outp>>
Go(p) == pc' = p /\ UNCHANGED <<inp, outp, rc>>
Parse == pc = "parse" /\ (IF c.opt # "fine" THEN Stop ELSE Go("contra")) /\ UNCHANGED c
Contra == pc = "contra" /\ UNCHANGED c
          /\ IF Contradictory(c) THEN Stop
             ELSE Go(IF Order = "openFirst" THEN "output" ELSE "input")
Input == pc = "input" /\ UNCHANGED c
         /\ IF UnusableInput(c) THEN Stop ELSE Go(IF Order = "openFirst" THEN "work" ELSE "output")
Output == pc = "output" /\ UNCHANGED c
          /\ IF c.dst # "file" THEN Go(IF Order = "openFirst" THEN "input" ELSE "work")
             ELSE IF Exists(c) /\ ~ c.force /\ ~ (c.tool = "download" /\ c.resume) THEN Stop
             ELSE IF c.out \in Same THEN Stop
             ELSE Go("open")
Open == pc = "open" /\ UNCHANGED c
        /\ IF c.out \in {"dir", "noparent"} THEN Stop
           ELSE /\ pc' = (IF Order = "openFirst" THEN "input" ELSE "work")
                /\ outp' = (IF c.resume THEN outp ELSE "truncated")    \* (created if absent)
                /\ inp' = (IF c.out \in Same THEN "truncated" ELSE inp)
                /\ UNCHANGED rc
Work == pc = "work" /\ UNCHANGED <<c, inp>> /\ pc' = "exit"
        /\ \/ rc' = 0 /\ outp' = (IF c.dst = "file" THEN "new" ELSE outp)
           \/ rc' = 1 /\ outp' \in (IF c.dst = "file" THEN {"truncated", "part"} ELSE {outp})
Next == Parse \/ Contra \/ Input \/ Output \/ Open \/ Work
Spec == Init /\ [][Next]_vars

(* P18 *)
RefusedLeavesAll == pc = "exit" /\ Refused(c) => rc # 0 /\ outp \in {"old", "none"}
InputKept == inp = "old"
NoOverwrite == (Exists(c) /\ ~ c.force /\ ~ c.resume) => outp = "old"

GenInit == Init /\ Emit(c)
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
