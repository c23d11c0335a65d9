------------------------------ MODULE Commands ------------------------------
(* A command from start to end: it reads its inputs, one after another or   *)
(* several at once; whatever is wrong with one of them ends it with a       *)
(* failure.  Only when all are read and understood does it touch the        *)
(* output: it empties or creates it and writes it piece by piece, and here  *)
(* the system may refuse.  It succeeds only after the last piece.           *)
EXTENDS Integers, Sequences, FiniteSets

\* The inputs of each command, and what can be wrong with them.
Tok == {"missing", "broken", "dir", "field"}
Src == {"missing", "format", "proportion", "utf8", "dir"}
Pat == {"missing", "syntax"}
List == {"missing", "json", "type", "null", "nested", "object", "string", "utf8", "dir"}
Faults ==
    [generate |-> [source |-> Src, source2 |-> Src, added |-> List, suggested |-> List, allow |-> Pat, split |-> Pat, processor |-> {"name"},
                   flag |-> {"number", "unknown", "required"}],
     prune |-> [input |-> Tok, source |-> Src, source2 |-> Src, flag |-> {"number", "unknown", "required"}],
     filter |-> [input |-> Tok, flag |-> {"number", "unknown", "required"}],
     merge |-> [input |-> Tok, source |-> Src, source2 |-> Src, allow |-> Pat, flag |-> {"number", "unknown", "required", "nosource"}],
     mine |-> [source |-> Src, source2 |-> Src, pattern |-> {"syntax"}, flag |-> {"number", "unknown", "required", "nosource", "nopattern"}],
     regex |-> [pattern |-> {"syntax"}, flag |-> {"unknown"}]]
Cmds == DOMAIN Faults
Inputs(c) == DOMAIN Faults[c]
\* What stands at the output path before, and what the system grants.
\* "self": the output is the command's own input.
Befores(c) == {"absent", "old"} \cup (IF "input" \in Inputs(c) THEN {"self"} ELSE {})
Rooms == {"all", "cut", "none", "nodir", "isdir"}
Pieces == 2

VARIABLES cmd, bad, before, room, left, done, out, pc
cvars == <<cmd, bad, before, room, left, done, out, pc>>

CommandInit(faults) ==
    /\ cmd \in Cmds
    /\ bad \in faults[cmd]           \* a function from inputs to what is wrong
    /\ before \in Befores(cmd)
    /\ room \in Rooms
    /\ before # "absent" => room # "nodir" /\ room # "isdir"
    \* its own input is there, and whole, unless it is what is wrong
    /\ before = "self" => "input" \notin DOMAIN bad
    /\ left = Inputs(cmd)
    /\ done = 0
    /\ out = IF before = "absent" THEN "absent" ELSE "old"
    /\ pc = "reading"

Read(i) == /\ pc = "reading" /\ i \in left
           /\ IF i \in DOMAIN bad THEN pc' = "failed" /\ UNCHANGED left
              ELSE left' = left \ {i} /\ UNCHANGED pc
           /\ UNCHANGED <<cmd, bad, before, room, done, out>>
Open == /\ pc = "reading" /\ left = {}
        /\ IF room \in {"nodir", "isdir"} THEN pc' = "failed" /\ UNCHANGED out
           ELSE pc' = "writing" /\ out' = "partial"
        /\ UNCHANGED <<cmd, bad, before, room, left, done>>
Write == /\ pc = "writing" /\ done < Pieces
         /\ IF (room = "none" /\ done = 0) \/ (room = "cut" /\ done = Pieces - 1)
            THEN pc' = "failed" /\ UNCHANGED <<done, out>>
            ELSE /\ done' = done + 1
                 /\ out' = IF done + 1 = Pieces THEN "new" ELSE "partial"
                 /\ UNCHANGED pc
         /\ UNCHANGED <<cmd, bad, before, room, left>>
Exit == /\ pc = "writing" /\ done = Pieces /\ pc' = "succeeded"
        /\ UNCHANGED <<cmd, bad, before, room, left, done, out>>
CommandNext == (\E i \in left : Read(i)) \/ Open \/ Write \/ Exit

Ended == pc \in {"failed", "succeeded"}
\* Success means a complete new output ...
Honest == pc = "succeeded" => out = "new" /\ DOMAIN bad = {} /\ room = "all"
\* ... and only what went wrong in writing leaves a trace.
Clean == (Ended /\ DOMAIN bad # {}) => pc = "failed" /\ out = (IF before = "absent" THEN "absent" ELSE "old")

\* What may be seen in the end: <<succeeded, output>>.
Outcomes(b, bf, rm) ==
    IF DOMAIN b # {} THEN {<<FALSE, IF bf = "absent" THEN "absent" ELSE "old">>}
    ELSE CASE rm = "all" -> {<<TRUE, "new">>}
           [] rm \in {"nodir", "isdir"} -> {<<FALSE, "absent">>}
           [] OTHER -> {<<FALSE, "partial">>}
=============================================================================
