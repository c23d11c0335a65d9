----------------------------- MODULE MC_Commands ----------------------------
(* Every command with every single thing wrong (deep: two), over every      *)
(* output; the cases are printed for replay.                                *)
EXTENDS Commands, Json, IOUtils, TLC

Deep == IOEnv.MC_DEEP = "1"
None == [x \in {} |-> ""]
One(c) == UNION {{[x \in {i} |-> f] : f \in Faults[c][i]} : i \in Inputs(c)}
Two(c) == UNION {UNION {{[x \in {i, j} |-> IF x = i THEN f ELSE g] : f \in Faults[c][i], g \in Faults[c][j]} : j \in Inputs(c) \ {i}} : i \in Inputs(c)}
Sets == [c \in Cmds |-> {None} \cup One(c) \cup (IF Deep THEN Two(c) ELSE {})]
Init == CommandInit(Sets)
Spec == Init /\ [][CommandNext]_cvars /\ WF_cvars(CommandNext)
Reached == Ended => <<pc = "succeeded", out>> \in Outcomes(bad, before, room)
Ends == <>Ended
Wrong == {<<i, bad[i]>> : i \in DOMAIN bad}
Emit == (pc = "reading" /\ left = Inputs(cmd)) =>
            PrintT(ToJson([cmd |-> cmd, bad |-> Wrong, before |-> before, room |-> room, want |-> Outcomes(bad, before, room)]))
=============================================================================
