------------------------------ MODULE Deferred ------------------------------
(* Deferred values: which branch a parse selects, and how calls of the      *)
(* resulting functions share runs of the fallback.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
MaxCalls == atoi(IOEnv.DEPTH)
VARIABLES inner, cli, src,      \* what is wrapped, what each side supplies
          pc, branch, memo,
          runs,                 \* runs of the fallback, in the order they started
          cache,                \* per parse result: the run that calls share
          hist
vars == <<inner, cli, src, pc, branch, memo, runs, cache, hist>>
Results == {1, 2}               \* the same grammar parsed twice
Plain == {"option", "argument", "flag", "map", "async"}
Inner == Plain \cup {"env", "envdefault", "config", "configdefault", "envmap"}
Init == /\ inner \in Inner /\ cli \in {"absent", "given", "bad"}
        /\ src \in (IF inner \in Plain THEN {"absent"} ELSE {"absent", "given", "bad"})
        /\ ~(inner = "flag" /\ cli = "bad")
        /\ memo \in BOOLEAN
        /\ pc = "parse" /\ branch = "none" /\ runs = <<>> /\ cache = [x \in Results |-> 0] /\ hist = <<>>
Select ==
  IF cli = "bad" THEN "failure"
  ELSE IF cli = "given" THEN "cli"
  ELSE IF src = "bad" THEN "failure"
  ELSE IF src = "given" THEN "source"
  ELSE IF inner \in {"envdefault", "configdefault"} THEN "default" ELSE "fallback"
(* Calls are explored for one grammar per branch that runs the fallback.    *)
Parse == /\ pc = "parse" /\ branch' = Select
         /\ pc' = IF Select = "fallback" /\ inner = "option" THEN "calls" ELSE "say"
         /\ UNCHANGED <<inner, cli, src, memo, runs, cache, hist>>
Note(e) == hist' = Append(hist, e)
Call(x, how) ==
  /\ pc = "calls" /\ Len(hist) < MaxCalls
  /\ IF memo /\ cache[x] # 0
     THEN /\ how = "value" /\ Note([a |-> "call", x |-> x, how |-> "shared", run |-> cache[x]]) /\ UNCHANGED <<runs, cache>>
     ELSE /\ runs' = Append(runs, [x |-> x, st |-> CASE how = "value" -> "ok" [] how = "throw" -> "failed" [] OTHER -> "pending"])
          /\ cache' = IF memo /\ how # "throw" THEN [cache EXCEPT ![x] = Len(runs) + 1] ELSE cache
          /\ Note([a |-> "call", x |-> x, how |-> how, run |-> Len(runs) + 1])
  /\ UNCHANGED <<inner, cli, src, pc, branch, memo>>
Settle(n, ok) ==
  /\ pc = "calls" /\ Len(hist) < MaxCalls /\ runs[n].st = "pending"
  /\ runs' = [runs EXCEPT ![n].st = IF ok THEN "ok" ELSE "failed"]
  /\ cache' = IF ~ok /\ cache[runs[n].x] = n THEN [cache EXCEPT ![runs[n].x] = 0] ELSE cache
  /\ Note([a |-> "settle", x |-> runs[n].x, how |-> IF ok THEN "ok" ELSE "fail", run |-> n])
  /\ UNCHANGED <<inner, cli, src, pc, branch, memo>>
Say == /\ pc = "say" \/ (pc = "calls" /\ Len(hist) = MaxCalls)
       /\ PrintT("@@" \o ToJson([inner |-> inner, cli |-> cli, src |-> src, memo |-> memo, branch |-> branch, hist |-> hist]))
       /\ pc' = "end" /\ UNCHANGED <<inner, cli, src, branch, memo, runs, cache, hist>>
Next == Parse \/ (\E x \in Results, how \in {"value", "throw", "later"} : Call(x, how))
        \/ (\E n \in 1..Len(runs), ok \in BOOLEAN : Settle(n, ok)) \/ Say
Spec == Init /\ [][Next]_vars
(* ---- *)
Calls == {k \in 1..Len(hist) : hist[k].a = "call"}
Shared == {k \in Calls : hist[k].how = "shared"}
NoMemoNoShare == ~memo => Shared = {}
NeverFailed == \A x \in Results : cache[x] # 0 => runs[cache[x]].st # "failed" /\ runs[cache[x]].x = x
OneSuccess == memo => \A m, n \in 1..Len(runs) : m < n /\ runs[m].x = runs[n].x => runs[m].st = "failed"
Invalid == (cli = "bad" \/ (cli = "absent" /\ src = "bad")) => branch \in {"none", "failure"}
=============================================================================
