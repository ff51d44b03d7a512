---- MODULE PoolMC ----
(* exhaustive exploration of Pool with small client programs: safety, deadlock freedom, and that everything pushed completes *)
EXTENDS Pool
VARIABLES prog, ran
C(op, a) == [op |-> op, a |-> a]
Programs == {
  << <<C("push", <<1>>), C("wait", <<>>), C("push", <<2>>)>>, <<C("pushlist", <<3, 4>>), C("wait", <<>>), C("done", <<>>)>> >>,
  << <<C("push", <<1>>), C("resize", <<1>>), C("wait", <<>>)>>, <<C("wait", <<>>), C("pushlist", <<2, 3>>)>> >>,
  << <<C("push", <<1>>), C("push", <<2>>), C("waitForThreads", <<>>)>>, <<C("wait", <<>>)>> >> }
T == {1, 2}
MInit == /\ prog \in Programs /\ ran = <<>>
         /\ \E n \in 1..2 : CInit([n |-> n])
StartCall(t) == prog[t] # <<>> /\ Call(t, Head(prog[t])) /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ ran' = ran
Finish == /\ \A t \in T : prog[t] = <<>> /\ pend[t].on = 0
          /\ pend[0].on = 0 /\ ~dead /\ Call(0, C("destroy", <<>>)) /\ UNCHANGED <<prog, ran>>
Done == dead /\ \A t \in Thr : pend[t].on = 0
Step == \/ \E t \in T : StartCall(t)
        \/ Finish
        \/ Inner /\ UNCHANGED <<prog, ran>>
        \/ \E t \in {0, 1, 2} : pend[t].on = 2 /\ Ret(t, IF pend[t].r[1] = "exc" THEN <<"exc", <<1>>>> ELSE pend[t].r) /\ UNCHANGED <<prog, ran>>
        \/ \E k \in 1..4 : Start(k) /\ ran' = Append(ran, k) /\ UNCHANGED prog
        \/ \E k \in 1..4 : End(k, k = 1) /\ UNCHANGED <<prog, ran>>
        \/ \E k \in 1..4 : Del(k) /\ UNCHANGED <<prog, ran>>
MNext == Step \/ (Done /\ UNCHANGED <<vars, prog, ran>>)
MSpec == MInit /\ [][MNext]_<<vars, prog, ran>> /\ WF_<<vars, prog, ran>>(Step)
Once == \A i, j \in 1..Len(ran) : ran[i] = ran[j] => i = j
AllRun == dead => (out = {} /\ w = 0)
Terminates == <>Done
====
