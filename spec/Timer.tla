-------------------------------- MODULE Timer -------------------------------
(* GInv::Timer (C19): readings in clock ticks <<real, user, system>>.         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NT, MaxNow
Steps == {<<1, 1, 0>>, <<2, 0, 1>>, <<1, 0, 0>>}
VARIABLES now, timers, act
vars == <<now, timers, act>>
Is(p) == p = TRUE
Z3 == <<0, 0, 0>>
Plus(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
Minus(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3]>>
Fresh == [acc |-> Z3, from |-> <<>>, since |-> <<>>]    \* from: begin of the current interval; since: begin of the measurement
Tick(d)  == now' = Plus(now, d) /\ timers' = timers
Set(k, t) == timers' = [timers EXCEPT ![k] = t] /\ now' = now
Start(k) == Set(k, [acc |-> Z3, from |-> now, since |-> now])
Cont(k)  == Set(k, [timers[k] EXCEPT !.from = now, !.since = IF @ = <<>> THEN now ELSE @])
Stop(k)  == /\ timers[k].from # <<>>                      \* precondition: started or continued before
            /\ Set(k, [timers[k] EXCEPT !.acc = Plus(@, Minus(now, timers[k].from)), !.from = now])
CopyT(k, a) == Set(k, timers[a])
Reading(k) == timers[k].acc
Ts == 1..NT
Init == now = Z3 /\ timers = [k \in Ts |-> Fresh] /\ act = <<"begin">>
Next == \/ \E d \in Steps : Tick(d) /\ act' = <<"tick", d>>
        \/ \E k \in Ts : \/ Start(k) /\ act' = <<"start", k>>
                         \/ Cont(k) /\ act' = <<"cont", k>>
                         \/ Stop(k) /\ act' = <<"stop", k>>
                         \/ \E a \in Ts : a # k /\ CopyT(k, a) /\ act' = <<"copy", k, a>>
Spec == Init /\ [][Next]_vars
View == <<now, timers>>
Bound == now[1] <= MaxNow
Emit == PrintT(<<"EDGE", ToJson(View), ToJson(act'), ToJson(View')>>)
(* --------------------------------------------------------------- properties *)
NeverNegative == \A k \in Ts : \A c \in 1..3 : Reading(k)[c] >= 0
WithinWall == \A k \in Ts : timers[k].since # <<>> => \A c \in 1..3 : Reading(k)[c] <= Minus(now, timers[k].since)[c]
OnlyAtStop == [][\A k \in Ts : timers[k].acc # timers'[k].acc => act'[1] \in {"stop", "start", "copy"} /\ act'[2] = k]_vars
StopAddsInterval == [][act'[1] = "stop" => LET k == act'[2] IN timers'[k].acc = Plus(timers[k].acc, Minus(now, timers[k].from))]_vars
(* time between a stop and the next continue is not counted *)
IdleLost == [][act'[1] = "cont" => timers'[act'[2]].acc = timers[act'[2]].acc]_vars
=============================================================================
