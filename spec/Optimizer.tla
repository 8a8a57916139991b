----------------------------- MODULE Optimizer ------------------------------
(* What a user sees of a run, and nothing else: points are evaluated, one of *)
(* them is held, and what is held is only ever replaced by an evaluated point*)
(* of less merit for the present weight of the constraints, which never     *)
(* decreases; eventually the run stops and nothing changes any more.        *)
(* Sqpdfo refines it (property Refines).                                    *)
EXTENDS Integers
VARIABLES held, known, weight, running, initial
vars == <<held, known, weight, running, initial>>
Merit(p, w) == p[1] + w * p[2]

Init == running /\ initial /\ known = {} /\ weight = 1
Start == /\ running /\ initial
         /\ known \subseteq known'
         /\ (known' # {} => held' \in known')
         /\ UNCHANGED weight
Evaluate == /\ running /\ ~initial /\ ~initial'
            /\ known \subseteq known'
            /\ UNCHANGED <<held, weight, running>>
Weigh == /\ running /\ ~initial /\ ~initial'
         /\ weight' >= weight
         /\ UNCHANGED <<held, known, running>>
Move == /\ running /\ ~initial /\ ~initial'
        /\ held' \in known
        /\ Merit(held', weight) < Merit(held, weight)
        /\ UNCHANGED <<known, weight>>
Stop == /\ running /\ ~running'
        /\ UNCHANGED <<held, known, weight>>
Next == Start \/ Evaluate \/ Weigh \/ Move \/ Stop
Spec == Init /\ [][Next]_vars /\ <>(~running)
=============================================================================
