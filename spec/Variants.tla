----------------------------- MODULE Variants -----------------------------
(* Equivalent ways of making the same call: the representation of the       *)
(* arguments and of what the user's functions return, verbosity, infinite   *)
(* bounds, functions changing their argument, arguments used a second time. *)
(* Every variant differing from the plain call in one dimension, and random *)
(* combinations; harness/pairs.py makes both calls and PairTrace.tla        *)
(* compares them.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Randomization, Json, IOUtils
N == atoi(IOEnv.COUNT)

Dim == [x0fmt   |-> {"col", "row", "flat", "list", "tuple", "nested", "scalar", "intcol", "intlist"},
        lbfmt   |-> {"col", "row", "flat", "list", "tuple", "nested", "scalar"},
        ubfmt   |-> {"col", "row", "flat", "list", "tuple", "nested", "scalar"},
        ftype   |-> {"float", "np", "arr0", "arr1", "arr2", "buf"},
        ctype   |-> {"arr", "list", "tuple", "col", "row", "buf"},
        mutate  |-> {"no", "yes", "later"},
        verbose |-> {"1", "0", "2", "3", "4", "5", "6"},
        inf     |-> {"1e20", "inf", "omit"},
        again   |-> {"no", "yes"},
        optform |-> {"object", "class", "instance_of_subclass", "spaced"},
        glob    |-> {"no", "seeded"}]
Plain == [x0fmt |-> "col", lbfmt |-> "col", ubfmt |-> "col", ftype |-> "float", ctype |-> "arr", mutate |-> "no",
          verbose |-> "1", inf |-> "1e20", again |-> "no", optform |-> "object", glob |-> "no"]

Singles == UNION {{[Plain EXCEPT ![d] = v] : v \in Dim[d]} : d \in DOMAIN Dim} 
Combos == [x0fmt : Dim.x0fmt, lbfmt : Dim.lbfmt, ubfmt : Dim.ubfmt, ftype : Dim.ftype, ctype : Dim.ctype, mutate : Dim.mutate,
           verbose : Dim.verbose, inf : Dim.inf, again : Dim.again, optform : Dim.optform, glob : Dim.glob]

VARIABLE v
Init == v \in Singles \cup RandomSubset(N, Combos)
Next == v # <<>> /\ PrintT("@S " \o ToJson(v)) /\ v' = <<>>
=============================================================================
