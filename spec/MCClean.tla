------------------------------- MODULE MCClean -------------------------------
(* Cleaning the cache, over every small cache: what CleanedOK allows is exactly  *)
(* one result; cleaning twice is cleaning once; sources and builds one after the  *)
(* other are everything; repositories one after the other are all; what belongs    *)
(* to others stays.                                                                 *)
EXTENDS Cache
VARIABLES cache, opt
xvars == <<vars, cache, opt>>
X(t, k, m) == [top |-> t, kind |-> k, mark |-> m, minor |-> "", dig |-> "d"]
Universe == {X(t, k, "m") : t \in {"A", "B"}, k \in {"src", "built", "bin"}} \cup {X("T", "tar", "t1"), X("U", "tar", "t2"), X("D", "db", "d"), X("A", "other", "o")}
Opts == [what : {"all", "cache", "none"}, src : BOOLEAN, bin : BOOLEAN, allrepos : BOOLEAN, repos : {<<>>, <<"A">>, <<"A", "B">>, <<"C">>}]
Init == cache \in SUBSET Universe /\ opt \in Opts /\ r = [x |-> 0] /\ lib = <<>> /\ running = {} /\ built = {} /\ inst = {} /\ failed = {} /\ begun = {} /\ aborted = FALSE
Next == UNCHANGED xvars
Spec == Init /\ [][Next]_xvars
Tars == {"t1"}
Clean(o, E) == {e \in E : ~Selected(o, Tars, e)}
Unique == CleanedOK(opt, Tars, cache, Clean(opt, cache))
          /\ \A e \in cache : e.kind # "db" => LET a == Clean(opt, cache) IN ~CleanedOK(opt, Tars, cache, IF e \in a THEN a \ {e} ELSE a \cup {e})
Idempotent == Clean(opt, Clean(opt, cache)) = Clean(opt, cache)
Both == opt.what # "none" => Clean([opt EXCEPT !.src = TRUE, !.bin = FALSE], Clean([opt EXCEPT !.src = FALSE, !.bin = TRUE], cache)) = Clean([opt EXCEPT !.src = FALSE, !.bin = FALSE], cache)
Each == LET one(R, E) == Clean([opt EXCEPT !.allrepos = FALSE, !.repos = R], E) IN one(<<"A">>, one(<<"B">>, cache)) = one(<<"A", "B">>, cache)
Foreign == \A e \in cache : e.kind \in {"other", "db"} \/ (e.kind = "tar" /\ e.mark \notin Tars) \/ (e.kind # "tar" /\ ~opt.allrepos /\ e.top \notin Range(opt.repos)) => e \in Clean(opt, cache)
Absent == \A e \in cache : opt.what = "cache" /\ ~opt.allrepos /\ opt.repos = <<"C">> /\ e.kind # "tar" => e \in Clean(opt, cache)
=============================================================================
