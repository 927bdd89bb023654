-------------------------------- MODULE MCDb --------------------------------
(* Db with a few configurations of repositories that differ in one respect     *)
(* each, a clock, servers that change and fail.  seen remembers for every key   *)
(* what its location answered at which time.                                    *)
EXTENDS Db
CONSTANTS T, Ttl, Runs
VARIABLES seen, steps
vars == <<dbvars, seen, steps>>
Locs == {"l1", "l2"}
E(n, a, l, s, t) == [name |-> n, addr |-> a, loc |-> l, suffix |-> s, rtype |-> t]
\* the addresses of a location may be written in two ways; a suffix makes another location of it for binaries
Confs == {<<E("A", "l1", "l1", "", "")>>, <<E("A", "l2", "l2", "", "")>>, <<E("A", "l1", "l1", "", "MPN")>>, <<E("B", "l1/", "l1", "", ""), E("A", "l2", "l2", "", "MPN")>>}
RVers == {"4.1.2", "4.1.3"}
Contents == {Bad, Absent, 1, 2}
Init == /\ live = [l \in Locs |-> [src |-> 1, bin |-> 1]] /\ store = <<>> /\ now = 0 /\ seen = {} /\ steps = 0
\* a run makes what it remembers; what was answered at that time is noted
Runs_(conf, v, par) ==
  /\ Run(conf, v, Ttl, par)
  /\ seen' = seen \cup {[k |-> KeyOf(x, v), a |-> Answer(x), at |-> now] : x \in {y \in Range(conf) : Readable(y)}}
Next ==
  /\ steps < Runs /\ steps' = steps + 1
  /\ \/ \E l \in Locs, a, b \in Contents : live[l] # [src |-> a, bin |-> b] /\ Publish(l, a, b) /\ UNCHANGED seen
     \/ now < T /\ Age(1) /\ UNCHANGED seen
     \/ store # <<>> /\ Damage /\ UNCHANGED seen
     \/ \E conf \in Confs, v \in RVers, par \in BOOLEAN : Runs_(conf, v, par)
     \/ \E conf \in Confs, v \in RVers : Clean(conf, v, TRUE, {}) /\ UNCHANGED seen
Spec == Init /\ [][Next]_vars
\* every database that would be used is what this very location gave for this very key within the lifetime
Genuine == \A k \in DOMAIN store : ~store[k].dmg => \E x \in seen : x.k = k /\ x.at = store[k].at /\ x.a.src = store[k].src /\ x.a.bin = store[k].bin
Trustworthy == \A conf \in Confs, v \in RVers : \A x \in Range(conf) :
  LET k == KeyOf(x, v) IN
  IF Fresh(k, Ttl) THEN \E y \in seen : y.k = k /\ y.at + Ttl > now /\ y.a.src = Effective(x, v, Ttl).src /\ y.a.bin = Effective(x, v, Ttl).bin
  ELSE Effective(x, v, Ttl) = Answer(x)
\* what one repository's key holds is never another's
Apart == \A conf \in Confs, v \in RVers : \A x \in Range(conf) :
  Fresh(KeyOf(x, v), Ttl) /\ ~HasBin(x) => Effective(x, v, Ttl).bin = Absent
=============================================================================
