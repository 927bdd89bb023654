--------------------------------- MODULE Db ---------------------------------
(***************************************************************************)
(* Package databases remembered between runs.                                *)
(*   live   what each location answers at present: location -> [src, bin],   *)
(*          each a content (a number > 0), Absent or Bad (cannot be read)     *)
(*   store  databases remembered: key -> [src, bin, at, dmg]                  *)
(*   now    seconds                                                           *)
(* A database is remembered under everything that its content depends on:     *)
(* see KeyOf.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES live, store, now
dbvars == <<live, store, now>>

Absent == 0
Bad == -1
Default == 3600
Range(s) == {s[i] : i \in DOMAIN s}

\* a configured repository: [name, addr, loc, suffix, rtype]; rver: version of R in full
KeyOf(x, rver) == <<x.name, x.addr, x.suffix, x.rtype, rver>>
Keys(conf, rver) == {KeyOf(x, rver) : x \in Range(conf)}

HasBin(x) == x.rtype = "MPN"
Readable(x) ==
  LET l == live[x.loc] IN
  /\ l.src # Bad /\ (HasBin(x) => l.bin # Bad)
  /\ l.src # Absent \/ (HasBin(x) /\ l.bin # Absent)
Answer(x) == LET l == live[x.loc] IN [src |-> l.src, bin |-> IF HasBin(x) THEN l.bin ELSE Absent]

\* ttl: seconds
Fresh(k, ttl) == k \in DOMAIN store /\ ~store[k].dmg /\ store[k].at + ttl > now

\* what a run with this configuration works with
Effective(x, rver, ttl) ==
  LET k == KeyOf(x, rver) IN
  IF Fresh(k, ttl) THEN [src |-> store[k].src, bin |-> store[k].bin] ELSE Answer(x)
Failing(conf, rver, ttl) == {x \in Range(conf) : ~Fresh(KeyOf(x, rver), ttl) /\ ~Readable(x)}

\* the answer given: for every location the first configured repository offering its package of a type
Selected(conf, rver, ttl) ==
  LET eff(i) == Effective(conf[i], rver, ttl)
      pick(loc, f) == {i \in DOMAIN conf : conf[i].loc = loc /\ eff(i)[f] > 0}
      first(S) == CHOOSE i \in S : \A j \in S : i <= j
      locs == {x.loc : x \in Range(conf)}
  IN {[loc |-> l, type |-> f, repo |-> conf[first(pick(l, f))].name, content |-> eff(first(pick(l, f)))[f],
       suffix |-> IF f = "bin" THEN conf[first(pick(l, f))].suffix ELSE ""] :
        <<l, f>> \in {y \in locs \X {"src", "bin"} : pick(y[1], y[2]) # {}}}

\* ------------------------------------------------------------------ steps
Publish(loc, src, bin) == live' = [live EXCEPT ![loc] = [src |-> src, bin |-> bin]] /\ UNCHANGED <<store, now>>
Age(s) == now' = now + s /\ UNCHANGED <<live, store>>
Damage == store' = [k \in DOMAIN store |-> [store[k] EXCEPT !.dmg = TRUE]] /\ UNCHANGED <<live, now>>

New(x) == [src |-> Answer(x).src, bin |-> Answer(x).bin, at |-> now, dmg |-> FALSE]
Holder(conf, rver, k) == CHOOSE x \in Range(conf) : KeyOf(x, rver) = k

\* a run; par: several at the same time
Run(conf, rver, ttl, par) ==
  LET ks == Keys(conf, rver)
      todo == {k \in ks : ~Fresh(k, ttl)}
      failing == Failing(conf, rver, ttl)
      badkeys == {KeyOf(x, rver) : x \in failing}
      \* what a key may be left with
      After(k) ==
        IF failing = {} THEN {"new"} \cup (IF par THEN {"gone"} ELSE {})
        ELSE {"old", "gone"} \cup (IF k \in badkeys THEN {} ELSE {"new"})
  IN \E o \in [todo -> {"old", "gone", "new"}] :
       /\ \A k \in todo : o[k] \in After(k)
       /\ store' = [k \in {j \in DOMAIN store \cup todo : j \in todo => (o[j] = "new" \/ (o[j] = "old" /\ j \in DOMAIN store))} |->
                      IF k \in todo /\ o[k] = "new" THEN New(Holder(conf, rver, k)) ELSE store[k]]
       /\ UNCHANGED <<live, now>>

\* all: every configured repository; otherwise those of these names
Clean(conf, rver, all, names) ==
  LET ks == {KeyOf(x, rver) : x \in {y \in Range(conf) : all \/ y.name \in names}}
  IN store' = [k \in DOMAIN store \ ks |-> store[k]] /\ UNCHANGED <<live, now>>

\* ------------------------------------------------------------------ what must hold of all this
\* nothing that could not be read is remembered
NoBadRemembered == \A k \in DOMAIN store : store[k].src # Bad /\ store[k].bin # Bad /\ (store[k].src # Absent \/ store[k].bin # Absent)
=============================================================================
