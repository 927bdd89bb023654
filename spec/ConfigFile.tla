----------------------------- MODULE ConfigFile -----------------------------
(***************************************************************************)
(* "pkgr add" and "pkgr remove" on the configuration file.  A file is        *)
(*   pkgs : the entries of its Packages section, in order                    *)
(*   has  : whether it has that section                                      *)
(*   rest : its other non-blank lines in order, comments included, with a    *)
(*          placeholder for the section's own line                           *)
(*   raw  : digest of the whole text                                         *)
(*   ok   : whether it can be read                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

LOCAL R(s) == {s[i] : i \in DOMAIN s}
Place == "<packages>"

\* the new members, in any order and anywhere among the old ones, which keep their order
AddedTo(old, names, new) ==
  LET fresh == R(names) \ R(old)
      kept == SelectSeq(new, LAMBDA x : x \notin fresh)
      come == SelectSeq(new, LAMBDA x : x \in fresh)
  IN kept = old /\ R(come) = fresh /\ Len(come) = Cardinality(fresh)

RemovedFrom(old, names, new) == new = SelectSeq(old, LAMBDA x : x \notin R(names))

NothingToDo(op, f, names) == IF op = "add" THEN R(names) \subseteq R(f.pkgs) ELSE R(names) \cap R(f.pkgs) = {}

EditOK(op, names, f, g) ==
  /\ g.ok
  /\ IF op = "add" THEN AddedTo(f.pkgs, names, g.pkgs) ELSE RemovedFrom(f.pkgs, names, g.pkgs)
  /\ g.rest = (IF f.has \/ ~g.has THEN f.rest ELSE Append(f.rest, Place))
  /\ NothingToDo(op, f, names) => g.raw = f.raw

\* an edit that was killed or met a failing disk: nothing, or the edit for the first of the names
CutOK(op, names, f, g) ==
  \/ g.raw = f.raw
  \/ \E k \in 1..Len(names) : EditOK(op, SubSeq(names, 1, k), f, g)

\* layouts a line editor may decline: then it says so and leaves the file alone
Declined(f, g, outcome) == outcome = "err" /\ g.raw = f.raw
=============================================================================
