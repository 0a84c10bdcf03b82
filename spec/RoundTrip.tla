------------------------------ MODULE RoundTrip ------------------------------
(***************************************************************************)
(* Canonical text denotes the value it was printed from, and is a fixed      *)
(* point of printing.                                                        *)
(***************************************************************************)
EXTENDS Line

\* The texts a value's canonical form denotes the same value from: everything
\* but the exceptions named in DESIGN.md and known_findings.txt.
HasTok(ss, P(_)) == \E i \in 1..Len(ss) : P(ss[i])
Faithful(w) ==
  /\ w.ty = "a" =>
       /\ w.x.k = "fmtp" => FmtpText(w.x.p) # ""
       /\ w.x.k = "rid" => ~HasTok(w.x.unknown, LAMBDA s : StartsWith(s, "pt=") \/ Trim(s) # s)
                           /\ ~HasTok(w.x.depends, LAMBDA s : s = "" \/ Trim(s) # s)
       /\ w.x.k = "simulcast" => \A l \in {w.x.send, w.x.recv} : \A i \in 1..Len(l) : SimVersionText(l[i]) # "" /\ ~Has(SimVersionText(l[i]), "=")
       /\ w.x.k = "ice-options" => w.x.opts # <<>>
\* Two values that denote the same thing although their records differ.
Canon(w) == IF w.ty = "a" THEN IF w.x.k = "msid-semantic" /\ w.x.msids = <<>> THEN [w EXCEPT !.x.msids = <<"*">>] ELSE w
            ELSE w
\* What printing and reading again gives: "same", how it differs, or the
\* verdict that refuses the printed text.
RtOf(v, t, q) ==
  IF q.t # "ok" THEN q.t
  ELSE LET same == SameValue(Canon(q.v), Canon(v))
           stable == ValueText(q.v) = t
       IN  IF same /\ stable THEN "same" ELSE IF same THEN "unstable" ELSE IF stable THEN "differs" ELSE "differs, unstable"
Rt(v) == TheOne({RtOf(v, t, ParseLine(v.ty \o "=" \o t)) : t \in {ValueText(v)}})
SpecRoundTrip(r) == (r.t = "ok" /\ Faithful(r.v)) => Rt(r.v) = "same"

\* Name and levels of an attribute value.
Levels(w) == IF w.ty = "a" THEN << [name |-> w.x.k, session |-> AtSessionLevel(w.x.k), media |-> AtMediaLevel(w.x.k)] >> ELSE <<>>
=============================================================================
