------------------------------ MODULE ProgramMC ------------------------------
(***************************************************************************)
(* Program over a universe of four moments: 1 the identity, 2 and 3 two    *)
(* factors, 4 their product.  All histories of calls with few arguments,   *)
(* up to Depth calls, for both kinds of relaxation.                        *)
(*   at      the program as it was when last solved                        *)
(*   hist    the calls so far (not part of the view)                       *)
(***************************************************************************)
EXTENDS Program, TLC
CONSTANTS Depth, Modes, Emit
VARIABLES c, st, at, only, last, hist
vs == <<c, st, at, only, last, hist>>
H == <<1, 2>>
Ctx(mode, supports, prodin) ==
  [mode |-> mode, supports |-> supports, one |-> 1, zero |-> 0,
   M |-> << [f |-> <<>>, inrel |-> TRUE, nonneg |-> supports], [f |-> <<1>>, inrel |-> TRUE, nonneg |-> TRUE],
            [f |-> <<2>>, inrel |-> TRUE, nonneg |-> FALSE], [f |-> <<1, 2>>, inrel |-> prodin, nonneg |-> TRUE] >>]
Part(s) == [known |-> s.known, semi |-> s.semi, lo |-> s.lo, up |-> s.up, obj |-> Signed(s), max |-> s.max, eqs |-> s.eqs, iqs |-> s.iqs]
Alive == ~st.dead /\ Len(hist) < Depth

Init == /\ \E m \in Modes, s \in (IF Emit THEN {FALSE} ELSE BOOLEAN), p \in {TRUE} : c = Ctx(m, s, p)
        /\ st = Initial(c) /\ at = <<>> /\ only = FALSE /\ last = "init" /\ hist = <<>>
Do(s2, name, on) == /\ Alive /\ st' = s2 /\ hist' = Append(hist, name) /\ last' = name /\ only' = on /\ UNCHANGED <<c, at>>

Args == {<< <<2, v>> >> : v \in {RZero, H, ROne}} \cup {<< <<3, v>> >> : v \in {RZero, H}} \cup {<< <<2, H>>, <<3, v>> >> : v \in {H, ROne}}
Flags == {<<lpi, on>> \in BOOLEAN \X BOOLEAN : TRUE}
Tag(f) == ":" \o (IF f[1] THEN ":lpi" ELSE "") \o (IF f[2] THEN ":only" ELSE "")
Values == \/ \E v \in Args \cup {<<>>}, f \in Flags : Do(SetValues(c, st, v, f[1], f[2]), "set_values" \o Tag(f), f[2])
          \/ /\ ~c.supports
             /\ \E v \in Args, f \in Flags : /\ f[2] => ~f[1] /\ DOMAIN st.semi = {}
                                             /\ Do(UpdateValues(c, st, v, f[1], f[2]), "update_values" \o Tag(f), only \/ f[2])
          \/ \E v \in {<< <<2, H>>, <<3, H>> >>, << <<2, ROne>>, <<3, RZero>> >>} : Do(SetValues(c, st, v, TRUE, FALSE), "dist", FALSE)
Bounds == \E typ \in {"lo", "up"} :
            \/ Do(SetBounds(c, st, <<>>, typ, TRUE), "bounds:none:" \o typ, only)
            \/ \E i \in {2, 4}, v \in {RZero, H, ROne} : (c.supports => typ = "up") /\ Do(SetBounds(c, st, << <<i, v>> >>, typ, FALSE), "bounds:" \o typ, only)
Objective == \/ \E d \in {"max", "min"} : Do(SetObjective(c, st, << <<2, ROne>>, <<4, <<-1, 2>> >> >>, d, FALSE), "objective:" \o d, only)
             \/ Do(SetObjective(c, st, <<>>, "max", TRUE), "objective:none", only)
Extra == \/ \E r \in {<<>>, << << <<4, ROne>>, <<2, <<-1, 1>> >> >> >>} : Do(SetExtra(st, "eq", r), "eq", only)
         \/ \E r \in {<<>>, << << <<2, ROne>>, <<4, <<-1, 1>> >> >> >>} : Do(SetExtra(st, "iq", r), "iq", only)
Reset == \E w \in {<<"values">>, <<"lowerbounds">>, <<"upperbounds">>, <<"bounds">>, <<"objective">>, <<"values", "bounds", "objective">>} :
            Do(ResetAll(c, st, w), "reset:" \o (IF Len(w) = 1 THEN w[1] ELSE "all"), IF w[1] = "values" THEN FALSE ELSE only)
SolveIt == /\ Alive /\ \E ok \in BOOLEAN : st' = Solve(c, st, [status |-> IF ok THEN "feasible" ELSE "infeasible", success |-> ok])
           /\ at' = Part(st) /\ hist' = Append(hist, "solve") /\ last' = "solve" /\ UNCHANGED <<c, only>>
Next == Values \/ Bounds \/ Objective \/ Extra \/ Reset \/ SolveIt
Spec == Init /\ [][Next]_vs

(* ---- what must hold of every history (dead: a call was refused) -------- *)
Live(P) == st.dead \/ P
NoBoundsOnFixed == Live(c.mode = "sdp" => (DOMAIN st.lo \cup DOMAIN st.up) \cap DOMAIN st.known \subseteq (IF c.supports THEN {c.one} ELSE {}))
NoFixedLinearised == Live(DOMAIN st.semi \cap DOMAIN st.known = {} /\ \A i \in DOMAIN st.semi : st.semi[i][1][1] # 0)
ResultIsCurrent == Live(st.sol # <<>> => Part(st) = at)
Products == Live((~only /\ ~c.supports /\ {2, 3} \subseteq DOMAIN st.known) =>
                   4 \in DOMAIN st.known /\ st.known[4] = RMul(st.known[2], st.known[3]))
ZeroFactor == Live(~c.supports => \A i \in DOMAIN st.semi : \E a \in {2, 3} : a \in DOMAIN st.known)
Supported == Live(c.supports => /\ \A i \in DOMAIN st.known : st.known[i][1] = 0 \/ i = c.one
                                /\ \A i \in st.supp : i \notin DOMAIN st.known)
Normalised == Live(c.supports \/ (c.one \in DOMAIN st.known /\ st.known[c.one] = ROne))
FullReset == Live(LET r == ResetAll(c, st, <<"values", "bounds", "objective">>)
                      d == ResetAll(c, Initial(c), <<"values", "bounds", "objective">>)
                  IN r.dead \/ (r.known = Constants(c) /\ Part(r) = [Part(d) EXCEPT !.known = r.known]))
Resets == {"values", "upperbounds", "objective"}
ResetsCommute == Live(\A a, b \in Resets : LET x == ResetAll(c, st, <<a, b>>) y == ResetAll(c, st, <<b, a>>)
                                           IN (x.dead /\ y.dead) \/ Part(x) = Part(y))
ResetTwice == Live(\A w \in Resets \cup {"lowerbounds", "bounds"} : LET x == ResetOne(c, st, w) IN x.dead \/ Part(ResetOne(c, x, w)) = Part(x))
Fresh == [Initial(c) EXCEPT !.lo = st.lo, !.up = st.up]
FreshValues == Live(\A v \in Args, f \in Flags : LET x == SetValues(c, st, v, f[1], f[2]) y == SetValues(c, Initial(c), v, f[1], f[2])
                      IN x.dead \/ y.dead \/ (x.known = y.known /\ x.semi = y.semi))
Inv == /\ NoBoundsOnFixed /\ NoFixedLinearised /\ ResultIsCurrent /\ Products /\ ZeroFactor /\ Supported /\ Normalised
       /\ FullReset /\ ResetsCommute /\ ResetTwice /\ FreshValues
(* ---- behaviours to be replayed: the shortest history into every kind of situation by every kind of call ---------- *)
Kind == <<c.mode, last, st.dead, DOMAIN st.known \ {1} # {}, \E i \in DOMAIN st.known : st.known[i][1] = 0, st.semi # Empty,
          st.lo # DefaultLo(c), st.up # Empty, st.obj # Empty, st.max, st.eqs # <<>> \/ st.iqs # <<>>, st.sol # <<>>>>
RECURSIVE Text(_)
Text(h) == IF h = <<>> THEN "" ELSE (IF Len(h) = 1 THEN "" ELSE Text(SubSeq(h, 1, Len(h) - 1)) \o ",") \o "\"" \o h[Len(h)] \o "\""
Printed == ~Emit \/ (IF Len(hist) >= 2 /\ ~c.supports THEN PrintT("BEH|[" \o Text(hist) \o "]") ELSE TRUE)
StateView == <<c, st, at, only>>
KindView == Kind
=============================================================================
