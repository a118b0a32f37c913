----------------------------- MODULE SymmetryMC -----------------------------
(***************************************************************************)
(* The key of a moment is sound: every word over the operators of two      *)
(* scenarios with two copies of their sources, up to length L, has on an   *)
(* explicit model the expectation of its normal form, of its copies'       *)
(* relabellings, of its conjugate and of the product of its factors; a     *)
(* moment bounded below by default is nonnegative there; and the key       *)
(* itself is invariant.                                                    *)
(***************************************************************************)
EXTENDS Models
CONSTANT L
VARIABLES k, w

(* 1, 2: A - r - B - s - C with two quantum sources, then classical ones; 3: A and B share r, and B sees A's outcome *)
Inp(cls) == [dag |-> << <<4, <<1, 2>>>>, <<5, <<2, 3>>>> >>, outs |-> <<2, 2, 2>>, sets |-> <<2, 1, 1>>, lvl |-> <<2, 2>>, lvlint |-> FALSE,
             clsall |-> cls, cls |-> <<>>, cil |-> <<>>, ncil |-> <<>>, order |-> <<1, 2, 3>>]
Inps == << Inp(FALSE), Inp(TRUE),
           [dag |-> << <<3, <<1, 2>>>>, <<1, <<2>>>> >>, outs |-> <<2, 2>>, sets |-> <<2, 1>>, lvl |-> <<2>>, lvlint |-> FALSE,
            clsall |-> FALSE, cls |-> <<>>, cil |-> <<>>, ncil |-> <<>>, order |-> <<1, 2>>] >>
Bell == << [phase |-> 0, p |-> <<1, 1>>], [phase |-> 0, p |-> <<3, 3>>] >>
Src(kids) == [cls |-> FALSE, kids |-> kids, gens |-> Bell, w |-> <<1, 1>>]
Obs(P) == [P |-> P, plus |-> 0, minus |-> 1]
Mods == << [kind |-> "stabiliser", D |-> 2, src |-> << Src(<<1, 2>>), Src(<<2, 3>>) >>,
            resp |-> << << Obs(<<1>>), Obs(<<3>>) >>, << Obs(<<3, 1>>) >>, << Obs(<<1>>) >> >>],
           [kind |-> "classical", D |-> 4, vals |-> 2, w |-> << <<1, 3>>, <<2, 2>> >>, lat |-> <<>>,
            resp |-> << [src |-> <<1>>, lat |-> <<>>, tab |-> <<0, 1, 1, 0>>],
                        [src |-> <<1, 2>>, lat |-> <<>>, tab |-> <<0, 1, 1, 1>>],
                        [src |-> <<2>>, lat |-> <<>>, tab |-> <<1, 0>>] >>],
           [kind |-> "stabiliser", D |-> 2, src |-> << Src(<<1, 2>>) >>,
            resp |-> << << Obs(<<1>>), Obs(<<3>>) >>, << Obs(<<3>>), Obs(<<1>>) >> >>] >>
Ctx == [i \in DOMAIN Inps |-> LET x == FullCtx(Inps[i]) IN [x EXCEPT !.inp = TLCEval(IF Mods[i].kind = "classical" THEN <<>> ELSE Groups(Mods[i]))]]

Init == k \in DOMAIN Inps /\ w = <<>>
Next == Len(w) < L /\ k' = k /\ \E i \in DOMAIN Ctx[k].sc.ops : w' = Append(w, i)
Spec == Init /\ [][Next]_<<k, w>>

E(u) == Expect(Ctx[k].sc, Mods[k], Ctx[k].inp, u)
Conj(x) == <<x[1], RMul(<<-1, 1>>, x[2])>>
Inv ==
  LET c == Ctx[k] e == TLCEval(E(w)) n == TLCEval(Canon(c.al, w)) key == TLCEval(MomentKey(c.al, c.perms, w))
      f == Factors(c.al, w)
  IN /\ IF n = ZERO THEN e = <<RZero, RZero>> ELSE E(n) = e
     /\ E(Rev(w)) = Conj(e)
     /\ CProd([i \in DOMAIN f |-> E(f[i])]) = e
     /\ \A p \in DOMAIN c.perms : E(MapW(c.perms[p], w)) = e /\ MomentKey(c.al, c.perms, MapW(c.perms[p], w)) = key
     /\ MomentKey(c.al, c.perms, Rev(w)) = key
     /\ n # ZERO => MomentKey(c.al, c.perms, n) = key /\ (SelfAdjoint(c.al, n) => e[1][1] >= 0 /\ e[2] = RZero)
     /\ key # << ZERO >> => ExpectM(c.sc, Mods[k], c.inp, key) = e[1]
=============================================================================
