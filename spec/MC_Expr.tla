------------------------------- MODULE MC_Expr -------------------------------
(* Every expression with at most Size operators over the variables a: Uint(2), *)
(* b: Int, p: Bool, some constants and a function that can fail.  Analysis and *)
(* execution must fit together, and a constant must be what running a function *)
(* with the same expression gives.                                             *)
EXTENDS Derive
CONSTANTS Typed, Leaves, Operators, Unaries, Targets
\* all expressions; or, if Typed, only those whose types fit
Untyped == [X |-> {Pr(1, <<"E", "O", "E">>), Pr(1, <<"E", "if", "E", "else", "E">>), Pr(1, <<"g", "(", "E", ")">>)}
            \cup {Pr(1, <<u, "E">>) : u \in Unaries}
            \cup {Pr(1, <<"E", "as", "Uint", "(", ToString(w), ")">>) : w \in Targets}
            \cup (IF Targets = {} THEN {} ELSE {Pr(1, <<"E", "as", "Int">>)}),
      E |-> OneOf(Leaves) \cup {Pr(0, <<"(", "X", ")">>)},
      O |-> OneOf(Operators)]
Fitting == [X |-> {Pr(0, <<"XU">>), Pr(0, <<"XI">>), Pr(0, <<"XB">>)},
      XU |-> {Pr(1, <<"U", "O", "U">>), Pr(1, <<"I", "O", "U">>), Pr(1, <<"U", "O", "I">>), Pr(1, <<"U", "if", "B", "else", "U">>),
              Pr(1, <<"U", "if", "B", "else", "I">>), Pr(1, <<"I", "if", "B", "else", "U">>),
              Pr(1, <<"g", "(", "U", ")">>), Pr(1, <<"g", "(", "I", ")">>), Pr(1, <<"-", "U">>),
              Pr(1, <<"U", "as", "Uint", "(", "2", ")">>), Pr(1, <<"I", "as", "Uint", "(", "2", ")">>)},
      XI |-> {Pr(1, <<"I", "OI", "I">>), Pr(1, <<"I", "if", "B", "else", "I">>), Pr(1, <<"-", "I">>)},
      XB |-> {Pr(1, <<"I", "C", "I">>), Pr(1, <<"I", "C", "U">>), Pr(1, <<"U", "C", "I">>), Pr(1, <<"U", "C", "U">>),
              Pr(1, <<"B", "L", "B">>), Pr(1, <<"B", "if", "B", "else", "B">>), Pr(1, <<"!", "B">>)},
      U |-> {Pr(0, <<"a">>), Pr(0, <<"(", "XU", ")">>)},
      I |-> OneOf(Leaves \ {"a", "p", "true", "false"}) \cup {Pr(0, <<"(", "XI", ")">>)},
      B |-> {Pr(0, <<"p">>), Pr(0, <<"(", "XB", ")">>)},
      O |-> OneOf(Operators \cap {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"}),
      OI |-> OneOf(Operators \cap {"+", "-", "*", "/", "%"}),
      C |-> OneOf(Operators \cap {"==", "!=", "<", "<=", ">", ">="}),
      L |-> OneOf(Operators \cap {"&&", "||"})]
G == IF Typed THEN Fitting ELSE Untyped
Header == <<"function", "g", "(", "x", ":", "Uint", "(", "2", ")", ")", "->", "Uint", "(", "2", ")", "{", "return", "1", "/", "x", ";", "}">>
Table == LET ws == Terminals(G) \cup {Header[i] : i \in 1..Len(Header)} IN [w \in ws |-> TokenOf(w)] @@ NoFcn
LeastG == Least(G)
Init == Begin(G, <<"X">>)
Next == Derivation(G, LeastG)
Spec == Init /\ [][Next]_derived

P0 == ProgramOf(PProgram(AsTokens(Header, Table)).n)
C0 == [P |-> P0, f |-> "", key |-> "", ws |-> <<>>, stk |-> {}, ret |-> TVoid, rl |-> 0, loop |-> FALSE]
S0 == [gv |-> NoFcn, lv |-> NoFcn, sig |-> NoFcn, code |-> NoFcn, inst |-> NoFcn]
Types == [a |-> TUint(2), b |-> TInt, p |-> TBool]
Samples == [a |-> {Val(TUint(2), IFrom(i)) : i \in {0, 1, 3}}, b |-> {VInt(IFrom(i)) : i \in {-1, 0, 2}}, p |-> {VBool(TRUE), VBool(FALSE)}]
Some == [a |-> Val(TUint(2), IZero), b |-> VInt(IZero), p |-> VBool(FALSE)]
Occurs(n) == \E i \in 1..Len(done) : done[i] = n
Inputs(n) == IF Occurs(n) THEN Samples[n] ELSE {Some[n]}
Assignments == {[a |-> u, b |-> i, p |-> q] : u \in Inputs("a"), i \in Inputs("b"), q \in Inputs("p")}

Tree_ == PExpr(AsTokens(done, Table), 1).n
Params == [n \in DOMAIN Types |-> BParam(0, n, Types[n])]
Runtime(e) == An(e, Params @@ P0.env, FALSE, 3, S0, C0)
Constant(e, v) == An(e, [n \in DOMAIN Types |-> BConst(0, <<v[n]>>)] @@ P0.env, TRUE, 3, S0, C0)
Running(r, v) == RE(r.x, [v |-> v, f |-> Fuel], r.S.code)
Fails == {"division_by_zero", "shift_too_much", "int_to_uint_range_error"}
Unknowing(e) == e.code = "skip"

\* well-typed expressions run to a value of their type or to one of the documented failures; what the
\* analysis knows already is what comes out; the constant is the same value or the same failure
Sound(e) ==
  LET r == Runtime(e) IN
  IF ~r.ok
  THEN /\ r.e.code # "evaluation_error"
       \* the constant may fail earlier, but for this it has to evaluate something
       /\ \A v \in Assignments :
            LET c == Constant(e, v) IN ~c.ok /\ c.e.code \in {r.e.code, "evaluation_error", "non_bool_logical"}
  ELSE \A v \in Assignments :
         LET g == Running(r, v)
             c == Constant(e, v)
         IN IF g.r = "e"
            THEN /\ g.d.code = "evaluation_error" /\ g.d.sub \in Fails
                 /\ ~Known(r.v)
                 /\ ~c.ok /\ c.e.code = "evaluation_error" /\ c.e.sub = g.d.sub
            ELSE /\ g.v.t = r.v.t /\ WellFormed(g.v)
                 /\ Known(r.v) => r.v = g.v
                 /\ c.ok /\ c.v = g.v
Fits == Complete => Sound(Tree_)
\* every complete expression with the type that a function returning it has to have
Told == Complete => LET r == Runtime(Tree_) IN PrintT("SEQ " \o (IF r.ok THEN r.v.t[1] ELSE "-") \o (IF r.ok /\ IsUint(r.v.t) THEN ToString(r.v.t[2]) ELSE "") \o Joined(done, 1))
=============================================================================
