----------------------------- MODULE Normalize -----------------------------
(***************************************************************************)
(* From terms to difference constraints.                                   *)
(*                                                                         *)
(* A constraint relates two terms.  Terms are tuples with a tag:           *)
(*   <<"n", i>>           the number i                                     *)
(*   <<"d", n, d, text>>  a string denoting the number n/d                 *)
(*   <<"y", name>>        a constant                                       *)
(*   <<"q", text>>        a string that is not a number                    *)
(*   <<"f", name, args>>  a function                                       *)
(*   <<"t", args>>        a tuple                                          *)
(*   <<op, a, b>>         for op one of + - * /                            *)
(*   <<"~", a>>           unary minus,  <<"p", a>>  unary plus             *)
(*                                                                         *)
(* Terms are evaluated exactly, with rationals whose denominators are      *)
(* powers of two.  Rejecting a constraint is obligatory if it has no       *)
(* meaning, and otherwise only allowed if some intermediate result might   *)
(* not fit into 32 bit or the term is not linear at first glance.          *)
(***************************************************************************)
EXTENDS BigInt, FiniteSets, TLC

-----------------------------------------------------------------------------
(* rationals n/d *)

Q(n, d) == [ n |-> n, d |-> d ]

RECURSIVE Reduce(_)
Reduce(q) ==
    IF q.d = 1 \/ q.n.m = <<>> THEN Q(q.n, 1 + 0 * q.d)
    ELSE IF q.n.m[1] % 2 = 0
         THEN LET RECURSIVE Halve(_, _)
                  Halve(m, i) ==  \* from the most significant digit
                      IF i = 0 THEN <<>>
                      ELSE Halve(m, i - 1) \o << ((IF i < Len(m) /\ m[i + 1] % 2 = 1 THEN Base ELSE 0) + m[i]) \div 2 >>
              IN  Reduce(Q(Mk(q.n.neg, Trim(Halve(q.n.m, Len(q.n.m)))), q.d \div 2))
         ELSE q

QInt(i) == Q(Big(i), 1)
QAdd(a, b) == Reduce(Q(BAdd(BMul(a.n, Big(b.d)), BMul(b.n, Big(a.d))), a.d * b.d))
QNeg(a) == Q(BNeg(a.n), a.d)
QMul(a, b) == Reduce(Q(BMul(a.n, b.n), a.d * b.d))
QAbs(a) == Q(BAbs(a.n), a.d)
QZero == QInt(0)
QLeq(a, b) == BLeq(BMul(a.n, Big(b.d)), BMul(b.n, Big(a.d)))

QMax(a, b) == IF QLeq(a, b) THEN b ELSE a

(* exact division by b = m/d; m has to be a power of two in absolute value *)
QDivExact(a, b) ==
    LET m == Int32(BAbs(b.n))
        r == Reduce(Q(BMul(a.n, Big(b.d)), a.d * m))
    IN  IF b.n.neg THEN QNeg(r) ELSE r

-----------------------------------------------------------------------------
(* symbols: the terms inside variables; the result is the text of a symbol *)

SymErr == [ ok |-> FALSE, num |-> FALSE, v |-> Zero, str |-> "", soft |-> FALSE, fun |-> FALSE ]

SymNum(v, soft) ==
    IF Fits(v)
    THEN [ ok |-> TRUE, num |-> TRUE, v |-> v, str |-> ToString(Int32(v)), soft |-> soft, fun |-> FALSE ]
    \* the value might be used in an expression whose value fits
    ELSE [ ok |-> FALSE, num |-> TRUE, v |-> v, str |-> "", soft |-> TRUE, fun |-> FALSE ]

SymTxt(s, soft, fun) == [ ok |-> TRUE, num |-> FALSE, v |-> Zero, str |-> s, soft |-> soft, fun |-> fun ]

RECURSIVE Join(_, _)
Join(ss, i) == IF i > Len(ss) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o ss[i].str \o Join(ss, i + 1)

RECURSIVE Sym(_, _)
Sym(t, real) ==
    LET op == t[1]
    IN  CASE op = "n" -> SymNum(Big(t[2]), FALSE)
          [] op = "y" -> SymTxt(t[2], FALSE, TRUE)
          [] op = "q" -> SymTxt("\"" \o t[2] \o "\"", FALSE, FALSE)
          [] op \in { "f", "t" } ->
                LET as == [ i \in DOMAIN t[Len(t)] |-> Sym(t[Len(t)][i], real) ]
                    so == \E i \in DOMAIN as : as[i].soft
                IN  IF \E i \in DOMAIN as : ~as[i].ok THEN SymErr
                    ELSE SymTxt((IF op = "f" THEN t[2] ELSE "") \o "(" \o Join(as, 1)
                                  \o (IF op = "t" /\ Len(as) = 1 THEN "," ELSE "") \o ")", so, op = "f")
          [] op \in { "+", "-", "*", "/" } ->
                LET a == Sym(t[2], real)
                    b == Sym(t[3], real)
                    so == a.soft \/ b.soft
                IN  IF ~a.num \/ ~b.num THEN SymErr
                    ELSE IF op = "+" THEN SymNum(BAdd(a.v, b.v), so)
                    ELSE IF op = "-" THEN SymNum(BSub(a.v, b.v), so)
                    ELSE IF op = "*" THEN SymNum(BMul(a.v, b.v), so)
                    ELSE IF b.v = Zero \/ ~a.ok \/ ~b.ok THEN SymErr
                    ELSE SymNum(TruncDiv(a.v, b.v), so)
          [] op = "~" ->
                LET a == Sym(t[2], real)
                IN  IF a.num THEN SymNum(BNeg(a.v), a.soft \/ a.v = Big(MinInt))
                    ELSE IF ~a.ok \/ ~a.fun THEN SymErr
                    ELSE IF SubSeq(a.str, 1, 1) = "-" THEN SymTxt(SubSeq(a.str, 2, Len(a.str)), a.soft, TRUE)
                    ELSE SymTxt("-" \o a.str, a.soft, TRUE)
          [] OTHER -> SymErr

-----------------------------------------------------------------------------
(* linear expressions: coefficients c, constant k, bound b on the absolute *)
(* values of all intermediate results, whether rejection is allowed        *)

LinErr == [ ok |-> FALSE, c |-> <<>>, k |-> QZero, b |-> QZero, soft |-> FALSE, syn |-> FALSE ]

Const(q) == [ ok |-> TRUE, c |-> <<>>, k |-> q, b |-> QAbs(q), soft |-> FALSE, syn |-> FALSE ]

Co(e, x) == IF x \in DOMAIN e.c THEN e.c[x] ELSE QZero

Clean(c) == LET D == { x \in DOMAIN c : c[x] # QZero } IN [ x \in D |-> c[x] ]

LinAdd(e, f) ==
    [ ok |-> TRUE, c |-> Clean([ x \in DOMAIN e.c \cup DOMAIN f.c |-> QAdd(Co(e, x), Co(f, x)) ]),
      k |-> QAdd(e.k, f.k), b |-> QAdd(e.b, f.b), soft |-> e.soft \/ f.soft, syn |-> e.syn \/ f.syn ]

LinNeg(e) == [ e EXCEPT !.c = [ x \in DOMAIN @ |-> QNeg(@[x]) ], !.k = QNeg(@) ]

(* f is constant *)
LinScale(e, f) ==
    [ ok |-> TRUE, c |-> Clean([ x \in DOMAIN e.c |-> QMul(e.c[x], f.k) ]), k |-> QMul(e.k, f.k),
      b |-> QMax(QMul(e.b, f.b), QMax(e.b, f.b)), soft |-> e.soft \/ f.soft \/ (e.syn /\ f.syn), syn |-> e.syn \/ f.syn ]

IsConst(e) == DOMAIN e.c = {}

RECURSIVE Lin(_, _)
Lin(t, real) ==
    LET op == t[1]
    IN  CASE op = "n" -> Const(QInt(t[2]))
          [] op = "d" -> IF real \/ t[3] = 1 THEN Const(Reduce(Q(Big(t[2]), t[3]))) ELSE LinErr
          [] op \in { "y", "q", "f", "t" } ->
                LET s == Sym(t, real)
                IN  IF ~s.ok THEN LinErr
                    ELSE [ ok |-> TRUE, c |-> (s.str :> QInt(1)), k |-> QZero, b |-> QInt(1), soft |-> s.soft, syn |-> TRUE ]
          [] op = "~" -> LET a == Lin(t[2], real) IN IF a.ok THEN LinNeg(a) ELSE LinErr
          [] op = "p" -> Lin(t[2], real)
          [] op \in { "+", "-", "*", "/" } ->
                LET a == Lin(t[2], real)
                    b == Lin(t[3], real)
                IN  IF ~a.ok \/ ~b.ok THEN LinErr
                    ELSE IF op = "+" THEN LinAdd(a, b)
                    ELSE IF op = "-" THEN LinAdd(a, LinNeg(b))
                    ELSE IF op = "*"
                         THEN IF IsConst(b) THEN LinScale(a, b)
                              ELSE IF IsConst(a) THEN LinScale(b, a)
                              ELSE LinErr
                    \* only constants can be divided
                    ELSE IF ~IsConst(a) \/ ~IsConst(b) \/ b.k = QZero THEN LinErr
                    ELSE IF real
                         THEN [ Const(QDivExact(a.k, b.k)) EXCEPT !.soft = a.syn \/ b.syn \/ a.soft \/ b.soft ]
                    ELSE IF ~Fits(a.k.n) \/ ~Fits(b.k.n) THEN LinErr
                    ELSE [ Const(Q(TruncDiv(a.k.n, b.k.n), 1)) EXCEPT
                              !.soft = a.syn \/ b.syn \/ a.soft \/ b.soft,
                              !.b = QAdd(a.b, b.b) ]
          [] OTHER -> LinErr

-----------------------------------------------------------------------------
(* constraints *)

(* The constants of all edges a relation may need.                         *)
Weights(r, k) ==
    CASE r = "<=" -> { k }
      [] r = "<"  -> { BSub(k, Big(1)) }
      [] r = ">=" -> { BNeg(k) }
      [] r = ">"  -> { BSub(BNeg(k), Big(1)) }
      [] r = "="  -> { k, BNeg(k) }

NoMeaning == [ ok |-> FALSE, may |-> TRUE, u |-> "", v |-> "", k |-> 0 ]

(* Meaning of the constraint a r b: u - v r k where "" stands for 0 and k  *)
(* is given in multiples of 1/scale.  It may be rejected if may is true.   *)
Meaning(a, r, b, scale) ==
    LET real == scale # 1
        x == Lin(a, real)
        y == Lin(b, real)
    IN  IF ~x.ok \/ ~y.ok THEN NoMeaning
        ELSE LET e == LinAdd(x, LinNeg(y))
                 P == { z \in DOMAIN e.c : e.c[z] = QInt(1) }
                 N == { z \in DOMAIN e.c : e.c[z] = QInt(-1) }
                 k == QMul(QNeg(e.k), QInt(scale))
             IN  IF P \cup N # DOMAIN e.c \/ Cardinality(P) > 1 \/ Cardinality(N) > 1 THEN NoMeaning
                 ELSE IF k.d # 1 THEN Assert(FALSE, "constant not representable")
                 ELSE IF ~Fits(k.n) \/ \E w \in Weights(r, k.n) : ~Fits(w) THEN NoMeaning
                 ELSE [ ok |-> TRUE,
                        may |-> e.soft \/ (~real /\ ~QLeq(QAdd(e.b, QInt(2)), QInt(MaxInt))),
                        u |-> IF P = {} THEN "" ELSE CHOOSE z \in P : TRUE,
                        v |-> IF N = {} THEN "" ELSE CHOOSE z \in N : TRUE,
                        k |-> Int32(k.n) ]
=============================================================================
