------------------------------ MODULE MCReport ------------------------------
(* Data has a fault exactly when it is not valid, for all schemas of MCSchema *)
EXTENDS MCSchema, Reports
F(s, d) == Faults(<<>>, s, d)
Agrees == \A j \in 1..ND :
            LET d == Datas[j] IN
            /\ \A s \in IF Len(pick) < 2 THEN Forms(S0) ELSE {S0} : (F(s, d) = {}) <=> V(s, d)
            \* every place exists in the data
            /\ \A f \in F(m1(KItems, S0), VList(<<d, n(1)>>)) : f.d # <<>> /\ f.s[1] = EKey(KItems)
            \* alternatives that fail for the same reasons
            /\ LET both == F(m1(KAnyOf, VList(<<S0, S0>>)), d) IN
               IF V(S0, d) THEN both = {} ELSE /\ Cardinality(both) = 1
                                               /\ \A f \in both : /\ f.d = <<>> /\ Len(f.a) = 2
                                                                  /\ {g.d : g \in f.a[1]} = {g.d : g \in F(S0, d)}
                                                                  /\ {g.s : g \in f.a[2]} = {<<EKey(KAnyOf), EIdx(2)>> \o g.s : g \in F(S0, d)}
Step1 == \/ /\ ~done /\ Len(pick) < MaxKw
            /\ \E j \in 1..NS : /\ IF pick = <<>> THEN TRUE ELSE j > pick[Len(pick)]
                                /\ \A k \in 1..Len(pick) : KeysOf(Settings[pick[k]]) \cap KeysOf(Settings[j]) = {}
                                /\ pick' = Append(pick, j)
            /\ UNCHANGED done
=============================================================================
