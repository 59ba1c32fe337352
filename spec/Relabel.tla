------------------------------ MODULE Relabel -------------------------------
EXTENDS Mbqc

(* The new label of a node under a (partial) relabelling: a sequence of pairs          *)
(* <<old label, new label>>.                                                           *)
Label(map_, v_) ==
  IF \E a_ \in DOMAIN map_ : map_[a_][1] = v_
  THEN map_[CHOOSE a_ \in DOMAIN map_ : map_[a_][1] = v_][2]
  ELSE v_

RelabelledOrder(order_, map_) ==
  [l_ \in DOMAIN order_ |->
     [j_ \in DOMAIN order_[l_] |->
        <<Label(map_, order_[l_][j_][1]),
          [d_ \in DOMAIN order_[l_][j_][2] |-> Label(map_, order_[l_][j_][2][d_])]>>]]
=============================================================================
