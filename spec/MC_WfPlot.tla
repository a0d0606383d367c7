------------------------------ MODULE MC_WfPlot ------------------------------
(* For every arrangement of modules on the grid and every numbering of them: panels  *)
(* do not collide and mirror the module's position with row 0 at the bottom.         *)
EXTENDS WfPlot
CONSTANTS Side, NR, NC
VARIABLES order
Cells == (0..NR - 1) \X (0..NC - 1)
Init == order \in UNION {{f \in [1..n -> Cells] : \A i, j \in 1..n : i # j => f[i] # f[j]} : n \in 1..3}
Next == FALSE /\ order' = order
Spec == Init /\ [][Next]_order
NT == Side * Side
Cam == [cam |-> [p \in 1..Len(order) * NT |-> LET m == (p - 1) \div NT + 1
                                                 t == (p - 1) % NT
                                             IN <<(order[m][1] * Side) + (t \div Side), (order[m][2] * Side) + (t % Side)>>],
        slot |-> [p \in 1..Len(order) * NT |-> (p - 1) \div NT], rows |-> NR * Side, cols |-> NC * Side, side |-> Side, tmpix |-> NT]
P == Panels(Cam, "tm")
Placed == \A m \in 1..Len(order) : P[m] = <<m - 1, NR - 1 - order[m][1], order[m][2]>>
Separate == \A m, n \in 1..Len(order) : m # n => <<P[m][2], P[m][3]>> # <<P[n][2], P[n][3]>>
\* with 6x6 modules every module is outlined all around and nowhere inside
Grid6 == [cam |-> [p \in 1..144 |-> <<(p - 1) \div 12, (p - 1) % 12>>], rows |-> 12, cols |-> 12]
Outlines == \A p \in 1..144 : LET o == Outline(Grid6, p)
                                  y == Grid6.cam[p][1]
                                  x == Grid6.cam[p][2]
                              IN /\ o[1] = ((x = 0) \/ (x - 1) \div 2 # x \div 2)
                                 /\ o[2] = ((x + 1) \div 2 # x \div 2)
                                 /\ o[3] = ((y = 0) \/ (y - 1) \div 2 # y \div 2)
                                 /\ o[4] = ((y + 1) \div 2 # y \div 2)
=============================================================================
