------------------------------ MODULE MC_Simtel ------------------------------
(* For every numbering of a simulated camera: re-ordering puts every simulated       *)
(* pixel at the camera pixel of its position, and reading twice is harmless.          *)
EXTENDS Simtel
CONSTANTS NPix
VARIABLES at, cam
Cells == [p \in 1..NPix |-> <<(p - 1) \div 2, (p - 1) % 2>>]
Perms == {f \in [1..NPix -> 1..NPix] : \A i, j \in 1..NPix : i # j => f[i] # f[j]}
Init == \E f, g \in Perms : at = [j \in 1..NPix |-> Cells[f[j]]] /\ cam = [j \in 1..NPix |-> Cells[g[j]]]
Next == UNCHANGED <<at, cam>>
Spec == Init /\ [][Next]_<<at, cam>>
O == OrderOf(at, cam)
Positions == \A p \in 1..NPix : at[O[p]] = cam[p]
EachOnce == {O[p] : p \in 1..NPix} = 1..NPix
Inverse == \A p \in 1..NPix : OrderOf(cam, at)[O[p]] = p
=============================================================================
