------------------------------ MODULE MC_Mapping ------------------------------
(* Laws for every layout on a small grid of 2x2-pixel modules with gaps: the row   *)
(* of a pixel is the rank of its y among those of a complete column, and a group  *)
(* of k x k aligned pixels has one coarse row and column and its centre as mean.  *)
EXTENDS Mapping
CONSTANTS R, C, P, G
VARIABLES mods
ASSUME R >= 1 /\ C >= 1
Init == mods \in SUBSET ((0..(R - 1)) \X (0..(C - 1))) /\ mods # {}
Next == UNCHANGED mods
Spec == Init /\ [][Next]_mods
Pix == {[row |-> 2 * m[1] + i, col |-> 2 * m[2] + j, y |-> (2 * m[1] + i) * P + m[1] * G, x |-> (2 * m[2] + j) * P + m[2] * G, mod |-> m] :
        m \in mods, i \in 0..1, j \in 0..1}
FullCol == \E c \in 0..(2 * C - 1) : Cardinality({p \in Pix : p.col = c}) = 2 * R
FullRow == \E r \in 0..(2 * R - 1) : Cardinality({p \in Pix : p.row = r}) = 2 * C
\* number of pixels of the fullest column that lie below
Ranks == (FullCol /\ FullRow) =>
         LET fc == CHOOSE c \in 0..(2 * C - 1) : \A d \in 0..(2 * C - 1) : Cardinality({p \in Pix : p.col = c}) >= Cardinality({p \in Pix : p.col = d})
             fr == CHOOSE r \in 0..(2 * R - 1) : \A d \in 0..(2 * R - 1) : Cardinality({p \in Pix : p.row = r}) >= Cardinality({p \in Pix : p.row = d})
         IN \A p \in Pix : /\ p.row = Cardinality({z \in Pix : z.col = fc /\ z.y <= p.y}) - 1
                           /\ p.col = Cardinality({z \in Pix : z.row = fr /\ z.x <= p.x}) - 1
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET v == CHOOSE v \in S : TRUE IN v[2] + Sum(S \ {v})
Centre == \A m \in mods : LET g == {p \in Pix : p.mod = m}
                          IN /\ {p.row \div 2 : p \in g} = {m[1]}
                             /\ Sum({<<<<p.row, p.col>>, p.x>> : p \in g}) = 4 * (2 * m[2] * P + m[2] * G) + 2 * P
=============================================================================
