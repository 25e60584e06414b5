------------------------------- MODULE ImageMC -------------------------------
(* Histories of a grid: filled, crystals drawn on it, turned, tilted.         *)
EXTENDS Image, Json, Randomization
CONSTANTS Gen, MaxOps
VARIABLES shape, img, ops, n
vars == <<shape, img, ops, n>>
R(S) == RandomElement({x \in S : n >= 0})
Angles == {<<1, 0, 1>>, <<0, 1, 1>>, <<0, -1, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<4, -3, 5>>, <<-3, 4, 5>>, <<12, 5, 13>>, <<-5, -12, 13>>, <<24, 7, 25>>}
Us(s) == IF Len(s) = 2 THEN {<<0, 0>>, <<1, 1>>, <<4, 8>>, <<8, 4>>, <<5, 5>>, <<-2, 0>>, <<6, 6>>, <<9, 3>>} ELSE {<<0, 0, 0>>, <<1, 1, 1>>, <<2, 4, 6>>, <<8, 0, 4>>, <<5, 7, 3>>, <<-4, 0, 2>>}
CellsOf(s) == {[cell |-> k, a |-> a, C |-> C, basis |-> b] : k \in (IF Len(s) = 2 THEN {"sc"} ELSE {"sc", "fcc", "bcc"}), a \in {4, 6, 8}, C \in 1..4,
    b \in {<<u>> : u \in Us(s)} \cup {<<u, v>> : u \in Us(s), v \in Us(s)}}
Fits(s, c) == (\A k \in DOMAIN s : s[k] % c.a = 0) /\ (\A i, j \in DOMAIN c.basis : i # j => c.basis[i] # c.basis[j]) /\ Apart(s, c)
ShapesMC == {<<4, 4>>, <<4, 8>>, <<4, 4, 8>>}
ShapesGen == {<<8, 8>>, <<8, 12>>, <<12, 8>>, <<9, 7>>, <<7, 10>>, <<16, 8>>, <<24, 12>>, <<6, 18>>, <<1, 5>>, <<8, 8, 8>>, <<8, 4, 12>>, <<12, 6, 6>>, <<4, 8, 8>>, <<8, 16, 8>>}
Fill == [i \in 1..NumNodes(shape) |-> 1000 + i]
None == [op |-> "fill", c |-> <<>>, t |-> <<>>]
Init == shape = <<>> /\ img = <<>> /\ ops = <<>> /\ n = 0
Start == /\ n = 0 /\ \E s \in (IF Gen THEN {R(ShapesGen)} ELSE ShapesMC) : shape' = s /\ img' = [i \in 1..NumNodes(s) |-> 1000 + i]
         /\ n' = 1 /\ ops' = <<>>
Do(o, im) == n > 0 /\ n <= MaxOps /\ n' = n + 1 /\ img' = im /\ ops' = Append(ops, o) /\ UNCHANGED shape
Refill == Do(None, Fill)
Cand == {c \in CellsOf(shape) : \A k \in DOMAIN shape : shape[k] % c.a = 0}
Pick(S) == IF Gen THEN RandomSubset(IF Cardinality(S) < 12 THEN Cardinality(S) ELSE 12, {x \in S : n >= 0}) ELSE S
Build == n > 0 /\ LET S == {c \in Pick(Cand) : Fits(shape, c)} IN S # {} /\ \E c \in (IF Gen THEN {R(S)} ELSE S) : Do([op |-> "build", c |-> c, t |-> <<>>], IF Gen THEN img ELSE Built(shape, c, img, FALSE))
Turn(op) == n > 0 /\ Len(shape) = 2 /\ \E t \in (IF Gen THEN {R(Angles)} ELSE Angles) : Do([op |-> op, c |-> <<>>, t |-> t], IF Gen THEN img ELSE [i \in 1..Len(img) |-> img[1 + Exactly(shape, t, i - 1)]])
Other == n > 0 /\ \E o \in (IF Gen THEN {R({"copy", "csv", "complex"})} ELSE {}) : Do([op |-> o, c |-> <<>>, t |-> <<>>], img)
Wrong == n > 0 /\ Gen /\ Len(shape) = 3 /\ \E o \in {R({"turn", "tilt"})} : Do([op |-> o, c |-> <<>>, t |-> <<3, 4, 5>>], img)
Next == Start \/ (Gen /\ Refill) \/ Build \/ Turn("turn") \/ (Gen /\ (Turn("tilt") \/ Other \/ Wrong))
Spec == Init /\ [][Next]_vars
(* ---- properties ---- *)
(* a crystal has the translations of its cell, also across the border, and every atom has its C ^ d nodes *)
Periodic == n > 0 => \A c \in {x \in CellsOf(shape) : Len(x.basis) = 1 /\ Fits(shape, x)} :
    LET b == Built(shape, c, [i \in 1..NumNodes(shape) |-> 0], FALSE)
        move(i, k) == 1 + Node(shape, WrapPos(shape, [PosOf(shape, i - 1) EXCEPT ![k] = @ + c.a]))
    IN /\ \A i \in DOMAIN b : \A k \in DOMAIN shape : b[move(i, k)] = b[i]
       /\ Cardinality({i \in DOMAIN b : b[i] # 0}) = Cardinality(Atoms(shape, c)) * Product([k \in DOMAIN shape |-> c.C])
(* nothing differs from the known behaviour away from the border *)
OnlyBorder == n > 0 => \A c \in {x \in CellsOf(shape) : Len(x.basis) = 1 /\ Fits(shape, x)} :
    (\A x \in Atoms(shape, c) : \A k \in DOMAIN shape : x[k] - c.C + 1 >= 0) => Built(shape, c, Fill, TRUE) = Built(shape, c, Fill, FALSE)
(* the place a node is taken from is among the nodes allowed; the centre stays; turning there and back comes home up to two spacings *)
Sound == (n > 0 /\ Len(shape) = 2) => \A t \in Angles : \A m \in Nodes(shape) : Exactly(shape, t, m) \in Sources(shape, t, m)
Fixed == (n > 0 /\ Len(shape) = 2) => \A t \in Angles : Exactly(shape, t, Node(shape, Centre(shape))) = Node(shape, Centre(shape))
Quarters == (n > 0 /\ Len(shape) = 2 /\ shape[1] = shape[2]) => \A m \in Nodes(shape) :
    LET q == <<0, 1, 1>> IN Exactly(shape, Back(q), Exactly(shape, q, m)) = m
Accepts == (n > 0 /\ Len(shape) = 2) => \A t \in Angles : Turned(shape, t, img, [i \in 1..Len(img) |-> img[1 + Exactly(shape, t, i - 1)]])
Emit == (Gen /\ n = MaxOps + 1) => PrintT("@@I " \o ToJson([shape |-> shape, ops |-> ops]))
=============================================================================
