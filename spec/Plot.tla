-------------------------------- MODULE Plot --------------------------------
(* Tables of field values by position, as exported from the database, and the *)
(* pictures the command line program draws of them: the values along a line   *)
(* parallel to an axis, and the values in a plane.                            *)
(*   a table: [dims |-> <<nx, ny, nz>>, names |-> field names,                *)
(*             rows |-> sequence of [p |-> <<x, y, z>>, v |-> values]]        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Positions(d) == {<<x, y, z>> : x \in 0..d[1] - 1, y \in 0..d[2] - 1, z \in 0..d[3] - 1}
(* a table has one row for every position *)
IsTable(t) == /\ Len(t.rows) = Cardinality(Positions(t.dims))
              /\ {t.rows[i].p : i \in DOMAIN t.rows} = Positions(t.dims)
              /\ \A i \in DOMAIN t.rows : Len(t.rows[i].v) = Len(t.names)
(* a question for a line: the coordinates given, -1 for the one that was not *)
Given(q) == {k \in 1..3 : q[k] # -1}
Answerable(q) == Cardinality(Given(q)) = 2
Axis(q) == CHOOSE k \in 1..3 : k \notin Given(q)
(* the points <<coordinate, value>> of field f on the line, in the order along the line *)
Line(t, q, f) ==
    LET on == SelectSeq(t.rows, LAMBDA r : \A k \in Given(q) : r.p[k] = q[k])
    IN SortSeq([i \in DOMAIN on |-> <<on[i].p[Axis(q)], on[i].v[f]>>], LAMBDA a, b : a[1] < b[1])
(* the rows of the line come in the order along the line, as they do in tables exported from grids *)
Along(t, q) == LET on == SelectSeq(t.rows, LAMBDA r : \A k \in Given(q) : r.p[k] = q[k]) IN \A i \in 1..Len(on) - 1 : on[i].p[Axis(q)] < on[i + 1].p[Axis(q)]
(* a table of a plane: the value of field f drawn at column x and height y *)
Flat(t) == t.dims[3] = 1
ValueAt(t, p, f) == LET i == CHOOSE i \in DOMAIN t.rows : t.rows[i].p = p IN t.rows[i].v[f]
Picture(t, f) == [x \in 1..t.dims[1] |-> [y \in 1..t.dims[2] |-> ValueAt(t, <<x - 1, y - 1, 0>>, f)]]
(* the field chosen by name, the first one when none is named *)
Chosen(t, name) == IF name = "" THEN 1 ELSE CHOOSE f \in DOMAIN t.names : t.names[f] = name
(* the fields of a comma separated list, all when none is given *)
Selected(t, list) == IF list = <<>> THEN [f \in DOMAIN t.names |-> f] ELSE [i \in DOMAIN list |-> Chosen(t, list[i])]
(* rows in the order in which grids are stored: the last coordinate runs fastest *)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Orderly(t) == \A i \in 1..Len(t.rows) - 1 : Before(t.rows[i].p, t.rows[i + 1].p)
=============================================================================
