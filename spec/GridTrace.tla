----------------------------- MODULE GridTrace ------------------------------
(* Validation of recordings of the real code against the grid specification. *)
(* Every recorded line is one action; a line that no action explains is      *)
(* reported and the next one is examined (the recordings are independent).   *)
EXTENDS Grid, Json
Recs == ndJsonDeserialize("trace.ndjson")
Want == JsonDeserialize("want.json")      \* what must have been recorded: kind -> number of records
VARIABLES l, rejected
vars == <<l, rejected>>

Numbering(r) ==
    LET s == r.shape  n == NumNodes(s)
        IsPos(p) == Len(p) = Len(s) /\ \A a \in 1..Len(s) : 0 <= p[a] /\ p[a] < s[a]
        \* one table node -> position, a bijection, and its inverse table (position, node)
        Table(t) == Len(t) = n /\ Distinct(t) /\ \A i \in 1..n : IsPos(t[i])
        Inverse(t, inv) == Len(inv) = n /\ \A i \in 1..n : LET e == inv[i] IN
            /\ Len(e) = Len(s) + 1
            /\ e[Len(s) + 1] \in Nodes(s)
            /\ t[e[Len(s) + 1] + 1] = SubSeq(e, 1, Len(s))
        Pad(p) == IF Len(p) = 2 THEN p \o <<0>> ELSE p
    IN /\ Table(r.pos) /\ r.gpos = r.pos
       /\ Inverse(r.pos, r.idx) /\ r.gidx = r.idx
       \* Set stored the k-th position's value at that position's node, and Get returns it
       /\ Len(r.data) = n
       /\ \A k \in 1..n : r.data[r.idx[k][Len(s) + 1] + 1] = 999 + k
       /\ \A k \in 1..n : r.get[k] = SubSeq(r.idx[k], 1, Len(s)) \o <<999 + k>>
       /\ r.copyok
       \* text files list the nodes with the same positions
       /\ Len(r.gcsv) = n /\ \A i \in 1..n : r.gcsv[i] = r.pos[i] \o <<6999 + i>>
       /\ Len(r.pcsv) = n /\ \A i \in 1..n : r.pcsv[i] = Pad(r.pos[i]) \o <<6999 + i, 6999 + i>>

Wraps(r) == \A i \in 1..Len(r.wraps) : r.wraps[i][2] = WrapPos(r.shape, r.wraps[i][1])

ProductSeq(r) ==
    /\ r.ended
    /\ Len(r.seq) = Product(r.end)
    /\ \A i \in 1..Len(r.seq) : /\ Len(r.seq[i]) = Len(r.end)
                                /\ \A a \in 1..Len(r.end) : 0 <= r.seq[i][a] /\ r.seq[i][a] < r.end[a]
    /\ \A i \in 1..Len(r.seq) - 1 : LexLess(r.seq[i], r.seq[i + 1])

Transform(r) ==
    LET s == r.shape  n == NumNodes(s)  d == Len(s) IN
    /\ r.exact /\ r.inverse /\ r.direct
    /\ Len(r.freq) = n /\ \A i \in 1..n : Len(r.freq[i]) = d /\ \A a \in 1..d : InBand(r.freq[i][a], s[a])
    /\ \A i \in 1..n : r.conj[i] \in Nodes(s)
        /\ SameFreq(s, r.freq[r.conj[i] + 1], [a \in 1..d |-> -r.freq[i][a]])
        /\ r.conj[r.conj[i] + 1] = i - 1
    /\ Len(r.peaks) = n
    /\ \A i \in 1..n : LET w == r.peaks[i] IN
        /\ w[d + 4] = 1 /\ w[d + 2] = n /\ w[d + 3] = 0
        /\ SameFreq(s, r.freq[w[d + 1] + 1], SubSeq(w, 1, d))

HalfSpaces(r) ==
    /\ r.uended /\ r.rended
    /\ Distinct(r.unique) /\ HalfSpace(r.shape, Range(r.unique))
    /\ Distinct(r.real) /\ Range(r.real) = SelfConjugate(r.shape)

MillerRec(r) ==
    /\ Distinct(r.eq) /\ Range(r.eq) = Equivalent(r.m)
    /\ Distinct(r.np) /\ Range(r.np) = SignEquivalent(r.m)
    /\ r.n3 = Cardinality(Equivalent(r.m)) /\ r.n3d = r.n3
    /\ r.n2 = Cardinality({e \in Equivalent(r.m) : e[3] = 0}) /\ r.n2d = r.n2

OctantRec(r) ==
    LET d == Len(r.x0)  want == {[a \in 1..d |-> s[a] * r.x0[a]] : s \in [1..d -> {-1, 1}]} IN
    /\ r.ended /\ Range(r.seq) = want /\ Len(r.seq) = 2 ^ d
    /\ \A p \in want : Cardinality({i \in 1..Len(r.seq) : r.seq[i] = p}) = 2 ^ Cardinality({a \in 1..d : r.x0[a] = 0})
    /\ r.single = <<0>>

VoronoiRec(r) == Len(r.data) = NumNodes(r.shape)
    /\ \A n \in Nodes(r.shape) : r.data[n + 1] + 1 = ClosestPoint(r.shape, r.pts, n)

DrawRec(r) ==
    LET got == Range(r.set)
        side(n) == Inside(r.name, r.size, Where(r.shape, r.trans, n), Len(r.shape))
        \* on the boundary: a box contains it, a ball does not; rotated positions are only known to rounding there
    IN /\ r.kept
       /\ \A n \in Nodes(r.shape) : LET s == side(n) IN
            IF s = 0 THEN Exact(r.trans) /\ r.name = "box" => n \in got
            ELSE (n \in got) <=> (s = 1)

(* half axes in halves; the middle is node N div 2 of every axis *)
Ellipsoid(N, h, i, j, k) == LET m == N \div 2  sq(x) == x * x IN
    4 * (sq((i - m) * h[2] * h[3]) + sq((j - m) * h[1] * h[3]) + sq((k - m) * h[1] * h[2])) - sq(h[1] * h[2] * h[3])
EllipsoidRec(r) == LET got == Range(r.set)  N == r.n IN
    /\ r.binary
    /\ \A i \in 0..N - 1 : \A j \in 0..N - 1 : \A k \in 0..N - 1 :
          LET e == Ellipsoid(N, r.ints, i, j, k) IN e # 0 => ((<<i, j, k>> \in got) <=> e < 0)

(* a composed transformation applied to points, in units of 1 / 2 ^ (number of translations and scalings) *)
AffineRec(r) == /\ r.exact /\ Len(r.to) = Len(r.ints) \div 3
                /\ \A i \in 1..Len(r.to) : r.to[i] = ApplyAll([num |-> SubSeq(r.ints, 3 * i - 2, 3 * i), den |-> 1], r.trans).num

BlurRec(r) ==
    /\ r.exact /\ r.same
    /\ \A n \in Nodes(r.shape) : r.after[n + 1] =
          IF r.kernel = <<>> THEN BlurBox(r.shape, r.before, r.width, n)
                             ELSE BlurKernel(r.shape, r.before, r.kernel, r.cutoff, n)
    /\ Sum(r.after) = r.weight * Sum(r.before)

(* A known deviation of the code, recorded in known_findings.json: the box   *)
(* kernel covers the half width w or w/2+1 (the smaller) instead of w/2.     *)
KnownHalfWidth(w) == Min2(w, (w \div 2) + 1)
KnownWideBox(r) == /\ r.ok /\ r.kind = "blur" /\ r.kernel = <<>> /\ r.same
    /\ \A n \in Nodes(r.shape) : r.after2[n + 1] =
          SumOver(Offsets(Len(r.shape), KnownHalfWidth(r.width)), r.shape, r.before, PosOf(r.shape, n), <<>>, 0)

Accept(r) == /\ r.ok
             /\ CASE r.kind = "numbering" -> Numbering(r)
                  [] r.kind = "wrap" -> Wraps(r)
                  [] r.kind = "product" -> ProductSeq(r)
                  [] r.kind = "fft" -> Transform(r)
                  [] r.kind = "iter" -> HalfSpaces(r)
                  [] r.kind = "miller" -> MillerRec(r)
                  [] r.kind = "octant" -> OctantRec(r)
                  [] r.kind = "voronoi" -> VoronoiRec(r)
                  [] r.kind = "draw" -> DrawRec(r)
                  [] r.kind = "ellipsoid" -> EllipsoidRec(r)
                  [] r.kind = "affine" -> AffineRec(r)
                  [] r.kind = "blur" -> BlurRec(r)

Init == l = 1 /\ rejected = 0
Match == /\ l <= Len(Recs) /\ Accept(Recs[l])
         /\ l' = l + 1 /\ UNCHANGED rejected
Reject == /\ l <= Len(Recs) /\ ~Accept(Recs[l])
          /\ PrintT("@@REJECT " \o ToJson([line |-> l, wide |-> KnownWideBox(Recs[l])]))
          /\ l' = l + 1 /\ rejected' = rejected + 1
Next == Match \/ Reject
Spec == Init /\ [][Next]_vars
(* every line was consumed and every requested kind is present in full *)
Consumed == /\ TLCGet("stats").diameter = Len(Recs) + 1
            /\ \A k \in DOMAIN Want : Cardinality({i \in 1..Len(Recs) : Recs[i].kind = k}) = Want[k]
=============================================================================
