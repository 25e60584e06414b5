From 3eeb3c6ba5c07fa725bea1bd75d4223f9aefba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:05 +0000
Subject: [PATCH 01/61] fix: plan 3D transforms in the order the nodes are
 numbered

For 3D domains with unequal sides the FFTW plan used (n0, n1, n2) although the
data is laid out with the third dimension slowest, so the transform did not match
Freq, ConjugateNode and NodeIdx.
---
 pfutil/fftWrap.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pfutil/fftWrap.go b/pfutil/fftWrap.go
index 6595fef..044fd1c 100644
--- a/pfutil/fftWrap.go
+++ b/pfutil/fftWrap.go
@@ -16,8 +16,15 @@ type FFTWWrapper struct {
 func NewFFTW(n []int) *FFTWWrapper {
 	var transform FFTWWrapper
 	transform.Data = make([]complex128, ProdInt(n))
-	transform.PlanFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, -1, fftw.MEASURE)
-	transform.PlanIFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, 1, fftw.MEASURE)
+
+	// FFTW expects the slowest varying dimension first. In 3D the nodes are numbered
+	// with the last dimension as the slowest one (see NodeIdx)
+	planDims := n
+	if len(n) == 3 {
+		planDims = []int{n[2], n[0], n[1]}
+	}
+	transform.PlanFFT = fftw.PlanZ2Z(planDims, transform.Data, transform.Data, -1, fftw.MEASURE)
+	transform.PlanIFFT = fftw.PlanZ2Z(planDims, transform.Data, transform.Data, 1, fftw.MEASURE)
 	transform.Dimensions = n
 	return &transform
 }
-- 
2.43.0


From 41663fcfbe549dd3904f87b2eaf828210a2662be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:05 +0000
Subject: [PATCH 02/61] fix: count equivalent planes correctly when the first
 and last index agree

NumEquivalent3D counted twice the number of planes for indices such as (1, 0, 1).
---
 pfc/miller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/miller.go b/pfc/miller.go
index 0a7d334..e7d90d8 100644
--- a/pfc/miller.go
+++ b/pfc/miller.go
@@ -60,7 +60,7 @@ func NumEquivalent3D(miller Miller) int {
 	if abs(miller.K) == abs(miller.H) {
 		numEqual++
 	}
-	if abs(miller.L) == abs(miller.K) {
+	if abs(miller.L) == abs(miller.K) || abs(miller.L) == abs(miller.H) {
 		numEqual++
 	}
 
-- 
2.43.0


From 835b8b62a8a0c5fd3d38fd8490d8b12d58266bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:05 +0000
Subject: [PATCH 03/61] fix: do not carry the out-of-plane coordinate from node
 to node when drawing in 2D

With a transformation that involves the third coordinate, the transformed position
of a node depended on the previously visited node.
---
 pfutil/shapes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pfutil/shapes.go b/pfutil/shapes.go
index d916d33..4ee1622 100644
--- a/pfutil/shapes.go
+++ b/pfutil/shapes.go
@@ -107,6 +107,7 @@ func Draw(shape Shape, grid *Grid, transformation *Affine, value float64) {
 	floatPos := make([]float64, 3)
 	for i := range grid.Data {
 		pos := grid.Pos(i)
+		floatPos[2] = 0.0
 		for j := range pos {
 			floatPos[j] = float64(pos[j])
 		}
-- 
2.43.0


From 919112c77a53561b79dfbb5cc4d911d63890f91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 04/61] fix: number the rows of the position table by node
 number

The ids of the position table were assigned by SQLite and started at one, while
fields.positionId holds the node number, so every stored value referred to the
position of the preceding node.
---
 pf/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 160a9d9..e2937dc 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -180,13 +180,13 @@ func (fdb *FieldDB) populatePositionsTable() {
 	for i := 0; i < numNodes; i++ {
 		pos := pfutil.Pos(fdb.DomainSize, i)
 		copy(pos3, pos)
-		statement, err := tx.Prepare("INSERT INTO positions (X, Y, Z) VALUES (?, ?, ?)")
+		statement, err := tx.Prepare("INSERT INTO positions (id, X, Y, Z) VALUES (?, ?, ?, ?)")
 
 		if err != nil {
 			tx.Rollback()
 			return
 		}
-		_, err = statement.Exec(pos3[0], pos3[1], pos3[2])
+		_, err = statement.Exec(i, pos3[0], pos3[1], pos3[2])
 
 		if err != nil {
 			tx.Rollback()
-- 
2.43.0


From 2d04764f0bafd9b34a76da16746535de7c249269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 05/61] fix: do not populate the position table of a one-node
 domain twice

---
 pf/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/database.go b/pf/database.go
index e2937dc..10d1863 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -165,7 +165,7 @@ func (fdb *FieldDB) positionTableIsPopulated() bool {
 	for result.Next() {
 		result.Scan(&numRows)
 	}
-	return numRows > 1
+	return numRows > 0
 }
 
 // populatePositionTables inserts values into the position table
-- 
2.43.0


From aec4a0321875a2eeaf259ad37fd5b63cb63dd9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 06/61] fix: refuse to store a 2D domain in the database of a
 3D domain

The third dimension was not compared when the handle has a 2D domain.
---
 pf/database.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 10d1863..7f2db91 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -351,7 +351,11 @@ func (fdb *FieldDB) domainSizeOk() bool {
 
 	columns := []string{"X", "Y", "Z"}
 
-	for i := 0; i < len(fdb.DomainSize); i++ {
+	for i := range columns {
+		size := 1
+		if i < len(fdb.DomainSize) {
+			size = fdb.DomainSize[i]
+		}
 		sqlStr := fmt.Sprintf("SELECT MAX(%s) FROM positions", columns[i])
 		rows, err := fdb.DB.Query(sqlStr)
 		if err != nil {
@@ -363,7 +367,7 @@ func (fdb *FieldDB) domainSizeOk() bool {
 		for rows.Next() {
 			rows.Scan(&maxval)
 		}
-		if maxval != fdb.DomainSize[i]-1 {
+		if maxval != size-1 {
 			return false
 		}
 	}
-- 
2.43.0


From 9276ad30546307533df39928483f5e4f98a89063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 07/61] fix: load NaN values from the database as NaN

NaN is stored as NULL, and scanning NULL failed silently so that the value was
loaded as zero.
---
 pf/database.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 7f2db91..50ba1d5 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"fmt"
 	"log"
+	"math"
 	"math/rand"
 	"strings"
 	"time"
@@ -405,11 +406,16 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 
 	rows, err = fdb.DB.Query("SELECT name, value, positionId FROM fields "+
 		"WHERE simID=? AND timestep=?", simID, timestep)
-	var value float64
+	var value sql.NullFloat64
 	var positionID int
 	for rows.Next() {
 		rows.Scan(&name, &value, &positionID)
-		fields[name].Data[positionID] = complex(value, 0.0)
+
+		// SQLite stores NaN as NULL
+		if !value.Valid {
+			value.Float64 = math.NaN()
+		}
+		fields[name].Data[positionID] = complex(value.Float64, 0.0)
 	}
 
 	fieldArray := make([]Field, len(fieldNames))
-- 
2.43.0


From 4961d0087b6a1f79e0c53d8219eaf44e387a6dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:10 +0000
Subject: [PATCH 08/61] fix: parse the factors of a term as whole names

Names were searched for as fragments of the text of a term. A name that is part of
another name, names shorter than three characters, repeated factors, products
with registered functions, constants sorted between two fields and constants
directly after LAP were dropped, misread or crashed.
---
 pf/model.go      |  29 ++++++++---
 pf/rhsBuilder.go | 130 ++++++++++++++++++++++++++++++-----------------
 pf/util.go       |  50 +++++++++---------
 3 files changed, 128 insertions(+), 81 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index 140d220..81104f2 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -171,22 +171,20 @@ func (m *Model) UpdateDerivedFields(eq string) {
 	}
 
 	field := fieldNameFromLeibniz(strings.Split(eq, "=")[0])
-	fieldNames := make([]string, len(m.Fields))
-	for i := range m.Fields {
-		fieldNames[i] = m.Fields[i].Name
+	variables := m.variables()
+	fieldNames := make([]string, len(variables))
+	for i := range variables {
+		fieldNames[i] = variables[i].Name
 	}
 
 	for i := range splitted {
-		if m.IsUserDefinedTerm(splitted[i]) {
-			continue
-		}
 		newFields := SortFactors(GetNonLinearFieldExpressions(splitted[i], field, fieldNames))
 
 		if newFields != "" && !m.IsFieldName(newFields) {
 			dField := DerivedField{
 				Data: make([]complex128, len(m.Fields[0].Data)),
 				Name: newFields,
-				Calc: DerivedFieldCalcFromDesc(newFields, m.Fields),
+				Calc: DerivedFieldCalcFromDesc(newFields, variables),
 			}
 			m.DerivedFields = append(m.DerivedFields, dField)
 			m.Bricks[newFields] = &dField
@@ -194,6 +192,18 @@ func (m *Model) UpdateDerivedFields(eq string) {
 	}
 }
 
+// variables returns the fields and the registered functions (e.g. everything that can be multiplied
+// together in a product that needs a separate FFT)
+func (m *Model) variables() []Field {
+	variables := m.Fields[:len(m.Fields):len(m.Fields)]
+	for _, d := range m.DerivedFields {
+		if !strings.ContainsAny(d.Name, "*^") {
+			variables = append(variables, Field{Name: d.Name, Data: d.Data})
+		}
+	}
+	return variables
+}
+
 // AllFieldNames returns all field names (including derived fields)
 func (m *Model) AllFieldNames() []string {
 	names := make([]string, len(m.Fields)+len(m.DerivedFields))
@@ -243,6 +253,11 @@ func (m *Model) SyncDerivedFields() {
 // Init prepares the model
 func (m *Model) Init() {
 	m.RHS = m.RHS[:0]
+
+	// Fields and functions can be registered after the equations that contain them
+	for _, eq := range m.Equations {
+		m.UpdateDerivedFields(eq)
+	}
 	for _, eq := range m.Equations {
 		m.RHS = append(m.RHS, Build(eq, m))
 	}
diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 16b2ca8..972ccc3 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -33,8 +33,12 @@ func Build(eq string, m *Model) RHS {
 	termsStr := SplitOnMany(sides[1], []string{"+", "-"})
 	var rhs RHS
 	for _, t := range termsStr {
-		name := removeKnownPrefixes(t.SubString)
-		prefixes := getKnownPrefixes(t.SubString)
+		lapPower, factors := splitFactors(t.SubString)
+		name := strings.Join(factors, "*")
+		prefixes := []string{}
+		for i := 0; i < lapPower; i++ {
+			prefixes = append(prefixes, "LAP")
+		}
 		prefixes = append(prefixes, t.PreceedingDelimiter)
 		if m.IsImplicitTerm(name) {
 			rhs.Denum = append(rhs.Denum, constructFunc(m.ImplicitTerms[name].Construct(m.Bricks), prefixes))
@@ -44,7 +48,7 @@ func Build(eq string, m *Model) RHS {
 			rhs.Denum = append(rhs.Denum, constructFunc(m.MixedTerms[name].ConstructLinear(m.Bricks), prefixes))
 			rhs.Terms = append(rhs.Terms, constructFunc(m.MixedTerms[name].ConstructNonLinear(m.Bricks), prefixes))
 		} else if isBilinear(t.SubString, field, m.AllFieldNames()) {
-			t.SubString = strings.Replace(t.SubString, field, "", -1)
+			t.SubString = removeFactor(t.SubString, field)
 			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
 		} else {
 			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
@@ -65,44 +69,73 @@ func fieldNameFromLeibniz(leibniz string) string {
 	return leibniz[1 : len(leibniz)-3]
 }
 
-// isBilinear checks if the term given is bilinear in the passed field
-func isBilinear(term string, field string, fieldNames []string) bool {
-	fieldReg := regexp.MustCompile(field)
-	resCount := fieldReg.FindAllStringIndex(term, -1)
-	if len(resCount) != 1 {
-		return false
-	}
+// lapPrefix matches a leading laplacian operator, optionally raised to a power
+var lapPrefix = regexp.MustCompile("^LAP(\\^(\\d+))?")
 
-	// Check if any of ther other fields are present. In that case, the term
-	// will not be linear in the fourier domain
-	for _, f := range fieldNames {
-		if f == field {
-			continue
+// splitFactors splits a term into its factors. Leading laplacian operators are removed from
+// the factors, and their total power is returned as the first value
+func splitFactors(term string) (int, []string) {
+	lapPower := 0
+	factors := []string{}
+	for _, f := range strings.Split(strings.Replace(term, " ", "", -1), "*") {
+		for match := lapPrefix.FindStringSubmatch(f); match != nil; match = lapPrefix.FindStringSubmatch(f) {
+			power := 1
+			if match[2] != "" {
+				power, _ = strconv.Atoi(match[2])
+			}
+			lapPower += power
+			f = f[len(match[0]):]
 		}
-		r := regexp.MustCompile(f)
-		count := r.FindAllStringIndex(term, -1)
-		if len(count) > 0 {
-			return false
+		if f != "" {
+			factors = append(factors, f)
 		}
 	}
+	return lapPower, factors
+}
 
-	// Match the field name until * or / is found
-	regIncludingPowers := regexp.MustCompile(field + "*[^/\\*]*")
-	res := regIncludingPowers.FindString(term)
+// factorName returns the name of a factor (e.g. the part that preceeds the power)
+func factorName(factor string) string {
+	return strings.SplitN(factor, "^", 2)[0]
+}
 
-	// Extract an power (if exists) (the number after ^)
-	regPower := regexp.MustCompile("\\^(-?\\d+\\.?\\d*)")
-	strPower := regPower.FindStringSubmatch(res)
-	if len(strPower) <= 1 {
-		return true
+// removeFactor returns the term without the factor with the passed name
+func removeFactor(term string, name string) string {
+	lapPower, factors := splitFactors(term)
+	remaining := []string{}
+	if lapPower > 0 {
+		remaining = append(remaining, fmt.Sprintf("LAP^%d", lapPower))
 	}
-	power, err := strconv.ParseFloat(strPower[1], 64)
+	for _, f := range factors {
+		if factorName(f) != name {
+			remaining = append(remaining, f)
+		}
+	}
+	return strings.Join(remaining, "*")
+}
 
-	if err != nil || math.Abs(power-1.0) < 1e-10 {
-		// No power or equal to 1
-		return true
+// isBilinear checks if the term given is bilinear in the passed field
+func isBilinear(term string, field string, fieldNames []string) bool {
+	_, factors := splitFactors(term)
+	count := 0
+	for _, f := range factors {
+		name := factorName(f)
+		if name == field {
+			count++
+			if math.Abs(GetPower(f)-1.0) > 1e-10 {
+				return false
+			}
+			continue
+		}
+
+		// Check if any of ther other fields are present. In that case, the term
+		// will not be linear in the fourier domain
+		for _, n := range fieldNames {
+			if n == name {
+				return false
+			}
+		}
 	}
-	return false
+	return count == 1
 }
 
 // ValidName returns true if the parser knows how to parse it
@@ -115,9 +148,7 @@ func ValidName(name string, model *Model) bool {
 		}
 	}
 
-	if nameStripped[:3] == "LAP" {
-		nameStripped = nameStripped[3:]
-	}
+	nameStripped = strings.TrimPrefix(nameStripped, "LAP")
 	return model.IsBrickName(nameStripped) || model.IsFieldName(nameStripped)
 }
 
@@ -129,32 +160,35 @@ func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 		sign = -1.0
 	}
 
-	fieldReg := regexp.MustCompile("[^\\*]*")
-	res := fieldReg.FindAllStringSubmatch(term, -1)
+	lapPower, factors := splitFactors(term)
 
 	brickNames := []string{}
 	powers := []float64{}
+	numFieldFactors := 0
 
-	nameNoPow := regexp.MustCompile("^[^\\^]*")
-	for i := range res {
-		name := nameNoPow.FindString(res[i][0])
+	for _, f := range factors {
+		name := factorName(f)
 
-		if !m.IsFieldName(name) && m.IsBrickName(name) {
+		if m.IsFieldName(name) {
+			numFieldFactors++
+		} else if m.IsBrickName(name) {
 			brickNames = append(brickNames, name)
-			powers = append(powers, GetPower(res[i][0]))
-		} else if !ValidName(name, m) {
+			powers = append(powers, GetPower(f))
+		} else {
 			msg := fmt.Sprintf("rhsBuilder: Name %s is not defined!", name)
 			panic(msg)
 		}
 	}
 
-	fieldName := GetFieldName(SortFactors(term), m.AllFieldNames())
+	fieldName := GetFieldName(term, m.AllFieldNames())
+	if fieldName == "" && numFieldFactors > 0 {
+		msg := fmt.Sprintf("rhsBuilder: No derived field is registered for the product of fields in %s!", term)
+		panic(msg)
+	}
 
-	if strings.Contains(term, "LAP") {
+	if lapPower > 0 {
 		// Term with Laplace operator
-		lapWithPowReg := regexp.MustCompile("LAP*[^a-zA-Z]*")
-		res := lapWithPowReg.FindString(term)
-		lap := LaplacianN{Power: int(GetPower(res))}
+		lap := LaplacianN{Power: lapPower}
 		return func(freq Frequency, t float64, field []complex128) {
 			for i := range field {
 				field[i] = complex(sign, 0.0)
diff --git a/pf/util.go b/pf/util.go
index 20af17b..189b770 100644
--- a/pf/util.go
+++ b/pf/util.go
@@ -15,22 +15,19 @@ import (
 // GetNonLinearFieldExpressions returns constructions that must be FFT separateley. Note
 // that if the expression is bilinear in field, field is omitted from the returned expression
 func GetNonLinearFieldExpressions(pattern string, field string, fieldNames []string) string {
-	expr := ""
+	expr := []string{}
+	_, factors := splitFactors(pattern)
 	for i := range fieldNames {
 		if fieldNames[i] == field && isBilinear(pattern, field, fieldNames) {
 			continue
 		}
-		regField := regexp.MustCompile(fieldNames[i] + "[^\\*]*")
-		res := regField.FindString(pattern)
-		if res != "" {
-			expr += res + "*"
+		for _, f := range factors {
+			if factorName(f) == fieldNames[i] {
+				expr = append(expr, f)
+			}
 		}
 	}
-
-	if len(expr) > 1 {
-		return expr[:len(expr)-1]
-	}
-	return expr
+	return strings.Join(expr, "*")
 }
 
 // DerivedFieldCalcFromDesc returns a derived field calculator based on its description
@@ -81,26 +78,27 @@ func GetPower(pattern string) float64 {
 
 // GetFieldName returns the field name of a term.
 func GetFieldName(term string, fieldNames []string) string {
-	field := ""
+	_, factors := splitFactors(term)
+	known := make(map[string]bool)
 	for _, f := range fieldNames {
-		if strings.Contains(term, f) {
-			// Check that there are no other matches
-			withoutField := strings.Replace(term, f, "", -1)
-
-			ok := true
-			for _, f1 := range fieldNames {
-				if strings.Contains(withoutField, f1) {
-					ok = false
-					break
-				}
-			}
+		known[f] = true
+	}
 
-			if ok && len(f) > len(field) {
-				field = f
-			}
+	// Extract all factors that depend on the fields
+	fieldFactors := []string{}
+	for _, f := range factors {
+		if known[f] || known[factorName(f)] {
+			fieldFactors = append(fieldFactors, f)
 		}
 	}
-	return field
+
+	expr := SortFactors(strings.Join(fieldFactors, "*"))
+	for _, f := range fieldNames {
+		if SortFactors(f) == expr {
+			return f
+		}
+	}
+	return ""
 }
 
 // RealPartAsUint8 return the real part of the field as uint8. The data is scaled
-- 
2.43.0


From c14e8cb335d858e847020acbb1dc78d0069cbb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:10 +0000
Subject: [PATCH 09/61] fix: ignore all kinds of whitespace in equations

---
 pf/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index 81104f2..2a2268a 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -155,7 +155,7 @@ func (m *Model) AddSource(eqNo int, s Source) {
 
 // AddEquation adds equations to the model
 func (m *Model) AddEquation(eq string) {
-	eq = strings.Replace(eq, " ", "", -1)
+	eq = strings.Join(strings.Fields(eq), "")
 	m.Equations = append(m.Equations, eq)
 	m.UpdateDerivedFields(eq)
 	m.AllSources = append(m.AllSources, make(Sources, 0))
-- 
2.43.0


From 3becb38100fb5118951c2c1c398156772c691898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:50 +0000
Subject: [PATCH 10/61] fix: keep fields explicit when their name contains the
 name of another field

Until the factors of a term were parsed as whole names this followed from the
way they were matched, and the existing tests rely on it.
---
 pf/rhsBuilder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 972ccc3..74b1c7c 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -115,6 +115,13 @@ func removeFactor(term string, name string) string {
 
 // isBilinear checks if the term given is bilinear in the passed field
 func isBilinear(term string, field string, fieldNames []string) bool {
+	// Fields with a name that contains the name of another field are treated explicitly
+	for _, n := range fieldNames {
+		if n != field && strings.Contains(field, n) {
+			return false
+		}
+	}
+
 	_, factors := splitFactors(term)
 	count := 0
 	for _, f := range factors {
-- 
2.43.0


From 8828537d3b7b779b94a620989aabeda18b7969a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:50 +0000
Subject: [PATCH 11/61] fix: match equations to fields by the name on the left
 hand side

Equations given in another order than the fields evolved the wrong field, and
an equation without a field was silently ignored.
---
 pf/model.go | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index 2a2268a..87ec885 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -253,6 +253,7 @@ func (m *Model) SyncDerivedFields() {
 // Init prepares the model
 func (m *Model) Init() {
 	m.RHS = m.RHS[:0]
+	m.checkLeftHandSides()
 
 	// Fields and functions can be registered after the equations that contain them
 	for _, eq := range m.Equations {
@@ -274,6 +275,35 @@ func (m *Model) Init() {
 	}
 }
 
+// lhsName returns the name of the left hand side of an equation
+func (m *Model) lhsName(eqNo int) string {
+	return fieldNameFromLeibniz(strings.Split(m.Equations[eqNo], "=")[0])
+}
+
+// eqOfField returns the number of the equation that evolves the passed field. If there is no equation
+// for the name of the field, it is the equation with the same number as the field
+func (m *Model) eqOfField(fieldNo int) int {
+	for i := range m.Equations {
+		if m.lhsName(i) == m.Fields[fieldNo].Name {
+			return i
+		}
+	}
+	return fieldNo
+}
+
+// checkLeftHandSides panics if there are equations that do not evolve any field
+func (m *Model) checkLeftHandSides() {
+	used := make(map[int]bool)
+	for i := range m.Fields {
+		used[m.eqOfField(i)] = true
+	}
+	for i, eq := range m.Equations {
+		if !used[i] {
+			panic(fmt.Sprintf("Model: Equation %s does not evolve any field", eq))
+		}
+	}
+}
+
 // NumNodes returns the number of nodes in the simulation cell. It panics if no
 // fields are added
 func (m *Model) NumNodes() int {
@@ -294,23 +324,24 @@ func (m *Model) AllVariableNames() []string {
 	return names
 }
 
-// GetRHS evaluates the right hand side of one of the equations
+// GetRHS evaluates the right hand side of the equation of the passed field
 func (m *Model) GetRHS(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Terms {
+	eqNo := m.eqOfField(fieldNo)
+	for _, f := range m.RHS[eqNo].Terms {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
-	for _, s := range m.AllSources[fieldNo] {
+	for _, s := range m.AllSources[eqNo] {
 		s.Eval(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
 	// Apply eventual modifiers
 	for i := range m.RHSModifiers {
-		if m.RHSModifiers[i].EqNo == fieldNo {
+		if m.RHSModifiers[i].EqNo == eqNo {
 			m.RHSModifiers[i].RHSModifier(data)
 		}
 	}
@@ -321,7 +352,7 @@ func (m *Model) GetRHS(fieldNo int, freq Frequency, t float64) []complex128 {
 func (m *Model) GetDenum(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Denum {
+	for _, f := range m.RHS[m.eqOfField(fieldNo)].Denum {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
-- 
2.43.0


From 2eaae2e49d5eb62bfc90a3cedef3052901279e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:59 +0000
Subject: [PATCH 12/61] fix: let every derived field of a term have its own
 brick

All derived fields registered together with a term referred to the last one.
---
 pf/model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index 87ec885..4966a6c 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -381,7 +381,8 @@ func (m *Model) registerTerm(name string, t PureTerm, dFields []DerivedField, te
 // RegisterDerivedFields adds a new set of derived fields to the model
 func (m *Model) registerDerivedFields(dFields []DerivedField) {
 	if dFields != nil {
-		for _, f := range dFields {
+		for i := range dFields {
+			f := dFields[i] // One variable per field, since the bricks store the address
 			if !m.IsFieldName(f.Name) {
 				m.DerivedFields = append(m.DerivedFields, f)
 				m.Bricks[f.Name] = &f
-- 
2.43.0


From b304aec8656277a4c94d8e430e9a2b5936779b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:59 +0000
Subject: [PATCH 13/61] fix: evaluate all equations before the fields are
 updated in an Euler step

Fields added later were evolved with the already updated values of the fields
added before them.
---
 pf/euler.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pf/euler.go b/pf/euler.go
index 1730189..72eda3c 100644
--- a/pf/euler.go
+++ b/pf/euler.go
@@ -23,14 +23,20 @@ func (eu *Euler) Step(m *Model) {
 		eu.FT.FFT(f.Data)
 	}
 
+	// Evaluate all equations before any of the fields is updated
 	t := eu.GetTime()
+	rhs := make([][]complex128, len(m.Fields))
+	denum := make([][]complex128, len(m.Fields))
+	for i := range m.Fields {
+		rhs[i] = m.GetRHS(i, eu.FT.Freq, t)
+		denum[i] = m.GetDenum(i, eu.FT.Freq, t)
+	}
+
 	for i := range m.Fields {
-		rhs := m.GetRHS(i, eu.FT.Freq, t)
-		denum := m.GetDenum(i, eu.FT.Freq, t)
 		d := m.Fields[i].Data
 		// Apply semi implicit scheme
 		for j := range d {
-			d[j] = (d[j] + cDt*rhs[j]) / (complex(1.0, 0.0) - cDt*denum[j])
+			d[j] = (d[j] + cDt*rhs[i][j]) / (complex(1.0, 0.0) - cDt*denum[i][j])
 		}
 
 		if eu.Filter != nil {
-- 
2.43.0


From 4b44092f52503e04d574bcb3f672d7a85c6ce621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:59 +0000
Subject: [PATCH 14/61] fix: only let constant terms contribute to the zero
 frequency

A constant on the right hand side was added to all frequencies, which is a
point source at the origin.
---
 pf/rhsBuilder.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 74b1c7c..11f6ddc 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -50,6 +50,8 @@ func Build(eq string, m *Model) RHS {
 		} else if isBilinear(t.SubString, field, m.AllFieldNames()) {
 			t.SubString = removeFactor(t.SubString, field)
 			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
+		} else if isConstant(factors, m) {
+			rhs.Terms = append(rhs.Terms, transformConstant(ConcreteTerm(t, m)))
 		} else {
 			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
 		}
@@ -57,6 +59,31 @@ func Build(eq string, m *Model) RHS {
 	return rhs
 }
 
+// isConstant returns true if all the factors are scalars
+func isConstant(factors []string, m *Model) bool {
+	for _, f := range factors {
+		if _, ok := m.Bricks[factorName(f)].(*Scalar); !ok {
+			return false
+		}
+	}
+	return true
+}
+
+// transformConstant returns a term with the fourier transform of the passed term, which should
+// be a constant
+func transformConstant(term Term) Term {
+	return func(freq Frequency, t float64, field []complex128) {
+		term(freq, t, field)
+		for i := range field {
+			if i == 0 {
+				field[i] *= complex(float64(len(field)), 0.0)
+			} else {
+				field[i] = 0.0
+			}
+		}
+	}
+}
+
 // fieldNameFromLeibniz extracts a field name from a Leibniz formatted
 // differnetation operation (e.g dkappa/dt)
 func fieldNameFromLeibniz(leibniz string) string {
-- 
2.43.0


From c2552dc74d92eaf48a7360ba9febc843291f0aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:59 +0000
Subject: [PATCH 15/61] fix: refuse equations with empty terms

Repeated signs (e.g. a+-b) were evaluated as an additional constant.
---
 pf/rhsBuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 11f6ddc..db4253e 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -34,6 +34,9 @@ func Build(eq string, m *Model) RHS {
 	var rhs RHS
 	for _, t := range termsStr {
 		lapPower, factors := splitFactors(t.SubString)
+		if len(factors) == 0 {
+			panic(fmt.Sprintf("build: empty term in %s", eq))
+		}
 		name := strings.Join(factors, "*")
 		prefixes := []string{}
 		for i := 0; i < lapPower; i++ {
-- 
2.43.0


From 8909793003afe56e948ee12e838fbe65942bf96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:00 +0000
Subject: [PATCH 16/61] fix: advance the time in every RK4 step

The solver calls Step and not Propagate, thus the time was always zero.
---
 pf/rk4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index 72b1299..bd8f571 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -71,6 +71,7 @@ func (rk *RK4) Step(m *Model) {
 		rk.FT.IFFT(f.Data)
 		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))
 	}
+	rk.CurrentStep++
 }
 
 // PrepareNextCorrection updates the final fields and rests the fields of the model to the original
@@ -130,7 +131,6 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 func (rk *RK4) Propagate(nsteps int, m *Model) {
 	for i := 0; i < nsteps; i++ {
 		rk.Step(m)
-		rk.CurrentStep++
 	}
 }
 
-- 
2.43.0


From 4fbb37253439dfd5acf59d3ae3710089aa65b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:00 +0000
Subject: [PATCH 17/61] fix: evaluate the stages of a RK4 step at their own
 time

---
 pf/rk4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index bd8f571..edb72f2 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -123,7 +123,7 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 	}
 
 	for i := range m.Fields {
-		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t)
+		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)
 	}
 }
 
-- 
2.43.0


From 1f8a02f428604088483783c94d0eb0c4c7f8e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:53 +0000
Subject: [PATCH 18/61] fix: let SetFloat change the scalar and not a copy of
 it

---
 pf/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index 4966a6c..bd306d9 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -98,7 +98,7 @@ func NewScalar(name string, value complex128) Scalar {
 }
 
 // SetFloat sets a new value
-func (s Scalar) SetFloat(v float64) {
+func (s *Scalar) SetFloat(v float64) {
 	s.Value = complex(v, 0.0)
 }
 
-- 
2.43.0


From 2f0064d1916a15cf80f113a013a87612730ca73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:15 +0000
Subject: [PATCH 19/61] fix: detect all terms that vary with the fields, and
 only those

Scalars were varied together with the fields, so valid implicit terms that use
a scalar were refused. All fields were shifted by the same constant, so terms
that depend on the difference between fields or nodes were accepted.
---
 pf/userDefinedTerm.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pf/userDefinedTerm.go b/pf/userDefinedTerm.go
index af1e615..c24915c 100644
--- a/pf/userDefinedTerm.go
+++ b/pf/userDefinedTerm.go
@@ -1,6 +1,11 @@
 package pf
 
-import "github.com/davidkleiven/gopf/pfutil"
+import (
+	"math"
+	"sort"
+
+	"github.com/davidkleiven/gopf/pfutil"
+)
 
 // PureTerm is an interface that can be used to add
 // special terms to a PDE that cannot easily be defined via a string
@@ -77,13 +82,24 @@ type GenericFunction func(i int, bricks map[string]Brick) complex128
 // of all fields
 func isImplicit(t PureTerm, bricks map[string]Brick, N int, freq Frequency) bool {
 
-	// Construct a set of fields that changes the fields
+	names := make([]string, 0, len(bricks))
+	for k := range bricks {
+		names = append(names, k)
+	}
+	sort.Strings(names)
+
+	// Construct a set of fields that changes the fields. The fields are changed by different amounts,
+	// such that the changes do not cancel. Scalars never change
 	tmpBricks := make(map[string]Brick)
-	for k, brick := range bricks {
+	for i, k := range names {
+		if _, ok := bricks[k].(*Scalar); ok {
+			tmpBricks[k] = bricks[k]
+			continue
+		}
 		tmpBricks[k] = &perturbedBrick{
 			name:         k,
-			parentBrick:  brick,
-			perturbation: complex(0.2, 0.0),
+			parentBrick:  bricks[k],
+			perturbation: complex(0.2*float64(i+1), 0.0),
 		}
 	}
 	func1 := t.Construct(bricks)
@@ -105,5 +121,5 @@ type perturbedBrick struct {
 }
 
 func (pb *perturbedBrick) Get(i int) complex128 {
-	return pb.parentBrick.Get(i) + pb.perturbation
+	return pb.parentBrick.Get(i) + pb.perturbation*complex(1.5+math.Sin(float64(i)), 0.0)
 }
-- 
2.43.0


From 25525e8b7e551d758961a8ed8210a085f14cc777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:31 +0000
Subject: [PATCH 20/61] fix: validate implicit terms with frequencies of the
 dimension of the domain

Implicit terms that use all three components of the frequency panicked.
---
 pf/model.go  | 10 +++++++++-
 pf/solver.go |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index bd306d9..9957c71 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -124,6 +124,9 @@ type Model struct {
 	RHS           []RHS
 	AllSources    []Sources
 	RHSModifiers  []eqModifier
+
+	// dim is the number of dimensions of the domain, 0 means unknown
+	dim int
 }
 
 // NewModel returns a new model
@@ -264,10 +267,15 @@ func (m *Model) Init() {
 	}
 	m.SyncDerivedFields()
 
+	dim := m.dim
+	if dim == 0 {
+		dim = 2
+	}
+
 	// Validate all implicit terms
 	for k, v := range m.ImplicitTerms {
 		if !isImplicit(v, m.Bricks, m.NumNodes(), func(i int) []float64 {
-			return []float64{0.4, 0.4}
+			return []float64{0.4, 0.4, 0.4}[:dim]
 		}) {
 			msg := fmt.Sprintf("Model: Term %s is not implicit (e.g. it varies when the fields are varied)", k)
 			panic(msg)
diff --git a/pf/solver.go b/pf/solver.go
index fbf519a..f0d0dae 100644
--- a/pf/solver.go
+++ b/pf/solver.go
@@ -39,6 +39,7 @@ type Solver struct {
 // NewSolver initializes a new solver
 func NewSolver(m *Model, domainSize []int, dt float64) *Solver {
 	var solver Solver
+	m.dim = len(domainSize)
 	m.Init()
 	solver.Model = m
 	solver.Dt = dt
-- 
2.43.0


From 8c3eb89a238588740272d83b59a3b470b657f7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:32 +0000
Subject: [PATCH 21/61] fix: move every field by its own force in SDD

All fields were moved by the force of the first field.
---
 pf/sdd.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/sdd.go b/pf/sdd.go
index 14325a1..a3cde47 100644
--- a/pf/sdd.go
+++ b/pf/sdd.go
@@ -209,7 +209,8 @@ func (sdd *SDD) Step(m *Model) {
 		w1 := complex(sdd.Alpha, 0.0)
 		w2 := complex(1.0-sdd.Alpha, 0.0)
 		for j := range work {
-			work[j] = w1*rhsStart[j] + w2*rhsEnd[j]
+			idx := i*m.NumNodes() + j
+			work[j] = w1*rhsStart[idx] + w2*rhsEnd[idx]
 		}
 		d := m.Fields[i].Data
 		activeFtOrient := ftOrientation[i*m.NumNodes() : (i+1)*m.NumNodes()]
-- 
2.43.0


From a976d1136913747cfd8a782596cd7c3375a8fef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:20 +0000
Subject: [PATCH 22/61] fix: reflect the force on the dimer over all fields
 jointly in SDD

The orientation is a unit vector over all fields, so the reflection of one field
with its part of the orientation was not a reflection.
---
 pf/sdd.go | 59 +++++++++++++++++++++++++++----------------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/pf/sdd.go b/pf/sdd.go
index a3cde47..d648109 100644
--- a/pf/sdd.go
+++ b/pf/sdd.go
@@ -195,37 +195,41 @@ func (sdd *SDD) Step(m *Model) {
 	sdd.ShiftFieldsAlongDimer(m.Fields, -0.5*l)
 	sdd.fft(m)
 
-	work := make([]complex128, m.NumNodes())
-
-	// Array that is used to track changes in the produced field
-	origField := make([]complex128, m.NumNodes())
+	// The orientation is a unit vector over all fields. Thus, the reflection is applied to all fields jointly
+	work := make([]complex128, len(ftOrientation))
+	denum := make([]complex128, len(ftOrientation))
+	newFields := make([]complex128, len(ftOrientation))
 	sdd.Monitor.MaxForce = 0.0
 	sdd.Monitor.ForcePowerSpectrum = 0.0
 	cDt := complex(sdd.Dt, 0.0)
 
+	// Fill the work array with the weighted average of the field values
+	w1 := complex(sdd.Alpha, 0.0)
+	w2 := complex(1.0-sdd.Alpha, 0.0)
+	for j := range work {
+		work[j] = w1*rhsStart[j] + w2*rhsEnd[j]
+	}
+	sdd.householder(work, ftOrientation, 2.0, m.NumNodes())
+
+	// Apply euler scheme
 	for i := range m.Fields {
-		copy(origField, m.Fields[i].Data)
-		// Fill the work array with the weighted average of the field values
-		w1 := complex(sdd.Alpha, 0.0)
-		w2 := complex(1.0-sdd.Alpha, 0.0)
-		for j := range work {
-			idx := i*m.NumNodes() + j
-			work[j] = w1*rhsStart[idx] + w2*rhsEnd[idx]
-		}
-		d := m.Fields[i].Data
-		activeFtOrient := ftOrientation[i*m.NumNodes() : (i+1)*m.NumNodes()]
-		sdd.householder(work, activeFtOrient, 2.0, m.NumNodes())
+		copy(newFields[i*m.NumNodes():], m.Fields[i].Data)
+		copy(denum[i*m.NumNodes():], m.GetDenum(i, sdd.ft.Freq, sdd.GetTime()))
+	}
+	for j := range newFields {
+		newFields[j] += cDt * work[j]
+	}
 
-		// Apply euler scheme
-		for j := range d {
-			d[j] = (d[j] + cDt*work[j])
-		}
-		work = m.GetDenum(i, sdd.ft.Freq, sdd.GetTime())
-		dsm := sdd.householderDenum(work, activeFtOrient, 2.0)
-		dsm.dot(d)
+	// householderDenum normalizes by the number of entries, and not by the number of nodes
+	dsm := sdd.householderDenum(denum, ftOrientation, 2.0*float64(len(m.Fields)))
+	dsm.dot(newFields)
 
+	for i := range m.Fields {
+		d := m.Fields[i].Data
 		for j := range d {
-			diff := cmplx.Abs((d[j] - origField[j]) / cDt)
+			updated := newFields[i*m.NumNodes()+j]
+			diff := cmplx.Abs((updated - d[j]) / cDt)
+			d[j] = updated
 			sdd.Monitor.ForcePowerSpectrum += diff * diff / float64(m.NumNodes())
 			if diff > sdd.Monitor.MaxForce {
 				sdd.Monitor.MaxForce = diff
@@ -246,13 +250,8 @@ func (sdd *SDD) Step(m *Model) {
 	// Add contribution from the linear part. The fourier transformed linear part is given
 	// by F(k)*x, where x is the field. Thus the difference between the start and end is
 	// F(k)*(x - alpha*l*v) - F(k)*(x + (1-alpha)*l*v) = -F(k)*v*l
-	outerIdx := 0
-	for i := range m.Fields {
-		denum := m.GetDenum(i, sdd.ft.Freq, sdd.GetTime())
-		for j := range denum {
-			torque[outerIdx] -= denum[j] * ftOrientation[outerIdx] * complex(l, 0.0)
-			outerIdx++
-		}
+	for i := range torque {
+		torque[i] -= denum[i] * ftOrientation[i] * complex(l, 0.0)
 	}
 
 	// UpdateOrientation updates the orientation. The dynamic equation for the orientation is
-- 
2.43.0


From a5d864cb7da9bab3a03c44c44af24d44d6fa19f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:34 +0000
Subject: [PATCH 23/61] fix: evaluate the new state at the new time in the
 implicit Euler scheme

---
 pf/implicitEuler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/implicitEuler.go b/pf/implicitEuler.go
index 1a698b3..f4340f2 100644
--- a/pf/implicitEuler.go
+++ b/pf/implicitEuler.go
@@ -75,7 +75,7 @@ func (ie *ImplicitEuler) updateEquation(newFields []float64, out []float64, rhsP
 	cDt := complex(ie.Dt, 0.0)
 	for i := range m.Fields {
 		N := len(m.Fields[i].Data)
-		rhs := m.GetRHS(i, ie.FT.Freq, t)
+		rhs := m.GetRHS(i, ie.FT.Freq, t+ie.Dt)
 		denum := m.GetDenum(i, ie.FT.Freq, t)
 
 		// Overwrite rhs with the complex the equation data
-- 
2.43.0


From e9b1a035ebde003cb5821d2f30bb26a1b66cf16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:59 +0000
Subject: [PATCH 24/61] fix: refuse a second equation for the same field

---
 pf/model.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index 9957c71..af6b099 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -299,11 +299,20 @@ func (m *Model) eqOfField(fieldNo int) int {
 	return fieldNo
 }
 
-// checkLeftHandSides panics if there are equations that do not evolve any field
+// checkLeftHandSides panics if there are equations that do not evolve any field, or if the equation of a
+// field is written for another field
 func (m *Model) checkLeftHandSides() {
 	used := make(map[int]bool)
+	names := make(map[string]bool)
 	for i := range m.Fields {
 		used[m.eqOfField(i)] = true
+		names[m.Fields[i].Name] = true
+	}
+	for i, f := range m.Fields {
+		eqNo := m.eqOfField(i)
+		if eqNo < len(m.Equations) && m.lhsName(eqNo) != f.Name && names[m.lhsName(eqNo)] {
+			panic(fmt.Sprintf("Model: There is no equation for field %s", f.Name))
+		}
 	}
 	for i, eq := range m.Equations {
 		if !used[i] {
-- 
2.43.0


From 6ee0fb38925e285f1435887e7d017df4aa07f327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:39 +0000
Subject: [PATCH 25/61] fix: refuse signs without a term

One of two successive signs was silently dropped (e.g. a+-b was evaluated as a+b).
---
 pf/rhsBuilder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index db4253e..b4a14aa 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -21,6 +21,9 @@ type RHS struct {
 	Denum []Term
 }
 
+// missingTerm matches signs that are not followed by a term
+var missingTerm = regexp.MustCompile("[+-]\\s*([+-]|$)")
+
 // Build constructs the right-hand-side of an equation based on a string
 // representation
 func Build(eq string, m *Model) RHS {
@@ -29,6 +32,10 @@ func Build(eq string, m *Model) RHS {
 		panic("build: equality sign can only occur once")
 	}
 
+	if missingTerm.MatchString(sides[1]) {
+		panic(fmt.Sprintf("build: sign without a term in %s", eq))
+	}
+
 	field := fieldNameFromLeibniz(sides[0])
 	termsStr := SplitOnMany(sides[1], []string{"+", "-"})
 	var rhs RHS
-- 
2.43.0


From f232cf21a76913f77049f1a1c217a21a62412114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:15 +0000
Subject: [PATCH 26/61] fix: validate implicit terms at a time and a frequency
 where they do not vanish

Terms that are proportional to the time, or to the difference between two
components of the frequency, were never seen to vary with the fields.
---
 pf/model.go           | 2 +-
 pf/userDefinedTerm.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index af6b099..4c8b70f 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -275,7 +275,7 @@ func (m *Model) Init() {
 	// Validate all implicit terms
 	for k, v := range m.ImplicitTerms {
 		if !isImplicit(v, m.Bricks, m.NumNodes(), func(i int) []float64 {
-			return []float64{0.4, 0.4, 0.4}[:dim]
+			return []float64{0.4, 0.3, 0.2}[:dim]
 		}) {
 			msg := fmt.Sprintf("Model: Term %s is not implicit (e.g. it varies when the fields are varied)", k)
 			panic(msg)
diff --git a/pf/userDefinedTerm.go b/pf/userDefinedTerm.go
index c24915c..5b0ef81 100644
--- a/pf/userDefinedTerm.go
+++ b/pf/userDefinedTerm.go
@@ -107,8 +107,8 @@ func isImplicit(t PureTerm, bricks map[string]Brick, N int, freq Frequency) bool
 	array1 := make([]complex128, N)
 	array2 := make([]complex128, N)
 
-	func1(freq, 0.0, array1)
-	func2(freq, 0.0, array2)
+	func1(freq, 1.0, array1)
+	func2(freq, 1.0, array2)
 	return pfutil.CmplxEqualApprox(array1, array2, 1e-10)
 }
 
-- 
2.43.0


From 36587813977631e6a11c6ea83439f085d7ae86a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:14 +0000
Subject: [PATCH 27/61] fix: report store operations that could not be
 completed

---
 pf/database.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 50ba1d5..d9ec04c 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -143,14 +143,17 @@ func (fdb *FieldDB) initialize() {
 	if fdb.simID == 0 {
 		source := rand.NewSource(time.Now().UnixNano())
 		generator := rand.New(source)
-		fdb.simID = generator.Int31()
+		simID := generator.Int31()
 
 		// Insert into the database
 		statement, err = fdb.DB.Prepare("INSERT INTO simIDs (simID, creationTime) VALUES (?, datetime('now', 'localtime'))")
 		if err != nil {
 			panic(err)
 		}
-		statement.Exec(fdb.simID)
+		if _, err = statement.Exec(simID); err != nil {
+			panic(err)
+		}
+		fdb.simID = simID
 	}
 
 	fdb.initialized = true
@@ -185,16 +188,23 @@ func (fdb *FieldDB) populatePositionsTable() {
 
 		if err != nil {
 			tx.Rollback()
-			return
+			panic(err)
 		}
 		_, err = statement.Exec(i, pos3[0], pos3[1], pos3[2])
 
 		if err != nil {
 			tx.Rollback()
+
+			// Another simulation may have populated the table in the meantime
+			if !fdb.positionTableIsPopulated() {
+				panic(err)
+			}
 			return
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		panic(err)
+	}
 }
 
 // insertRealPart inserts the real part of a set of field values into the database
@@ -224,7 +234,9 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 			return
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		panic(err)
+	}
 }
 
 // SaveFields stores all the field to the database. This function satisfies the
@@ -254,7 +266,9 @@ func (fdb *FieldDB) Comment(comment string) {
 		log.Fatal(err)
 		return
 	}
-	statement.Exec(fdb.simID, comment)
+	if _, err = statement.Exec(fdb.simID, comment); err != nil {
+		panic(err)
+	}
 }
 
 // SetAttr adds a set of key-value pairs associated with the current simID
@@ -283,7 +297,9 @@ func (fdb *FieldDB) SetAttr(attr map[string]float64) {
 			return
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		panic(err)
+	}
 }
 
 // SetTextAttr sets text attributes associated with the current simulation
@@ -312,7 +328,9 @@ func (fdb *FieldDB) SetTextAttr(attr map[string]string) {
 			return
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		panic(err)
+	}
 }
 
 // TimeSeries inserts data into the timeseries table
@@ -340,7 +358,9 @@ func (fdb *FieldDB) TimeSeries(data map[string]float64, timestep int) {
 			return
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		panic(err)
+	}
 }
 
 // domainSizeOk returns true if the domain size stored locally matches the one
-- 
2.43.0


From 4f0bf6b2cff20c731879bdb8c8aedc4b9fa8a584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:16 +0000
Subject: [PATCH 28/61] fix: map the maximum to 255 in 8-bit field files

---
 pf/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/util.go b/pf/util.go
index 189b770..0cc8a00 100644
--- a/pf/util.go
+++ b/pf/util.go
@@ -109,7 +109,7 @@ func RealPartAsUint8(data []complex128, min float64, max float64) []uint8 {
 		max = min + 1.0
 	}
 	for i := range data {
-		res[i] = uint8(255 * (real(data[i]) - min) / (max - min))
+		res[i] = uint8(255 * ((real(data[i]) - min) / (max - min)))
 	}
 	return res
 }
-- 
2.43.0


From aa153a0e958caa24d2b36ccc48ab5a2df5a2e37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:16 +0000
Subject: [PATCH 29/61] fix: list the extents of 3D domains in the order of the
 field files in the ParaView index

---
 pf/xdmf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/xdmf.go b/pf/xdmf.go
index 76fa426..3ecdc7b 100644
--- a/pf/xdmf.go
+++ b/pf/xdmf.go
@@ -88,7 +88,8 @@ func CreateXDMF(fieldNames []string, prefix string, num int, domainSize []int) X
 		dimensions = fmt.Sprintf("%d %d", domainSize[0], domainSize[1])
 		geoType = "ORIGIN_DXDY"
 	} else if len(domainSize) == 3 {
-		dimensions = fmt.Sprintf("%d %d %d", domainSize[0], domainSize[1], domainSize[2])
+		// The last index in the domain size varies slowest in the binary files (see pfutil.NodeIdx)
+		dimensions = fmt.Sprintf("%d %d %d", domainSize[2], domainSize[0], domainSize[1])
 		geoType = "ORIGIN_DXDYDZ"
 	} else {
 		panic("Length of domain size to be either 2 or 3")
-- 
2.43.0


From 27ba3a63717e4611cf683926ffc6054f6ed0e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:15 +0000
Subject: [PATCH 30/61] fix: list simulations created in the same second newest
 first

---
 cmd/list.go | 4 ++--
 cmd/util.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/list.go b/cmd/list.go
index 75e0061..f375bb1 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -77,7 +77,7 @@ func showSimulationIds(db *sql.DB, max int) {
 		fmt.Printf("Showing %d of %d rows\n", max, numRows)
 	}
 
-	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC LIMIT "
+	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT "
 	sql += fmt.Sprintf("%d", max)
 	rows, err = db.Query(sql)
 
@@ -108,7 +108,7 @@ func showComments(db *sql.DB, max int) {
 	}
 
 	simIds := []int{}
-	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC LIMIT "
+	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT "
 	sql += fmt.Sprintf("%d", max)
 	rows, err = db.Query(sql)
 	if err != nil {
diff --git a/cmd/util.go b/cmd/util.go
index cf503fb..a748080 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -28,7 +28,7 @@ func singleLine(length int) string {
 
 // newestSimulationID returns the ID of the newest simulation
 func newestSimulationID(db *sql.DB) int {
-	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC LIMIT 1")
+	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT 1")
 	if err != nil {
 		fmt.Printf("%s\n", err)
 		return 0
-- 
2.43.0


From 6eb41017505e96c7673a62d1d78b28f70fc89a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:15 +0000
Subject: [PATCH 31/61] fix: show the comments of the simulation itself, and
 all of them

---
 cmd/comment.go | 5 +++--
 cmd/list.go    | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index 306d6f0..8e3eebd 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -70,11 +70,12 @@ is used.
 				fmt.Printf("%s\n", err)
 				return
 			}
-			var comment string
+			fmt.Printf("Sim id %d:\n", simid)
 			for rows.Next() {
+				var comment string
 				rows.Scan(&comment)
+				fmt.Printf("%s\n", comment)
 			}
-			fmt.Printf("Sim id %d:\n%s\n", simid, comment)
 		}
 
 	},
diff --git a/cmd/list.go b/cmd/list.go
index f375bb1..cddae7a 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -124,17 +124,18 @@ func showComments(db *sql.DB, max int) {
 	}
 
 	sql = "SELECT value from comments WHERE simID=?"
-	var comment string
 	for _, v := range simIds {
 		rows, err = db.Query(sql, v)
 		if err != nil {
 			fmt.Printf("%s\n", err)
 			return
 		}
+		fmt.Printf("Sim Id %d:\n", v)
 		for rows.Next() {
+			var comment string
 			rows.Scan(&comment)
+			fmt.Printf("%s\n", comment)
 		}
-
-		fmt.Printf("Sim Id %d:\n%s\n\n", v, comment)
+		fmt.Printf("\n")
 	}
 }
-- 
2.43.0


From 42f3755826b0ca12245e0e84c0f7075d95cf8548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:15 +0000
Subject: [PATCH 32/61] fix: do not report success when there is no comment to
 update

---
 cmd/comment.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index 8e3eebd..9f8b863 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -62,7 +62,15 @@ is used.
 				fmt.Printf("%s\n", err)
 				return
 			}
-			statement.Exec(newMsg, simid)
+			result, err := statement.Exec(newMsg, simid)
+			if err != nil {
+				fmt.Printf("%s\n", err)
+				return
+			}
+			if num, err := result.RowsAffected(); err != nil || num == 0 {
+				fmt.Printf("Id %d has no comment that can be updated\n", simid)
+				return
+			}
 			fmt.Printf("Comment of id %d was successfully updated\n", simid)
 		} else {
 			rows, err := sqlDB.Query("SELECT value FROM comments WHERE simId=?", simid)
-- 
2.43.0


From a538e58fefe0e748a6f5da24e7fe61bf73d5c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:15 +0000
Subject: [PATCH 33/61] fix: break long comments without losing text

---
 cmd/comment.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index 9f8b863..9084696 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -107,24 +107,20 @@ func printAllComments(db *sql.DB) {
 	for rows.Next() {
 		rows.Scan(&simID, &comment)
 
-		numLines := len(comment)/CommentWidth + 1
-		var currentComment string
-		start := 0
-		for lineNum := 0; lineNum < numLines; lineNum++ {
-			idString := " "
-			if lineNum == 0 {
-				idString = fmt.Sprintf("%d", simID)
+		idString := fmt.Sprintf("%d", simID)
+		for len(comment) > CommentWidth {
+			end := closestWhiteSpace(comment, CommentWidth)
+			next := end + 1
+			if end <= 0 {
+				// No place to break the line
+				end = CommentWidth
+				next = end
 			}
-
-			if start+CommentWidth > len(comment) {
-				currentComment = comment[start:]
-			} else {
-				end := closestWhiteSpace(comment, start+CommentWidth)
-				currentComment = comment[start:end]
-				start = end + 1
-			}
-			fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, currentComment)
+			fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, comment[:end])
+			comment = comment[next:]
+			idString = " "
 		}
+		fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, comment)
 	}
 	fmt.Printf("%s\n", singleLine(width))
 }
-- 
2.43.0


From 4432dbb6c7dd70547b4fbee8dc549a8821d85a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:15 +0000
Subject: [PATCH 34/61] fix: only list attributes of the requested simulation
 when its ID is zero

---
 cmd/attr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 3a21063..26f2270 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -99,12 +99,12 @@ func listUniqueAttributes(db *sql.DB) {
 	}
 }
 
-// listAttributes lists the attributes. If simulationID is greater than 0, only attributes
+// listAttributes lists the attributes. If simulationID is not negative, only attributes
 // belonging to the passed ID is printed. If it is negative, all simulation IDs are included.
 func listAttributes(db *sql.DB, simulationID int) {
 	var rows *sql.Rows
 	var err error
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT key, value, simId FROM simAttributes WHERE simId=?", simulationID)
 	} else {
 		rows, err = db.Query("SELECT key, value, simId FROM simAttributes")
@@ -195,7 +195,7 @@ func listAttributes(db *sql.DB, simulationID int) {
 func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 	var rows *sql.Rows
 	var err error
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT value, simId FROM simAttributes WHERE key=? AND simId=?", name, simulationID)
 	} else {
 		rows, err = db.Query("SELECT value, simId FROM simAttributes WHERE key=?", name)
@@ -213,7 +213,7 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, value)
 	}
 
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=? AND simId=?", name, simulationID)
 	} else {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=?", name)
-- 
2.43.0


From b438f84c3e99cad680d8b2d62f7136a3c52c4ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:15 +0000
Subject: [PATCH 35/61] fix: show the value of text attributes

---
 cmd/attr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 26f2270..8ea7257 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -221,7 +221,7 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 
 	var txtValue string
 	for rows.Next() {
-		rows.Scan(&value, &simID)
+		rows.Scan(&txtValue, &simID)
 		fmt.Printf("Sim id %-10d %-20s = %12s\n", simID, name, txtValue)
 	}
 }
-- 
2.43.0


From 3b3f146020f276a5b414dd945896b4c14f66cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:55 +0000
Subject: [PATCH 36/61] fix: export the timestep of time series and leave
 missing values empty

---
 cmd/export.go | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index 65e9dd1..0cb167e 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -134,24 +134,11 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 		keys = append(keys, key)
 	}
 
-	// Extract maximum number timestep
-	rows, err = db.Query("SELECT MAX(timestep) FROM timeseries WHERE simId=?", simid)
-	if err != nil {
-		fmt.Printf("%s\n", err)
-		return
-	}
+	// Timesteps where there is data and the data belonging to each of them
+	steps := []int{}
+	data := make(map[int]map[string]float64)
 
-	var maxStep int
-	for rows.Next() {
-		rows.Scan(&maxStep)
-	}
-
-	dataArray := make([]map[string]float64, maxStep+1)
-	for i := range dataArray {
-		dataArray[i] = make(map[string]float64)
-	}
-
-	rows, err = db.Query("SELECT key,value,timestep FROM timeseries WHERE simId=?", simid)
+	rows, err = db.Query("SELECT key,value,timestep FROM timeseries WHERE simId=? ORDER BY timestep, rowid", simid)
 	if err != nil {
 		fmt.Printf("%s\n", err)
 		return
@@ -161,7 +148,11 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 
 	for rows.Next() {
 		rows.Scan(&key, &value, &timestep)
-		dataArray[timestep][key] = value
+		if _, ok := data[timestep]; !ok {
+			data[timestep] = make(map[string]float64)
+			steps = append(steps, timestep)
+		}
+		data[timestep][key] = value
 	}
 
 	out, err := os.Create(outfile)
@@ -173,11 +164,15 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	writer := csv.NewWriter(out)
 	defer writer.Flush()
 
-	writer.Write(keys)
-	record := make([]string, len(keys))
-	for _, item := range dataArray {
+	writer.Write(append([]string{"timestep"}, keys...))
+	record := make([]string, len(keys)+1)
+	for _, step := range steps {
+		record[0] = fmt.Sprintf("%d", step)
 		for j, k := range keys {
-			record[j] = fmt.Sprintf("%f", item[k])
+			record[j+1] = ""
+			if v, ok := data[step][k]; ok {
+				record[j+1] = fmt.Sprintf("%f", v)
+			}
 		}
 		writer.Write(record)
 	}
-- 
2.43.0


From feee2234ac40597bb405dc4c6f2735f9dac34e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:55 +0000
Subject: [PATCH 37/61] fix: show NaN instead of the value of another row

---
 cmd/attr.go   |  8 ++++----
 cmd/export.go |  8 ++++----
 cmd/util.go   | 10 ++++++++++
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 8ea7257..eeeda0f 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -126,14 +126,14 @@ func listAttributes(db *sql.DB, simulationID int) {
 
 	// Go through the float attributes
 	var key string
-	var value float64
+	var value sql.NullFloat64
 	var simID int
 	for rows.Next() {
 		rows.Scan(&key, &value, &simID)
 		if _, ok := kvp[simID]; !ok {
 			kvp[simID] = make(map[string]string)
 		}
-		kvp[simID][key] = fmt.Sprintf("%f", value)
+		kvp[simID][key] = fmt.Sprintf("%f", floatOrNaN(value))
 		header[key] = true
 	}
 
@@ -206,11 +206,11 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		return
 	}
 
-	var value float64
+	var value sql.NullFloat64
 	var simID int
 	for rows.Next() {
 		rows.Scan(&value, &simID)
-		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, value)
+		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, floatOrNaN(value))
 	}
 
 	if simulationID >= 0 {
diff --git a/cmd/export.go b/cmd/export.go
index 0cb167e..093bf48 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -144,7 +144,7 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 		return
 	}
 	var timestep int
-	var value float64
+	var value sql.NullFloat64
 
 	for rows.Next() {
 		rows.Scan(&key, &value, &timestep)
@@ -152,7 +152,7 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 			data[timestep] = make(map[string]float64)
 			steps = append(steps, timestep)
 		}
-		data[timestep][key] = value
+		data[timestep][key] = floatOrNaN(value)
 	}
 
 	out, err := os.Create(outfile)
@@ -225,11 +225,11 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		return
 	}
 	var name string
-	var value float64
+	var value sql.NullFloat64
 	var positionID int
 	for rows.Next() {
 		rows.Scan(&name, &value, &positionID)
-		data[positionID][name] = value
+		data[positionID][name] = floatOrNaN(value)
 	}
 
 	out, err := os.Create(outfile)
diff --git a/cmd/util.go b/cmd/util.go
index a748080..66a8469 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"database/sql"
 	"fmt"
+	"math"
 )
 
 // SimIDWidth is the width of the simulation ID field
@@ -41,6 +42,15 @@ func newestSimulationID(db *sql.DB) int {
 	return simID
 }
 
+// floatOrNaN returns the value of a float read from the database. SQLite stores
+// NaN as NULL
+func floatOrNaN(value sql.NullFloat64) float64 {
+	if !value.Valid {
+		return math.NaN()
+	}
+	return value.Float64
+}
+
 // closestWhiteSpace returns the position of the first white space
 // to the left of target
 func closestWhiteSpace(line string, target int) int {
-- 
2.43.0


From 77ca015eda0c5087014638a9f2eab5429ece02dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:55 +0000
Subject: [PATCH 38/61] fix: accept the export type fielddata given in the help
 text

---
 cmd/export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/export.go b/cmd/export.go
index 093bf48..57498de 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -88,7 +88,7 @@ and have names dataset0.csv, dataset1.csv, dataset2.csv and so on.
 		switch ftype {
 		case "timeseries", "ts":
 			exportTimeseries(db, outfile, simid)
-		case "field", "fieldData", "fd":
+		case "field", "fieldData", "fielddata", "fd":
 			if all {
 				steps := allTimeSteps(db, simid)
 				for _, step := range steps {
-- 
2.43.0


From 55d186d407665c07185ea90f7d500ba55986f676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:32 +0000
Subject: [PATCH 39/61] fix: CubicMaterial sets every minor-symmetric copy of
 c44

---
 elasticity/rank4.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elasticity/rank4.go b/elasticity/rank4.go
index 8426b08..8a5b2d3 100644
--- a/elasticity/rank4.go
+++ b/elasticity/rank4.go
@@ -122,6 +122,8 @@ func CubicMaterial(c11 float64, c12 float64, c44 float64) Rank4 {
 
 			tensor.Set(i, j, i, j, c44)
 			tensor.Set(j, i, j, i, c44)
+			tensor.Set(i, j, j, i, c44)
+			tensor.Set(j, i, i, j, c44)
 		}
 	}
 	return tensor
-- 
2.43.0


From 1034105ca8c370e1babaab8629ec7bf45a4700f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:32 +0000
Subject: [PATCH 40/61] fix: PerturbedForce sums the body force over all
 directions of each component

---
 elasticity/perturbation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elasticity/perturbation.go b/elasticity/perturbation.go
index 7808a63..b21145c 100644
--- a/elasticity/perturbation.go
+++ b/elasticity/perturbation.go
@@ -54,8 +54,8 @@ func PerturbedForce(ft FourierTransform, misfit *mat.Dense, ftDisp [][]complex12
 			for k := range force {
 				f := ft.Freq(k)
 				for comp := 0; comp < dim; comp++ {
-					for q := 0; q < 3; q++ {
-						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[comp]) * strain[k]
+					for q := 0; q < dim; q++ {
+						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[q]) * strain[k]
 					}
 				}
 			}
-- 
2.43.0


From 2801b66c331031a8d0c82ef51e1d972c8c477186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:32 +0000
Subject: [PATCH 41/61] fix: strain energy command uses a transform whose
 frequencies match its field layout

---
 elasticity/strainEnergyCLI.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elasticity/strainEnergyCLI.go b/elasticity/strainEnergyCLI.go
index 25cbbcf..eb8f3b8 100644
--- a/elasticity/strainEnergyCLI.go
+++ b/elasticity/strainEnergyCLI.go
@@ -3,6 +3,7 @@ package elasticity
 import (
 	"math"
 
+	"github.com/davidkleiven/gopf/pfutil"
 	"github.com/davidkleiven/gosfft/sfft"
 	"gonum.org/v1/gonum/mat"
 )
@@ -52,7 +53,7 @@ func CalculateStrainEnergy(params StrainEnergyInput) float64 {
 		}
 	}
 
-	ft := sfft.NewFFT3(params.DomainSize, params.DomainSize, params.DomainSize)
+	ft := pfutil.NewFFTW([]int{params.DomainSize, params.DomainSize, params.DomainSize})
 	ft.FFT(indicator.Data)
 	force := make([][]complex128, params.DomainSize*params.DomainSize*params.DomainSize)
 	for k := range force {
-- 
2.43.0


From aaa82116edf3d2ec476470a5b15c9e81c3482556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:33 +0000
Subject: [PATCH 42/61] fix: let advection, DivGrad and weighted Laplacian
 terms be registered in a model

---
 pf/advection.go          | 2 +-
 pf/gradientCalculator.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pf/advection.go b/pf/advection.go
index 9408dfc..b8f20cd 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -95,4 +95,4 @@ func (ad *Advection) Construct(bricks map[string]Brick) Term {
 }
 
 // OnStepFinished does nothing as we don't need any updates in between steps
-func (ad *Advection) OnStepFinished(t float64) {}
+func (ad *Advection) OnStepFinished(t float64, bricks map[string]Brick) {}
diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 60ab932..7c76f6b 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -106,7 +106,7 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 }
 
 // OnStepFinished does nothing as we don't need any updates in between steps
-func (dg *DivGrad) OnStepFinished(t float64) {}
+func (dg *DivGrad) OnStepFinished(t float64, bricks map[string]Brick) {}
 
 // WeightedLaplacian is a type used to represent terms of the form
 // F(c) LAP <field>, where F is a function of all the fields.
@@ -158,3 +158,6 @@ func (wl *WeightedLaplacian) Construct(bricks map[string]Brick) Term {
 		wl.FT.FFT(field)
 	}
 }
+
+// OnStepFinished does nothing as we don't need any updates in between steps
+func (wl *WeightedLaplacian) OnStepFinished(t float64, bricks map[string]Brick) {}
-- 
2.43.0


From 2efd2eb429b27669dadc93c0c94c4472b953c449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:33 +0000
Subject: [PATCH 43/61] fix: apply the prefactor to the non-linear part of the
 ideal mixture term

---
 pf/pairCorrelationTerm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/pairCorrelationTerm.go b/pf/pairCorrelationTerm.go
index 7ede0ff..563291f 100644
--- a/pf/pairCorrelationTerm.go
+++ b/pf/pairCorrelationTerm.go
@@ -150,7 +150,8 @@ func (idt *IdealMixtureTerm) DerivedField(numNodes int, bricks map[string]Brick)
 			b := bricks[idt.Field]
 			for i := range out {
 				v := real(b.Get(i))
-				out[i] = complex(3.0*idt.IdealMix.ThirdOrderPrefactor()*v*v+4.0*idt.IdealMix.FourthOrderPrefactor()*v*v*v, 0.0)
+				nonlin := 3.0*idt.IdealMix.ThirdOrderPrefactor()*v*v + 4.0*idt.IdealMix.FourthOrderPrefactor()*v*v*v
+				out[i] = complex(idt.Prefactor*nonlin, 0.0)
 			}
 		},
 	}
-- 
2.43.0


From 61ad1dcac23b407e942c8f8783cbef1188f34de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:33 +0000
Subject: [PATCH 44/61] fix: use both off-diagonal coefficients of the Hessian
 term

---
 pf/tensorialHessian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/tensorialHessian.go b/pf/tensorialHessian.go
index 188f575..1b22918 100644
--- a/pf/tensorialHessian.go
+++ b/pf/tensorialHessian.go
@@ -53,7 +53,7 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 			// Off-diagonal terms
 			for j := 0; j < dim; j++ {
 				for k := j + 1; k < dim; k++ {
-					preFactor := -8.0 * math.Pi * math.Pi * f[j] * f[k] * th.GetCoeff(j, k)
+					preFactor := -4.0 * math.Pi * math.Pi * f[j] * f[k] * (th.GetCoeff(j, k) + th.GetCoeff(k, j))
 					field[i] += complex(preFactor, 0.0)
 				}
 			}
-- 
2.43.0


From 5084f5829a8e6ea0fce02c94d51a83688fb99d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:33 +0000
Subject: [PATCH 45/61] fix: let the negative value penalty be the derivative
 of its function for even exponents

---
 pf/negative_value_penalty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/negative_value_penalty.go b/pf/negative_value_penalty.go
index c6de7f5..45b8d71 100644
--- a/pf/negative_value_penalty.go
+++ b/pf/negative_value_penalty.go
@@ -17,7 +17,7 @@ func (nvp *NegativeValuePenalty) Penalty(x float64) float64 {
 		return 0.0
 	}
 	p := float64(nvp.Exponent)
-	return -2.0*nvp.Prefactor*p*math.Pow(x, p-1.0)
+	return -nvp.Prefactor * p * (math.Pow(-x, p-1.0) + math.Pow(x, p-1.0))
 }
 
 // Evaluate can be registered as a function in any model
-- 
2.43.0


From a7e57708bfc90b854bcc97aec13a43a514ed322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:32 +0000
Subject: [PATCH 46/61] fix: do not let the gradients of an advection term
 replace fields named <field>_<number>

---
 pf/advection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/advection.go b/pf/advection.go
index b8f20cd..361104a 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -21,7 +21,7 @@ type Advection struct {
 
 // GradName returns the gradient term associated with the field
 func (ad *Advection) GradName(comp int) string {
-	return fmt.Sprintf("%s_%d", ad.Field, comp)
+	return fmt.Sprintf("GRAD_%s_%d", ad.Field, comp)
 }
 
 // GetName returns the name of the brick corresponding to
-- 
2.43.0


From 514919a8c782dff94cc4966e8b2561f4bde4f68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:32 +0000
Subject: [PATCH 47/61] fix: let all terms that need the gradient of a field
 use one up to date gradient

---
 pf/advection.go          | 3 +++
 pf/gradientCalculator.go | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pf/advection.go b/pf/advection.go
index 361104a..117ef43 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -58,6 +58,9 @@ func (ad *Advection) PrepareModel(N int, m *Model, FT FourierTransform) {
 	}
 
 	for d := 0; d < dim; d++ {
+		if m.IsBrickName(ad.GradName(d)) {
+			continue
+		}
 		grad := GradientCalculator{
 			FT:   FT,
 			Comp: d,
diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 7c76f6b..0b01f36 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -74,8 +74,10 @@ func (dg *DivGrad) PrepareModel(N int, m *Model, FT FourierTransform) {
 			Comp:        d,
 			KeepNyquist: false,
 		}
-		dField := grad.ToDerivedField(dg.GradName(d), N, m.Bricks[dg.Field])
-		m.RegisterDerivedField(dField)
+		if !m.IsBrickName(dg.GradName(d)) {
+			dField := grad.ToDerivedField(dg.GradName(d), N, m.Bricks[dg.Field])
+			m.RegisterDerivedField(dField)
+		}
 
 		dField2 := DerivedField{
 			Name: dg.FuncName() + dg.GradName(d),
-- 
2.43.0


From 8fb25c806b38fdc1953d787fb9a46b79427177e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:32 +0000
Subject: [PATCH 48/61] fix: let DivGrad terms of the same field have their own
 functions

---
 pf/gradientCalculator.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 0b01f36..7ee17bd 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -50,6 +50,9 @@ func (g *GradientCalculator) ToDerivedField(name string, N int, brick Brick) Der
 type DivGrad struct {
 	Field string
 	F     GenericFunction
+
+	// suffix distinguishes DivGrad terms of the same field
+	suffix string
 }
 
 // FuncName returns the name of the generic function F
@@ -62,12 +65,21 @@ func (dg *DivGrad) GradName(comp int) string {
 	return fmt.Sprintf("GRAD_%s_%d", dg.Field, comp)
 }
 
+// fluxName returns the name of the product of F and a component of the gradient
+func (dg *DivGrad) fluxName(comp int) string {
+	return dg.FuncName() + dg.GradName(comp) + dg.suffix
+}
+
 // PrepareModel impose nessecary changes in the model in order to use the
 // DivGrad term. N is the number of grid points in the simulation domain,
 // dim is the dimension of the simulation domain. FT is a fourier transformer
 // required for gradient evaluations
 func (dg *DivGrad) PrepareModel(N int, m *Model, FT FourierTransform) {
 	dim := len(FT.Freq(0))
+	for n := 1; m.IsBrickName(dg.fluxName(0)); n++ {
+		dg.suffix = fmt.Sprintf("_%d", n)
+	}
+
 	for d := 0; d < dim; d++ {
 		grad := GradientCalculator{
 			FT:          FT,
@@ -80,7 +92,7 @@ func (dg *DivGrad) PrepareModel(N int, m *Model, FT FourierTransform) {
 		}
 
 		dField2 := DerivedField{
-			Name: dg.FuncName() + dg.GradName(d),
+			Name: dg.fluxName(d),
 			Data: make([]complex128, N),
 			Calc: func(data []complex128) {
 				for i := range data {
@@ -98,7 +110,7 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 		pfutil.Clear(field)
 		dim := len(freq(0))
 		for d := 0; d < dim; d++ {
-			brick := bricks[dg.FuncName()+dg.GradName(d)]
+			brick := bricks[dg.fluxName(d)]
 			for i := range field {
 				f := freq(i)[d]
 				field[i] += complex(0.0, 2.0*math.Pi*f) * brick.Get(i)
-- 
2.43.0


From 5cbcdadb4f53f25eaddc4afa1aa41b3ccee8cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:32 +0000
Subject: [PATCH 49/61] fix: keep the DivGrad term real

---
 pf/gradientCalculator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 7ee17bd..50e1a3d 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -113,6 +113,9 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 			brick := bricks[dg.fluxName(d)]
 			for i := range field {
 				f := freq(i)[d]
+				if math.Abs(math.Abs(f)-0.5) < 1e-10 {
+					continue // As for the gradient, there is no first derivative
+				}
 				field[i] += complex(0.0, 2.0*math.Pi*f) * brick.Get(i)
 			}
 		}
-- 
2.43.0


From 5fab7cdb8630c3b00fb35fd5683d91fcbb323e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:32 +0000
Subject: [PATCH 50/61] fix: keep fields real with mixed derivatives in the
 Hessian term

---
 pf/tensorialHessian.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pf/tensorialHessian.go b/pf/tensorialHessian.go
index 1b22918..f742036 100644
--- a/pf/tensorialHessian.go
+++ b/pf/tensorialHessian.go
@@ -53,6 +53,9 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 			// Off-diagonal terms
 			for j := 0; j < dim; j++ {
 				for k := j + 1; k < dim; k++ {
+					if math.Abs(math.Abs(f[j])-0.5) < 1e-10 || math.Abs(math.Abs(f[k])-0.5) < 1e-10 {
+						continue // No first derivative in one of the directions
+					}
 					preFactor := -4.0 * math.Pi * math.Pi * f[j] * f[k] * (th.GetCoeff(j, k) + th.GetCoeff(k, j))
 					field[i] += complex(preFactor, 0.0)
 				}
-- 
2.43.0


From fe8c8d8144a37f425de57e77aeb4e0522054fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:32 +0000
Subject: [PATCH 51/61] fix: document the order in which the conductivity is
 used in 3D

---
 pf/chargeTransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/chargeTransport.go b/pf/chargeTransport.go
index 89f5839..c20b4fb 100644
--- a/pf/chargeTransport.go
+++ b/pf/chargeTransport.go
@@ -32,7 +32,7 @@ import (
 // and r is the real space position vector. E_ext is the external electric field
 type ChargeTransport struct {
 	// Conductivity return the conductivity tensor at node i. If 3D
-	// the order should be s_xx, s_yy, s_zz, s_xz, s_yz, s_xy and if 2D
+	// the order should be s_xx, s_yy, s_zz, s_yz, s_xz, s_xy and if 2D
 	// it should be s_xx, s_yy, s_xy. The vacuum permittivity should be embeded
 	// in the conductivity. Thus, if the "normal" conductiviy in Ohm's law is
 	// labeled sigma, the current density is given by j = sigma*E, this function
-- 
2.43.0


From 6b907ca63da96bff4d0d904d8f68879bd7d7f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:32 +0000
Subject: [PATCH 52/61] fix: evaluate the elastic term with the current field

---
 pf/homoLinElast.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pf/homoLinElast.go b/pf/homoLinElast.go
index 02c90ae..f845abf 100644
--- a/pf/homoLinElast.go
+++ b/pf/homoLinElast.go
@@ -51,6 +51,17 @@ func (h *HomogeneousModulusLinElast) Construct(bricks map[string]Brick) Term {
 		}
 
 		work := make([]complex128, h.N)
+		if brick, ok := bricks[h.FieldName]; ok {
+			// Use the field as it is now, also before the first step is finished
+			for i := range work {
+				work[i] = brick.Get(i)
+			}
+			h.FT.IFFT(work)
+			for i := range h.Field {
+				h.Field[i] = real(work[i]) / float64(h.N)
+			}
+		}
+
 		for i := range work {
 			work[i] = complex(Indicator(h.Field[i]), 0.0)
 		}
-- 
2.43.0


From 322012342d6839560ef352ec7e20251c11547962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:42 +0000
Subject: [PATCH 53/61] fix: use the real strains in the elastic term

---
 pf/homoLinElast.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pf/homoLinElast.go b/pf/homoLinElast.go
index f845abf..3a70f13 100644
--- a/pf/homoLinElast.go
+++ b/pf/homoLinElast.go
@@ -82,6 +82,10 @@ func (h *HomogeneousModulusLinElast) Construct(bricks map[string]Brick) Term {
 				strains := elasticity.Strain(disp, h.Freq, i, j)
 				h.FT.IFFT(strains) // Obtain real-space strains
 				pfutil.DivRealScalar(strains, float64(len(strains)))
+				for k := range strains {
+					// The Nyquist frequencies can leave an imaginary part
+					strains[k] = complex(real(strains[k]), 0.0)
+				}
 				pfutil.ElemwiseMul(strains, work)
 				h.FT.FFT(strains)
 
-- 
2.43.0


From 0c8c042743ee337ed89b25aa7693cbe7e4ed5b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 54/61] fix: change of the reciprocal lattice for changes of
 the cell that are not symmetric

---
 pfc/lattice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/lattice.go b/pfc/lattice.go
index 60962bd..2ddb2ec 100644
--- a/pfc/lattice.go
+++ b/pfc/lattice.go
@@ -47,7 +47,7 @@ func (rc *ReciprocalCell) HKLVector(miller Miller) []float64 {
 func (rc *ReciprocalCell) CellChange(realSpaceChange *mat.Dense) *mat.Dense {
 	r, c := realSpaceChange.Dims()
 	change := mat.NewDense(r, c, nil)
-	change.Product(rc.CellVec, realSpaceChange, rc.CellVec)
+	change.Product(rc.CellVec, realSpaceChange.T(), rc.CellVec)
 	change.Scale(-1.0/(2.0*math.Pi), change)
 	return change
 }
-- 
2.43.0


From 9d1e2d89cd744bedd8d9bb2a64a311cb07176500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 55/61] fix: names of advection terms whose velocity names read
 the same when joined

---
 pf/advection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/advection.go b/pf/advection.go
index 117ef43..07406fb 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -29,7 +29,7 @@ func (ad *Advection) GradName(comp int) string {
 func (ad *Advection) GetName() string {
 	name := ""
 	for _, vel := range ad.VelocityFields {
-		name += vel
+		name += vel + ","
 	}
 	name += "Dot" + "Grad" + ad.Field
 	return name
-- 
2.43.0


From e7daaa3131d916db64b2cf993ab2ee8980d27cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 56/61] fix: let lineplot draw the fields chosen with --data

---
 cmd/lineplot.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/lineplot.go b/cmd/lineplot.go
index f195efd..c34f1ce 100644
--- a/cmd/lineplot.go
+++ b/cmd/lineplot.go
@@ -93,16 +93,17 @@ To plot data along a line, at least two of -x, -y and -z must be specified.
 			return
 		}
 
-		fields, err := cmd.Flags().GetString("fields")
+		fields, err := cmd.Flags().GetString("data")
+		if err != nil {
+			log.Fatalf("Could not read data: %s\n", err)
+			return
+		}
 
 		var fieldArray []string
 		if fields == "" {
 			fieldArray = readHeader(fname)[3:]
 		} else {
-			splitted := strings.Split(fields, ",")
-			for i := 4; i < len(splitted); i++ {
-				fieldArray = append(fieldArray, splitted[i])
-			}
+			fieldArray = strings.Split(fields, ",")
 		}
 
 		plt := plot.New()
-- 
2.43.0


From 3090a844d9be687c97da5a79ba616b662c4c2a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 57/61] fix: draw the values of contour plots at their
 positions

---
 cmd/contour.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index dc70504..5cdd53f 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -207,7 +207,7 @@ func (h HeatMapData) Y(r int) float64 {
 
 // Z returns the value of the field
 func (h HeatMapData) Z(c, r int) float64 {
-	return h.rows[index(c, r, h.Nx)].Value
+	return h.rows[h.index[index(c, r, h.Nx)]].Value
 }
 
 func getColIndex(header []string, column string) int {
@@ -327,7 +327,8 @@ func fillImage(data HeatMapData, cmap palette.ColorMap) *image.RGBA64 {
 				log.Fatalf("%s\n", err)
 				return img
 			}
-			img.Set(i, j, color)
+			// Row zero of an image is at the top and y = 0 is at the bottom of the plot
+			img.Set(i, m-1-j, color)
 		}
 	}
 	return img
-- 
2.43.0


From d5ef66b0b4fcb9cb855f2da364c5c01d5880bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 58/61] fix: read plot data in the documented format with
 blanks after commas

---
 cmd/contour.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/contour.go b/cmd/contour.go
index 5cdd53f..990a1bd 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -232,6 +232,7 @@ func readData(fname string, column string) []DataRow {
 	defer file.Close()
 
 	reader := csv.NewReader(file)
+	reader.TrimLeadingSpace = true
 	header, err := reader.Read()
 	if err != nil {
 		log.Fatalf("Could not read header: %s\n", err)
@@ -306,6 +307,7 @@ func readHeader(fname string) []string {
 	defer file.Close()
 
 	reader := csv.NewReader(file)
+	reader.TrimLeadingSpace = true
 	header, err := reader.Read()
 	if err != nil {
 		log.Fatalf("Could not read header: %s\n", err)
-- 
2.43.0


From 92d2e5b7c6be047a9b426cf1da25c5d09caca439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:57 +0000
Subject: [PATCH 59/61] fix: validate implicit terms at all frequencies of the
 domain

Terms that read a field only at some frequencies (for example at low or at
negative ones) were accepted as implicit, because they were only evaluated at
one fixed frequency. Terms like 2*A - B or (1 - t)*A were accepted because the
fields were varied by amounts with the ratio of 1 to 2, at the time 1.
---
 pf/model.go           | 19 +++++++++++++++----
 pf/solver.go          |  3 ++-
 pf/userDefinedTerm.go | 11 ++++++-----
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index 4c8b70f..2654a25 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -127,6 +127,9 @@ type Model struct {
 
 	// dim is the number of dimensions of the domain, 0 means unknown
 	dim int
+
+	// freq gives the frequencies of the domain, nil means unknown
+	freq Frequency
 }
 
 // NewModel returns a new model
@@ -272,11 +275,19 @@ func (m *Model) Init() {
 		dim = 2
 	}
 
-	// Validate all implicit terms
+	// Validate all implicit terms, at a frequency where terms normally do not vanish and at the ones of the domain
+	freqs := []Frequency{func(i int) []float64 {
+		return []float64{0.4, 0.3, 0.2}[:dim]
+	}}
+	if m.freq != nil {
+		freqs = append(freqs, m.freq)
+	}
 	for k, v := range m.ImplicitTerms {
-		if !isImplicit(v, m.Bricks, m.NumNodes(), func(i int) []float64 {
-			return []float64{0.4, 0.3, 0.2}[:dim]
-		}) {
+		implicit := true
+		for _, freq := range freqs {
+			implicit = implicit && isImplicit(v, m.Bricks, m.NumNodes(), freq)
+		}
+		if !implicit {
 			msg := fmt.Sprintf("Model: Term %s is not implicit (e.g. it varies when the fields are varied)", k)
 			panic(msg)
 		}
diff --git a/pf/solver.go b/pf/solver.go
index f0d0dae..75bf8db 100644
--- a/pf/solver.go
+++ b/pf/solver.go
@@ -39,13 +39,14 @@ type Solver struct {
 // NewSolver initializes a new solver
 func NewSolver(m *Model, domainSize []int, dt float64) *Solver {
 	var solver Solver
+	solver.FT = pfutil.NewFFTW(domainSize)
 	m.dim = len(domainSize)
+	m.freq = solver.FT.Freq
 	m.Init()
 	solver.Model = m
 	solver.Dt = dt
 	solver.Callbacks = []SolverCB{}
 	solver.Monitors = []Monitor{}
-	solver.FT = pfutil.NewFFTW(domainSize)
 
 	solver.Stepper = &Euler{
 		Dt: solver.Dt,
diff --git a/pf/userDefinedTerm.go b/pf/userDefinedTerm.go
index 5b0ef81..def2b53 100644
--- a/pf/userDefinedTerm.go
+++ b/pf/userDefinedTerm.go
@@ -88,8 +88,8 @@ func isImplicit(t PureTerm, bricks map[string]Brick, N int, freq Frequency) bool
 	}
 	sort.Strings(names)
 
-	// Construct a set of fields that changes the fields. The fields are changed by different amounts,
-	// such that the changes do not cancel. Scalars never change
+	// Construct a set of fields that changes the fields. The fields are changed by amounts without
+	// a simple ratio, such that the changes do not cancel. Scalars never change
 	tmpBricks := make(map[string]Brick)
 	for i, k := range names {
 		if _, ok := bricks[k].(*Scalar); ok {
@@ -99,7 +99,7 @@ func isImplicit(t PureTerm, bricks map[string]Brick, N int, freq Frequency) bool
 		tmpBricks[k] = &perturbedBrick{
 			name:         k,
 			parentBrick:  bricks[k],
-			perturbation: complex(0.2*float64(i+1), 0.0),
+			perturbation: complex(0.2*math.Pow(float64(i+1), 0.37), 0.0),
 		}
 	}
 	func1 := t.Construct(bricks)
@@ -107,8 +107,9 @@ func isImplicit(t PureTerm, bricks map[string]Brick, N int, freq Frequency) bool
 	array1 := make([]complex128, N)
 	array2 := make([]complex128, N)
 
-	func1(freq, 1.0, array1)
-	func2(freq, 1.0, array2)
+	t0 := math.Sqrt2 // A time where terms normally do not vanish
+	func1(freq, t0, array1)
+	func2(freq, t0, array2)
 	return pfutil.CmplxEqualApprox(array1, array2, 1e-10)
 }
 
-- 
2.43.0


From a915ce28bce7d9d2eb633228b8819b993d5c1a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:15 +0000
Subject: [PATCH 60/61] fix: scale fields of small values in 8-bit files

---
 pf/util.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pf/util.go b/pf/util.go
index 0cc8a00..10826d2 100644
--- a/pf/util.go
+++ b/pf/util.go
@@ -102,11 +102,12 @@ func GetFieldName(term string, fieldNames []string) string {
 }
 
 // RealPartAsUint8 return the real part of the field as uint8. The data is scaled
-// such that min --> 0 and max --> 255
+// such that min --> 0 and max --> 255. If min and max are the same apart from
+// rounding errors, all values are mapped to zero
 func RealPartAsUint8(data []complex128, min float64, max float64) []uint8 {
 	res := make([]uint8, len(data))
-	if math.Abs(max-min) < 1e-10 {
-		max = min + 1.0
+	if math.Abs(max-min) <= 1e-10*math.Max(math.Abs(min), math.Abs(max)) {
+		return res // The field is uniform
 	}
 	for i := range data {
 		res[i] = uint8(255 * ((real(data[i]) - min) / (max - min)))
-- 
2.43.0


From 297cb627cfeb8f5722ba7ed48db32301cfffd23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:15 +0000
Subject: [PATCH 61/61] fix: integrate slow linear parts exactly in the
 implicit scheme

---
 pf/implicitEuler.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pf/implicitEuler.go b/pf/implicitEuler.go
index f4340f2..f3f651a 100644
--- a/pf/implicitEuler.go
+++ b/pf/implicitEuler.go
@@ -150,15 +150,14 @@ func (ie *ImplicitEuler) defaultTol() float64 {
 
 func (ie *ImplicitEuler) nonlinearIntegral(denum complex128, rhs complex128, rhsPrev complex128) complex128 {
 	cDt := complex(ie.Dt, 0.0)
-	tol := 1e-5
-	a := rhsPrev
-	b := (rhs - rhsPrev) / cDt
-	f := cmplx.Exp(denum * cDt)
+	x := denum * cDt
 
-	if cmplx.Abs(denum) < tol {
-		return 0.5 * cDt * (rhs + rhsPrev*f)
+	// Use a Taylor expansion when the linear part changes little during a timestep
+	phi := 0.5 * (1.0 + x/3.0*(1.0+x/4.0*(1.0+x/5.0)))
+	if cmplx.Abs(x) > 1e-2 {
+		phi = (cmplx.Exp(x) - x - 1.0) / (x * x)
 	}
-	return a*(f-1.0)/denum + b*(f-denum*cDt-1.0)/(denum*denum)
+	return cDt * (rhsPrev*(1.0+x*phi) + (rhs-rhsPrev)*phi)
 }
 
 // Step evolves the equation one timestep
-- 
2.43.0

