From 183796f1672c8e66792e751eb5ed2cb2086b9e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:45 +0000
Subject: [PATCH 001/114] fix: scale imposed displacements once, not once per
 component

---
 Abstract/Loading.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 580e093..13e1d38 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -271,10 +271,7 @@ double ImposedDisplacement::getDoubleForDOF(const DOF& dof) const {
 }
 
 void ImposedDisplacement::scale(const double factor) {
-    for(DOF dof : DOFS::ALL_DOFS) {
-        if (not is_equal(displacements[dof.position], Globals::UNAVAILABLE_DOUBLE))
-            displacements *= factor;
-    }
+    displacements *= factor;
 }
 
 NodalForce::NodalForce(Model& model, const std::shared_ptr<LoadSet> loadset, const VectorialValue& force,
-- 
2.43.0


From ae104a2b1cae0057d7e10e8d75fce28db0905723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:45 +0000
Subject: [PATCH 002/114] fix: FORCE1 loads were dropped as ineffective

---
 Abstract/Loading.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 13e1d38..38c8eea 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -372,7 +372,7 @@ void NodalForceTwoNodes::scale(const double factor) {
 }
 
 bool NodalForceTwoNodes::ineffective() const {
-	return is_zero(magnitude) or force.iszero();
+	return is_zero(magnitude);
 }
 
 NodalForceFourNodes::NodalForceFourNodes(Model& model, const std::shared_ptr<LoadSet> loadset, const int node1_id,
-- 
2.43.0


From c5e5daca4c0ce230d6978bf437b9cb81776539a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:27 +0000
Subject: [PATCH 003/114] fix: RFORCE angular velocity is in revolutions per
 unit time

---
 Nastran/NastranParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index fa2ccab..8f4082f 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3234,7 +3234,9 @@ void NastranParser::parseRFORCE(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("MB not supported. Default (0) assumed.", tok, model);
     }
     const auto& loadset = model.getOrCreateLoadSet(sid, LoadSet::Type::LOAD);
-    const auto& rotation = make_shared<RotationNode>(model, loadset, a, g, r1, r2, r3);
+    // A is given in revolutions per unit time
+    const double speed = 2.0 * boost::math::constants::pi<double>() * a;
+    const auto& rotation = make_shared<RotationNode>(model, loadset, speed, g, r1, r2, r3);
 
     rotation->setInputContext(tok.getInputContext());
     model.add(rotation);
-- 
2.43.0


From a643acc63349d86e27557d1848f761ed55fffc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:43 +0000
Subject: [PATCH 004/114] fix: take every imposed displacement of a node into
 account when removing constraints

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index e3eb356..4696ada 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1470,7 +1470,7 @@ void Model::removeConstrainedImposed() {
             for (const auto& load : loads) {
                 const auto& impo = static_pointer_cast<ImposedDisplacement>(load);
                 for (const auto nodePosition : impo->nodePositions()) {
-                    imposedDofsByNodePosition[nodePosition] = impo->getDOFSForNode(nodePosition);
+                    imposedDofsByNodePosition[nodePosition] += impo->getDOFSForNode(nodePosition);
                 }
             }
         }
-- 
2.43.0


From 9ef72c9ad386d2b8711cb9ac651b169199d7ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 005/114] fix: N1 N2 N3 of PLOAD4 give a direction, not a
 magnitude

---
 Nastran/NastranParser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 8f4082f..4dfc9ea 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2923,6 +2923,9 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
     }
 
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
+    // N1, N2, N3 only give the direction of the load, P1 its magnitude
+    const VectorialValue direction(n1, n2, n3);
+    const VectorialValue& surfaceForce = direction.iszero() ? direction : p1 * direction.normalized();
     bool has_direction = not (is_equal(n1, 0.0) and is_equal(n2, 0.0) and is_equal(n3, 0.0)
                               and cid == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     if (not has_direction and g1 == Globals::UNAVAILABLE_INT) {
@@ -2953,10 +2956,10 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
         shared_ptr<ForceSurfaceTwoNodes> forceSurfaceTwoNodes = nullptr;
         if (g3_or_4 != Globals::UNAVAILABLE_INT) {
             forceSurfaceTwoNodes = make_shared<ForceSurfaceTwoNodes>(model, loadSet, g1, g3_or_4,
-			VectorialValue(n1 * p1, n2 * p1, n3 * p1), VectorialValue(0, 0, 0));
+			surfaceForce, VectorialValue(0, 0, 0));
         } else {
             forceSurfaceTwoNodes = make_shared<ForceSurfaceTwoNodes>(model, loadSet, g1,
-			VectorialValue(n1 * p1, n2 * p1, n3 * p1), VectorialValue(0, 0, 0));
+			surfaceForce, VectorialValue(0, 0, 0));
         }
         for(int cellId = eid1; cellId <= eid2; cellId++) {
             forceSurfaceTwoNodes->addCellId(cellId);
@@ -2965,7 +2968,7 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
         forceSurfaceTwoNodes->setInputContext(tok.getInputContext());
         model.add(forceSurfaceTwoNodes);
     } else {
-        const auto& forceSurface = make_shared<ForceSurface>(model, loadSet, VectorialValue(n1 * p1, n2 * p1, n3 * p1),
+        const auto& forceSurface = make_shared<ForceSurface>(model, loadSet, surfaceForce,
                 VectorialValue(0.0, 0.0, 0.0));
         for(int cellId = eid1; cellId <= eid2; cellId++) {
             forceSurface->addCellId(cellId);
-- 
2.43.0


From 696fb056a0edea6e3fde0c86cbc85928904c82ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 006/114] fix: RFORCE angular velocity includes the norm of its
 axis

---
 Nastran/NastranParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 4dfc9ea..cc794cc 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3237,8 +3237,8 @@ void NastranParser::parseRFORCE(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("MB not supported. Default (0) assumed.", tok, model);
     }
     const auto& loadset = model.getOrCreateLoadSet(sid, LoadSet::Type::LOAD);
-    // A is given in revolutions per unit time
-    const double speed = 2.0 * boost::math::constants::pi<double>() * a;
+    // A is given in revolutions per unit time, for an axis of norm 1
+    const double speed = 2.0 * boost::math::constants::pi<double>() * a * VectorialValue(r1, r2, r3).norm();
     const auto& rotation = make_shared<RotationNode>(model, loadset, speed, g, r1, r2, r3);
 
     rotation->setInputContext(tok.getInputContext());
-- 
2.43.0


From ce7fadd4d56fea2085f1bb5b5a62b2fc8b697c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 007/114] fix: blank fields omitted at the end of a free format
 line are still fields

---
 Nastran/NastranTokenizer.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 71eb511..773f644 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -156,6 +156,8 @@ bool NastranTokenizer::readLineSkipComment(string& line, bool firstLine) {
 }
 
 void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
+	// position of the first data field of this line
+	const size_t lineStart = firstLine ? 1 : currentLineVector.size();
 	if (firstLine) {
 		split(currentLineVector, line, boost::is_any_of(","));
 	} else {
@@ -165,18 +167,24 @@ void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
 		split(otherLine, lineNoContinuation, boost::is_any_of(","));
 		currentLineVector.insert(currentLineVector.end(), otherLine.begin(), otherLine.end());
 	}
+	// the continuation field follows the eight data fields of the line
+	const size_t continuationField = lineStart + 8;
 	bool explicitContinuation = false;
-	for (size_t fieldIndex = 1; fieldIndex < currentLineVector.size(); fieldIndex += 8) {
-		string field = trim_copy(currentLineVector[fieldIndex]);
+	if (continuationField < currentLineVector.size()) {
+		string field = trim_copy(currentLineVector[continuationField]);
 		if (field[0] == '+') {
 			explicitContinuation = true;
-			currentLineVector.erase(currentLineVector.begin() + fieldIndex);
+			currentLineVector.erase(currentLineVector.begin() + continuationField);
 		}
 	}
 	char c = static_cast<char>(this->instrream.peek());
     string line2;
     if (explicitContinuation || c == ',' || c == '+' || c == '*') {
 		readLineSkipComment(line2, false);
+		// fields omitted at the end of the line are blank
+		if (currentLineVector.size() < continuationField) {
+			currentLineVector.resize(continuationField);
+		}
 		splitFreeFormat(line2, false);
 	}
 }
-- 
2.43.0


From 2a6066d0cc530fc68c55c5448eec0a12c6327fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 008/114] fix: a comment line does not end a free format card

---
 Nastran/NastranTokenizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 773f644..5481db2 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -179,6 +179,11 @@ void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
 	}
 	char c = static_cast<char>(this->instrream.peek());
     string line2;
+    while (c == '$') { // comment inside card
+        getline(this->instrream, line2);
+        lineNumber += 1;
+        c = static_cast<char>(this->instrream.peek());
+    }
     if (explicitContinuation || c == ',' || c == '+' || c == '*') {
 		readLineSkipComment(line2, false);
 		// fields omitted at the end of the line are blank
-- 
2.43.0


From 2fd30cd9d606b42b674635e41e8c689f5402a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 009/114] fix: THRU BY ranges start at their lower bound

---
 Nastran/NastranTokenizer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 5481db2..023dc61 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -494,9 +494,13 @@ list<int> NastranTokenizer::nextInts() {
                 skip(1);
                 step = nextInt();
             }
-            for(int i=start+1;i<=endint;i+=step) {
+            for(int i=start+step;i<endint;i+=step) {
                 result.push_back(i);
             }
+            // the upper bound always belongs to the range
+            if (start != endint) {
+                result.push_back(endint);
+            }
         }
 	}
 	return result;
-- 
2.43.0


From 965afef0d973d534df427d341d3e841f9e457acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 010/114] fix: a comment that does not start in the first
 column does not swallow the next card

---
 Nastran/NastranTokenizer.cpp | 31 +++++++++++++++++++------------
 Nastran/NastranTokenizer.h   |  1 +
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 023dc61..346df15 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -155,6 +155,22 @@ bool NastranTokenizer::readLineSkipComment(string& line, bool firstLine) {
 	return eof;
 }
 
+void NastranTokenizer::skipCommentLines() {
+	string line;
+	while (this->instrream.good()) {
+		const auto position = this->instrream.tellg();
+		getline(this->instrream, line);
+		const size_t first = line.find_first_not_of(" \t");
+		if (first == string::npos or line[first] != '$') {
+			// not a comment: give the line back
+			this->instrream.clear();
+			this->instrream.seekg(position);
+			break;
+		}
+		lineNumber += 1;
+	}
+}
+
 void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
 	// position of the first data field of this line
 	const size_t lineStart = firstLine ? 1 : currentLineVector.size();
@@ -177,13 +193,9 @@ void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
 			currentLineVector.erase(currentLineVector.begin() + continuationField);
 		}
 	}
-	char c = static_cast<char>(this->instrream.peek());
     string line2;
-    while (c == '$') { // comment inside card
-        getline(this->instrream, line2);
-        lineNumber += 1;
-        c = static_cast<char>(this->instrream.peek());
-    }
+    skipCommentLines(); // comment inside card
+	char c = static_cast<char>(this->instrream.peek());
     if (explicitContinuation || c == ',' || c == '+' || c == '*') {
 		readLineSkipComment(line2, false);
 		// fields omitted at the end of the line are blank
@@ -378,14 +390,9 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, con
 		}
 	}
 	string line2;
+	skipCommentLines(); // Trying to skip "comment inside card case"
 	char c0 = static_cast<char>(this->instrream.peek());
 
-	while (c0 == '$') { // Trying to skip "comment inside card case"
-        getline(this->instrream, line2);
-        lineNumber += 1;
-        c0 = static_cast<char>(this->instrream.peek());
-    }
-
 	if (explicitContinuation or c0 == '+') {
 		//todo:check that continuation tokens are the same
 		bool iseof = readLineSkipComment(line2, false);
diff --git a/Nastran/NastranTokenizer.h b/Nastran/NastranTokenizer.h
index 289b5ea..d89bd58 100644
--- a/Nastran/NastranTokenizer.h
+++ b/Nastran/NastranTokenizer.h
@@ -79,6 +79,7 @@ private:
     void splitFixedFormat(std::string& line, bool longFormat, bool firstLine);
 
     bool readLineSkipComment(std::string& line, bool firstLine);
+    void skipCommentLines(); /**< Skip the lines that hold nothing but a comment, whatever its column. **/
     void splitFreeFormat(std::string line, bool firstLine);
     void parseBulkSectionLine(std::string line);
     void parseParameters();
-- 
2.43.0


From 3e0a55c4597d40c72a2b91807dd01cd4af1dfa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 011/114] fix: a comma after the eighth field of a free format
 line does not add a field

---
 Nastran/NastranTokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 346df15..8945391 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -191,6 +191,9 @@ void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
 		if (field[0] == '+') {
 			explicitContinuation = true;
 			currentLineVector.erase(currentLineVector.begin() + continuationField);
+		} else if (field.empty() and continuationField + 1 == currentLineVector.size()) {
+			// trailing comma: blank continuation field
+			currentLineVector.pop_back();
 		}
 	}
     string line2;
-- 
2.43.0


From e51ba9ceebce07d66e7c92156523afc8f025332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 012/114] fix: DOFMatrix::isEqual takes missing components as
 zero

---
 Abstract/Dof.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/Abstract/Dof.cpp b/Abstract/Dof.cpp
index 80084b2..0c7709a 100644
--- a/Abstract/Dof.cpp
+++ b/Abstract/Dof.cpp
@@ -450,15 +450,12 @@ DOFMatrix DOFMatrix::transposed() const noexcept {
 }
 
 bool DOFMatrix::isEqual(const DOFMatrix& other) const noexcept {
-    if (componentByDofs.size() != other.componentByDofs.size())
-        return false; // This should be relaxed: maybe other matrix has some zero values explicitely
-    for (auto& entry : componentByDofs) {
-        const auto& otherit = other.componentByDofs.find(entry.first);
-        if (otherit == other.componentByDofs.end() and not is_zero(entry.second)) {
-            return false;
-        }
-        if (not is_equal(entry.second, otherit->second)) {
-            return false;
+    // a missing component is zero
+    for (const DOF& dof1 : DOFS::ALL_DOFS) {
+        for (const DOF& dof2 : DOFS::ALL_DOFS) {
+            if (not is_equal(findComponent(dof1, dof2), other.findComponent(dof1, dof2))) {
+                return false;
+            }
         }
     }
     return true;
-- 
2.43.0


From ed155823e01a4e014d5022c3a2cc69f89cccb885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 013/114] fix: message of an invalid component code

---
 Abstract/Dof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Dof.cpp b/Abstract/Dof.cpp
index 0c7709a..482a582 100644
--- a/Abstract/Dof.cpp
+++ b/Abstract/Dof.cpp
@@ -190,7 +190,7 @@ DOFS DOFS::nastranCodeToDOFS(int nastranCode) {
 		number = number / 10;
 		auto codeiter = DOF_BY_NASTRANCODE.left.find(nastranDigit);
 		if (codeiter == DOF_BY_NASTRANCODE.left.end()) {
-			throw invalid_argument("Invalid Nastran code: " + nastranCode);
+			throw invalid_argument("Invalid Nastran code: " + to_string(nastranCode));
 		}
 		DOFS internalDOFCode {static_cast<char>(codeiter->second)};
 		dofs += internalDOFCode;
-- 
2.43.0


From a2c20723243bbad908ad6b78c8cd13f7f8120727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 014/114] fix: adding coefficients keeps the components the
 other side does not have

---
 Abstract/Dof.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Abstract/Dof.cpp b/Abstract/Dof.cpp
index 482a582..f5b366f 100644
--- a/Abstract/Dof.cpp
+++ b/Abstract/Dof.cpp
@@ -515,6 +515,9 @@ void DOFCoefs::setValue(const DOF dof, double val) noexcept {
 
 DOFCoefs& DOFCoefs::operator+=(const DOFCoefs& rv) noexcept {
     for (dof_int i = 0; i < 6; i++) {
+        if (is_equal(rv.coefs[i], Globals::UNAVAILABLE_DOUBLE)) {
+            continue;
+        }
         if (not is_equal(coefs[i], Globals::UNAVAILABLE_DOUBLE)) {
             coefs[i] += rv.coefs[i];
         } else {
-- 
2.43.0


From b5140b843e8625df5d35339b1578d98469f84ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:27 +0000
Subject: [PATCH 015/114] fix: removing a mesh group forgot the identifier of
 another group

---
 Abstract/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Mesh.cpp b/Abstract/Mesh.cpp
index 07de406..374c00f 100644
--- a/Abstract/Mesh.cpp
+++ b/Abstract/Mesh.cpp
@@ -786,7 +786,7 @@ void Mesh::removeGroup(const string& name) noexcept {
     if (it != this->groupByName.end()) {
         std::shared_ptr<Group> group = it->second;
         this->groupByName.erase(name);
-        const int gId= group->getId();
+        const int gId= group->getOriginalId();
         if (gId!= Group::NO_ORIGINAL_ID){
             this->groupById.erase(gId);
         }
-- 
2.43.0


From f70aa187a2e9a2f47b9f6351c2994743c340bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:20 +0000
Subject: [PATCH 016/114] fix: face node lists of HEXA20 elements

---
 Abstract/MeshComponents.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 4d8fcbf..361252d 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -382,8 +382,8 @@ unordered_map<CellType::Code, vector<vector<int>>, EnumClassHash > Cell::init_fa
     };
     vector<vector<int> > hexa20list = { //
         {1,2,3,4,9,10,11,12}, //
-        {5,8,7,6,16,15,14,16}, //
-        {1,2,6,5,9,18,13,17}, //
+        {5,8,7,6,16,15,14,13}, //
+        {1,5,6,2,17,13,18,9}, //
         {2,6,7,3,18,14,19,10}, //
         {3,7,8,4,19,15,20,11}, //
         {1,4,8,5,12,20,16,17} //
-- 
2.43.0


From 5745b86708d2638ff15b4ad4eaabd57fbdcb8c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:48 +0000
Subject: [PATCH 017/114] fix: default coordinate systems of GRDSET

---
 Nastran/NastranParser_geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index fa8884a..68b11b4 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -59,12 +59,12 @@ void NastranParser::parseGRDSET(NastranTokenizer& tok, Model& model) {
     tok.skip(1);
     int cp = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     if (cp != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-        grdSet.cp = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cp));
+        grdSet.cp = static_cast<pos_t>(cp); // an identifier: parseGRID looks for its position
         }
     tok.skip(3);
     int cd = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     if (cd != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-        grdSet.cd = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cd));
+        grdSet.cd = static_cast<pos_t>(cd); // an identifier: parseGRID looks for its position
         }
     grdSet.ps = tok.nextInt(true, 0);
     grdSet.seid = tok.nextInt(true, 0);
-- 
2.43.0


From b56f31b393b274e2e288b239b1f54bca78a77aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:04 +0000
Subject: [PATCH 018/114] fix: tube sections have the outer radius and the
 thickness of their card

---
 Abstract/Element.cpp      | 6 +++---
 Nastran/NastranParser.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index e8a46b3..88b39b4 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -247,11 +247,11 @@ unique_ptr<ElementSet> TubeSectionBeam::clone() const {
 }
 
 double TubeSectionBeam::getAreaCrossSection() const {
-	return M_PI * (pow(radius, 2) - pow(thickness, 2)) ;
+	return M_PI * (pow(radius, 2) - pow(radius - thickness, 2)) ;
 }
 
 double TubeSectionBeam::getMomentOfInertiaY() const {
-	return (pow(radius, 4) - pow(thickness, 4)) * M_PI / 4;
+	return (pow(radius, 4) - pow(radius - thickness, 4)) * M_PI / 4;
 }
 
 double TubeSectionBeam::getMomentOfInertiaZ() const {
@@ -260,7 +260,7 @@ double TubeSectionBeam::getMomentOfInertiaZ() const {
 
 double TubeSectionBeam::getTorsionalConstant() const {
 	// http://en.wikipedia.org/wiki/Torsion_constant
-	return (pow(radius, 4) - pow(thickness, 4)) * M_PI / 2;
+	return (pow(radius, 4) - pow(radius - thickness, 4)) * M_PI / 2;
 }
 
 double TubeSectionBeam::getShearAreaFactorY() const {
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index cc794cc..5beef55 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2191,7 +2191,7 @@ void NastranParser::parsePBARL(NastranTokenizer& tok, Model& model) {
         double extRadius = tok.nextDouble();
         double intRadius = tok.nextDouble();
         nsm = tok.nextDouble(true, 0.0);
-        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, intRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, propertyId);
+        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, extRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, propertyId);
         tubeSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
         tubeSectionBeam->add(*getOrCreateCellGroup(propertyId, model, "PBARL"));
         tubeSectionBeam->setInputContext(tok.getInputContext());
@@ -2369,7 +2369,7 @@ void NastranParser::parsePBEAML(NastranTokenizer& tok, Model& model) {
         double extRadius = tok.nextDouble();
         double intRadius = tok.nextDouble();
         nsm = tok.nextDouble(true, 0.0);
-        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, intRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, pid);
+        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, extRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, pid);
         tubeSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
         tubeSectionBeam->add(*getOrCreateCellGroup(pid, model,"PBEAML"));
         tubeSectionBeam->setInputContext(tok.getInputContext());
-- 
2.43.0


From e867a39ee67aa75eb76aca862e9ddabf90ac1f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:04 +0000
Subject: [PATCH 019/114] fix: shear factors K1 and K2 of PBAR were exchanged

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 5beef55..8ffa977 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2117,8 +2117,8 @@ void NastranParser::parsePBAR(NastranTokenizer& tok, Model& model) {
 
     // K1, K2: Area factors for shear. VEGA works with 1/K1 and 1/K2
     // Default values is infinite
-    const double k1 = tok.nextDouble(true); // K1 = Kzz
-    const double k2 = tok.nextDouble(true); // K2 = Kyy
+    const double k1 = tok.nextDouble(true); // K1: plane xy, shear along y
+    const double k2 = tok.nextDouble(true); // K2: plane xz, shear along z
     double invk1, invk2;
     if (is_equal(k1, Globals::UNAVAILABLE_DOUBLE)){
         invk1= 0.0;
@@ -2136,7 +2136,7 @@ void NastranParser::parsePBAR(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("PBAR i12 not implemented.", tok, model);
     }
 
-    const auto& genericSectionBeam = make_shared<GenericSectionBeam>(model, area, i2, i1, j, invk2, invk1, Beam::BeamModel::TIMOSHENKO, nsm,
+    const auto& genericSectionBeam = make_shared<GenericSectionBeam>(model, area, i2, i1, j, invk1, invk2, Beam::BeamModel::TIMOSHENKO, nsm,
             elemId);
     genericSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
     genericSectionBeam->add(*getOrCreateCellGroup(elemId, model, "PBAR"));
-- 
2.43.0


From d6f9cb0378e3bfccd9fb9f7d8cf5689f99f12c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:04 +0000
Subject: [PATCH 020/114] fix: Z0 of PCOMP is the distance to the bottom
 surface, not to the middle

---
 Nastran/NastranParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 8ffa977..0292260 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2609,9 +2609,9 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
         composite->addLayer(Reference<Material>(Material::Type::MATERIAL,midn), tn, thetan);
     }
     if (is_equal(z0, Globals::UNAVAILABLE_DOUBLE)) {
-        composite->offset = composite->getTotalThickness() / 2.0; // default -1/2 element thickness
+        composite->offset = 0.0; // default Z0 is -1/2 element thickness: the plies are centered
     } else {
-        composite->offset = z0;
+        composite->offset = z0 + composite->getTotalThickness() / 2.0; // Z0 is the distance to the bottom surface
     }
     composite->setInputContext(tok.getInputContext());
     composite->add(*getOrCreateCellGroup(pid, model, "PCOMP"));
-- 
2.43.0


From 583b24700fba6f295e792d24a25c379af660fd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:04 +0000
Subject: [PATCH 021/114] fix: shells with different offsets or of different
 properties were merged

---
 Abstract/Model.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 4696ada..1e62f0e 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2133,8 +2133,9 @@ void Model::splitElementsByCellOffsets() {
         if (not shell->containsNonzeroOffsetCell())
             continue;
         elementSetsToRemove.push_back(shell);
+        cellPositionsByRoundedOffset.clear();
         for (const Cell& cell : shell->getCellsIncludingGroups()) {
-            long offsetRounded = lround(pow(cell.offset,6));
+            long offsetRounded = lround(cell.offset * 1e6);
             const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
             if (it == cellPositionsByRoundedOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = shell->clone();
@@ -2149,15 +2150,15 @@ void Model::splitElementsByCellOffsets() {
             }
         }
     }
-    cellPositionsByRoundedOffset.clear();
 
     for (const auto& elementSet : elementSets.filter(ElementSet::Type::COMPOSITE)) {
         const auto& composite = static_pointer_cast<Composite>(elementSet);
         if (not composite->containsNonzeroOffsetCell())
             continue;
         elementSetsToRemove.push_back(composite);
+        cellPositionsByRoundedOffset.clear();
         for (const Cell& cell : composite->getCellsIncludingGroups()) {
-            long offsetRounded = lround(pow(cell.offset,6));
+            long offsetRounded = lround(cell.offset * 1e6);
             const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
             if (it == cellPositionsByRoundedOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = composite->clone();
-- 
2.43.0


From 5bc930ee3b06f7a2a1160a1aab6bbbdba17c582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:51 +0000
Subject: [PATCH 022/114] fix: elements with a non structural mass were doubled
 and got a null Young modulus

---
 Abstract/Model.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 1e62f0e..b622f74 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -917,14 +917,17 @@ void Model::emulateAdditionalMass() {
             const auto& newMaterial = make_shared<Material>(*this);
             newMaterial->addNature(make_shared<ElasticNature>(*this, 0, 0, 0, rho));
             materials.add(newMaterial);
+            for (const auto& material : cellElementSet->getMaterials())
+                if (material != nullptr)
+                    cellElementSet->unassignMaterial(material);
             cellElementSet->assignMaterial(newMaterial);
             // copy and assign new cellGroup
             ostringstream oss;
             oss << "created by emulateAdditionalMass() because of elementSet: " << elementSet << " additional rho:" << rho;
             const auto& newCellGroup = mesh.createCellGroup(
                     "VAM_" + to_string(newElementSets.size()), Group::NO_ORIGINAL_ID, oss.str());
-            const auto& cellContainer = dynamic_pointer_cast<CellContainer>(elementSet);
-            cellContainer->add(*newCellGroup);
+            cellElementSet->clear();
+            cellElementSet->add(*newCellGroup);
             newElementSets.push_back(newElementSet);
             for (const auto cellPosition : elementSet->cellPositions()) {
                 const Cell& cell = mesh.findCell(cellPosition);
-- 
2.43.0


From 80171146607bcad0e69b6fe1f1082f2a9e7d543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:51 +0000
Subject: [PATCH 023/114] fix: shells of one property with several offsets
 could not be translated

---
 Abstract/Model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index b622f74..537dfe2 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2142,6 +2142,8 @@ void Model::splitElementsByCellOffsets() {
             const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
             if (it == cellPositionsByRoundedOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = shell->clone();
+                if (not cellPositionsByRoundedOffset.empty())
+                    clonedElement->resetId();
                 const auto& clonedShell = dynamic_pointer_cast<Shell>(clonedElement);
                 clonedShell->clear();
                 clonedShell->offset = shell->offset + cell.offset;
@@ -2165,6 +2167,8 @@ void Model::splitElementsByCellOffsets() {
             const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
             if (it == cellPositionsByRoundedOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = composite->clone();
+                if (not cellPositionsByRoundedOffset.empty())
+                    clonedElement->resetId();
                 const auto& clonedComposite = static_pointer_cast<Composite>(clonedElement);
                 clonedComposite->clear();
                 clonedComposite->offset = composite->offset + cell.offset;
-- 
2.43.0


From 681424b59b2887ab5a529aa92ac946ce36de9e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:52 +0000
Subject: [PATCH 024/114] fix: the mass multiplier was applied twice to
 isotropic materials of composites

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 537dfe2..6b1dd00 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2211,7 +2211,7 @@ void Model::replaceIsotropicMaterialsInComposites() {
                                                                    elasticNature->getG(),
                                                                    elasticNature->getG(),
                                                                    elasticNature->getG(),
-                                                                   elasticNature->getRho()));
+                                                                   elasticNature->getRhoAsForceDensity()));
                 this->add(orthoMaterial);
                 replacedMaterials[material->getReference()] = orthoMaterial;
                 layer->setMaterial(orthoMaterial);
-- 
2.43.0


From 4efac344c2c4ef6d5d20afc72a1cd0b31e0fcaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:52 +0000
Subject: [PATCH 025/114] fix: blank ply fields of PCOMP default to the ply
 before, a blank angle to zero

---
 Nastran/NastranParser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 0292260..8222b2e 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2600,11 +2600,13 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
     double theta1 = tok.nextDouble(true, 0.0);
     tok.skip(1); // SOUT1
     composite->addLayer(Reference<Material>(Material::Type::MATERIAL,mid1), t1, theta1);
+    int midn = mid1;
+    double tn = t1;
     while(not tok.isNextEmpty(4) and not tok.isEmptyUntilNextKeyword()) {
-        int midn = tok.nextInt(true, mid1);
+        midn = tok.nextInt(true, midn); // default is the last defined MID
         composite->assignMaterial(Reference<Material>(Material::Type::MATERIAL,midn));
-        double tn = tok.nextDouble(true, t1);
-        double thetan = tok.nextDouble(true, theta1);
+        tn = tok.nextDouble(true, tn); // default is the last defined T
+        double thetan = tok.nextDouble(true, 0.0);
         tok.skip(1); // SOUTn
         composite->addLayer(Reference<Material>(Material::Type::MATERIAL,midn), tn, thetan);
     }
-- 
2.43.0


From 6451f86fdb8f558dfe3c0f9e61285fc1a0f25662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:52 +0000
Subject: [PATCH 026/114] fix: the transverse tensile strength of MAT8 was not
 written

---
 Aster/AsterWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index ee03f05..99baea4 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1006,6 +1006,9 @@ void AsterWriter::writeMaterials() {
 			if (is_defined(orthoNature->getXt())) {
 			    comm_file_ofs << "                         XT=" << orthoNature->getXt() << "," << endl;
 			}
+			if (is_defined(orthoNature->getYt())) {
+			    comm_file_ofs << "                         YT=" << orthoNature->getYt() << "," << endl;
+			}
 			if (is_defined(orthoNature->getYc())) {
 			    comm_file_ofs << "                         YC=" << orthoNature->getYc() << "," << endl;
 			}
-- 
2.43.0


From df9a781ac6cb700609bc8d8e0ad702a0b2d970e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:36 +0000
Subject: [PATCH 027/114] fix: fields omitted at the end of a PCOMP card were
 read beyond the line

---
 Nastran/NastranTokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 8945391..dedc065 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -291,6 +291,9 @@ bool NastranTokenizer::isNextEmpty(int n) {
             result = false;
             break;
         }
+        if (currentField + i >= currentLineVector.size()) {
+            break; // fields omitted at the end of a card are blank
+        }
         string curField = trim_copy(currentLineVector[currentField + i]);
         result &= curField.empty();
     }
-- 
2.43.0


From 23838cb5687cb9f41d3f5a28e0c1f9b5eaf0d4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:22 +0000
Subject: [PATCH 028/114] fix: an error in the command line crashed the
 translator instead of being reported

---
 Commandline/VegaCommandLine.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index cd846de..298238e 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -464,7 +464,7 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
 #if Backtrace_FOUND
     signal(SIGSEGV, handler);
 #endif
-    LogLevel logLevel = LogLevel::TRACE;
+    LogLevel logLevel = LogLevel::INFO;
     try {
         string config_file;
 
@@ -637,6 +637,9 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
         if (result == ExitCode::OK && configuration.runSolver) {
             result = runSolver(configuration, modelFile);
         }
+    } catch (po::error &e) {   // The command line or the configuration file is not understood.
+        cerr << endl << "Invalid option: " << e.what() << endl;
+        return ExitCode::INVALID_COMMAND_LINE;
     } catch (invalid_argument &e) {
         if (logLevel >= LogLevel::DEBUG) {
             throw;
-- 
2.43.0


From 7f0dcbccd7a476f3be780607122f6167719289da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:22 +0000
Subject: [PATCH 029/114] fix: strict and mesh-at-least were accepted together

---
 Commandline/VegaCommandLine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index 298238e..60b7bad 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -180,6 +180,7 @@ ConfigurationParameters VegaCommandLine::readCommandLineParameters(const po::var
             throw invalid_argument("only one between mesh-at-least or best-effort "
                     " parameter can be specified at once.");
         }
+        hasParamMeshAtLeast = true;
         translationMode = ConfigurationParameters::TranslationMode::MESH_AT_LEAST;
     }
     if (vm.count("strict")) {
-- 
2.43.0


From 4746480506856737ca39168ec39d1cf12413c6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:34 +0000
Subject: [PATCH 030/114] fix: an output directory that cannot be created was
 reported as an unexpected exception

---
 Commandline/VegaCommandLine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index 60b7bad..f49880c 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -620,7 +620,8 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
         }
 
         if (!fs::exists(configuration.outputPath)) {
-            bool create = fs::create_directories(configuration.outputPath);
+            boost::system::error_code error;
+            bool create = fs::create_directories(configuration.outputPath, error);
             if (!create) {
                 cerr << "Output Directory " + configuration.outputPath + " can't be created."
                         << endl;
-- 
2.43.0


From 3b622fc1b7fd7a23bc55eb4de918d900c18d4d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:34 +0000
Subject: [PATCH 031/114] fix: a malformed value ended a strict translation
 with the code of a missing input file

---
 Abstract/SolverInterfaces.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index dcf7786..0c7bb18 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -136,11 +136,7 @@ void Tokenizer::handleParsingError(const string& message) {
 
     switch (translationMode) {
     case ConfigurationParameters::TranslationMode::MODE_STRICT:
-        // Problem on static over Alpine
-        //throw ParsingException(message, fileName, lineNumber, currentKeyword);
-        cerr << ParsingException(message, fileName, lineNumber, currentKeyword);
-        vega::stacktrace();
-        exit(2);
+        throw ParsingException(message, fileName, lineNumber, currentKeyword);
     case ConfigurationParameters::TranslationMode::MESH_AT_LEAST:
         //model.onlyMesh = true;
         cerr << ParsingMessageException(message, fileName, lineNumber, currentKeyword) << endl;
-- 
2.43.0


From 834f0feebaf3ddaaa2ad93a314f60a35b1e7c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:00 +0000
Subject: [PATCH 032/114] fix: a SPCADD that no subcase selects was an error

---
 Nastran/NastranParser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 8222b2e..63db098 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3543,10 +3543,11 @@ void NastranParser::parseSPCADD(NastranTokenizer& tok, Model& model) {
     shared_ptr<ConstraintSet> constraintSet_ptr = model.find(
             Reference<ConstraintSet>(ConstraintSet::Type::SPC, set_id));
 
-    if (!constraintSet_ptr)
-        handleParsingError("ConstraintSet "+ to_string(set_id)+ " does not exist in Executive section",
+    if (!constraintSet_ptr) {
+        handleParsingWarning("ConstraintSet "+ to_string(set_id)+ " does not exist in Executive section",
                 tok, model);
-    else {
+        tok.skipToNextKeyword(); // no analysis selects it
+    } else {
         while (tok.isNextInt()) {
             int constraintSet_id = tok.nextInt();
             // Need to add referenced SPCs in the same constraintset, otherwise it will not be found
-- 
2.43.0


From 01b98066225a8f9329159acf42931260de64372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:09 +0000
Subject: [PATCH 033/114] fix: relations left without any term by a malformed
 card were still added

---
 Nastran/NastranParser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 63db098..a1c266c 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2061,6 +2061,9 @@ void NastranParser::parseMPC(NastranTokenizer& tok, Model& model) {
                 dofs.contains(DOF::DZ) * a1, dofs.contains(DOF::RX) * a1,
                 dofs.contains(DOF::RY) * a1, dofs.contains(DOF::RZ) * a1);
     }
+    if (lmpc->nodePositions().empty()) {
+        handleParsingError("MPC without terms.", tok, model);
+    }
     lmpc->setInputContext(tok.getInputContext());
     model.add(lmpc);
     model.addConstraintIntoConstraintSet(*lmpc,
@@ -3178,6 +3181,9 @@ void NastranParser::parseRBE2(NastranTokenizer& tok, Model& model) {
     while (tok.isNextInt()) {
         constraint->addSlave(tok.nextInt());
     }
+    if (constraint->getSlaves().empty()) {
+        handleParsingError("RBE2 without dependent grid point.", tok, model);
+    }
     constraint->setInputContext(tok.getInputContext());
     model.add(constraint);
     model.addConstraintIntoConstraintSet(*constraint, *model.commonConstraintSet);
@@ -3205,6 +3211,9 @@ void NastranParser::parseRBE3(NastranTokenizer& tok, Model& model) {
             rbe3->addRBE3Slave(slaveId, sdofs, coef);
         }
     }
+    if (rbe3->getSlaves().empty()) {
+        handleParsingError("RBE3 without independent grid point.", tok, model);
+    }
     rbe3->setInputContext(tok.getInputContext());
     model.add(rbe3);
     model.addConstraintIntoConstraintSet(*rbe3, *model.commonConstraintSet);
-- 
2.43.0


From c22a79e87b0717d5e508cced639794db26a61ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:52 +0000
Subject: [PATCH 034/114] fix: ranges without lower bound crashed the
 translator, ranges by zero never ended

---
 Nastran/NastranTokenizer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index dedc065..599e16e 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -495,6 +495,9 @@ list<int> NastranTokenizer::nextInts() {
             result.push_back(nextInt());
         } else if (isNextTHRU()) {
             skip(1);
+            if (result.empty()) {
+                handleParsingError("THRU without a lower bound");
+            }
             int start = result.back();
             int endint = nextInt();
             int step = 1;
@@ -506,6 +509,9 @@ list<int> NastranTokenizer::nextInts() {
             if (isNextBY()) {
                 skip(1);
                 step = nextInt();
+                if (step < 1) {
+                    handleParsingError("BY step must be positive");
+                }
             }
             for(int i=start+step;i<endint;i+=step) {
                 result.push_back(i);
-- 
2.43.0


From d69bdbbc74f647f346cfc71768afa5eec627898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 035/114] fix: a component code out of its domain ended a best
 effort translation

---
 Nastran/NastranParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index a1c266c..e99dd3b 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -541,7 +541,11 @@ void NastranParser::parseBULKSection(NastranTokenizer &tok, Model& model) {
         try{
             auto parser = findCmdParser(keyword);
             if (parser != nullptr) {
-                (this->*parser)(tok, model);
+                try {
+                    (this->*parser)(tok, model);
+                } catch (const invalid_argument& e) {
+                    handleParsingError(e.what(), tok, model); // a value out of its domain
+                }
 
             } else if (IGNORED_KEYWORDS.find(keyword) != IGNORED_KEYWORDS.end()) {
                 if (model.configuration.logLevel >= LogLevel::TRACE) {
-- 
2.43.0


From bb5eec035ab34c3d0b3ad3da48e3bf187a1b3644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 036/114] fix: a PLOAD2 left without elements by a malformed
 field was still added

---
 Nastran/NastranParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index e99dd3b..9746d58 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2875,12 +2875,16 @@ void NastranParser::parsePLOAD1(NastranTokenizer& tok, Model& model) {
 void NastranParser::parsePLOAD2(NastranTokenizer& tok, Model& model) {
     int loadset_id = tok.nextInt();
     double p = tok.nextDouble();
+    const auto& cellIds = tok.nextInts();
+    if (cellIds.empty()) {
+        handleParsingError("PLOAD2 without elements.", tok, model);
+    }
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
     // https://knowledge.autodesk.com/support/nastran/learn-explore/caas/CloudHelp/cloudhelp/2019/ENU/NSTRN-Reference/files/GUID-DC59FE67-D314-4E68-B9BC-10790C755D32-htm.html
     // The direction of the pressure is computed according to the right-hand rule
     // using the grid point sequence specified on the element entry.
     const auto& normalPressionFace = make_shared<NormalPressionShell>(model, loadSet, p);
-    normalPressionFace->addCellIds(tok.nextInts());
+    normalPressionFace->addCellIds(cellIds);
     normalPressionFace->setInputContext(tok.getInputContext());
     model.add(normalPressionFace);
 }
-- 
2.43.0


From 343a845f70e7c62a17b88c4220c57a77bdeee655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:37 +0000
Subject: [PATCH 037/114] fix: blank components of MOMENT were not zero

---
 Nastran/NastranParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 9746d58..2411d4c 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2031,10 +2031,10 @@ void NastranParser::parseMOMENT(NastranTokenizer& tok, Model& model) {
     int loadset_id = tok.nextInt();
     int node_id = tok.nextInt();
     int csid = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-    double scale = tok.nextDouble(true);
-    double frx = tok.nextDouble(true) * scale;
-    double fry = tok.nextDouble(true) * scale;
-    double frz = tok.nextDouble(true) * scale;
+    double scale = tok.nextDouble(true, 0.0);
+    double frx = tok.nextDouble(true, 0.0) * scale;
+    double fry = tok.nextDouble(true, 0.0) * scale;
+    double frz = tok.nextDouble(true, 0.0) * scale;
 
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
     const auto& moment1 = make_shared<NodalForce>(model, loadSet,
-- 
2.43.0


From c09736988430d04084372004f84c1df154e906ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:58 +0000
Subject: [PATCH 038/114] fix: a LOAD card with a malformed field was partly
 taken into account

---
 Nastran/NastranParser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 2411d4c..214f9e7 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1854,14 +1854,17 @@ void NastranParser::parseLSEQ(NastranTokenizer& tok, Model& model) {
 
 void NastranParser::parseLOAD(NastranTokenizer& tok, Model& model) {
     int set_id = tok.nextInt();
-    shared_ptr<LoadSet> loadSetMaster = model.getOrCreateLoadSet(set_id, LoadSet::Type::LOAD);
     double S = tok.nextDouble(true, 1);
+    vector<pair<Reference<LoadSet>, double>> embedded_loadsets; // added once the whole card is read
     while (tok.isNextDouble()) {
         double scale = tok.nextDouble(true, 1);
         int loadSet_id = tok.nextInt();
         Reference<LoadSet> loadSetReference(LoadSet::Type::LOAD, loadSet_id);
-        loadSetMaster->embedded_loadsets.push_back({loadSetReference, S * scale});
+        embedded_loadsets.push_back({loadSetReference, S * scale});
     }
+    shared_ptr<LoadSet> loadSetMaster = model.getOrCreateLoadSet(set_id, LoadSet::Type::LOAD);
+    loadSetMaster->embedded_loadsets.insert(loadSetMaster->embedded_loadsets.end(),
+            embedded_loadsets.begin(), embedded_loadsets.end());
 }
 
 void NastranParser::parseMAT1(NastranTokenizer& tok, Model& model) {
-- 
2.43.0


From d5dfd7643aed70c4300076825a27a14757ad62ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:20 +0000
Subject: [PATCH 039/114] fix: SPC and SPCD cards with a malformed second
 component were partly taken into account

---
 Nastran/NastranParser.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 214f9e7..69f2d72 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3516,6 +3516,7 @@ void NastranParser::parseSPC(NastranTokenizer& tok, Model& model) {
     int spcSet_id = tok.nextInt();
     string name = "SPC_" + to_string(spcSet_id);
     shared_ptr<NodeGroup> spcNodeGroup = model.mesh.findOrCreateNodeGroup(name,NodeGroup::NO_ORIGINAL_ID,"SPC");
+    vector<pair<int, shared_ptr<SinglePointConstraint>>> spcs;
 
     while (tok.nextSymbolType == NastranTokenizer::SymbolType::SYMBOL_FIELD) {
         const int nodeId = tok.nextInt(true);
@@ -3527,11 +3528,14 @@ void NastranParser::parseSPC(NastranTokenizer& tok, Model& model) {
         const double displacement = tok.nextDouble(true, 0.0);
         const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::nastranCodeToDOFS(gi), displacement);
         spc->addNodeId(nodeId);
-        spcNodeGroup->addNodeId(nodeId);
-
         spc->setInputContext(tok.getInputContext());
-        model.add(spc);
-        model.addConstraintIntoConstraintSet(*spc,
+        spcs.push_back({nodeId, spc});
+    }
+    // added once the whole card is read
+    for (const auto& spc : spcs) {
+        spcNodeGroup->addNodeId(spc.first);
+        model.add(spc.second);
+        model.addConstraintIntoConstraintSet(*spc.second,
                 Reference<ConstraintSet>(ConstraintSet::Type::SPC, spcSet_id));
     }
 }
@@ -3596,7 +3600,7 @@ void NastranParser::parseSPCD(NastranTokenizer& tok, Model& model) {
     int c2 = -1;
     double d2 = -1;
     //int g2pos = -1;
-    if (tok.isNextInt()) {
+    if (not tok.isEmptyUntilNextKeyword()) {
         g2 = tok.nextInt();
         c2 = tok.nextInt();
         d2 = tok.nextDouble();
-- 
2.43.0


From 1beac4f69dd2b83812155be3d6eb8a2fe8a6fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:51 +0000
Subject: [PATCH 040/114] fix: components after a blank grid point on a SPC
 card were taken for grid points

---
 Nastran/NastranParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 69f2d72..2160f5f 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3522,6 +3522,9 @@ void NastranParser::parseSPC(NastranTokenizer& tok, Model& model) {
         const int nodeId = tok.nextInt(true);
         if (nodeId == Globals::UNAVAILABLE_INT) {
             //space at the end of line found,consume it.
+            if (not tok.isEmptyUntilNextKeyword()) {
+                handleParsingError("Missing grid point identifier.", tok, model);
+            }
             continue;
         }
         const int gi = tok.nextInt(true, 123456);
-- 
2.43.0


From 0c8a68bbc16ffb9bb2a6e31eebb372f9b7ef4a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:27 +0000
Subject: [PATCH 041/114] fix: a load may come before the elements it acts on

---
 Abstract/MeshComponents.cpp | 54 ++++++++++++++++++++++++-------------
 Abstract/MeshComponents.h   |  4 ++-
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 361252d..77abf0d 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -678,34 +678,42 @@ void CellContainer::addCellPosition(pos_t cellPosition) noexcept {
 }
 
 void CellContainer::addCellId(int cellId) noexcept {
-	cellPositions.insert(mesh.findCellPosition(cellId));
+	const pos_t cellPosition = mesh.findCellPosition(cellId);
+	cellPositions.insert(cellPosition);
+	if (cellPosition == Cell::UNAVAILABLE_CELL) {
+		undefinedCellIds.insert(cellId);
+	}
+}
+
+void CellContainer::resolveUndefinedCells() const noexcept {
+	if (undefinedCellIds.empty()) {
+		return;
+	}
+	const pos_t unavailableCell = Cell::UNAVAILABLE_CELL;
+	cellPositions.erase(unavailableCell);
+	for (auto it = undefinedCellIds.begin(); it != undefinedCellIds.end();) {
+		const pos_t cellPosition = mesh.findCellPosition(*it);
+		cellPositions.insert(cellPosition);
+		it = cellPosition == unavailableCell ? next(it) : undefinedCellIds.erase(it);
+	}
 }
 
 void CellContainer::addCellIds(const vector<int>& otherIds) noexcept {
-	transform(otherIds.begin(),
-              otherIds.end(),
-              std::inserter(cellPositions, cellPositions.begin()),
-              [&](const int cellId) {
-                  return mesh.findCellPosition(cellId);
-              });
+	for (const int cellId : otherIds) {
+		addCellId(cellId);
+	}
 }
 
 void CellContainer::addCellIds(const set<int>& otherIds) noexcept {
-	transform(otherIds.begin(),
-              otherIds.end(),
-              std::inserter(cellPositions, cellPositions.begin()),
-              [&](const int cellId) {
-                  return mesh.findCellPosition(cellId);
-              });
+	for (const int cellId : otherIds) {
+		addCellId(cellId);
+	}
 }
 
 void CellContainer::addCellIds(const list<int>& otherIds) noexcept {
-	transform(otherIds.begin(),
-              otherIds.end(),
-              std::inserter(cellPositions, cellPositions.begin()),
-              [&](const int cellId) {
-                  return mesh.findCellPosition(cellId);
-              });
+	for (const int cellId : otherIds) {
+		addCellId(cellId);
+	}
 }
 
 
@@ -749,15 +757,18 @@ void CellContainer::add(const CellContainer& cellContainer) noexcept {
 }
 
 bool CellContainer::containsCellPosition(pos_t cellPosition) const noexcept {
+	resolveUndefinedCells();
 	return cellPositions.find(cellPosition) != cellPositions.end();
 }
 
 void CellContainer::removeCellPositionExcludingGroups(pos_t cellPosition) noexcept {
+	resolveUndefinedCells();
 	cellPositions.erase(cellPosition);
 }
 
 
 set<Cell> CellContainer::getCellsExcludingGroups() const noexcept {
+	resolveUndefinedCells();
 	set<Cell> cells;
 	transform(cellPositions.begin(),
               cellPositions.end(),
@@ -782,9 +793,11 @@ set<Cell> CellContainer::getCellsIncludingGroups() const noexcept {
 
 void CellContainer::removeAllCellsExcludingGroups() noexcept {
     cellPositions.clear();
+    undefinedCellIds.clear();
 }
 
 set<int> CellContainer::getCellIdsExcludingGroups() const noexcept {
+	resolveUndefinedCells();
 	set<int> result;
 	transform(cellPositions.begin(),
               cellPositions.end(),
@@ -808,6 +821,7 @@ set<int> CellContainer::getCellIdsIncludingGroups() const noexcept {
 }
 
 set<pos_t> CellContainer::getCellPositionsIncludingGroups() const noexcept {
+	resolveUndefinedCells();
 	set<pos_t> result(cellPositions.begin(), cellPositions.end());
     for (const auto& groupName : cellGroupNames) {
         const auto& group = dynamic_pointer_cast<CellGroup>(mesh.findGroup(groupName));
@@ -820,6 +834,7 @@ set<pos_t> CellContainer::getCellPositionsIncludingGroups() const noexcept {
 }
 
 set<pos_t> CellContainer::getCellPositionsExcludingGroups() const noexcept {
+	resolveUndefinedCells();
 	return cellPositions;
 }
 
@@ -846,6 +861,7 @@ bool CellContainer::empty() const noexcept {
 void CellContainer::clear() noexcept {
 	cellGroupNames.clear();
 	cellPositions.clear();
+	undefinedCellIds.clear();
 }
 
 bool CellContainer::hasCellsExcludingGroups() const noexcept {
diff --git a/Abstract/MeshComponents.h b/Abstract/MeshComponents.h
index b163664..5642d00 100644
--- a/Abstract/MeshComponents.h
+++ b/Abstract/MeshComponents.h
@@ -437,9 +437,11 @@ class CellGroup;
  */
 class CellContainer {
 private:
-    std::set<pos_t> cellPositions;
+    mutable std::set<pos_t> cellPositions;
+    mutable std::set<int> undefinedCellIds; /**< Cells which were named before being defined */
     std::set<std::string> cellGroupNames;
     const Mesh& mesh;
+    void resolveUndefinedCells() const noexcept;
 public:
     CellContainer(const Mesh&) noexcept;
     virtual ~CellContainer() = default;
-- 
2.43.0


From 8bf37108ecdd3e5ffb1ae3351a444fd96801302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:27 +0000
Subject: [PATCH 042/114] fix: GRDSET applies to the GRID cards before it too

---
 Nastran/NastranParser.h            | 13 +++++++++++
 Nastran/NastranParser_geometry.cpp | 37 +++++++++++++++++++++---------
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 7d7e76e..0b41123 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -70,6 +70,19 @@ private:
     };
     GrdSet grdSet;
 
+    /** A GRID card: its blank fields are UNAVAILABLE_INT. */
+    struct Grid {
+        int id;
+        int cp;
+        double x1;
+        double x2;
+        double x3;
+        int cd;
+        int ps;
+    };
+    std::vector<Grid> gridsWithDefaults; /**< Grids to update if a GRDSET card is read after them */
+    void addGrid(const Grid& grid, Model& model);
+
     std::unordered_map<std::string, Reference<ElementSet>> directMatrixByName;
     static const std::unordered_map<std::string, NastranAnalysis> ANALYSIS_BY_LABEL;
     static const std::unordered_map<std::string, parseElementFPtr> PARSE_FUNCTION_BY_KEYWORD;
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 68b11b4..f865b33 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -69,11 +69,31 @@ void NastranParser::parseGRDSET(NastranTokenizer& tok, Model& model) {
     grdSet.ps = tok.nextInt(true, 0);
     grdSet.seid = tok.nextInt(true, 0);
 
+    // The order of the cards does not matter: the grids already read have the same defaults
+    for (const auto& grid : gridsWithDefaults) {
+        addGrid(grid, model);
+    }
 }
 
 void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
-    int id = tok.nextInt();
-    int cp = tok.nextInt(true, static_cast<int>(grdSet.cp));
+    Grid grid;
+    grid.id = tok.nextInt();
+    grid.cp = tok.nextInt(true, Globals::UNAVAILABLE_INT);
+    grid.x1 = tok.nextDouble(true, 0.0);
+    grid.x2 = tok.nextDouble(true, 0.0);
+    grid.x3 = tok.nextDouble(true, 0.0);
+    /* Coordinate System for Displacement */
+    grid.cd = tok.nextInt(true, Globals::UNAVAILABLE_INT);
+    grid.ps = tok.nextInt(true, Globals::UNAVAILABLE_INT);
+    addGrid(grid, model);
+    if (grid.cp == Globals::UNAVAILABLE_INT or grid.cd == Globals::UNAVAILABLE_INT or grid.ps == Globals::UNAVAILABLE_INT) {
+        gridsWithDefaults.push_back(grid);
+    }
+}
+
+void NastranParser::addGrid(const Grid& grid, Model& model) {
+    const int id = grid.id;
+    const int cp = grid.cp == Globals::UNAVAILABLE_INT ? static_cast<int>(grdSet.cp) : grid.cp;
     pos_t cpos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scp;
     if (cp != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
@@ -81,21 +101,16 @@ void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
         scp=" in CS"+to_string(cp)+"_"+to_string(cpos);
     }
 
-    double x1 = tok.nextDouble(true, 0.0);
-    double x2 = tok.nextDouble(true, 0.0);
-    double x3 = tok.nextDouble(true, 0.0);
-
-    /* Coordinate System for Displacement */
-    int cd = tok.nextInt(true, static_cast<int>(grdSet.cd));
+    const int cd = grid.cd == Globals::UNAVAILABLE_INT ? static_cast<int>(grdSet.cd) : grid.cd;
     pos_t cdos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scd="";
     if (cd != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
         cdos = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cd));
         scd=", DISP in CS"+to_string(cd)+"_"+to_string(cdos);
     }
-    model.mesh.addNode(id, x1, x2, x3, cpos, cdos);
+    model.mesh.addNode(id, grid.x1, grid.x2, grid.x3, cpos, cdos);
 
-    int ps = tok.nextInt(true, grdSet.ps);
+    const int ps = grid.ps == Globals::UNAVAILABLE_INT ? grdSet.ps : grid.ps;
     if (ps) {
         string spcName = "SPC" + to_string(id);
         const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::nastranCodeToDOFS(ps));
@@ -105,7 +120,7 @@ void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
     }
 
     if (this->logLevel >= LogLevel::TRACE) {
-        cout << fixed << "GRID " << id << ": (" << x1 << ";" << x2 << ";" << x3 <<")"<< scp<<scd<< endl;
+        cout << fixed << "GRID " << id << ": (" << grid.x1 << ";" << grid.x2 << ";" << grid.x3 <<")"<< scp<<scd<< endl;
     }
 }
 
-- 
2.43.0


From 99e683d2a2d5c9e3615fed5c7bb1689e6ef9a4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:27 +0000
Subject: [PATCH 043/114] fix: no memory addresses in the names of the
 generated groups

---
 Abstract/Model.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 6b1dd00..5009cc8 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -923,7 +923,7 @@ void Model::emulateAdditionalMass() {
             cellElementSet->assignMaterial(newMaterial);
             // copy and assign new cellGroup
             ostringstream oss;
-            oss << "created by emulateAdditionalMass() because of elementSet: " << elementSet << " additional rho:" << rho;
+            oss << "created by emulateAdditionalMass() because of elementSet: " << *elementSet << " additional rho:" << rho;
             const auto& newCellGroup = mesh.createCellGroup(
                     "VAM_" + to_string(newElementSets.size()), Group::NO_ORIGINAL_ID, oss.str());
             cellElementSet->clear();
@@ -958,7 +958,7 @@ void Model::generateBeamsToDisplayMasterSlaveConstraint() {
                         virtualBeam->assignMaterial(getVirtualMaterial());
                     }
                     ostringstream oss;
-                    oss << "created by generateBeamsToDisplayMasterSlaveConstraint() because of rigid constraint: " << constraint;
+                    oss << "created by generateBeamsToDisplayMasterSlaveConstraint() because of rigid constraint: " << *constraint;
                     virtualGroupRigid = mesh.createCellGroup("VRigid", Group::NO_ORIGINAL_ID, oss.str());
                     virtualBeam->add(*virtualGroupRigid);
                     this->add(virtualBeam);
@@ -982,7 +982,7 @@ void Model::generateBeamsToDisplayMasterSlaveConstraint() {
                         virtualBeam->assignMaterial(getVirtualMaterial());
                     }
                     ostringstream oss;
-                    oss << "created by generateBeamsToDisplayMasterSlaveConstraint() because of rbe3 constraint: " << constraint;
+                    oss << "created by generateBeamsToDisplayMasterSlaveConstraint() because of rbe3 constraint: " << *constraint;
                     virtualGroupRBE3 = mesh.createCellGroup("VRBE3", Group::NO_ORIGINAL_ID, oss.str());
                     virtualBeam->add(*virtualGroupRBE3);
                     this->add(virtualBeam);
@@ -1241,7 +1241,7 @@ void Model::replaceDirectMatrices()
                 }
                 matrix_count++;
                 ostringstream oss;
-                oss << "created by replaceDirectMatrices() because of matrix element on same node: " << matrix;
+                oss << "created by replaceDirectMatrices() because of matrix element on same node: " << *matrix;
                 const auto& matrixGroup = mesh.createCellGroup(
                         "MTN" + to_string(matrix_count), Group::NO_ORIGINAL_ID, oss.str());
                 discrete->add(*matrixGroup);
@@ -1270,7 +1270,7 @@ void Model::replaceDirectMatrices()
 
                 const auto& discrete = make_shared<DiscreteSegment>(*this, matrix->matrixType);
                 ostringstream oss;
-                oss << "created by replaceDirectMatrices() because of matrix element on node couple: " << matrix;
+                oss << "created by replaceDirectMatrices() because of matrix element on node couple: " << *matrix;
                 const auto& matrixGroup = mesh.createCellGroup(
                         "MTL" + to_string(matrix_count), Group::NO_ORIGINAL_ID, oss.str());
                 matrix_count++;
-- 
2.43.0


From da45b66f9080c0b03f5ce6e0f684a93a1b32aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:27 +0000
Subject: [PATCH 044/114] fix: Nastran output writes the PROD cards, not memory
 addresses

---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 0e16330..e93b54e 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -795,7 +795,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		prod.add(truss->mainMaterial()->bestId());
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
-		out << truss;
+		out << prod;
 		truss->markAsWritten();
 	}
 	for (const auto& beam : model.getBeams()) {
-- 
2.43.0


From 7525c29acf1a3ecf5605ef3ac608243df651fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:27 +0000
Subject: [PATCH 045/114] fix: Nastran output names the reference grid of an
 RBE3

---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index e93b54e..f5cfb9c 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -476,7 +476,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             Line rbe3("RBE3");
             rbe3.add(rbe3Constraint->bestId());
             rbe3.add();
-            const int masterPosition = model.mesh.findNodeId(rbe3Constraint->getMaster());
+            const pos_t masterPosition = rbe3Constraint->getMaster();
             rbe3.add(model.mesh.findNodeId(masterPosition));
             rbe3.add(rbe3Constraint->getDOFSForNode(masterPosition));
             for (const auto slavePosition : rbe3Constraint->getSlaves()) {
-- 
2.43.0


From fd8be3206b3a1112a5b93614ffef0448d65a22c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 046/114] fix: the terms of a MPC are along the displacement
 axes of their grid points

---
 Abstract/Model.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 5009cc8..8e2ea0b 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -890,6 +890,24 @@ void Model::generateSkin() {
 
 void Model::emulateLocalDisplacementConstraint() {
 
+    // the terms of the relations given by the user are along the displacement axes of their nodes
+    for (const auto& constraint : constraints.filter(Constraint::Type::LMPC)) {
+        const auto& lmpc = static_pointer_cast<LinearMultiplePointConstraint>(constraint);
+        for (const auto nodePosition : lmpc->nodePositions()) {
+            const Node& node = mesh.findNode(nodePosition);
+            if (node.displacementCS == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
+                continue;
+            const auto& coordSystem = mesh.getCoordinateSystemByPosition(node.displacementCS);
+            coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
+            auto coefs = lmpc->getDoFCoefsForNode(nodePosition);
+            const auto& translation = coordSystem->vectorToGlobal(VectorialValue(coefs[0], coefs[1], coefs[2]));
+            const auto& rotation = coordSystem->vectorToGlobal(VectorialValue(coefs[3], coefs[4], coefs[5]));
+            lmpc->removeNodePosition(nodePosition);
+            lmpc->addParticipation(node.id, translation.x(), translation.y(), translation.z(),
+                    rotation.x(), rotation.y(), rotation.z());
+        }
+    }
+
     for (const auto& constraint : constraints.filter(Constraint::Type::SPC)) {
         const auto& spc = static_pointer_cast<SinglePointConstraint>(   constraint);
         spc->emulateLocalDisplacementConstraint();
-- 
2.43.0


From a1d05ac760395d43030e3f9dbee964d83ffa2584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 047/114] fix: axes of a cylindrical system defined in another
 system

---
 Abstract/CoordinateSystem.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 2fb85f6..4716fbe 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -188,9 +188,18 @@ CylindricalCoordinateSystem::CylindricalCoordinateSystem(const Mesh& mesh,
 
 // TODO : LD What's this ? Should this method be renamed moveOrigin ?
 void CylindricalCoordinateSystem::updateLocalBase(const VectorialValue& point) {
-    VectorialValue localOrigin = point - origin;
+    // the origin and the axes are given in the reference coordinate system
+    VectorialValue localPoint = point;
+    if (rcs != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
+        const auto& coordSystem = mesh.findCoordinateSystem(rcs);
+        if (coordSystem->coordType == CoordinateType::CARTESIAN) {
+            localPoint = coordSystem->vectorToLocal(
+                    point - coordSystem->positionToGlobal(VectorialValue(0, 0, 0)));
+        }
+    }
+    VectorialValue localOrigin = localPoint - origin;
     if (!localOrigin.iszero()) {
-        utheta = ez.cross(point - origin).normalized();
+        utheta = ez.cross(localOrigin).normalized();
         ur = utheta.cross(ez);
     }
 }
-- 
2.43.0


From 8719cb73f2f141ac6fffbd34ee944c81d91f819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 048/114] fix: a component blocked twice on a grid point with a
 displacement system gave two equal relations

---
 Abstract/Model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 8e2ea0b..da4ef4c 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2281,6 +2281,10 @@ void Model::finish() {
     }
 
     if (this->configuration.emulateLocalDisplacement) {
+        if (this->configuration.removeRedundantSpcs) {
+            // before those on local axes become relations
+            removeRedundantSpcs();
+        }
         emulateLocalDisplacementConstraint();
     }
 
-- 
2.43.0


From 1a0b7d85963e075406ed732e69189270f502298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:38 +0000
Subject: [PATCH 049/114] fix: directions of a cylindrical system on its axis

---
 Abstract/CoordinateSystem.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 4716fbe..bb0ab72 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -198,8 +198,13 @@ void CylindricalCoordinateSystem::updateLocalBase(const VectorialValue& point) {
         }
     }
     VectorialValue localOrigin = localPoint - origin;
-    if (!localOrigin.iszero()) {
-        utheta = ez.cross(localOrigin).normalized();
+    const VectorialValue& normal = ez.cross(localOrigin);
+    if (normal.iszero()) {
+        // on the axis: the directions of the defining rectangular system
+        ur = ex;
+        utheta = ey;
+    } else {
+        utheta = normal.normalized();
         ur = utheta.cross(ez);
     }
 }
-- 
2.43.0


From 07002525f49575112faa32f9049ab39bb69f256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:31 +0000
Subject: [PATCH 050/114] fix: two scalar springs sets over several components
 had groups of the same name

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index da4ef4c..d6033de 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1961,7 +1961,7 @@ void Model::splitElementsByDOFS(){
                 cout<< *elementSet << " spring must be split."<<endl;
             for (const auto & it : ss->getCellPositionByDOFS()){
                 const auto& scalarSpring = make_shared<ScalarSpring>(*this, Identifiable<ElementSet>::NO_ORIGINAL_ID, stiffness, damping);
-                const auto& cellGroup = this->mesh.createCellGroup(ss->name+"_"+to_string(i), Group::NO_ORIGINAL_ID);
+                const auto& cellGroup = this->mesh.createCellGroup(ss->name+"_"+to_string(ss->bestId())+"_"+to_string(i), Group::NO_ORIGINAL_ID);
                 scalarSpring->add(*cellGroup);
                 for (const auto cellPosition : it.second){
                     scalarSpring->addSpring(cellPosition, it.first.first, it.first.second);
-- 
2.43.0


From ee80eb19ce4417b0378f086018855f86ff7594d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:31 +0000
Subject: [PATCH 051/114] fix: Code_Aster output gave a scalar spring the
 stiffness of all components

---
 Abstract/ConfigurationParameters.cpp |   1 +
 Abstract/Element.cpp                 | 122 ++++++++++-----------------
 Abstract/Element.h                   |   6 +-
 3 files changed, 48 insertions(+), 81 deletions(-)

diff --git a/Abstract/ConfigurationParameters.cpp b/Abstract/ConfigurationParameters.cpp
index 83ab3c1..eba38f5 100644
--- a/Abstract/ConfigurationParameters.cpp
+++ b/Abstract/ConfigurationParameters.cpp
@@ -59,6 +59,7 @@ ModelConfiguration ConfigurationParameters::getModelConfiguration() const {
         configuration.autoDetectAnalysis = true;
         configuration.removeConstrainedImposed = true;
         configuration.replaceRigidSegments = true;
+        configuration.splitElementsByDOFS = true;
         configuration.changeParametricForceLineToAbsolute = true;
         configuration.alwaysUseGroupsForCells = true;
         configuration.splitElementsByCellOffsets = true;
diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 88b39b4..1fdc269 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -1299,98 +1299,64 @@ size_t ScalarSpring::getNbDOFSSpring() const{
 }
 
 bool ScalarSpring::hasTranslations() const {
-	for (const DOF dof1 : DOFS::TRANSLATIONS) {
-		for (const DOF dof2 : DOFS::TRANSLATIONS) {
-            auto codeIter = this->cellpositionByDOFS.find({dof1, dof2});
-            if (codeIter != this->cellpositionByDOFS.end()) {
-				return true;
-            }
-		}
-	}
-	return false;
+    return any_of(cellpositionByDOFS.begin(), cellpositionByDOFS.end(), [](const auto& kv) {
+        return not kv.first.first.isRotation or not kv.first.second.isRotation;
+    });
 }
 
 bool ScalarSpring::hasRotations() const {
-	for (const DOF dof1 : DOFS::ROTATIONS) {
-		for (const DOF dof2 : DOFS::ROTATIONS) {
-            auto codeIter = this->cellpositionByDOFS.find({dof1, dof2});
-            if (codeIter != this->cellpositionByDOFS.end()) {
-				return true;
-            }
-		}
-	}
-	return false;
+    return any_of(cellpositionByDOFS.begin(), cellpositionByDOFS.end(), [](const auto& kv) {
+        return kv.first.first.isRotation or kv.first.second.isRotation;
+    });
 }
 
-vector<double> ScalarSpring::asStiffnessVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
+bool ScalarSpring::isDiagonal() const {
+    return all_of(cellpositionByDOFS.begin(), cellpositionByDOFS.end(), [](const auto& kv) {
+        return kv.first.first == kv.first.second;
+    });
+}
 
+/**
+ *  The diagonal (one value per component, the same spring on every cell) when the matrix is diagonal,
+ *  else the upper triangular columns of the matrix over the components of the two nodes.
+ */
+vector<double> ScalarSpring::asVector(double value, bool addRotationsIfNotPresent) const {
+    const int ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
+    if (is_equal(value, Globals::UNAVAILABLE_DOUBLE)) {
+        value = 0.0;
+    }
     if (isDiagonal()) {
-        result.insert(result.end(), ncomp, stiffness);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                DOF colcode = DOF::findByPosition(coldof);
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        DOF rowcode = DOF::findByPosition(rowdof);
-                        auto codeIter = this->cellpositionByDOFS.find({rowcode, colcode});
-                        if (codeIter != this->cellpositionByDOFS.end() and colindex == 1 and row_element_index <= 2) {
-                            result.push_back(stiffness);
-                        } else {
-                            result.push_back(0.0);
-                        }
-                    }
+        vector<double> result(ncomp, 0.0);
+        for (const auto& kv : cellpositionByDOFS) {
+            result[kv.first.first.position] = value;
+        }
+        return result;
+    }
+    vector<double> result;
+    for (int col = 0; col < 2 * ncomp; ++col) {
+        for (int row = 0; row <= col; ++row) {
+            double sum = 0.0;
+            for (const auto& kv : cellpositionByDOFS) {
+                const int end1 = kv.first.first.position;
+                const int end2 = ncomp + kv.first.second.position;
+                if (row == col and (row == end1 or row == end2)) {
+                    sum += value;
+                } else if (row == end1 and col == end2) {
+                    sum -= value;
                 }
             }
+            result.push_back(sum);
         }
-    } else {
-        throw logic_error("not yet implemented");
     }
-	return result;
+    return result;
+}
+
+vector<double> ScalarSpring::asStiffnessVector(bool addRotationsIfNotPresent) const {
+    return asVector(stiffness, addRotationsIfNotPresent);
 }
 
 vector<double> ScalarSpring::asDampingVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
-    if (isDiagonal()) {
-        result.insert(result.end(), ncomp, damping);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                DOF colcode = DOF::findByPosition(coldof);
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        DOF rowcode = DOF::findByPosition(rowdof);
-                        auto codeIter = this->cellpositionByDOFS.find({rowcode, colcode});
-                        if (codeIter != this->cellpositionByDOFS.end() and colindex == 1 and row_element_index <= 2) {
-                            result.push_back(damping);
-                        } else {
-                            result.push_back(0.0);
-                        }
-                    }
-                }
-            }
-        }
-    } else {
-        throw logic_error("not yet implemented");
-    }
-	return result;
+    return asVector(damping, addRotationsIfNotPresent);
 }
 
 vector<double> ScalarSpring::asMassVector(bool addRotationsIfNotPresent) const {
diff --git a/Abstract/Element.h b/Abstract/Element.h
index 0f286c5..92d1aa4 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -664,6 +664,7 @@ private:
     double stiffness = 0.0;
     double damping = 0.0;
     double mass = 0.0;
+    std::vector<double> asVector(double value, bool addRotationsIfNotPresent) const;
 public:
     ScalarSpring(Model&, int original_id = NO_ORIGINAL_ID, double stiffness = 0.0, double damping = 0.0, double mass = 0.0);
     double getStiffness() const;
@@ -678,9 +679,8 @@ public:
     bool hasMass() const override;
 	bool hasTranslations() const override;
 	bool hasRotations() const override;
-	bool isDiagonal() const override {
-	    return true;
-	}
+	/** True when every spring links the same component of its two nodes */
+	bool isDiagonal() const override;
 	bool isSymmetric() const override {
 	    return true;
 	}
-- 
2.43.0


From f1bb623d337a2f43c640e88379d85312c30877ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:10 +0000
Subject: [PATCH 052/114] fix: the ground of a scalar spring or damper was free

---
 Nastran/NastranParser_geometry.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index f865b33..402133f 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -321,6 +321,7 @@ void NastranParser::parseCDAMP1(NastranTokenizer& tok, Model& model) {
         g2 = model.mesh.findNodeId(nodePosition);
         spc->addNodeId(g2);
         model.add(spc);
+        model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
     }
 
     const auto cellPosition= model.mesh.addCell(eid, CellType::SEG2, {g1, g2}, false, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID, pid);
@@ -364,6 +365,7 @@ void NastranParser::parseCELAS1(NastranTokenizer& tok, Model& model) {
         g2 = model.mesh.findNodeId(nodePosition);
         spc->addNodeId(g2);
         model.add(spc);
+        model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
     }
     const auto cellPosition= model.mesh.addCell(eid, cellType, {g1, g2}, false, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID, pid);
     const auto& cellGroup = getOrCreateCellGroup(pid, model, "CELAS1");
-- 
2.43.0


From d0a886e0a60691617f32494bf5470c6bfe0d03dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:10 +0000
Subject: [PATCH 053/114] fix: CDAMP1 with a blank second grid point was
 refused

---
 Nastran/NastranParser_geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 402133f..e5a525a 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -308,7 +308,7 @@ void NastranParser::parseCDAMP1(NastranTokenizer& tok, Model& model) {
     int pid = tok.nextInt();
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok,model);
-    int g2 = tok.nextInt();
+    int g2 = tok.nextInt(true);
     dof_int c2 = parseDOF(tok,model,true);
 
     // Creates cell
-- 
2.43.0


From f9bc8ffc268c2d21c73e2dcb2cb64686fadd4ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:10 +0000
Subject: [PATCH 054/114] fix: CMASS2 couples its two components as a spring
 does

---
 Nastran/NastranParser_geometry.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index e5a525a..987bcd9 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -508,10 +508,17 @@ void NastranParser::parseCMASS2(NastranTokenizer& tok, Model& model) {
     double m = tok.nextDouble();
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok, model); // Nastran coordinate goes from 1 to 6, VEGA from 0 to 5.
-    int g2 = tok.nextInt();
-    dof_int c2 = parseDOF(tok, model); // Nastran coordinate goes from 1 to 6, VEGA from 0 to 5.
+    int g2 = tok.nextInt(true);
+    dof_int c2 = parseDOF(tok, model, true); // Nastran coordinate goes from 1 to 6, VEGA from 0 to 5.
     const auto& matrix = make_shared<MassMatrix>(model, MatrixType::SYMMETRIC, eid);
-    matrix->addComponent(g1, DOF::findByPosition(c1), g2, DOF::findByPosition(c2), m);
+    const DOF dof1 = DOF::findByPosition(c1);
+    matrix->addComponent(g1, dof1, g1, dof1, m);
+    // If G2 is undefined, the other end is grounded
+    if (g2 != Globals::UNAVAILABLE_INT and g2 != 0) {
+        const DOF dof2 = DOF::findByPosition(c2);
+        matrix->addComponent(g2, dof2, g2, dof2, m);
+        matrix->addComponent(g1, dof1, g2, dof2, -m);
+    }
     model.add(matrix);
 }
 
-- 
2.43.0


From 032fa95e79a0596d02787791eb92d1d11c5ba872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:21 +0000
Subject: [PATCH 055/114] fix: CONM1 lost the last row of its matrix and the
 terms after a blank one

---
 Nastran/NastranParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 2160f5f..608cd98 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1194,14 +1194,14 @@ void NastranParser::parseCONM1(NastranTokenizer& tok, Model& model) {
 
     const auto& nodalMassMatrix = make_shared<DiscretePoint>(model, MatrixType::SYMMETRIC, eid);
 
-    for (dof_int row = 0; row < 5; row++) {
+    for (dof_int row = 0; row < 6; row++) {
         const DOF rowdof = DOF::findByPosition(row);
         for (dof_int col = 0; col <= row; col++) {
             const DOF coldof = DOF::findByPosition(col);
-            if (!tok.isNextDouble()) {
-                break;
+            const double value = tok.nextDouble(true, 0.0);
+            if (not is_zero(value)) {
+                nodalMassMatrix->addMass(rowdof, coldof, value);
             }
-            nodalMassMatrix->addMass(rowdof, coldof, tok.nextDouble(true, 0.0));
         }
     }
 
-- 
2.43.0


From f970c844be78ec727f054e32866d0b8dd0b81769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:21 +0000
Subject: [PATCH 056/114] fix: products of inertia of CONM2 were exchanged

---
 Nastran/NastranParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 608cd98..ed4b274 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1237,7 +1237,7 @@ void NastranParser::parseCONM2(NastranTokenizer& tok, Model& model) {
     const double i32 = tok.nextDouble(true, 0.0);
     const double i33 = tok.nextDouble(true, 0.0);
 
-    const auto& nodalMass = make_shared<NodalMass>(model, mass, i11, i22, i33, -i21, -i31, -i32, x1, x2, x3, eid);
+    const auto& nodalMass = make_shared<NodalMass>(model, mass, i11, i22, i33, -i21, -i32, -i31, x1, x2, x3, eid);
 
     const pos_t cpos = ci == 0 ? CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID : model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, ci));
     const auto cellPosition = model.mesh.addCell(eid, CellType::POINT1, { g }, false, cpos);
-- 
2.43.0


From 4aebf4182fb4da82ea4afbde89df525860222fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:21 +0000
Subject: [PATCH 057/114] fix: offset of a concentrated mass without inertia
 was lost

---
 Abstract/Element.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 1fdc269..2d5d45f 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -946,7 +946,8 @@ bool NodalMass::hasTranslations() const {
 }
 
 bool NodalMass::hasRotations() const {
-	return (not is_zero(ixx) or not is_zero(iyy) or not is_zero(izz) or not is_zero(ixy) or not is_zero(iyz) or not is_zero(ixz));
+	return (not is_zero(ixx) or not is_zero(iyy) or not is_zero(izz) or not is_zero(ixy) or not is_zero(iyz) or not is_zero(ixz)
+			or not is_zero(ex) or not is_zero(ey) or not is_zero(ez));
 }
 
 DOFS NodalMass::getDOFSForNode(const pos_t nodePosition) const {
-- 
2.43.0


From 945a77eca8f916c550430737fbbd635277a6e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:54 +0000
Subject: [PATCH 058/114] fix: terms of a direct matrix on a node were not
 shared between its segments

---
 Abstract/Model.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index d6033de..4cc8f83 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1327,8 +1327,12 @@ void Model::replaceDirectMatrices()
                         shared_ptr<const DOFMatrix> submatrix = matrix->findSubmatrix(rowNodePosition2,
                                 colNodePosition2);
                         for (const auto& kv : submatrix->componentByDofs) {
-                            // We are disassembling the matrix, so we must divide the value by the segments
-                            double value = kv.second / static_cast<int>(matrix->findInPairs(pair.first).size());
+                            // We are disassembling the matrix : the terms of a node are shared by all the
+                            // segments of this node, while the terms of a couple belong to a single segment
+                            double value = kv.second;
+                            if (rowNodePosition2 == colNodePosition2) {
+                                value /= static_cast<double>(matrix->findInPairs(rowNodePosition2).size());
+                            }
                             const DOF& rowDof = kv.first.first;
                             const DOF& colDof = kv.first.second;
                             if (!is_equal(value, 0)) {
-- 
2.43.0


From 3eead96c327246cf127cab30fbde4a828fd03af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:54 +0000
Subject: [PATCH 059/114] fix: degrees of freedom held by a direct matrix only
 were blocked

---
 Abstract/Model.cpp | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 4cc8f83..5c02b2d 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1198,7 +1198,7 @@ void Model::replaceDirectMatrices()
         }
         const auto& matrix = static_pointer_cast<MatrixElement>(elementSetM);
         for (const auto nodePosition : matrix->nodePositions()) {
-            requiredDofsByNode[nodePosition] = DOFS();
+            requiredDofsByNode.insert({nodePosition, DOFS()});
             const int nodeId = mesh.findNodeId(nodePosition);
             DOFS owned;
             for (const auto elementSetI : elementSets) {
@@ -1229,7 +1229,7 @@ void Model::replaceDirectMatrices()
                 // single node
                 const auto nodePosition = pair.first;
                 const int nodeId = mesh.findNodeId(nodePosition);
-                DOFS requiredDofs = requiredDofsByNode.find(nodePosition)->second;
+                DOFS& requiredDofs = requiredDofsByNode.find(nodePosition)->second;
                 const auto& submatrix = matrix->findSubmatrix(nodePosition, nodePosition);
                 const auto& discrete = make_shared<DiscretePoint>(*this, submatrix->matrixType);
                 for (const auto& kv : submatrix->componentByDofs) {
@@ -1266,10 +1266,10 @@ void Model::replaceDirectMatrices()
                 const auto cellPosition = mesh.addCell(Cell::AUTO_ID, CellType::SEG2, { nodeId }, true);
                 matrixGroup->addCellPosition(cellPosition);
                 if (discrete->hasRotations()) {
-                    addedDofsByNode[nodePosition] = DOFS::ALL_DOFS;
+                    addedDofsByNode[nodePosition] += DOFS::ALL_DOFS;
                     mesh.allowDOFS(nodePosition, DOFS::ALL_DOFS);
                 } else {
-                    addedDofsByNode[nodePosition] = DOFS::TRANSLATIONS;
+                    addedDofsByNode[nodePosition] += DOFS::TRANSLATIONS;
                     mesh.allowDOFS(nodePosition, DOFS::TRANSLATIONS);
                 }
                 if (this->configuration.logLevel >= LogLevel::DEBUG) {
@@ -1283,8 +1283,8 @@ void Model::replaceDirectMatrices()
                 const auto colNodePosition = pair.second;
                 const int rowNodeId = mesh.findNodeId(rowNodePosition);
                 const int colNodeId = mesh.findNodeId(colNodePosition);
-                DOFS requiredRowDofs = requiredDofsByNode.find(rowNodePosition)->second;
-                DOFS requiredColDofs = requiredDofsByNode.find(colNodePosition)->second;
+                DOFS* requiredDofs[2] = { &requiredDofsByNode.find(rowNodePosition)->second,
+                        &requiredDofsByNode.find(colNodePosition)->second };
 
                 const auto& discrete = make_shared<DiscreteSegment>(*this, matrix->matrixType);
                 ostringstream oss;
@@ -1299,17 +1299,6 @@ void Model::replaceDirectMatrices()
                     discrete->assignMaterial(getVirtualMaterial());
                 }
                 discrete->add(*matrixGroup);
-                if (discrete->hasRotations()) {
-                    addedDofsByNode[rowNodePosition] = DOFS::ALL_DOFS;
-                    mesh.allowDOFS(rowNodePosition, DOFS::ALL_DOFS);
-                    addedDofsByNode[colNodePosition] = DOFS::ALL_DOFS;
-                    mesh.allowDOFS(colNodePosition, DOFS::ALL_DOFS);
-                } else {
-                    addedDofsByNode[rowNodePosition] = DOFS::TRANSLATIONS;
-                    mesh.allowDOFS(rowNodePosition, DOFS::TRANSLATIONS);
-                    addedDofsByNode[colNodePosition] = DOFS::TRANSLATIONS;
-                    mesh.allowDOFS(colNodePosition, DOFS::TRANSLATIONS);
-                }
                 for (int row_index = 0; row_index < 2; ++row_index) {
                     for (int col_index = 0; col_index < 2; ++col_index) {
                         pos_t rowNodePosition2;
@@ -1352,12 +1341,17 @@ void Model::replaceDirectMatrices()
                                 default:
                                     throw logic_error("Not yet implemented");
                                 }
-                                requiredRowDofs += rowDof;
-                                requiredColDofs += colDof;
+                                *requiredDofs[row_index] += rowDof;
+                                *requiredDofs[col_index] += colDof;
                             }
                         }
                     }
                 }
+                const DOFS addedDofs = discrete->hasRotations() ? DOFS::ALL_DOFS : DOFS::TRANSLATIONS;
+                for (const auto nodePosition : {rowNodePosition, colNodePosition}) {
+                    addedDofsByNode[nodePosition] += addedDofs;
+                    mesh.allowDOFS(nodePosition, addedDofs);
+                }
                 if (this->configuration.logLevel >= LogLevel::TRACE) {
                     cout << "Creating discrete : " << *discrete << " over node ids : "
                             << to_string(rowNodeId) << " and : " << to_string(colNodeId) << endl;
-- 
2.43.0


From 05ced22866a7044737bc82becadfc2c3ba41278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:54 +0000
Subject: [PATCH 060/114] fix: direct matrix on a single node was given a
 segment

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 5c02b2d..5ee1650 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1263,7 +1263,7 @@ void Model::replaceDirectMatrices()
                 const auto& matrixGroup = mesh.createCellGroup(
                         "MTN" + to_string(matrix_count), Group::NO_ORIGINAL_ID, oss.str());
                 discrete->add(*matrixGroup);
-                const auto cellPosition = mesh.addCell(Cell::AUTO_ID, CellType::SEG2, { nodeId }, true);
+                const auto cellPosition = mesh.addCell(Cell::AUTO_ID, CellType::POINT1, { nodeId }, true);
                 matrixGroup->addCellPosition(cellPosition);
                 if (discrete->hasRotations()) {
                     addedDofsByNode[nodePosition] += DOFS::ALL_DOFS;
-- 
2.43.0


From 9afce9c8e519c70161b0e21d45ec6c1923327bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:36 +0000
Subject: [PATCH 061/114] fix: degrees of freedom of springs and masses were
 blocked beside a direct matrix

---
 Abstract/Element.cpp |  1 +
 Abstract/Model.cpp   | 59 ++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 2d5d45f..2c1181f 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -12,6 +12,7 @@
 #include "Model.h"
 #include "SolverInterfaces.h"
 #include <boost/assign.hpp>
+#include <algorithm>
 #include <ciso646>
 //win
 #define _USE_MATH_DEFINES
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 5ee1650..01497cf 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -11,6 +11,7 @@
 #include "Model.h"
 #include "Utility.h"
 
+#include <algorithm>
 #include <iostream>
 #include <string>
 #include <fstream>
@@ -1185,6 +1186,59 @@ void Model::addDefaultAnalysis()
     }
 }
 
+/** Components of a node on which a discrete element or a mass has a coefficient */
+static DOFS dofsWithCoefficient(const shared_ptr<ElementSet>& elementSet, const pos_t cellPosition, const int nodeRank)
+{
+    DOFS dofs;
+    switch (elementSet->type) {
+    case ElementSet::Type::SCALAR_SPRING: {
+        const auto& spring = static_pointer_cast<ScalarSpring>(elementSet);
+        for (const auto& kv : spring->getCellPositionByDOFS()) {
+            if (find(kv.second.begin(), kv.second.end(), cellPosition) != kv.second.end()) {
+                dofs += nodeRank == 0 ? kv.first.first : kv.first.second;
+            }
+        }
+        break;
+    }
+    case ElementSet::Type::DISCRETE_0D: {
+        const auto& discrete = static_pointer_cast<DiscretePoint>(elementSet);
+        for (const DOF dof : DOFS::ALL_DOFS) {
+            if (not is_zero(discrete->findStiffness(dof, dof)) or not is_zero(discrete->findMass(dof, dof))
+                    or not is_zero(discrete->findDamping(dof, dof))) {
+                dofs += dof;
+            }
+        }
+        break;
+    }
+    case ElementSet::Type::DISCRETE_1D: {
+        const auto& discrete = static_pointer_cast<DiscreteSegment>(elementSet);
+        for (const DOF dof : DOFS::ALL_DOFS) {
+            if (not is_zero(discrete->findStiffness(nodeRank, nodeRank, dof, dof))
+                    or not is_zero(discrete->findMass(nodeRank, nodeRank, dof, dof))
+                    or not is_zero(discrete->findDamping(nodeRank, nodeRank, dof, dof))) {
+                dofs += dof;
+            }
+        }
+        break;
+    }
+    case ElementSet::Type::STRUCTURAL_SEGMENT: {
+        const auto& segment = static_pointer_cast<StructuralSegment>(elementSet);
+        for (const DOF dof : DOFS::ALL_DOFS) {
+            if (not is_zero(segment->findStiffness(dof, dof)) or not is_zero(segment->findDamping(dof, dof))) {
+                dofs += dof;
+            }
+        }
+        break;
+    }
+    case ElementSet::Type::NODAL_MASS:
+        dofs = static_pointer_cast<NodalMass>(elementSet)->hasRotations() ? DOFS::ALL_DOFS : DOFS::TRANSLATIONS;
+        break;
+    default:
+        dofs = DOFS::TRANSLATIONS;
+    }
+    return dofs;
+}
+
 void Model::replaceDirectMatrices()
 {
     vector<shared_ptr<ElementSet> > elementSetsToRemove;
@@ -1207,15 +1261,16 @@ void Model::replaceDirectMatrices()
                 }
                 for (const auto cellPosition : elementSetI->cellPositions()) {
                     const Cell& cell = mesh.findCell(cellPosition);
+                    int nodeRank = 0;
                     for (int cellNodeId : cell.nodeIds) {
                         if (cellNodeId == nodeId) {
                             if (elementSetI->isBeam() or elementSetI->isShell()) {
                                 owned += DOFS::ALL_DOFS;
                             } else {
-                                owned += DOFS::TRANSLATIONS;
+                                owned += dofsWithCoefficient(elementSetI, cellPosition, nodeRank);
                             }
-                            break;
                         }
+                        ++nodeRank;
                     }
                 }
             }
-- 
2.43.0


From 57be03fdbb6e43135d342b09d8f7fa308dc77c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:15 +0000
Subject: [PATCH 062/114] fix: CBUSH on a single grid point is linked to the
 ground

---
 Nastran/NastranParser_geometry.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 987bcd9..dbbf39e 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -293,11 +293,16 @@ void NastranParser::parseCBUSH(NastranTokenizer& tok, Model& model) {
     }
 
     // Add cell
-    if (gb == Globals::UNAVAILABLE_INT){
-        model.mesh.addCell(eid, CellType::POINT1, {ga}, false, cpos, pid);
-    }else{
-        model.mesh.addCell(eid, CellType::SEG2, {ga, gb}, false, cpos, pid);
+    // If GB is undefined, it is considered a fictitious grounded point
+    if (gb == Globals::UNAVAILABLE_INT or gb == 0){
+        const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::ALL_DOFS, 0.0);
+        const auto nodePosition = model.mesh.addNode(Node::AUTO_ID, 0.0, 0.0, 0.0);
+        gb = model.mesh.findNodeId(nodePosition);
+        spc->addNodeId(gb);
+        model.add(spc);
+        model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
     }
+    model.mesh.addCell(eid, CellType::SEG2, {ga, gb}, false, cpos, pid);
     addProperty(tok, pid, eid, model);
 }
 
-- 
2.43.0


From d20f1639167cffc5d755cb4af3e14fd06ca2ec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:12 +0000
Subject: [PATCH 063/114] fix: CELAS2 with a blank second grid point was
 refused

---
 Nastran/NastranParser_geometry.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index dbbf39e..68aac02 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -399,8 +399,8 @@ void NastranParser::parseCELAS2(NastranTokenizer& tok, Model& model) {
     double k = tok.nextDouble();
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok,model);
-    int g2 = tok.nextInt();
-    dof_int c2 = parseDOF(tok,model);
+    int g2 = tok.nextInt(true);
+    dof_int c2 = parseDOF(tok,model,true);
     double ge = tok.nextDouble(true, 0.0);
 
     // S is only used for post-treatment, and so discarded.
@@ -411,6 +411,17 @@ void NastranParser::parseCELAS2(NastranTokenizer& tok, Model& model) {
         }
     }
 
+    // If G2 is undefined, it is considered a fictitious grounded point, and c2=c1
+    if (g2 == Globals::UNAVAILABLE_INT or g2 == 0){
+        c2 = c1;
+        const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::ALL_DOFS, 0.0);
+        const auto nodePosition = model.mesh.addNode(Node::AUTO_ID, 0.0, 0.0, 0.0);
+        g2 = model.mesh.findNodeId(nodePosition);
+        spc->addNodeId(g2);
+        model.add(spc);
+        model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
+    }
+
     // Create a Cell and a cellgroup
     const auto& springGroup = model.mesh.createCellGroup("CELAS2_" + to_string(eid), Group::NO_ORIGINAL_ID, "CELAS2");
     const auto cellPosition= model.mesh.addCell(eid, CellType::SEG2, {g1, g2});
-- 
2.43.0


From 32253377918dc4c422079e4e5cb4b2564626f54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:40 +0000
Subject: [PATCH 064/114] fix: a component held by a coupling term only was
 blocked beside a direct matrix

---
 Abstract/Model.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 01497cf..ebd302c 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1203,9 +1203,12 @@ static DOFS dofsWithCoefficient(const shared_ptr<ElementSet>& elementSet, const
     case ElementSet::Type::DISCRETE_0D: {
         const auto& discrete = static_pointer_cast<DiscretePoint>(elementSet);
         for (const DOF dof : DOFS::ALL_DOFS) {
-            if (not is_zero(discrete->findStiffness(dof, dof)) or not is_zero(discrete->findMass(dof, dof))
-                    or not is_zero(discrete->findDamping(dof, dof))) {
-                dofs += dof;
+            for (const DOF dof2 : DOFS::ALL_DOFS) {
+                if (not is_zero(discrete->findStiffness(dof, dof2)) or not is_zero(discrete->findMass(dof, dof2))
+                        or not is_zero(discrete->findDamping(dof, dof2))) {
+                    dofs += dof;
+                    dofs += dof2;
+                }
             }
         }
         break;
-- 
2.43.0


From 756890e89e965a80789f4975aa605f085143ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:03 +0000
Subject: [PATCH 065/114] fix: springs of a property were mixed with a CELAS2
 of the same number

---
 Nastran/NastranParser.cpp          | 26 +++++++++-----------------
 Nastran/NastranParser_geometry.cpp | 24 ++++++++----------------
 2 files changed, 17 insertions(+), 33 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index ed4b274..065033b 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2640,20 +2640,16 @@ void NastranParser::parsePDAMP(NastranTokenizer& tok, Model& model) {
         const double b = tok.nextDouble(true, 0.0);
 
         const auto& cellGroup = getOrCreateCellGroup(pid, model, "PDAMP");
-        const auto& elementSet = model.elementSets.find(pid);
+        const auto& elementSet = model.elementSets.find(Reference<ElementSet>(ElementSet::Type::SCALAR_SPRING, pid));
         if (elementSet == nullptr){
             const auto& scalarSpring = make_shared<ScalarSpring>(model, pid, Globals::UNAVAILABLE_DOUBLE, b);
             scalarSpring->add(*cellGroup);
             scalarSpring->setInputContext(tok.getInputContext());
             model.add(scalarSpring);
         } else {
-            if (elementSet->type == ElementSet::Type::SCALAR_SPRING){
-                const auto& springElementSet = static_pointer_cast<ScalarSpring>(elementSet);
-                springElementSet->setDamping(b);
-                springElementSet->add(*cellGroup);
-            } else {
-                handleParsingError("The part of PID " + to_string(pid) + " already exists with the wrong NATURE.", tok, model);
-            }
+            const auto& springElementSet = static_pointer_cast<ScalarSpring>(elementSet);
+            springElementSet->setDamping(b);
+            springElementSet->add(*cellGroup);
         }
         nbProperties++;
     }
@@ -2720,21 +2716,17 @@ void NastranParser::parsePELAS(NastranTokenizer& tok, Model& model) {
         }
 
         const auto& cellGroup = getOrCreateCellGroup(pid, model, "PELAS");
-        const auto& elementSet = model.elementSets.find(pid);
+        const auto& elementSet = model.elementSets.find(Reference<ElementSet>(ElementSet::Type::SCALAR_SPRING, pid));
         if (elementSet == nullptr){
             const auto& scalarSpring = make_shared<ScalarSpring>(model, pid, k, ge);
             scalarSpring->add(*cellGroup);
             scalarSpring->setInputContext(tok.getInputContext());
             model.add(scalarSpring);
         } else {
-            if (elementSet->type == ElementSet::Type::SCALAR_SPRING){
-                const auto& springElementSet = static_pointer_cast<ScalarSpring>(elementSet);
-                springElementSet->setStiffness(k);
-                springElementSet->setDamping(ge);
-                springElementSet->add(*cellGroup);
-            } else {
-                handleParsingError("The part of PID "+std::to_string(pid)+" already exists with the wrong NATURE.", tok, model);
-            }
+            const auto& springElementSet = static_pointer_cast<ScalarSpring>(elementSet);
+            springElementSet->setStiffness(k);
+            springElementSet->setDamping(ge);
+            springElementSet->add(*cellGroup);
         }
         nbProperties++;
     }
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 68aac02..1ce9c1e 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -334,19 +334,15 @@ void NastranParser::parseCDAMP1(NastranTokenizer& tok, Model& model) {
     cellGroup->addCellPosition(cellPosition);
 
     // Creates or update the ElementSet defined by the PELAS key.
-    const auto& elementSet = model.elementSets.find(pid);
+    const auto& elementSet = model.elementSets.find(Reference<ElementSet>(ElementSet::Type::SCALAR_SPRING, pid));
     if (elementSet == nullptr){
         const auto& scalarSpring = make_shared<ScalarSpring>(model, pid);
         scalarSpring->add(*cellGroup);
         scalarSpring->addSpring(cellPosition, DOF::findByPosition(c1), DOF::findByPosition(c2));
         model.add(scalarSpring);
     } else {
-        if (elementSet->type == ElementSet::Type::SCALAR_SPRING){
-            const auto& springElementSet = static_pointer_cast<ScalarSpring>(elementSet);
-            springElementSet->addSpring(cellPosition, DOF::findByPosition(c1), DOF::findByPosition(c2));
-        } else {
-            handleParsingError("The part of PID "+to_string(pid)+" already exists with the wrong NATURE.", tok, model);
-        }
+        const auto& springElementSet = static_pointer_cast<ScalarSpring>(elementSet);
+        springElementSet->addSpring(cellPosition, DOF::findByPosition(c1), DOF::findByPosition(c2));
     }
 }
 
@@ -377,19 +373,15 @@ void NastranParser::parseCELAS1(NastranTokenizer& tok, Model& model) {
     cellGroup->addCellPosition(cellPosition);
 
     // Creates or update the ElementSet defined by the PELAS key.
-    const auto& elementSet = model.elementSets.find(pid);
+    const auto& elementSet = model.elementSets.find(Reference<ElementSet>(ElementSet::Type::SCALAR_SPRING, pid));
     if (elementSet == nullptr){
         const auto& scalarSpring = make_shared<ScalarSpring>(model, pid);
         scalarSpring->add(*cellGroup);
         scalarSpring->addSpring(cellPosition, DOF::findByPosition(c1), DOF::findByPosition(c2));
         model.add(scalarSpring);
     } else {
-        if (elementSet->type == ElementSet::Type::SCALAR_SPRING){
-            const auto& springElementSet = dynamic_pointer_cast<ScalarSpring>(elementSet);
-            springElementSet->addSpring(cellPosition, DOF::findByPosition(c1), DOF::findByPosition(c2));
-        }else{
-            handleParsingError("The part of PID "+to_string(pid)+" already exists with the wrong NATURE.", tok, model);
-        }
+        const auto& springElementSet = static_pointer_cast<ScalarSpring>(elementSet);
+        springElementSet->addSpring(cellPosition, DOF::findByPosition(c1), DOF::findByPosition(c2));
     }
 }
 
@@ -428,7 +420,7 @@ void NastranParser::parseCELAS2(NastranTokenizer& tok, Model& model) {
     springGroup->addCellPosition(cellPosition);
 
     // Create ElementSet
-    const auto& scalarSpring = make_shared<ScalarSpring>(model, eid, k ,ge);
+    const auto& scalarSpring = make_shared<ScalarSpring>(model, ElementSet::NO_ORIGINAL_ID, k ,ge);
     scalarSpring->add(*springGroup);
     scalarSpring->addSpring(cellPosition, DOF::findByPosition(c1), DOF::findByPosition(c2));
     model.add(scalarSpring);
@@ -448,7 +440,7 @@ void NastranParser::parseCELAS4(NastranTokenizer& tok, Model& model) {
     springGroup->addCellPosition(cellPosition);
 
     // Create ElementSet
-    const auto& scalarSpring = make_shared<ScalarSpring>(model, eid, k);
+    const auto& scalarSpring = make_shared<ScalarSpring>(model, ElementSet::NO_ORIGINAL_ID, k);
     scalarSpring->add(*springGroup);
     scalarSpring->addSpring(cellPosition, DOF::DX, DOF::DX);
     model.add(scalarSpring);
-- 
2.43.0


From 5bcad08461faef3321c71e450c091778fd0b4d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:07 +0000
Subject: [PATCH 066/114] fix: PBUSH card ending before its last stiffness was
 refused

---
 Nastran/NastranParser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 065033b..a1f4d42 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2449,42 +2449,42 @@ void NastranParser::parsePBUSH(NastranTokenizer& tok, Model& model) {
         tok.skipToNotEmpty();
         string flag = tok.nextString();
         if (flag=="K") { // Stiffness values (Default 0.0)
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k1=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k1 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k2=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k2 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k3=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k3 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k4=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k4 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k5=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
                     k5 = DBL_MAX;
                 else
                     handleParsingError("Unsupported PBUSH flag value (for now)", tok, model);
-            if (tok.isNextDouble() or tok.isNextEmpty())
+            if (tok.isNextDouble() or tok.isNextEmpty() or tok.isEmptyUntilNextKeyword())
                 k6=tok.nextDouble(true, 0.0);
             else
                 if (tok.nextString() == "RIGID")
-- 
2.43.0


From e5fa52488ac33c659c9de548aff89edcb5352f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:21 +0000
Subject: [PATCH 067/114] fix: a point on the axis of a cylindrical system had
 a direction made of rounding errors

---
 Abstract/CoordinateSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index bb0ab72..5b74022 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -199,7 +199,7 @@ void CylindricalCoordinateSystem::updateLocalBase(const VectorialValue& point) {
     }
     VectorialValue localOrigin = localPoint - origin;
     const VectorialValue& normal = ez.cross(localOrigin);
-    if (normal.iszero()) {
+    if (normal.norm() <= 1e-12 * (localPoint.norm() + origin.norm())) {
         // on the axis: the directions of the defining rectangular system
         ur = ex;
         utheta = ey;
-- 
2.43.0


From 1825b87fab56bcf1bf3691dd5d7f6dd8cb391136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:39 +0000
Subject: [PATCH 068/114] fix: solver was run elsewhere when the output
 directory has a blank in its name

---
 Abstract/SolverInterfaces.cpp | 15 +++++++++++++++
 Abstract/SolverInterfaces.h   |  2 ++
 Aster/AsterRunner.cpp         |  5 +++--
 Nastran/NastranRunner.cpp     |  6 +++---
 Systus/SystusRunner.cpp       | 12 ++++++------
 5 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index 0c7bb18..8867c5e 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -220,6 +220,21 @@ string Runner::stripExtension(const string& currentModel) const {
     return basePath;
 }
 
+string Runner::shellWord(const string& text) const {
+#ifdef _WIN32
+    return "\"" + text + "\"";
+#else
+    string result = "'";
+    for (const char c : text) {
+        if (c == '\'')
+            result += "'\\''";
+        else
+            result += c;
+    }
+    return result + "'";
+#endif
+}
+
 void Runner::deletePreviousResultFiles(string currentModel, const vector<string> extensions) {
     string basePath = stripExtension(currentModel);
     for (const string extension : extensions) {
diff --git a/Abstract/SolverInterfaces.h b/Abstract/SolverInterfaces.h
index 271fa1c..a8819f3 100644
--- a/Abstract/SolverInterfaces.h
+++ b/Abstract/SolverInterfaces.h
@@ -189,6 +189,8 @@ protected:
 	void deletePreviousResultFiles(std::string currentModel,
 			const std::vector<std::string> extensions);
 	std::string stripExtension(const std::string& currentModel) const;
+	/** The text as one word of a shell command. */
+	std::string shellWord(const std::string& text) const;
 	ExitCode convertExecResult(const int exitCode) const;
 };
 
diff --git a/Aster/AsterRunner.cpp b/Aster/AsterRunner.cpp
index c9e9ebe..12262b2 100644
--- a/Aster/AsterRunner.cpp
+++ b/Aster/AsterRunner.cpp
@@ -45,10 +45,11 @@ Runner::ExitCode AsterRunner::execSolver(const ConfigurationParameters &configur
     string command = configuration.solverCommand.empty() ? "as_run" : configuration.solverCommand;
     fs::path modelFilePath(modelFile);
     string fname = modelFilePath.stem().string();
-    command = command + " " + modelFile + " > " + fname + ".stdout 2> " + fname + ".stderr";
+    command = command + " " + shellWord(modelFile) + " > " + shellWord(fname + ".stdout")
+            + " 2> " + shellWord(fname + ".stderr");
 
     if (configuration.outputPath != ".") {
-        command = "cd " + configuration.outputPath + " && " + command;
+        command = "cd " + shellWord(configuration.outputPath) + " && " + command;
     }
     vector<string> fileList = { ".mess", ".resu", ".rmed", ".stdout", ".stderr" };
     deletePreviousResultFiles(modelFile, fileList);
diff --git a/Nastran/NastranRunner.cpp b/Nastran/NastranRunner.cpp
index 2a662b8..eab752f 100644
--- a/Nastran/NastranRunner.cpp
+++ b/Nastran/NastranRunner.cpp
@@ -41,14 +41,14 @@ Runner::ExitCode NastranRunner::execSolver(const ConfigurationParameters &config
         string modelFile) {
     fs::path modelFilePath(modelFile);
     string fname = modelFilePath.stem().string();
-    string command = "nastran " + modelFilePath.filename().string() + " > " + fname + ".stdout 2> " + fname
-            + ".stderr";
+    string command = "nastran " + shellWord(modelFilePath.filename().string()) + " > " + shellWord(fname + ".stdout")
+            + " 2> " + shellWord(fname + ".stderr");
     fs::path outputFsPath(configuration.outputPath);
     cout << configuration.outputPath << endl;
     if (!fs::is_directory(outputFsPath))
         return Runner::ExitCode::SOLVER_NOT_FOUND;
     if (configuration.outputPath != ".")
-        command = "cd " + configuration.outputPath + " && " + command;
+        command = "cd " + shellWord(configuration.outputPath) + " && " + command;
 
     vector<string> fileList = { ".DBALL", ".f04", ".f06", ".IFPDAT", ".log", ".MASTER", ".stdout",
             ".stderr" };
diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index 9950680..20c1f32 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -64,10 +64,10 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
 
     ExitCode exitCode;
     if (configuration.systusOutputProduct=="systus") {
-        string command = "systus -batch -exec " + modelFile + " > " + fname + ".stdout 2> " + fname
-                + ".stderr";
+        string command = "systus -batch -exec " + shellWord(modelFile) + " > " + shellWord(fname + ".stdout")
+                + " 2> " + shellWord(fname + ".stderr");
         if (configuration.outputPath != ".")
-            command = "cd " + configuration.outputPath + " && " + command;
+            command = "cd " + shellWord(configuration.outputPath) + " && " + command;
         //run command
         int i = system(command.c_str());
         if (i != 0) {
@@ -88,10 +88,10 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             cout << "Found DAT file:" << datFilename << endl;
             //check if it contains nook
             string datFileStr = (outputFsPath / fs::path(datFilename)).string();
-            string command = "systus -batch -exec " + datFilename + " > " + fname + ".stdout 2> " + fname
-                    + ".stderr";
+            string command = "systus -batch -exec " + shellWord(datFilename) + " > " + shellWord(fname + ".stdout")
+                    + " 2> " + shellWord(fname + ".stderr");
             if (configuration.outputPath != ".")
-                command = "cd " + configuration.outputPath + " && " + command;
+                command = "cd " + shellWord(configuration.outputPath) + " && " + command;
             //run command
             int i = system(command.c_str());
             if (i != 0) {
-- 
2.43.0


From ac490abcbd7ae59207e3b9ca2c66c826d54caa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:39 +0000
Subject: [PATCH 069/114] fix: a killed solver was reported as one that failed
 when no directory change comes first

---
 Abstract/SolverInterfaces.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Abstract/SolverInterfaces.cpp b/Abstract/SolverInterfaces.cpp
index 8867c5e..d58459f 100644
--- a/Abstract/SolverInterfaces.cpp
+++ b/Abstract/SolverInterfaces.cpp
@@ -255,7 +255,7 @@ Runner::ExitCode Runner::convertExecResult(const int exitCode) const {
     ExitCode result = ExitCode::SOLVER_EXIT_NOT_ZERO;
 #ifdef __GNUC__
     //bash exit codes http://tldp.org/LDP/abs/html/exitcodes.html
-    //int lowByte = 0x00FF & exitCode;
+    int lowByte = 0x007F & exitCode; // signal, when the shell was replaced by the solver
     int highByte = (exitCode & 0xFF00) >> 8;
     if (highByte == 127) {
         result = ExitCode::SOLVER_NOT_FOUND;
@@ -263,6 +263,8 @@ Runner::ExitCode Runner::convertExecResult(const int exitCode) const {
         result = ExitCode::SOLVER_KILLED;
     } else if (exitCode == -1) {
         result = ExitCode::SOLVER_NOT_FOUND;
+    } else if (lowByte != 0) {
+        result = ExitCode::SOLVER_KILLED;
     }
 #else
 
-- 
2.43.0


From e84d5fe5c732ba950f649ad21fda8eb8142f5b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:39 +0000
Subject: [PATCH 070/114] fix: exit code 4 of Code_Aster was not recognized

---
 Aster/AsterRunner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterRunner.cpp b/Aster/AsterRunner.cpp
index 12262b2..60d41a3 100644
--- a/Aster/AsterRunner.cpp
+++ b/Aster/AsterRunner.cpp
@@ -111,7 +111,7 @@ Runner::ExitCode AsterRunner::execSolver(const ConfigurationParameters &configur
                 cout << "Tests OK." << endl;
             }
         }
-    } else if (i == 4) { //handle the case of code_aster exit code 4
+    } else if (((i & 0xFF00) >> 8) == 4) { //handle the case of code_aster exit code 4
         exitCode = ExitCode::TRANSLATION_SYNTAX_ERROR;
     }
     return exitCode;
-- 
2.43.0


From 3b76b94c6cc7e673c446d3b6d8d1577364f18747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:39 +0000
Subject: [PATCH 071/114] fix: an error message of Systus hid that the solver
 was killed or not found

---
 Systus/SystusRunner.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index 20c1f32..a74a1af 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -62,7 +62,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
         }
     }
 
-    ExitCode exitCode;
+    ExitCode exitCode = Runner::ExitCode::OK;
     if (configuration.systusOutputProduct=="systus") {
         string command = "systus -batch -exec " + shellWord(modelFile) + " > " + shellWord(fname + ".stdout")
                 + " 2> " + shellWord(fname + ".stderr");
@@ -114,7 +114,8 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
         lineNumber += 1;
         if (line.find("ERROR") != string::npos && line.find("NO ERROR") == string::npos) {
             cerr << "Error found : line " << lineNumber << " file: " << outputFileStr << endl;
-            exitCode = Runner::ExitCode::SOLVER_EXIT_NOT_ZERO;
+            if (exitCode == Runner::ExitCode::OK)
+                exitCode = Runner::ExitCode::SOLVER_EXIT_NOT_ZERO;
         }
     }
 
-- 
2.43.0


From 84941737898a83c35d196034011d2b018be8171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:39 +0000
Subject: [PATCH 072/114] fix: options of the Nastran output were refused in
 the configuration file

---
 Commandline/VegaCommandLine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Commandline/VegaCommandLine.cpp b/Commandline/VegaCommandLine.cpp
index f49880c..02ea251 100644
--- a/Commandline/VegaCommandLine.cpp
+++ b/Commandline/VegaCommandLine.cpp
@@ -553,7 +553,7 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
         cmdline_options.add(commandLine).add(generic).add(nastranOptions).add(systusOptions).add(hidden);
 
         po::options_description config_file_options;
-        config_file_options.add(generic).add(systusOptions).add(hidden);
+        config_file_options.add(generic).add(nastranOptions).add(systusOptions).add(hidden);
 
         po::positional_options_description p;
         p.add("input-file", 1);
@@ -561,7 +561,7 @@ VegaCommandLine::ExitCode VegaCommandLine::process(int ac, const char* av[]) {
         p.add("output-format", 1);
 
         po::options_description visible("Options");
-        visible.add(commandLine).add(generic).add(systusOptions);
+        visible.add(commandLine).add(generic).add(nastranOptions).add(systusOptions);
 
         po::variables_map vm;
         store(po::command_line_parser(ac, av).options(cmdline_options).positional(p).run(), vm);
-- 
2.43.0


From 8916b79eba67cf1be515da84282208607d3c9bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:36 +0000
Subject: [PATCH 073/114] fix: Topaze was also run on the command file of an
 earlier Systus translation

---
 Systus/SystusRunner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systus/SystusRunner.cpp b/Systus/SystusRunner.cpp
index a74a1af..3493e4c 100644
--- a/Systus/SystusRunner.cpp
+++ b/Systus/SystusRunner.cpp
@@ -83,7 +83,7 @@ Runner::ExitCode SystusRunner::execSolver(const ConfigurationParameters &configu
             string datFilename = it2->path().filename().string();
             if (not boost::algorithm::ends_with(datFilename, ".DAT"))
                 continue;
-            if (not boost::algorithm::starts_with(datFilename, fnamePrefix))
+            if (not boost::algorithm::starts_with(datFilename, fnamePrefix + "_SC"))
                 continue;
             cout << "Found DAT file:" << datFilename << endl;
             //check if it contains nook
-- 
2.43.0


From b4112460a1db53727a1a6ba8818106b38f3038fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:26 +0000
Subject: [PATCH 074/114] fix: results of a subcase that the model does not
 have ended the translation

---
 ResultReaders/F06Parser.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 54c5288..4ee99b7 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -371,8 +371,9 @@ int F06Parser::addAssertionsToModel(int currentSubcase, double loadStep, Model &
 	shared_ptr<Analysis> analysis;
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
 	} else if (not model.analyses.empty()) {
@@ -441,15 +442,14 @@ int F06Parser::addComplexAssertionsToModel(int currentSubCase, double frequency,
 	shared_ptr<Analysis> analysis;
 	if (currentSubCase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubCase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubCase << " in model." << endl;
 		}
-	} else {
-		// LD If no subcase indicated, the first one is used.
-		// FIXME: what if the model don't have an analysis and the default one is
-		// created inside the finish()? GC
-		analysis = *model.analyses.begin();
+	} else if (not model.analyses.empty()) {
+		// LD If no subcase indicated, the first one is used if exists.
+		analysis = model.analyses.first();
 	}
 	for (const auto& assertion : assertions) {
 		if (analysis != nullptr) {
@@ -474,8 +474,9 @@ int F06Parser::addVonMisesAssertionsToModel(int currentSubcase, Model &model,
 	shared_ptr<Analysis> analysis;
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
 	} else if (not model.analyses.empty()) {
-- 
2.43.0


From 6f2b01397b94c5fedd457ca1b2c664eb96891afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:26 +0000
Subject: [PATCH 075/114] fix: a scalar point ended the reading of a table of
 displacements

---
 ResultReaders/F06Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 4ee99b7..c39c169 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -62,6 +62,8 @@ int F06Parser::readDisplacementSection(int currentSubCase, Model& model,
 				vector<string> tokens;
 				copy(istream_iterator<string>(istringLine), istream_iterator<string>(),
 						back_inserter(tokens));
+				if (tokens.size() >= 2 and tokens[1] == "S")
+					continue; // up to six scalar points on a line
 				if (tokens.size() != 8)
 					break;
 
@@ -214,6 +216,10 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
 			vector<string> tokens;
 			copy(istream_iterator<string>(istringLine), istream_iterator<string>(),
 					back_inserter(tokens));
+			if (tokens.size() >= 3 and tokens[2] == "S") {
+				this->readLine(istream, currentLine); // imaginary parts of the scalar points
+				continue;
+			}
 			if (tokens.size() != 9)
 				break;
 
-- 
2.43.0


From 19844768729f4725b71fcbfe21fcc6486fa960ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 076/114] fix: a page heading was taken for a record of a table
 of results

---
 ResultReaders/F06Parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index c39c169..6b7bd26 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -153,6 +153,8 @@ int F06Parser::readEigenvalueSection(int currentSubCase, Model& model,
 				subcase_id = parseSubcase(subcase_id, currentLine);
 				break;
             }
+			if (!isspace(currentLine.at(0)))
+				break; // heading of a page
 			istringstream istringLine(currentLine);
 			vector<string> tokens;
 			copy(istream_iterator<string>(istringLine), istream_iterator<string>(),
@@ -220,7 +222,7 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
 				this->readLine(istream, currentLine); // imaginary parts of the scalar points
 				continue;
 			}
-			if (tokens.size() != 9)
+			if (tokens.size() != 9 or tokens[2] != "G")
 				break;
 
 			this->readLine(istream, currentLine);
-- 
2.43.0


From 7d14461a4228bb5834dd3d3f6a864aa338b760ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 077/114] fix: results of a node or an element that the model
 does not have

---
 ResultReaders/F06Parser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 6b7bd26..1c86b04 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -68,6 +68,9 @@ int F06Parser::readDisplacementSection(int currentSubCase, Model& model,
 					break;
 
 				int nodeId = stoi(tokens[0]);
+				if (model.mesh.findNodePosition(nodeId) == Node::UNAVAILABLE_NODE) {
+					continue;
+				}
 				if (tokens[1] != "G"){
 					//cerr << "unsupported assertion type " << assertionType
 					//		<< " : line n." << lineNumber << " " << currentLine
@@ -234,6 +237,9 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
 				throw exception();
 
 			int nodeId = stoi(tokens[1]);
+			if (model.mesh.findNodePosition(nodeId) == Node::UNAVAILABLE_NODE) {
+				continue;
+			}
 			shared_ptr<ObjectiveSet> objectiveSet = nullptr;
             if (currentSubCase == NO_SUBCASE) {
                 objectiveSet = model.commonObjectiveSet;
@@ -333,6 +339,10 @@ int F06Parser::readStressesForSolidsSection(int currentSubCase, Model& model,
                     copy(istream_iterator<string>(istringLine), istream_iterator<string>(),
                             back_inserter(tokens));
                     int nodeId = stoi(tokens[1]);
+                    if (model.mesh.findNodePosition(nodeId) == Node::UNAVAILABLE_NODE or
+                        model.mesh.findCellPosition(cellId) == Cell::UNAVAILABLE_CELL) {
+                        continue;
+                    }
                     double vonMises = stod(tokens[tokens.size() - 1] /* sometimes smaller values have (or not) spaces between them, should cut using columns */);
                     shared_ptr<ObjectiveSet> objectiveSet = nullptr;
                     if (currentSubCase == NO_SUBCASE) {
-- 
2.43.0


From b31cc39a603e8891a863e8ae01aac423f3901f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 078/114] fix: complex displacements were not expressed in the
 global coordinate system

---
 ResultReaders/F06Parser.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 1c86b04..e4ea16a 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -246,11 +246,27 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
             } else {
                 objectiveSet = model.getOrCreateObjectiveSet(currentSubCase, ObjectiveSet::Type::ASSERTION);
             }
+			VectorialValue parts[4]; // translation and rotation: real, then imaginary
+			for (int i = 0; i < 4; i++) {
+				parts[i] = VectorialValue(stod(tokens[3 + 3 * i]), stod(tokens[4 + 3 * i]), stod(tokens[5 + 3 * i]));
+			}
+			const Node& node = model.mesh.findNode(model.mesh.findNodePosition(nodeId));
+			if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+				const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+				coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
+				for (auto& part : parts) {
+					part = coordSystem->vectorToGlobal(part);
+				}
+			}
+			const double values[12] = {
+					parts[0].x(), parts[0].y(), parts[0].z(), parts[1].x(), parts[1].y(), parts[1].z(),
+					parts[2].x(), parts[2].y(), parts[2].z(), parts[3].x(), parts[3].y(), parts[3].z(),
+			};
 			for (dof_int i = 0; i < 6; i++) {
-				double real = stod(tokens[3 + i]);
+				double real = values[i];
 				if (abs(real) < 1e-12)
 					real = 0;
-				double imag = stod(tokens[9 + i]);
+				double imag = values[6 + i];
 				if (abs(imag) < 1e-12)
 					imag = 0;
 				complex<double> value(real, imag);
-- 
2.43.0


From 0614795a9eb27f4bb65f616c3eff42ba0518d4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 079/114] fix: a label with the word SUBCASE hid the number of
 the subcase

---
 ResultReaders/F06Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index e4ea16a..a22907c 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -534,7 +534,7 @@ int F06Parser::addVonMisesAssertionsToModel(int currentSubcase, Model &model,
 
 
 int F06Parser::parseSubcase(int currentSubCase, const string& currentLine) {
-	size_t subCasePosition = currentLine.find("SUBCASE");
+	size_t subCasePosition = currentLine.rfind("SUBCASE"); // behind the label
 	string subcaseN = trim_copy(currentLine.substr(subCasePosition + 7));
 	bool has_digits_or_space = (subcaseN.find_first_not_of("0123456789 ") == string::npos);
 	int parsedSubCase = currentSubCase;
-- 
2.43.0


From cbc74a6e9a00657f716bab5129910b2fe99d839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 080/114] fix: heading between two tables of stresses hid the
 second one

---
 ResultReaders/F06Parser.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index a22907c..5bc7340 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -313,11 +313,7 @@ int F06Parser::readStressesForSolidsSection(int currentSubCase, Model& model,
 			size_t subCasePosition = currentLine.find("SUBCASE");
 			if (subCasePosition != string::npos) {
                 subcase_id = parseSubcase(subcase_id, currentLine);
-                if (subcase_id == currentSubCase) {
-                    continue;
-                } else {
-                    break;
-                }
+                break;
 			}
 
 			if (currentLine[0] == '0' and currentLine.find("0GRID") == string::npos) {
-- 
2.43.0


From 665ff6dc1eda015ca4f4743eab1359974f76fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:51 +0000
Subject: [PATCH 081/114] fix: load step of a subcase was kept for the next one

---
 ResultReaders/F06Parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 5bc7340..fde7c0b 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -581,6 +581,7 @@ void F06Parser::add_assertions(const ConfigurationParameters& configuration,
 				istringstream istringLine(frequencyString);
 				istringLine >> frequency;
 			}
+			bool sectionRead = true;
 			if (currentLine == "D I S P L A C E M E N T   V E C T O R") {
 				/*
 				 * The next subcase can be consumed to understand if the section has ended.
@@ -593,12 +594,18 @@ void F06Parser::add_assertions(const ConfigurationParameters& configuration,
 			} else if (currentLine == "C O M P L E X   D I S P L A C E M E N T   V E C T O R") {
 				currentSubCase = addComplexAssertionsToModel(currentSubCase, frequency, model,
 						configuration, istream);
+			} else {
+				sectionRead = false;
 			}
 			size_t stressesPos = currentLine.find("S T R E S S E S");
 			size_t solidElementsPos = currentLine.find("S O L I D   E L E M E N T S");
 			if (stressesPos != string::npos and solidElementsPos != string::npos) {
 				currentSubCase = addVonMisesAssertionsToModel(currentSubCase, model,
 						configuration, istream);
+				sectionRead = true;
+			}
+			if (sectionRead and currentSubCase != NO_SUBCASE) {
+				loadStep = -1; // the section ended at the heading of the next subcase
 			}
 		}
 		istream.close();
-- 
2.43.0


From f5fec4be8938b6056035247dff0dcf98ff07b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:56 +0000
Subject: [PATCH 082/114] fix: analysis that reuses the modes of another named
 a concept that is not there

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 99baea4..6eb8b5d 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2721,7 +2721,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             if (reusableAnalysis->type == Analysis::Type::LINEAR_MODAL)
                 modalResuName = "RESU" + to_string(reusableAnalysis->getId());
             else
-                modalResuName = "MOD" + to_string(reusableAnalysis->getId());
+                modalResuName = "MO" + to_string(reusableAnalysis->getId());
 		    comm_file_ofs << "# Reusing previous results: " << modalResuName << " for analysis " << *analysis << endl;
             handleWritingWarning("Reusing previous results: " + modalResuName + " for analysis " + to_str(*analysis));
 		}
-- 
2.43.0


From 4ff020551a606a74ec5c5c028232ba8d99b54b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:56 +0000
Subject: [PATCH 083/114] fix: modes were checked on a concept already
 destroyed when they are reused

---
 Aster/AsterWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 6eb8b5d..c1427a8 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -3132,9 +3132,9 @@ void AsterWriter::writeFrequencyAssertion(const shared_ptr<Analysis>& analysis,
     string resuName;
     const auto& reusableAnalysis = asterModel->model.reusableAnalysisFor(analysis);
     if (reusableAnalysis == nullptr) {
-        resuName = ((analysis->type == Analysis::Type::LINEAR_MODAL or analysis->type == Analysis::Type::LINEAR_BUCKLING) ? "RESU" : "UMO") + to_string(analysis->getId());
+        resuName = ((analysis->type == Analysis::Type::LINEAR_MODAL or analysis->type == Analysis::Type::LINEAR_BUCKLING) ? "RESU" : "MO") + to_string(analysis->getId());
     } else {
-        resuName = ((reusableAnalysis->type == Analysis::Type::LINEAR_MODAL or reusableAnalysis->type == Analysis::Type::LINEAR_BUCKLING) ? "RESU" : "UMO") + to_string(reusableAnalysis->getId());
+        resuName = ((reusableAnalysis->type == Analysis::Type::LINEAR_MODAL or reusableAnalysis->type == Analysis::Type::LINEAR_BUCKLING) ? "RESU" : "MO") + to_string(reusableAnalysis->getId());
     }
 
 	string critere = (!is_zero(frequencyAssertion->cycles) ? "'RELATIF'," : "'ABSOLU',");
-- 
2.43.0


From eb3cedf60bfca249ed562814ef03918d1d2957e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:53 +0000
Subject: [PATCH 084/114] fix: table without a usable result removed its
 analysis

---
 ResultReaders/F06Parser.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index fde7c0b..e7da94a 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -402,7 +402,9 @@ int F06Parser::addAssertionsToModel(int currentSubcase, double loadStep, Model &
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
 		if (analysis != nullptr) {
-			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+			if (not assertions.empty()) { // the set exists
+				analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+			}
 		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
@@ -436,7 +438,9 @@ int F06Parser::addFrequencyAssertionsToModel(int currentSubCase, Model& model,
             cout << "Cannot find analysis:" << currentSubCase << " in model, assertion are incoherents." << endl;
             return nextSubcase;
 		}
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
+		if (not assertions.empty()) { // the set exists
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
+		}
 		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubCase << " in model." << endl;
 		}
@@ -473,7 +477,9 @@ int F06Parser::addComplexAssertionsToModel(int currentSubCase, double frequency,
 	if (currentSubCase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubCase);
 		if (analysis != nullptr) {
-			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
+			if (not assertions.empty()) { // the set exists
+				analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
+			}
 		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubCase << " in model." << endl;
 		}
@@ -505,7 +511,9 @@ int F06Parser::addVonMisesAssertionsToModel(int currentSubcase, Model &model,
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
 		if (analysis != nullptr) {
-			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+			if (not assertions.empty()) { // the set exists
+				analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+			}
 		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
-- 
2.43.0


From 1291c47229e16e56353059b021fdceacea5d2b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:53 +0000
Subject: [PATCH 085/114] fix: heading without a subcase behind a table of
 stresses was an error

---
 ResultReaders/F06Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index e7da94a..3750045 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -317,7 +317,7 @@ int F06Parser::readStressesForSolidsSection(int currentSubCase, Model& model,
 			}
 
 			if (currentLine[0] == '0' and currentLine.find("0GRID") == string::npos) {
-                throw exception();
+                break; // heading without a subcase
 			}
 
 			istringstream istringLine(currentLine);
-- 
2.43.0


From 6c906aee47426e5372b8d70f0002485dc2bfd011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:28 +0000
Subject: [PATCH 086/114] fix: page heading was taken for an element of a table
 of stresses

---
 ResultReaders/F06Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 3750045..67572b0 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -326,7 +326,7 @@ int F06Parser::readStressesForSolidsSection(int currentSubCase, Model& model,
 			// Element header
 			copy(istream_iterator<string>(istringLine), istream_iterator<string>(),
 					back_inserter(tokens));
-			if (tokens.size() != 6)
+			if (tokens.size() != 6 or currentLine[0] == '1')
 				break;
             int cellId = stoi(tokens[1]);
             int nodeNum = stoi(tokens[4]);
-- 
2.43.0


From 045418e86d4e7a6a36b1274d1eedd9c32fde6907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:03 +0000
Subject: [PATCH 087/114] fix: modal damping of type G named no function and
 was doubled instead of halved

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index c1427a8..afaaa61 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2907,7 +2907,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
                 break;
             }
             case (ModalDamping::DampingType::G): {
-                comm_file_ofs << "AMMOS" << analysis->getId() << " = CALC_FONCTION(COMB=_F(COEF=2.0, FONCTION=" << analysis->getId() << "))" << endl;
+                comm_file_ofs << "AMMOS" << analysis->getId() << " = CALC_FONCTION(COMB=_F(COEF=0.5, FONCTION=AMMOI" << analysis->getId() << "))" << endl;
                 destroyableConcepts.push_back("AMMOS" + to_string(analysis->getId()));
                 break;
             }
-- 
2.43.0


From f2ca6c641a51514eaf65de16edc2c2304f8f854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:03 +0000
Subject: [PATCH 088/114] fix: scale factor of a DLOAD was applied to a table
 other excitations use

---
 Abstract/Loading.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 38c8eea..306bcbc 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -843,7 +843,21 @@ DOFS DynamicExcitation::getDOFSForNode(const pos_t nodePosition) const {
 }
 
 void DynamicExcitation::scale(const double factor) {
-	model.find(functionTableB)->scale(factor);
+    const auto& functionTable = getFunctionTableB();
+    if (functionTable == nullptr) {
+        return; // this excitation is not valid
+    }
+    // The table could be used by other excitations
+    const auto& scaledTable = make_shared<FunctionTable>(model, functionTable->parameter, functionTable->value,
+            functionTable->left, functionTable->right);
+    scaledTable->setParaX(functionTable->getParaX());
+    scaledTable->setParaY(functionTable->getParaY());
+    for (auto it = functionTable->getBeginValuesXY(); it != functionTable->getEndValuesXY(); it++) {
+        scaledTable->setXY(it->first, it->second);
+    }
+    scaledTable->scale(factor);
+    model.add(scaledTable);
+    functionTableB = scaledTable->getReference();
 }
 
 unique_ptr<Loading> DynamicExcitation::clone() const {
-- 
2.43.0


From 7bc46ae306ba5a814c5b39250a91b94061ec3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:03 +0000
Subject: [PATCH 089/114] fix: normalization by the maximum was taken for the
 default of the eigenvalue cards

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index a1f4d42..ac64f91 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1559,7 +1559,7 @@ void NastranParser::parseEIGB(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     int g = tok.nextInt(true);
     if (g!=Globals::UNAVAILABLE_INT){
@@ -1608,7 +1608,7 @@ void NastranParser::parseEIGR(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     int g = tok.nextInt(true);
     if (g!=Globals::UNAVAILABLE_INT){
@@ -1664,7 +1664,7 @@ void NastranParser::parseEIGRL(NastranTokenizer& tok, Model& model) {
         norm = FrequencySearch::NormType::MAX;
     else {
         handleParsingWarning("Only MASS and MAX normalizing method (NORM) supported. Default (MASS) assumed.", tok, model);
-        norm = FrequencySearch::NormType::MAX;
+        norm = FrequencySearch::NormType::MASS;
     }
     const auto& bandRange = make_shared<BandRange>(model, lower, nd, upper);
     //bandRange.setParaX(Function::ParaName::FREQ);
-- 
2.43.0


From 0f66fc86435f91b0ea292fdd647d01500875f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:03 +0000
Subject: [PATCH 090/114] fix: frequency band of an eigenvalue card was lost
 when it also gives a number of modes

---
 Aster/AsterWriter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index afaaa61..0f3097c 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2709,6 +2709,16 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             if (asterModel->model.contains(ModelParameter::UPPER_CUTOFF_FREQUENCY)) {
                 highFreq = stod(asterModel->model.getParameter(ModelParameter::UPPER_CUTOFF_FREQUENCY));
             }
+            const auto& frequencySearch = linearModal->getFrequencySearch();
+            if (frequencySearch->frequencyType == FrequencySearch::FrequencyType::BAND) {
+                const auto& band = static_pointer_cast<BandRange>(frequencySearch->getValue());
+                if (not is_equal(band->start, Globals::UNAVAILABLE_DOUBLE) and band->start > lowFreq) {
+                    lowFreq = band->start;
+                }
+                if (not is_equal(band->end, Globals::UNAVAILABLE_DOUBLE) and band->end < highFreq) {
+                    highFreq = band->end;
+                }
+            }
             comm_file_ofs << modalResuName << "=EXTR_MODE(FILTRE_MODE=_F(MODE=U" << modalResuName << ", FREQ_MIN=" << lowFreq << ", FREQ_MAX=" << highFreq << "),)" << endl;
             comm_file_ofs << "I" << modalResuName << "=RECU_TABLE(CO=" << modalResuName << ",NOM_PARA = ('FREQ','MASS_GENE','RIGI_GENE','AMOR_GENE','FACT_PARTICI_DX','FACT_PARTICI_DY','FACT_PARTICI_DZ','MASS_EFFE_DX','MASS_EFFE_DY','MASS_EFFE_DZ','MASS_EFFE_UN_DX','MASS_EFFE_UN_DY','MASS_EFFE_UN_DZ',))" << endl;
             comm_file_ofs << "IMPR_TABLE(TABLE=I" << modalResuName << ")" << endl << endl;
-- 
2.43.0


From 5d70e79fa14a6d221a92bf00d6224e01d5ff0c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:04 +0000
Subject: [PATCH 091/114] fix: frequencies of FREQ3 and FREQ4 were used under
 another name than they were given

---
 Aster/AsterWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 0f3097c..2c99e41 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2982,10 +2982,10 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
         }
         if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::SPREAD) {
             comm_file_ofs << "                   LIST_FREQ  = LSPR" << setfill('0') << setw(4)
-            << frequencyExcit->getValue()->getId() << "," << endl;
+            << frequencyExcit->getId() << "," << endl;
         } else if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::INTERPOLATE) {
             comm_file_ofs << "                   LIST_FREQ  = LSIP" << setfill('0') << setw(4)
-            << frequencyExcit->getValue()->getId() << "," << endl;
+            << frequencyExcit->getId() << "," << endl;
         } else {
             comm_file_ofs << "                   LIST_FREQ  = LST" << setfill('0') << setw(5)
             << frequencyExcit->getValue()->getId() << "," << endl;
-- 
2.43.0


From 9e3ea18b1447cf6b976c8c34f657f1699b9ad750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:04 +0000
Subject: [PATCH 092/114] fix: static loads of a dynamic excitation were not
 found when their cards come after it

---
 Abstract/Loading.cpp      | 7 ++++++-
 Nastran/NastranParser.cpp | 6 +++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 306bcbc..9091395 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -822,7 +822,12 @@ shared_ptr<FunctionTable> DynamicExcitation::getFunctionTableP() const {
 
 
 shared_ptr<LoadSet> DynamicExcitation::getLoadSet() const {
-    return model.find(loadSet);
+    const auto& excitation = model.find(loadSet);
+    if (excitation == nullptr and loadSet.type == LoadSet::Type::EXCITEID) {
+        // static loads which were defined after the excitation
+        return model.find(Reference<LoadSet>{LoadSet::Type::LOAD, loadSet.original_id});
+    }
+    return excitation;
 }
 
 shared_ptr<FunctionPlaceHolder> DynamicExcitation::getFunctionTableBPlaceHolder() const {
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index ac64f91..492d681 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3316,8 +3316,8 @@ void NastranParser::parseRLOAD1(NastranTokenizer& tok, Model& model) {
     Reference<NamedValue> functionTableC_ref(Value::Type::FUNCTION_TABLE, functionTableC_original_id);
     Reference<NamedValue> functionTableD_ref(Value::Type::FUNCTION_TABLE, functionTableD_original_id);
 
-    // If needed, creates a LoadSet EXCITEID for the DynamicExcitation
-    shared_ptr<LoadSet> darea = model.getOrCreateLoadSet(darea_set_id, LoadSet::Type::EXCITEID);
+    // EXCITEID may reference DAREA or static load set entries, which could be defined later
+    const Reference<LoadSet> excitRef{LoadSet::Type::EXCITEID, darea_set_id};
 
     // if loadSet DLOAD does not exist (was not declared in the bulk), loadset_id become the original id of DynamicExcitation
     // else DynamicExcitation is created without original_id and is mapped to this loadSet
@@ -3329,7 +3329,7 @@ void NastranParser::parseRLOAD1(NastranTokenizer& tok, Model& model) {
         original_id = loadset_id;
 
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::DLOAD);
-    const auto& dynamicExcitation = make_shared<DynamicExcitation>(model, loadSet, dynaDelay_ref, dynaPhase_ref, functionTableC_ref, functionTableD_ref, darea->getReference(),
+    const auto& dynamicExcitation = make_shared<DynamicExcitation>(model, loadSet, dynaDelay_ref, dynaPhase_ref, functionTableC_ref, functionTableD_ref, excitRef,
             excitType, original_id);
     dynamicExcitation->setInputContext(tok.getInputContext());
     model.add(dynamicExcitation);
-- 
2.43.0


From bf6337441ef5733793adab9e531a23a2e6984852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:04 +0000
Subject: [PATCH 093/114] fix: analysis naming an eigenvalue or a frequency
 card which is not there ended the translation

---
 Abstract/Analysis.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index 6dd8896..d312c22 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -628,7 +628,13 @@ LinearModal::LinearModal(Model& model, const Reference<ObjectiveSet>& frequencyS
 
 shared_ptr<FrequencySearch> LinearModal::getFrequencySearch() const noexcept {
     const auto& objectiveSet = model.find(frequencySearchRef);
+    if (objectiveSet == nullptr) {
+        return nullptr;
+    }
     const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_SEARCH);
+    if (objectives.empty()) {
+        return nullptr;
+    }
     return static_pointer_cast<FrequencySearch>(*objectives.begin());
 }
 
@@ -689,7 +695,13 @@ bool LinearDynaModalFreq::hasModalDamping() const {
 
 shared_ptr<FrequencyExcit> LinearDynaModalFreq::getExcitationFrequencies() const {
     const auto& objectiveSet = model.find(frequencyExcitationRef);
+    if (objectiveSet == nullptr) {
+        return nullptr;
+    }
     const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_EXCIT);
+    if (objectives.empty()) {
+        return nullptr;
+    }
     return static_pointer_cast<FrequencyExcit>(*objectives.begin());
 }
 
@@ -739,7 +751,13 @@ LinearDynaDirectFreq::LinearDynaDirectFreq(Model& model,
 
 shared_ptr<FrequencyExcit> LinearDynaDirectFreq::getExcitationFrequencies() const {
     const auto& objectiveSet = model.find(frequencyExcitationRef);
+    if (objectiveSet == nullptr) {
+        return nullptr;
+    }
     const auto& objectives = objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_EXCIT);
+    if (objectives.empty()) {
+        return nullptr;
+    }
     return static_pointer_cast<FrequencyExcit>(*objectives.begin());
 }
 
-- 
2.43.0


From e16a34455a7fd8166206439d92a40594f79f8db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:21 +0000
Subject: [PATCH 094/114] fix: excitation without its table ended the
 translation

---
 Abstract/Model.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index ebd302c..93a22ce 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2462,6 +2462,22 @@ bool Model::validate() {
     bool validMat = materials.validate();
     bool validEle = elementSets.validate();
     bool validLoa = loadings.validate();
+    if (not validLoa) {
+        // the sets should not keep the loadings which have just been removed
+        const auto& forgetRemoved = [this](set<Reference<Loading>>& references) {
+            for (auto it = references.begin(); it != references.end();) {
+                it = (this->find(*it) == nullptr) ? references.erase(it) : next(it);
+            }
+        };
+        for (auto& kv : loadingReferences_by_loadSet_ids) {
+            forgetRemoved(kv.second);
+        }
+        for (auto& kv : loadingReferences_by_loadSet_original_ids_by_loadSet_type) {
+            for (auto& kv2 : kv.second) {
+                forgetRemoved(kv2.second);
+            }
+        }
+    }
     bool validLos = loadSets.validate();
     bool validCon = constraints.validate();
     bool validCos = constraintSets.validate();
-- 
2.43.0


From 253485b8d42a367d0e2bdee3f9b191f86b08bb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:31 +0000
Subject: [PATCH 095/114] fix: only the first of the FREQ and FREQ1 cards of a
 set was kept and frequencies were not sorted

---
 Nastran/NastranParser.cpp | 31 +++++++++++++++++++++++++++++++
 Nastran/NastranParser.h   |  5 +++++
 2 files changed, 36 insertions(+)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 492d681..8fe124a 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1729,6 +1729,28 @@ void NastranParser::parseFREQ(NastranTokenizer& tok, Model& model) {
     int sid = tok.nextInt();
     const auto& objectiveSet = model.getOrCreateObjectiveSet(sid, ObjectiveSet::Type::FREQ);
     list<double> frequencies = tok.nextDoubles();
+    addFrequencies(tok, model, objectiveSet, frequencies);
+}
+
+void NastranParser::addFrequencies(NastranTokenizer& tok, Model& model, const shared_ptr<ObjectiveSet>& objectiveSet, list<double>& frequencies) {
+    // All the FREQ and FREQ1 of a set are used
+    for (const auto& objective : objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_EXCIT)) {
+        const auto& other = static_pointer_cast<FrequencyExcit>(objective);
+        if (other->frequencyType == FrequencyExcit::FrequencyType::LIST) {
+            const auto& otherList = static_pointer_cast<ListValue<double>>(other->getValue())->getList();
+            frequencies.insert(frequencies.end(), otherList.begin(), otherList.end());
+        } else if (other->frequencyType == FrequencyExcit::FrequencyType::STEP) {
+            const auto& otherStep = static_pointer_cast<StepRange>(other->getValue());
+            for (int i = 0; i <= otherStep->count; i++) {
+                frequencies.push_back(otherStep->start + i * otherStep->step);
+            }
+        } else {
+            continue;
+        }
+        model.remove(other->getReference());
+    }
+    frequencies.sort();
+    frequencies.unique([](double a, double b) {return is_equal(a, b);});
 
     const auto& frequencyValue = make_shared<ListValue<double>>(model, frequencies);
     frequencyValue->setInputContext(tok.getInputContext());
@@ -1745,6 +1767,15 @@ void NastranParser::parseFREQ1(NastranTokenizer& tok, Model& model) {
     double step = tok.nextDouble();
     int count = tok.nextInt(true, 1);
 
+    if (not objectiveSet->getObjectivesByType(Objective::Type::FREQUENCY_EXCIT).empty()) {
+        list<double> frequencies;
+        for (int i = 0; i <= count; i++) {
+            frequencies.push_back(start + i * step);
+        }
+        addFrequencies(tok, model, objectiveSet, frequencies);
+        return;
+    }
+
     const auto& stepRange = make_shared<StepRange>(model, start, step, count);
     //stepRange.setParaX(Function::ParaName::FREQ);
     const auto& frequencyExcit = make_shared<FrequencyExcit>(model, objectiveSet, FrequencyExcit::FrequencyType::STEP, *stepRange, FrequencyExcit::NormType::MASS);
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 0b41123..145a343 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -463,6 +463,11 @@ private:
      */
     void parseFREQ(NastranTokenizer& tok, Model& model);
 
+    /**
+     * Add frequencies to those that the objective set already has (FREQ and FREQ1).
+     */
+    void addFrequencies(NastranTokenizer& tok, Model& model, const std::shared_ptr<ObjectiveSet>& objectiveSet, std::list<double>& frequencies);
+
     /**
      * Parse the keyword FREQ1 (page 1556 of MDN Nastran 2006 Quick Reference Guide.)
      * Fully supported.
-- 
2.43.0


From db1d1e221861a766b81fa0682e2f04253303c34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:19 +0000
Subject: [PATCH 096/114] fix: Nastran output turned shell elements over
 (normals, pressures and offsets changed sides)

---
 Nastran/NastranWriter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index f5cfb9c..2b2fae0 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -153,11 +153,11 @@ Line& Line::add(const VectorialValue vector) noexcept {
 
 const unordered_map<CellType::Code, vector<int>, EnumClassHash> NastranWriter::med2nastranNodeConnectByCellType =
         {
-                { CellType::Code::TRI3_CODE, { 0, 2, 1 } },
-                { CellType::Code::TRI6_CODE, { 0, 2, 1, 5, 4, 3 } },
-                { CellType::Code::QUAD4_CODE, { 0, 3, 2, 1 } },
-                { CellType::Code::QUAD8_CODE, { 0, 3, 2, 1, 7, 6, 5, 4 } },
-                { CellType::Code::QUAD9_CODE, { 0, 3, 2, 1, 7, 6, 5, 4, 8 } },
+                { CellType::Code::TRI3_CODE, { 0, 1, 2 } },
+                { CellType::Code::TRI6_CODE, { 0, 1, 2, 3, 4, 5 } },
+                { CellType::Code::QUAD4_CODE, { 0, 1, 2, 3 } },
+                { CellType::Code::QUAD8_CODE, { 0, 1, 2, 3, 4, 5, 6, 7 } },
+                { CellType::Code::QUAD9_CODE, { 0, 1, 2, 3, 4, 5, 6, 7, 8 } },
                 { CellType::Code::TETRA4_CODE, { 0, 2, 1, 3 } },
                 { CellType::Code::TETRA10_CODE, { 0, 2, 1, 3, 6, 5, 4, 7, 9, 8 } },
                 { CellType::Code::PYRA5_CODE, { 0, 3, 2, 1, 4 } },
-- 
2.43.0


From 5e64af12061604347536cac25dda68941047171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:19 +0000
Subject: [PATCH 097/114] fix: Nastran output wrote rods without a keyword

---
 Nastran/NastranWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 2b2fae0..7c59f5f 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -253,6 +253,8 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 			string keyword;
 			if (elementSet->isBeam()) {
                 keyword = isCosmic() ? "CBAR" : "CBEAM";
+            } else if (elementSet->isTruss()) {
+                keyword = "CROD";
             } else if (elementSet->isDiscrete() and cell.type.code == CellType::Code::SEG2_CODE) {
                 keyword = "CBUSH";
 			} else if (elementSet->isShell()) {
-- 
2.43.0


From 2a314df60019f413a3254c8bd43c41dfc1251e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:19 +0000
Subject: [PATCH 098/114] fix: Nastran output blocked the components that a SPC
 card moves

---
 Nastran/NastranWriter.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 7c59f5f..78a0c1e 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -420,9 +420,22 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             const auto& spc = static_pointer_cast<SinglePointConstraint>(constraint);
             for (const auto nodePosition : spc->nodePositions()) {
                 const int nodeId = model.mesh.findNodeId(nodePosition);
-                out
-                        << Line("SPC1").add(constraintSet->bestId()).add(
-                                spc->getDOFSForNode(nodePosition)).add(nodeId);
+                DOFS blocked;
+                map<double, DOFS> dofsByValue;
+                for (const DOF dof : spc->getDOFSForNode(nodePosition)) {
+                    const double value = spc->hasReferences() ? 0 : spc->getDoubleForDOF(dof);
+                    if (is_zero(value)) {
+                        blocked += dof;
+                    } else {
+                        dofsByValue[value] += dof;
+                    }
+                }
+                if (blocked.size() > 0) {
+                    out << Line("SPC1").add(constraintSet->bestId()).add(blocked).add(nodeId);
+                }
+                for (const auto& entry : dofsByValue) {
+                    out << Line("SPC").add(constraintSet->bestId()).add(nodeId).add(entry.second).add(entry.first);
+                }
             }
             spc->markAsWritten();
         }
-- 
2.43.0


From f0b0a5974e9b73480d98235020ee85e940becf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:19 +0000
Subject: [PATCH 099/114] fix: Nastran output wrote MPC cards into a set that
 no subcase selects

---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 78a0c1e..eb3c959 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -509,7 +509,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             const auto& lmpc =
                     static_pointer_cast<LinearMultiplePointConstraint>(constraint);
             Line mpc("MPC");
-            mpc.add(constraintSet->getId());
+            mpc.add(constraintSet->bestId());
             int fieldNum = 2;
 			for (const auto nodePosition : lmpc->nodePositions()) {
 			    DOFCoefs dofcoef = lmpc->getDoFCoefsForNode(nodePosition);
-- 
2.43.0


From 3f0d7132f339e9f275ea13a263bf170a513a4717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:19 +0000
Subject: [PATCH 100/114] fix: Nastran output gave the same identifier to all
 the partial RBE2

---
 Nastran/NastranWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index eb3c959..05835ab 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -471,7 +471,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
                 out << rbar;
             } else {
                 Line rbe2("RBE2");
-                rbe2.add(constraintSet->bestId());
+                rbe2.add(quasiRigid->bestId());
                 const int masterId = model.mesh.findNodeId(quasiRigid->getMaster());
                 rbe2.add(masterId);
                 rbe2.add(quasiRigid->getDOFS());
-- 
2.43.0


From 37245778fce47d93faabb5ab9594a57e1c0f67dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:19 +0000
Subject: [PATCH 101/114] fix: Nastran output wrote an ALL command, that
 Nastran does not know, in the subcases

---
 Nastran/NastranWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 05835ab..05e2321 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -1007,6 +1007,9 @@ string NastranWriter::writeModel(Model& model,
 			out << "  " << typeName << "=" << loadSet->bestId() << endl;
 		}
 		for (const auto& constraintSet : analysis->getConstraintSets()) {
+			if (constraintSet->type == ConstraintSet::Type::ALL) {
+				continue; // rigid elements are not selected by the subcases
+			}
 			string typeName = constraintSet->stringByType.find(constraintSet->type)->second;
 			out << "  " << typeName << "=" << constraintSet->bestId() << endl;
 		}
-- 
2.43.0


From cdeb405dd0710affa73e5da5bbe83901f0f15b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:38 +0000
Subject: [PATCH 102/114] fix: Nastran output lost moments

---
 Nastran/NastranWriter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 05e2321..417295e 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -766,10 +766,14 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
                 force.add(forceVector.x());
                 force.add(forceVector.y());
                 force.add(forceVector.z());
-                if (!nodalForce->getMomentInGlobalCS(nodePosition).iszero()) {
-                    handleWritingError("Unimplemented moment in FORCE");
+                const auto& momentVector = nodalForce->getMomentInGlobalCS(nodePosition);
+                if (momentVector.iszero() or not forceVector.iszero()) {
+                    out << force;
+                }
+                if (not momentVector.iszero()) {
+                    out << Line("MOMENT").add(loadingSet->bestId()).add(model.mesh.findNodeId(nodePosition))
+                            .add(0).add(1.0).add(momentVector);
                 }
-                out << force;
             }
             nodalForce->markAsWritten();
         }
-- 
2.43.0


From 45433e422dcd6935cd190b85cf8b337c218db244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:38 +0000
Subject: [PATCH 103/114] fix: Nastran output lost imposed displacements (SPCD)

---
 Nastran/NastranWriter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 417295e..94a275e 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -778,6 +778,17 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
             nodalForce->markAsWritten();
         }
 
+        for (const auto& loading : loadingSet->getLoadingsByType(Loading::Type::IMPOSED_DISPLACEMENT)) {
+            const auto& imposedDisplacement = static_pointer_cast<ImposedDisplacement>(loading);
+            for (const auto nodePosition : imposedDisplacement->nodePositions()) {
+                for (const DOF dof : imposedDisplacement->getDOFSForNode(nodePosition)) {
+                    out << Line("SPCD").add(loadingSet->bestId()).add(model.mesh.findNodeId(nodePosition))
+                            .add(DOFS(dof)).add(imposedDisplacement->getDoubleForDOF(dof));
+                }
+            }
+            imposedDisplacement->markAsWritten();
+        }
+
         for (const auto& loading : nodalForces) {
             const auto& staticPressure = dynamic_pointer_cast<StaticPressure>(loading);
             if (staticPressure == nullptr)
-- 
2.43.0


From 70c3f14f0b9da74d658e9a02293b735a8770acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:32 +0000
Subject: [PATCH 104/114] fix: Nastran output misplaced the terms of a MPC card
 after the fourth one

---
 Nastran/NastranWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 94a275e..3b3feb9 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -518,6 +518,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
                         if (fieldNum % 8 == 0) {
                             mpc.add();
                             mpc.add();
+                            fieldNum += 2;
                         }
 
                         mpc.add(model.mesh.findNodeId(nodePosition));
-- 
2.43.0


From 5aba048611134816fc4f877bb4ae25aa7af35a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:32 +0000
Subject: [PATCH 105/114] fix: Nastran output lost the permanent constraints of
 GRID cards and partial rigid elements

---
 Nastran/NastranWriter.cpp | 90 ++++++++++++++++++++++++++++-----------
 Nastran/NastranWriter.h   |  3 ++
 2 files changed, 67 insertions(+), 26 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 3b3feb9..0ecd898 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -194,6 +194,30 @@ string NastranWriter::getNasFilename(const Model& model,
 	return modelPath;
 }
 
+vector<int> NastranWriter::setIdsFor(const Model& model, const ConstraintSet& constraintSet,
+        const ConstraintSet::Type type) const {
+    if (constraintSet.type != ConstraintSet::Type::ALL) {
+        return {constraintSet.bestId()};
+    }
+    // what holds for every analysis is repeated in every set that an analysis may select
+    vector<int> setIds;
+    for (const auto& otherSet : model.constraintSets) {
+        if (otherSet->type == type) {
+            setIds.push_back(otherSet->bestId());
+        }
+    }
+    setIds.push_back(permanentSetId(model));
+    return setIds;
+}
+
+int NastranWriter::permanentSetId(const Model& model) const {
+    int lastId = 0;
+    for (const auto& constraintSet : model.constraintSets) {
+        lastId = max(lastId, constraintSet->bestId());
+    }
+    return lastId + 1;
+}
+
 void NastranWriter::writeSOL(const Model& model, ofstream& out) const
     {
 	auto& firstAnalysis = *model.analyses.begin();
@@ -430,11 +454,13 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
                         dofsByValue[value] += dof;
                     }
                 }
-                if (blocked.size() > 0) {
-                    out << Line("SPC1").add(constraintSet->bestId()).add(blocked).add(nodeId);
-                }
-                for (const auto& entry : dofsByValue) {
-                    out << Line("SPC").add(constraintSet->bestId()).add(nodeId).add(entry.second).add(entry.first);
+                for (const int setId : setIdsFor(model, *constraintSet, ConstraintSet::Type::SPC)) {
+                    if (blocked.size() > 0) {
+                        out << Line("SPC1").add(setId).add(blocked).add(nodeId);
+                    }
+                    for (const auto& entry : dofsByValue) {
+                        out << Line("SPC").add(setId).add(nodeId).add(entry.second).add(entry.first);
+                    }
                 }
             }
             spc->markAsWritten();
@@ -508,27 +534,29 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
         for (const auto& constraint : mpcConstraints) {
             const auto& lmpc =
                     static_pointer_cast<LinearMultiplePointConstraint>(constraint);
-            Line mpc("MPC");
-            mpc.add(constraintSet->bestId());
-            int fieldNum = 2;
-			for (const auto nodePosition : lmpc->nodePositions()) {
-			    DOFCoefs dofcoef = lmpc->getDoFCoefsForNode(nodePosition);
-				for (dof_int i = 0; i < 6; i++) {
-					if (!is_zero(dofcoef[i])) {
-                        if (fieldNum % 8 == 0) {
-                            mpc.add();
-                            mpc.add();
-                            fieldNum += 2;
-                        }
-
-                        mpc.add(model.mesh.findNodeId(nodePosition));
-                        mpc.add(i+1);
-                        mpc.add(dofcoef[i]);
-                        fieldNum += 3;
-					}
-				}
-			}
-            out << mpc;
+            for (const int setId : setIdsFor(model, *constraintSet, ConstraintSet::Type::MPC)) {
+                Line mpc("MPC");
+                mpc.add(setId);
+                int fieldNum = 2;
+    			for (const auto nodePosition : lmpc->nodePositions()) {
+    			    DOFCoefs dofcoef = lmpc->getDoFCoefsForNode(nodePosition);
+    				for (dof_int i = 0; i < 6; i++) {
+    					if (!is_zero(dofcoef[i])) {
+                            if (fieldNum % 8 == 0) {
+                                mpc.add();
+                                mpc.add();
+                                fieldNum += 2;
+                            }
+
+                            mpc.add(model.mesh.findNodeId(nodePosition));
+                            mpc.add(i+1);
+                            mpc.add(dofcoef[i]);
+                            fieldNum += 3;
+    					}
+    				}
+    			}
+                out << mpc;
+            }
             lmpc->markAsWritten();
         }
 		constraintSet->markAsWritten();
@@ -1022,13 +1050,23 @@ string NastranWriter::writeModel(Model& model,
 			string typeName = loadSet->stringByType.find(loadSet->type)->second;
 			out << "  " << typeName << "=" << loadSet->bestId() << endl;
 		}
+		bool hasSPC = model.commonConstraintSet->getConstraintsByType(Constraint::Type::SPC).empty();
+		bool hasMPC = model.commonConstraintSet->getConstraintsByType(Constraint::Type::LMPC).empty();
 		for (const auto& constraintSet : analysis->getConstraintSets()) {
 			if (constraintSet->type == ConstraintSet::Type::ALL) {
 				continue; // rigid elements are not selected by the subcases
 			}
+			hasSPC |= constraintSet->type == ConstraintSet::Type::SPC;
+			hasMPC |= constraintSet->type == ConstraintSet::Type::MPC;
 			string typeName = constraintSet->stringByType.find(constraintSet->type)->second;
 			out << "  " << typeName << "=" << constraintSet->bestId() << endl;
 		}
+		if (not hasSPC) {
+			out << "  SPC=" << permanentSetId(model) << endl;
+		}
+		if (not hasMPC) {
+			out << "  MPC=" << permanentSetId(model) << endl;
+		}
 		for (const auto& objective : analysis->getObjectives()) {
             switch (objective->type) {
             case Objective::Type::NODAL_DISPLACEMENT_OUTPUT: {
diff --git a/Nastran/NastranWriter.h b/Nastran/NastranWriter.h
index 30d3cbc..a25ef8f 100644
--- a/Nastran/NastranWriter.h
+++ b/Nastran/NastranWriter.h
@@ -64,6 +64,9 @@ private:
 	bool isCosmic() const {
 	    return dialect == Dialect::COSMIC95;
 	}
+	/** Number of the sets of the constraints that hold for every analysis, for the analyses that select none. */
+	int permanentSetId(const Model& model) const;
+	std::vector<int> setIdsFor(const Model& model, const ConstraintSet& constraintSet, const ConstraintSet::Type type) const;
 	void writeSOL(const Model& model, std::ofstream& out) const;
 	void writeCells(const Model& model, std::ofstream& out) const;
 	void writeNodes(const Model& model, std::ofstream& out) const;
-- 
2.43.0


From 2063b34b6d26a7ae9a337efd464aab93a9ec178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:52 +0000
Subject: [PATCH 106/114] fix: Nastran output lost the coordinate systems of
 grid points and wrote them without their axes

---
 Abstract/CoordinateSystem.cpp |  2 +-
 Abstract/CoordinateSystem.h   |  1 +
 Nastran/NastranWriter.cpp     | 41 +++++++++++++++++++++++++----------
 3 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 5b74022..6a09a22 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -256,7 +256,7 @@ VectorialValue CylindricalCoordinateSystem::getLocalEulerAnglesIntrinsicZYX(cons
 SphericalCoordinateSystem::SphericalCoordinateSystem(const Mesh& mesh,
         const VectorialValue origin, const VectorialValue ex, const VectorialValue ey, const Reference<CoordinateSystem> rcs,
         int original_id) :
-        CoordinateSystem(mesh, CoordinateSystem::Type::ABSOLUTE, CoordinateSystem::CoordinateType::CYLINDRICAL, origin, ex, ey, rcs, original_id) {
+        CoordinateSystem(mesh, CoordinateSystem::Type::ABSOLUTE, CoordinateSystem::CoordinateType::SPHERICAL, origin, ex, ey, rcs, original_id) {
 }
 
 // TODO : LD What's this ? Should this method be renamed moveOrigin ?
diff --git a/Abstract/CoordinateSystem.h b/Abstract/CoordinateSystem.h
index 6105b3f..b10cc78 100644
--- a/Abstract/CoordinateSystem.h
+++ b/Abstract/CoordinateSystem.h
@@ -75,6 +75,7 @@ public:
     inline VectorialValue getEx() const noexcept {return ex;};
     inline VectorialValue getEy() const noexcept {return ey;};
     inline VectorialValue getEz() const noexcept {return ez;};
+    inline const Reference<CoordinateSystem>& getReference() const noexcept {return rcs;};
 
     protected:
     CoordinateSystem(const Mesh&, Type, CoordinateType, const VectorialValue origin, const VectorialValue ex,
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 0ecd898..c620a2c 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -395,11 +395,18 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 void NastranWriter::writeNodes(const Model& model, ofstream& out) const
 		{
 	for (Node node : model.mesh.nodes) {
-	    if (node.positionCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
-	        cerr << "Warning in GRID "<<node.id<<" CP not supported and dismissed."<<endl;
-        if (node.displacementCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
-            cerr << "Warning in GRID "<<node.id<<" CD not supported and dismissed."<<endl;
-		out << Line("GRID").add(node.id).add().add(node.lx).add(node.ly).add(node.lz);
+		Line grid("GRID");
+		grid.add(node.id);
+		if (node.positionCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+			grid.add(model.mesh.getCoordinateSystemByPosition(node.positionCS)->bestId());
+		} else {
+			grid.add();
+		}
+		grid.add(node.lx).add(node.ly).add(node.lz);
+		if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+			grid.add(model.mesh.getCoordinateSystemByPosition(node.displacementCS)->bestId());
+		}
+		out << grid;
 	}
 }
 
@@ -658,7 +665,7 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
                 }
                 if (forceSurface->hasCoordinateSystem()) {
                     shared_ptr<CoordinateSystem> coordinateSystem = model.mesh.findCoordinateSystem(forceSurface->csref);
-                    pload4.add(coordinateSystem->bestId());
+                    pload4.add(CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
                     pload4.add(coordinateSystem->vectorToGlobal(forceSurface->getForce().normalized()));
                 } else {
                     pload4.add(0);
@@ -1111,22 +1118,32 @@ string NastranWriter::writeModel(Model& model,
         if (coordinateSystem->type != CoordinateSystem::Type::ABSOLUTE) {
             continue;
         }
+		string keyword;
 		switch (coordinateSystem->coordType) {
 			case CoordinateSystem::CoordinateType::CARTESIAN:
-				// TODO LD complete
-				out << Line("CORD2R").add(coordinateSystem->bestId()).add(coordinateSystem->getOrigin());
+				keyword = "CORD2R";
 				break;
 			case CoordinateSystem::CoordinateType::SPHERICAL:
-				// TODO LD complete
-				out << Line("CORD2S").add(coordinateSystem->bestId()).add(coordinateSystem->getOrigin());
+				keyword = "CORD2S";
 				break;
 			case CoordinateSystem::CoordinateType::CYLINDRICAL:
-				// TODO LD complete
-				out << Line("CORD2C").add(coordinateSystem->bestId()).add(coordinateSystem->getOrigin());
+				keyword = "CORD2C";
 				break;
 			default:
 				handleWritingError("Unimplemented coordinate system type");
 		}
+		Line cord2(keyword);
+		cord2.add(coordinateSystem->bestId());
+		if (coordinateSystem->getReference() != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
+			cord2.add(model.mesh.findCoordinateSystem(coordinateSystem->getReference())->bestId());
+		} else {
+			cord2.add(CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
+		}
+		const auto& origin = coordinateSystem->getOrigin();
+		cord2.add(origin); // origin, point on the Z axis, point of the XZ plane
+		cord2.add(origin + coordinateSystem->getEz());
+		cord2.add(origin + coordinateSystem->getEx());
+		out << cord2;
 	}
 	writeRuler(out);
 	writeNodes(model, out);
-- 
2.43.0


From 7a58a9751e077d3a0e5224833f183000cc46e3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:52 +0000
Subject: [PATCH 107/114] fix: Nastran output wrote the torsional constant of
 PBAR cards as their non structural mass

---
 Nastran/NastranWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index c620a2c..95358be 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -872,7 +872,9 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		pbeam.add(beam->getAreaCrossSection());
 		pbeam.add(beam->getMomentOfInertiaZ());
 		pbeam.add(beam->getMomentOfInertiaY());
-		pbeam.add(0.0);
+		if (not isCosmic()) {
+			pbeam.add(0.0); // I12, that PBAR does not have before J
+		}
 		pbeam.add(beam->getTorsionalConstant());
 		out << pbeam;
 		beam->markAsWritten();
-- 
2.43.0


From 2d8a98708b2e1c5f6b9e65e35d8349445278c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:52 +0000
Subject: [PATCH 108/114] fix: Nastran output wrote the offset of CQUAD8 cards
 as a corner thickness

---
 Nastran/NastranWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 95358be..2825b44 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -384,6 +384,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                     F = "1";
                 cellLine.add(x1x2x3).add(F);
             } else if (elementSet->isShell()) {
+                if (cell.type.code == CellType::Code::QUAD8_CODE) {
+                    cellLine.skip(4); // thickness at the corners
+                }
                 cellLine.add(); // theta (real) or matid (int)
                 cellLine.add(cell.offset);
             }
-- 
2.43.0


From 8221c1b2b85ae61696b1f317dcdd8df373ea7174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:52 +0000
Subject: [PATCH 109/114] fix: Nastran output numbered the property of a CONROD
 as another property of the deck

---
 Nastran/NastranWriter.cpp | 26 ++++++++++++++++++++------
 Nastran/NastranWriter.h   |  1 +
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 2825b44..be92949 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -218,6 +218,20 @@ int NastranWriter::permanentSetId(const Model& model) const {
     return lastId + 1;
 }
 
+int NastranWriter::propertyId(const Model& model, const ElementSet& elementSet) const {
+    if (elementSet.isOriginal()) {
+        return elementSet.bestId();
+    }
+    // property made by vega (CONROD): its number must not be the one of a property of the input
+    int lastId = 0;
+    for (const auto& otherSet : model.elementSets) {
+        if (otherSet->isOriginal()) {
+            lastId = max(lastId, otherSet->bestId());
+        }
+    }
+    return lastId + elementSet.getId();
+}
+
 void NastranWriter::writeSOL(const Model& model, ofstream& out) const
     {
 	auto& firstAnalysis = *model.analyses.begin();
@@ -372,7 +386,7 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
             if (isCosmic() && (cell.type.code == CellType::Code::TETRA4_CODE || cell.type.code == CellType::Code::TETRA10_CODE)) {
                 cellLine.add(cell.id).add(elementSet->mainMaterial()->bestId()).add(nasConnect);
             } else {
-                cellLine.add(cell.id).add(elementSet->bestId()).add(nasConnect);
+                cellLine.add(cell.id).add(propertyId(model, *elementSet)).add(nasConnect);
             }
 
             if (elementSet->isBeam() and cell.hasOrientation) {
@@ -860,7 +874,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		{
 	for (const auto& truss : model.getTrusses()) {
 		Line prod("PROD");
-		prod.add(truss->bestId());
+		prod.add(propertyId(model, *truss));
 		prod.add(truss->mainMaterial()->bestId());
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
@@ -870,7 +884,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	for (const auto& beam : model.getBeams()) {
 	    string beamModel = isCosmic() ? "PBAR" : "PBEAM";
 		Line pbeam(beamModel);
-		pbeam.add(beam->bestId());
+		pbeam.add(propertyId(model, *beam));
 		pbeam.add(beam->mainMaterial()->bestId());
 		pbeam.add(beam->getAreaCrossSection());
 		pbeam.add(beam->getMomentOfInertiaZ());
@@ -885,7 +899,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	for (const auto& elementSet : model.elementSets.filter(ElementSet::Type::SHELL)) {
 		const auto& shell = static_pointer_cast<Shell>(elementSet);
 		Line pshell("PSHELL");
-		pshell.add(shell->bestId());
+		pshell.add(propertyId(model, *shell));
 		pshell.add(shell->mainMaterial()->bestId());
 		pshell.add(shell->thickness);
 		pshell.add(shell->mainMaterial()->bestId()); // MID2 for bending
@@ -895,7 +909,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 	for (const auto& continuum : model.elementSets.filter(ElementSet::Type::CONTINUUM)) {
 	    string keyword = isCosmic() ? "PIHEX" : "PSOLID";
 		Line psolid(keyword);
-		psolid.add(continuum->bestId());
+		psolid.add(propertyId(model, *continuum));
 		psolid.add(continuum->mainMaterial()->bestId());
 		if (continuum->modelType == ModelType::TRIDIMENSIONAL and not isCosmic()) {
             psolid.add(0);
@@ -946,7 +960,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             handleWritingError("discrete not completely written");
         }
         Line pbush("PBUSH");
-        pbush.add(segment->bestId());
+        pbush.add(propertyId(model, *segment));
         pbush.add(0); // CID
         pbush.add("K");
         for (const DOF dof: DOFS::ALL_DOFS) {
diff --git a/Nastran/NastranWriter.h b/Nastran/NastranWriter.h
index a25ef8f..6ad30a4 100644
--- a/Nastran/NastranWriter.h
+++ b/Nastran/NastranWriter.h
@@ -66,6 +66,7 @@ private:
 	}
 	/** Number of the sets of the constraints that hold for every analysis, for the analyses that select none. */
 	int permanentSetId(const Model& model) const;
+	int propertyId(const Model& model, const ElementSet& elementSet) const;
 	std::vector<int> setIdsFor(const Model& model, const ConstraintSet& constraintSet, const ConstraintSet::Type type) const;
 	void writeSOL(const Model& model, std::ofstream& out) const;
 	void writeCells(const Model& model, std::ofstream& out) const;
-- 
2.43.0


From 05f7c7e0c31f9b3063e3e5d05a94c636d0c05afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:57 +0000
Subject: [PATCH 110/114] fix: Systus pyramids announce the eight nodes that
 they list

A pyramid is written as a hexahedron whose upper face is one node, but its
type code announced five nodes before the eight that follow.
---
 Systus/SystusWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 5cb70f4..7a0cd5b 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -2860,7 +2860,7 @@ void SystusWriter::writeElements(const SystusModel& systusModel, const int idSub
             }
 
             out << cell.id << " " << dim << typecell;              // Dimension and type of cell;
-            out << setfill('0') << setw(2) << cell.nodeIds.size(); // Number of nodes in two caracters: 01, 02, 05, 10, etc.
+            out << setfill('0') << setw(2) << systusConnect.size(); // Number of nodes in two caracters: 01, 02, 08, 10, etc.
 
             if (cell.nodeIds.size()>20){
                 cerr<< "Warning in Elements: " << cell << " has " << cell.nodeIds.size() << " but SYSTUS only support up to 20 nodes by element."<<endl;
-- 
2.43.0


From 227f2ffbb5f4114a6ea5ec142272dd545f7066d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:33 +0000
Subject: [PATCH 111/114] fix: angles of a coordinate system defined in another
 one

The axes of a nested system are given in its reference system: its angles
applied the rotation of the system itself a second time, and those of a
cylindrical system left the reference system out.
---
 Abstract/CoordinateSystem.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 6a09a22..877f5e4 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -67,9 +67,10 @@ VectorialValue CoordinateSystem::getEulerAnglesIntrinsicZYX(const CoordinateSyst
         EY= this->ey;
         EZ= this->ez;
     }else{
-        EX= vectorToGlobal(this->ex);
-        EY= vectorToGlobal(this->ey);
-        EZ= vectorToGlobal(this->ez);
+        const auto& reference = mesh.findCoordinateSystem(rcs);
+        EX= reference->vectorToGlobal(this->ex);
+        EY= reference->vectorToGlobal(this->ey);
+        EZ= reference->vectorToGlobal(this->ez);
     }
     if (cs != nullptr){
         EX = cs->vectorToLocal(EX);
@@ -249,7 +250,7 @@ unique_ptr<CoordinateSystem> CylindricalCoordinateSystem::clone() const {
 }
 
 VectorialValue CylindricalCoordinateSystem::getLocalEulerAnglesIntrinsicZYX(const CoordinateSystem *cs) const {
-    CartesianCoordinateSystem localCS(this->mesh, VectorialValue(0,0,0), this->ur, this->utheta);
+    CartesianCoordinateSystem localCS(this->mesh, VectorialValue(0,0,0), this->ur, this->utheta, this->rcs);
     return localCS.getEulerAnglesIntrinsicZYX(cs);
 }
 
-- 
2.43.0


From e6574c3616425e8670f7666c2321ae7d606ead39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:32 +0000
Subject: [PATCH 112/114] fix: RBAR1 without master ended the translation, a
 blank CB tied nothing

---
 Nastran/NastranParser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 8fe124a..319d163 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3187,10 +3187,11 @@ void NastranParser::parseRBAR1(NastranTokenizer& tok, Model& model) {
     int original_id=tok.nextInt();
     int ga = tok.nextInt();
     int gb = tok.nextInt();
-    int cna = tok.nextInt(true, 0);
+    // The components of GB listed here depend on GA, whose six components are independent.
+    int cb = tok.nextInt(true, 123456);
 
-    const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cna), MasterSlaveConstraint::UNAVAILABLE_MASTER, original_id);
-    qrc->addSlave(ga);
+    const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cb), ga, original_id);
+    qrc->addRotations = true;
     qrc->addSlave(gb);
     qrc->setInputContext(tok.getInputContext());
     model.add(qrc);
-- 
2.43.0


From 7c2d96c2d4d8fbbf07586efe8ae0e1d11c285f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:00 +0000
Subject: [PATCH 113/114] fix: SUBSEQ skipped every other coefficient and
 counted from the first subcase; blanks in it or its absence ended the run

---
 Nastran/NastranParser.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 319d163..e2181f2 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -999,13 +999,27 @@ void NastranParser::addCombinationAnalysis(NastranTokenizer& tok, Model& model,
 
     // A SUBSEQ command must follow this command.
     const auto& subseq = context.find("SUBSEQ");
-    vector<string> coefStrings(model.analyses.size());
-    boost::split(coefStrings,subseq->second,boost::is_any_of(","));
+    if (subseq == context.end()) {
+        handleParsingError("SUBCOM without SUBSEQ", tok, model);
+        return;
+    }
+    vector<string> coefStrings;
+    const string& coefLine = trim_copy_if(subseq->second, boost::is_any_of(", _="));
+    boost::split(coefStrings, coefLine, boost::is_any_of(", _"), boost::token_compress_on);
+    // The coefficients are those of the subcases that come just before, the last one for the most recent.
+    vector<shared_ptr<Analysis>> subcases;
+    for (const auto& analysis : model.analyses) {
+        if (analysis->type != Analysis::Type::COMBINATION) {
+            subcases.push_back(analysis);
+        }
+    }
+    if (coefStrings.size() > subcases.size()) {
+        handleParsingError("SUBSEQ has more coefficients than there are subcases before it", tok, model);
+        return;
+    }
     for (size_t i = 0; i < coefStrings.size(); i++) {
-        auto it = model.analyses.begin();
-        advance(it, i);
-        const auto& analysis = *it;
-        double coef = stod(coefStrings[i++]);
+        const auto& analysis = subcases[subcases.size() - coefStrings.size() + i];
+        double coef = stod(coefStrings[i]);
         if (model.configuration.logLevel >= LogLevel::TRACE) {
             cout << "Assigning analysis " << *analysis << " to combination " << *combination << " with coefficient " << to_string(coef) << endl;
         }
-- 
2.43.0


From 0d76c919877027a8d431bd68e6d2701717064836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:38 +0000
Subject: [PATCH 114/114] fix: Nastran output turned a SUBCOM into a subcase of
 its own

---
 Nastran/NastranWriter.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index be92949..2f0e4a9 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -17,6 +17,7 @@
 #include <memory>
 #include <string>
 #include <fstream>
+#include <sstream>
 #include <limits>
 #include <ciso646>
 #include <boost/algorithm/string/predicate.hpp>
@@ -1070,7 +1071,27 @@ string NastranWriter::writeModel(Model& model,
         out << endl;
         objective->markAsWritten();
     }
+	vector<Reference<Analysis>> previousSubcases;
 	for (const auto& analysis : model.analyses) {
+		if (analysis->type == Analysis::Type::COMBINATION) {
+			// The last coefficient is for the most recent subcase.
+			const auto& combination = static_pointer_cast<Combination>(analysis);
+			string subseq;
+			for (const auto& subcase : previousSubcases) {
+				const auto& coefEntry = combination->coefByAnalysis.find(subcase);
+				if (coefEntry == combination->coefByAnalysis.end() and subseq.empty()) {
+					continue;
+				}
+				ostringstream coef;
+				coef << (coefEntry == combination->coefByAnalysis.end() ? 0.0 : coefEntry->second);
+				subseq += (subseq.empty() ? "" : ",") + coef.str();
+			}
+			out << "SUBCOM " << analysis->bestId() << endl;
+			out << "  SUBSEQ=" << subseq << endl;
+			analysis->markAsWritten();
+			continue;
+		}
+		previousSubcases.push_back(analysis->getReference());
 		out << "SUBCASE " << analysis->bestId() << endl;
 		for (const auto& loadSet : analysis->getLoadSets()) {
 			string typeName = loadSet->stringByType.find(loadSet->type)->second;
-- 
2.43.0

