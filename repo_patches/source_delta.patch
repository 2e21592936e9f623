From 15ca30cdab485fa9ef4bb8520ea32d2df1cb1ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 01/45] fix: reject frame with duplicate layer names

---
 lib/src/parse/ParseFrameImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/parse/ParseFrameImpl.cpp b/lib/src/parse/ParseFrameImpl.cpp
index 26e4e86..dc9c540 100644
--- a/lib/src/parse/ParseFrameImpl.cpp
+++ b/lib/src/parse/ParseFrameImpl.cpp
@@ -303,6 +303,7 @@ bool ParseFrameImpl::parseUpdateLayers()
             parseLogError() << ParseXmlWrap::parseLogPrefix(lNode) <<
                 "Layer with name \"" << layer->parseName() << "\" has already been "
                 "defined within the same frame.";
+            return false;
         }
 
         if (layer->parseKind() == ParseLayerImpl::ParseKind::Payload) {
-- 
2.43.0


From fc684ca3f1c6043aefce23d5fdfe5e1cff2a3e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 02/45] fix: reject property elements having both value
 attribute and text

---
 lib/src/parse/ParseXmlWrap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseXmlWrap.cpp b/lib/src/parse/ParseXmlWrap.cpp
index abc904e..0ea1607 100644
--- a/lib/src/parse/ParseXmlWrap.cpp
+++ b/lib/src/parse/ParseXmlWrap.cpp
@@ -185,7 +185,7 @@ bool ParseXmlWrap::parseChildrenAsProps(
         }
 
         std::string value;
-        if ((!parseNodeValue(c, logger, value, mustHaveValue)) && (mustHaveValue)) {
+        if (!parseNodeValue(c, logger, value, mustHaveValue)) {
             return false;
         }
 
-- 
2.43.0


From 4eae2901f13ea4c54559604acc2a64f5d92de3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 03/45] fix: report invalid platform name as error, it rejects
 the schema

---
 lib/src/parse/ParseProtocolImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 05259e6..a4605ef 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -712,7 +712,7 @@ bool ParseProtocolImpl::parseValidateSinglePlatform(::xmlNodePtr node)
     static const std::string InvalidChars("+-,");
     auto pos = name.find_first_of(InvalidChars);
     if (pos != std::string::npos) {
-        parseLogWarning() << ParseXmlWrap::parseLogPrefix(node) <<
+        parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
             "Invalid platform name (" << name << ".";
         return false;
     }
-- 
2.43.0


From 58c0ea6b849a62959b2953a8f2dc3e7fd4852b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 04/45] fix: report failure to parse schema file via the error
 callback

---
 lib/src/parse/ParseProtocolImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index a4605ef..216bf10 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -69,7 +69,7 @@ bool ParseProtocolImpl::parse(const std::string& input)
 
     ParseXmlDocPtr doc(xmlParseFile(input.c_str()));
     if (!doc) {
-        std::cerr << "ERROR: Failed to parse" << input << std::endl;
+        parseLogError() << "Failed to parse \"" << input << "\"";
         return false;
     }
 
-- 
2.43.0


From c13f3dca60688913b3ff64c1afe96f91af60b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 05/45] fix: report invalid value in size comparison condition

---
 lib/src/parse/ParseOptCondImpl.cpp | 8 +++++---
 lib/src/parse/ParseOptCondImpl.h   | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseOptCondImpl.cpp b/lib/src/parse/ParseOptCondImpl.cpp
index 88e2d7a..295e4c2 100644
--- a/lib/src/parse/ParseOptCondImpl.cpp
+++ b/lib/src/parse/ParseOptCondImpl.cpp
@@ -443,7 +443,7 @@ bool ParseOptCondExprImpl::parseVerifySiblingComparison(const ParseOptCondImpl::
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        return parseVerifyValidSizeValueComparison(node, protocol);
     }
 
     if (leftInfo.m_refType != ParseFieldImpl::FieldRefType_Field) {
@@ -523,7 +523,7 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        return parseVerifyValidSizeValueComparison(node, protocol);
     }
 
     parseDiscardNonFieldReferences(leftFields);
@@ -619,7 +619,7 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
     return true;
 }
 
-bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison() const
+bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison(::xmlNodePtr node, const ParseProtocolImpl& protocol) const
 {
     try {
         [[maybe_unused]] auto val = std::stoll(m_right);
@@ -628,6 +628,8 @@ bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison() const
         // Do nothing
     }
 
+    parseLogError(protocol.parseLogger()) << ParseXmlWrap::parseLogPrefix(node) <<
+        "The size of \"" << m_left << "\" cannot be compared to value \"" << m_right << "\".";
     return false;
 }
 
diff --git a/lib/src/parse/ParseOptCondImpl.h b/lib/src/parse/ParseOptCondImpl.h
index d9bc64c..1c11d26 100644
--- a/lib/src/parse/ParseOptCondImpl.h
+++ b/lib/src/parse/ParseOptCondImpl.h
@@ -129,7 +129,7 @@ private:
     bool parseVerifyComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
     bool parseVerifySiblingComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
     bool parseVerifyInterfaceComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
-    bool parseVerifyValidSizeValueComparison() const;
+    bool parseVerifyValidSizeValueComparison(::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
 
     std::string m_left;
     std::string m_op;
-- 
2.43.0


From f885fe0c3f1bc690fc16a5e7a5dde9defb71f205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 06/45] fix: propagate failure to write default options files

---
 app/commsdsl2comms/src/CommsDefaultOptions.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDefaultOptions.cpp b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
index 06f411c..a713a34 100644
--- a/app/commsdsl2comms/src/CommsDefaultOptions.cpp
+++ b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
@@ -242,8 +242,7 @@ bool CommsDefaultOptions::commsWriteDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
-    return true;
+    return commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
@@ -263,8 +262,7 @@ bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
@@ -284,8 +282,7 @@ bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
@@ -305,8 +302,7 @@ bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
@@ -334,8 +330,7 @@ bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteMsgFactoryDefaultOptionsInternal() const
@@ -518,8 +513,7 @@ bool CommsDefaultOptions::commsWriteSingleMsgFactoryDefaultOptionsInternal(
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
 }
 
 } // namespace commsdsl2comms
\ No newline at end of file
-- 
2.43.0


From ab24d93e0b71a01585a84ba89f3f9d44436b8629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 07/45] fix: report failure to update namespace of copied
 source file

---
 lib/src/gen/GenGenerator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 9cf55fb..3c198c0 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1704,6 +1704,12 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
             }
 
             outStream << content;
+            outStream.flush();
+            if (!outStream.good()) {
+                genLogger().genError("Failed to modify " + destStr + ".");
+                return false;
+            }
+
             genLogger().genInfo("Updated " + destStr + " to have proper main namespace.");
         }
     }
-- 
2.43.0


From abf90134534fd7dd5026b3c111f8f4c2c09cb0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 08/45] fix: fail when the list of input files cannot be read

---
 lib/src/gen/GenProgramOptions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index 4bd4376..6ba34c7 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -492,7 +492,8 @@ GenProgramOptions::GenStringsList GenProgramOptions::genGetInputFiles() const
 
         std::ifstream stream(fileName);
         if (!stream) {
-            break;
+            std::cerr << "ERROR: Failed to read the list of input files: " << fileName << std::endl;
+            return result;
         }
 
         std::string contents(std::istreambuf_iterator<char>(stream), (std::istreambuf_iterator<char>()));
-- 
2.43.0


From baa05c257affa294ea14ef007a581cd5c3e83245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 09/45] fix: don't dereference result of failed field/message
 lookup

---
 lib/src/gen/GenGenerator.cpp |  8 ++++++++
 lib/src/gen/GenSchema.cpp    | 10 +++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 3c198c0..72a1239 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -875,6 +875,10 @@ GenField* GenGenerator::genFindField(const std::string& externalRef)
 {
     auto* field = m_impl->genFindField(externalRef);
     do {
+        if (field == nullptr) {
+            break;
+        }
+
         if (field->genIsPrepared()) {
             break;
         }
@@ -898,6 +902,10 @@ GenMessage* GenGenerator::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
+        if (msg == nullptr) {
+            break;
+        }
+
         if (msg->genIsPrepared()) {
             break;
         }
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index 2d2dd68..2319664 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -560,7 +560,7 @@ GenSchema::GenFieldsAccessList GenSchema::genGetAllMessageIdFields() const
 const GenField* GenSchema::genFindField(const std::string& externalRef) const
 {
     auto* field = m_impl->genFindField(externalRef);
-    assert(field->genIsPrepared());
+    assert((field == nullptr) || (field->genIsPrepared()));
     return field;
 }
 
@@ -568,6 +568,10 @@ GenField* GenSchema::genFindField(const std::string& externalRef)
 {
     auto* field = m_impl->genFindField(externalRef);
     do {
+        if (field == nullptr) {
+            break;
+        }
+
         if (field->genIsPrepared()) {
             break;
         }
@@ -591,6 +595,10 @@ GenMessage* GenSchema::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
+        if (msg == nullptr) {
+            break;
+        }
+
         if (msg->genIsPrepared()) {
             break;
         }
-- 
2.43.0


From be0d95da9bfb258671b7276493fb60de8f0f8724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 10/45] fix: handle null strings returned by libxml2

---
 lib/src/parse/ParseXmlWrap.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseXmlWrap.cpp b/lib/src/parse/ParseXmlWrap.cpp
index 0ea1607..29b54a7 100644
--- a/lib/src/parse/ParseXmlWrap.cpp
+++ b/lib/src/parse/ParseXmlWrap.cpp
@@ -40,10 +40,15 @@ ParseXmlWrap::ParsePropsMap ParseXmlWrap::parseNodeProps(::xmlNodePtr node)
     auto* prop = node->properties;
     while (prop != nullptr) {
         ParseStringPtr valuePtr(::xmlNodeListGetString(node->doc, prop->children, 1));
+        std::string value;
+        if (valuePtr) {
+            value = reinterpret_cast<const char*>(valuePtr.get());
+        }
+
         auto iter = map.insert(
             std::make_pair(
                 reinterpret_cast<const char*>(prop->name),
-                reinterpret_cast<const char*>(valuePtr.get())));
+                std::move(value)));
         common::parseRemoveHeadingTrailingWhitespaces(iter->second);
         prop = prop->next;
     }
@@ -114,6 +119,10 @@ std::string ParseXmlWrap::parseGetText(::xmlNodePtr node)
     while (child != nullptr) {
         if (child->type == XML_TEXT_NODE) {
             ParseStringPtr valuePtr(::xmlNodeGetContent(child));
+            if (!valuePtr) {
+                return std::string();
+            }
+
             return std::string(reinterpret_cast<const char*>(valuePtr.get()));
         }
         child = child->next;
-- 
2.43.0


From a5f7ffea96c7c11b70605258ac3aca26febfd13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 11/45] fix: report empty <field> child element instead of
 reading first element of empty list

---
 lib/src/parse/ParseLayerImpl.cpp         | 7 +++++++
 lib/src/parse/ParseOptionalFieldImpl.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/src/parse/ParseLayerImpl.cpp b/lib/src/parse/ParseLayerImpl.cpp
index a15c1e4..dc877cd 100644
--- a/lib/src/parse/ParseLayerImpl.cpp
+++ b/lib/src/parse/ParseLayerImpl.cpp
@@ -567,6 +567,13 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
+            if (fields.empty()) {
+                parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                    "The \"" << common::parseFieldStr() << "\" node "
+                    "is expected to define field as child element";
+                return false;
+            }
+
             fieldNode = fields.front();
             break;
         }
diff --git a/lib/src/parse/ParseOptionalFieldImpl.cpp b/lib/src/parse/ParseOptionalFieldImpl.cpp
index dafbcdc..6659dbc 100644
--- a/lib/src/parse/ParseOptionalFieldImpl.cpp
+++ b/lib/src/parse/ParseOptionalFieldImpl.cpp
@@ -490,6 +490,13 @@ bool ParseOptionalFieldImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
+            if (fields.empty()) {
+                parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                    "The \"" << common::parseFieldStr() << "\" node "
+                    "is expected to define field as child element";
+                return false;
+            }
+
             fieldNode = fields.front();
             break;
         }
-- 
2.43.0


From c6d29e868228b8136f71b4531b27c79d1e47e0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 12/45] fix: don't access first frame when schema doesn't
 define any in generated documentation

---
 app/commsdsl2c/src/CDoxygen.cpp         | 4 ++++
 app/commsdsl2comms/src/CommsDoxygen.cpp | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2c/src/CDoxygen.cpp b/app/commsdsl2c/src/CDoxygen.cpp
index cbe5100..c6f18e3 100644
--- a/app/commsdsl2c/src/CDoxygen.cpp
+++ b/app/commsdsl2c/src/CDoxygen.cpp
@@ -375,6 +375,10 @@ bool CDoxygen::cWriteMainpageInternal() const
 
 std::string CDoxygen::cInputDocInternal() const
 {
+    if (m_frames.empty()) {
+        return std::string();
+    }
+
     util::GenStringsList frameItems;
     for (auto* f : m_frames) {
         static const std::string Templ =
diff --git a/app/commsdsl2comms/src/CommsDoxygen.cpp b/app/commsdsl2comms/src/CommsDoxygen.cpp
index cbfd133..b8f9f9a 100644
--- a/app/commsdsl2comms/src/CommsDoxygen.cpp
+++ b/app/commsdsl2comms/src/CommsDoxygen.cpp
@@ -567,7 +567,9 @@ std::string CommsDoxygen::commsFrameDocInternal() const
         "///";
 
     auto frames = m_commsGenerator.genGetAllFrames();
-    assert(!frames.empty());
+    if (frames.empty()) {
+        return std::string();
+    }
 
     util::GenStringsList list;
     for (auto* f : frames) {
-- 
2.43.0


From 1117ae43e6a69cff930a0cab0527c9cb1da23753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 13/45] fix: report missing frame definition instead of
 accessing first element of empty list

---
 app/commsdsl2test/src/TestCmake.cpp            | 6 +++++-
 app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2test/src/TestCmake.cpp b/app/commsdsl2test/src/TestCmake.cpp
index aad8b21..f858dc7 100644
--- a/app/commsdsl2test/src/TestCmake.cpp
+++ b/app/commsdsl2test/src/TestCmake.cpp
@@ -56,7 +56,11 @@ bool TestCmake::testWriteInternal() const
     auto interfaceScope = commsdsl::gen::comms::genScopeFor(*firstInterface, m_testGenerator);
 
     auto allFrames = m_testGenerator.genGetAllFrames();
-    assert(!allFrames.empty());
+    if (allFrames.empty()) {
+        m_testGenerator.genLogger().genError("No frame is defined in the schema.");
+        return false;
+    }
+
     auto* firstFrame = allFrames.front();
     assert(!firstFrame->genName().empty());
 
diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index 3758be8..e834dd6 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -221,7 +221,11 @@ bool ToolsQtGenerator::genPrepareImpl()
 
         if (info.m_frame.empty()) {
             auto allFrames = genGetAllFrames();
-            assert(!allFrames.empty());
+            if (allFrames.empty()) {
+                genLogger().genError("No frame is defined in the schema.");
+                return false;
+            }
+
             info.m_frame = allFrames.front()->genParseObj().parseExternalRef();
         }
 
-- 
2.43.0


From 22835e17da9fc3bfb37b1f9020532345f5b9aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 14/45] fix: reject numeric values followed by garbage

---
 lib/src/parse/parse_common.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/lib/src/parse/parse_common.cpp b/lib/src/parse/parse_common.cpp
index f473aba..8448cd8 100644
--- a/lib/src/parse/parse_common.cpp
+++ b/lib/src/parse/parse_common.cpp
@@ -35,6 +35,17 @@ namespace common
 namespace
 {
 
+// The number must not be followed by anything but white spaces
+bool parseIsWholeStrConverted(const std::string& str, std::size_t endPos)
+{
+    return str.find_first_not_of(" \t\r\n", endPos) == std::string::npos;
+}
+
+} // namespace
+
+namespace
+{
+
 const std::size_t MaxPossibleLength = std::numeric_limits<std::size_t>::max();
 
 }
@@ -939,9 +950,10 @@ unsigned parseStrToUnsigned(const std::string& str, bool* ok, int base)
 {
     unsigned result = 0U;
     try {
-        result = static_cast<decltype(result)>(std::stoul(str, 0, base));
+        std::size_t endPos = 0U;
+        result = static_cast<decltype(result)>(std::stoul(str, &endPos, base));
         if (ok != nullptr) {
-            *ok = true;
+            *ok = parseIsWholeStrConverted(str, endPos);
         }
 
     } catch (...) {
@@ -956,9 +968,10 @@ std::intmax_t parseStrToIntMax(const std::string& str, bool* ok, int base)
 {
     std::intmax_t result = 0;
     try {
-        result = std::stoll(str, 0, base);
+        std::size_t endPos = 0U;
+        result = std::stoll(str, &endPos, base);
         if (ok != nullptr) {
-            *ok = true;
+            *ok = parseIsWholeStrConverted(str, endPos);
         }
 
     } catch (...) {
@@ -973,9 +986,10 @@ std::uintmax_t parseStrToUintMax(const std::string& str, bool* ok, int base)
 {
     std::uintmax_t result = 0U;
     try {
-        result = std::stoull(str, 0, base);
+        std::size_t endPos = 0U;
+        result = std::stoull(str, &endPos, base);
         if (ok != nullptr) {
-            *ok = true;
+            *ok = parseIsWholeStrConverted(str, endPos);
         }
 
     } catch (...) {
@@ -1012,8 +1026,9 @@ double parseStrToDouble(const std::string& str, bool* ok, bool allowSpecials)
 
     double result = 0.0;
     try {
-        result = std::stod(str, 0);
-        updateOk(true);
+        std::size_t endPos = 0U;
+        result = std::stod(str, &endPos);
+        updateOk(parseIsWholeStrConverted(str, endPos));
 
     } catch (...) {
         updateOk(false);
-- 
2.43.0


From c781317b394d879da97e7fa9c0958c69adb79dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 15/45] fix: reject negative and too big values of unsigned
 numeric properties

---
 lib/src/parse/parse_common.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/parse_common.cpp b/lib/src/parse/parse_common.cpp
index 8448cd8..6b604d5 100644
--- a/lib/src/parse/parse_common.cpp
+++ b/lib/src/parse/parse_common.cpp
@@ -41,6 +41,13 @@ bool parseIsWholeStrConverted(const std::string& str, std::size_t endPos)
     return str.find_first_not_of(" \t\r\n", endPos) == std::string::npos;
 }
 
+// The std::stoul() and std::stoull() accept and negate negative numbers
+bool parseIsNegativeNumStr(const std::string& str)
+{
+    auto pos = str.find_first_not_of(" \t\r\n");
+    return (pos != std::string::npos) && (str[pos] == '-');
+}
+
 } // namespace
 
 namespace
@@ -951,9 +958,13 @@ unsigned parseStrToUnsigned(const std::string& str, bool* ok, int base)
     unsigned result = 0U;
     try {
         std::size_t endPos = 0U;
-        result = static_cast<decltype(result)>(std::stoul(str, &endPos, base));
+        auto value = std::stoul(str, &endPos, base);
+        result = static_cast<decltype(result)>(value);
         if (ok != nullptr) {
-            *ok = parseIsWholeStrConverted(str, endPos);
+            *ok =
+                parseIsWholeStrConverted(str, endPos) &&
+                (!parseIsNegativeNumStr(str)) &&
+                (value <= std::numeric_limits<decltype(result)>::max());
         }
 
     } catch (...) {
@@ -989,7 +1000,7 @@ std::uintmax_t parseStrToUintMax(const std::string& str, bool* ok, int base)
         std::size_t endPos = 0U;
         result = std::stoull(str, &endPos, base);
         if (ok != nullptr) {
-            *ok = parseIsWholeStrConverted(str, endPos);
+            *ok = parseIsWholeStrConverted(str, endPos) && (!parseIsNegativeNumStr(str));
         }
 
     } catch (...) {
-- 
2.43.0


From 1fcbff03248daea332b0cb9042c6447b45a461df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 16/45] fix: reject non-numeric values of version options

---
 lib/include/commsdsl/gen/GenProgramOptions.h |  4 ++--
 lib/include/commsdsl/gen/util.h              |  2 +-
 lib/src/gen/GenGenerator.cpp                 | 18 +++++++++++++--
 lib/src/gen/GenProgramOptions.cpp            | 12 ++++++----
 lib/src/gen/util.cpp                         | 23 +++++++++++++++++---
 5 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/lib/include/commsdsl/gen/GenProgramOptions.h b/lib/include/commsdsl/gen/GenProgramOptions.h
index 4e9e00f..328e7c3 100644
--- a/lib/include/commsdsl/gen/GenProgramOptions.h
+++ b/lib/include/commsdsl/gen/GenProgramOptions.h
@@ -64,9 +64,9 @@ public:
     bool genMultipleSchemasEnabled() const;
     bool genHasNamespaceOverride() const;
     const std::string& genGetNamespace() const;
-    unsigned genGetMinRemoteVersion() const;
+    unsigned genGetMinRemoteVersion(bool* ok = nullptr) const;
     bool genHasForcedSchemaVersion() const;
-    unsigned genGetForcedSchemaVersion() const;
+    unsigned genGetForcedSchemaVersion(bool* ok = nullptr) const;
     bool genCodeInjectComments() const;
     const std::string& genGetCodeVersion() const;
     const std::string& genMessagesListFile() const;
diff --git a/lib/include/commsdsl/gen/util.h b/lib/include/commsdsl/gen/util.h
index a0525ea..7413641 100644
--- a/lib/include/commsdsl/gen/util.h
+++ b/lib/include/commsdsl/gen/util.h
@@ -36,7 +36,7 @@ std::string genStrToName(const std::string& value);
 std::vector<std::string> genStrSplitByAnyChar(const std::string& str, const std::string& splitChars, bool compressed = true);
 std::vector<std::string> genStrSplit(const std::string& str, const std::string& sep, bool compressed = true);
 std::string genStrInsertIndent(const std::string& str);
-unsigned genStrToUnsigned(const std::string& str);
+unsigned genStrToUnsigned(const std::string& str, bool* ok = nullptr);
 bool genStrStartsWith(const std::string& str, const std::string& prefix);
 bool genStrEndsWith(const std::string& str, const std::string& suffix);
 std::string genStrToUpper(const std::string& str);
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 72a1239..2c33336 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1396,13 +1396,27 @@ GenGenerator::OptsProcessResult GenGenerator::genProcessOptions(const GenProgram
     }
 
     if (options.genHasForcedSchemaVersion()) {
-        genForceSchemaVersion(options.genGetForcedSchemaVersion());
+        bool forcedVersionOk = false;
+        auto forcedVersion = options.genGetForcedSchemaVersion(&forcedVersionOk);
+        if (!forcedVersionOk) {
+            logger.genError("Forced schema version is expected to be an unsigned number");
+            return OptsProcessResult_Failure;
+        }
+
+        genForceSchemaVersion(forcedVersion);
+    }
+
+    bool minRemoteVersionOk = false;
+    auto minRemoteVersion = options.genGetMinRemoteVersion(&minRemoteVersionOk);
+    if (!minRemoteVersionOk) {
+        logger.genError("Minimal remote version is expected to be an unsigned number");
+        return OptsProcessResult_Failure;
     }
 
     genSetOutputDir(options.genGetOutputDirectory());
     genSetCodeDir(options.genGetCodeInputDirectory());
     genSetMultipleSchemasEnabled(options.genMultipleSchemasEnabled());
-    genSetMinRemoteVersion(options.genGetMinRemoteVersion());
+    genSetMinRemoteVersion(minRemoteVersion);
     genSetCodeVersion(options.genGetCodeVersion());
     genSetMessagesListFile(options.genMessagesListFile());
     genSetForcedPlatform(options.genForcedPlatform());
diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index 6ba34c7..8069603 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -535,13 +535,17 @@ const std::string& GenProgramOptions::genGetNamespace() const
     return genValue(GenNamespaceStr);
 }
 
-unsigned GenProgramOptions::genGetMinRemoteVersion() const
+unsigned GenProgramOptions::genGetMinRemoteVersion(bool* ok) const
 {
     if (!genIsOptUsed(GenMinRemoteVerStr)) {
+        if (ok != nullptr) {
+            *ok = true;
+        }
+
         return 0U;
     }
 
-    return util::genStrToUnsigned(genValue(GenMinRemoteVerStr));
+    return util::genStrToUnsigned(genValue(GenMinRemoteVerStr), ok);
 }
 
 bool GenProgramOptions::genHasForcedSchemaVersion() const
@@ -549,9 +553,9 @@ bool GenProgramOptions::genHasForcedSchemaVersion() const
     return genIsOptUsed(GenForceVerStr);
 }
 
-unsigned GenProgramOptions::genGetForcedSchemaVersion() const
+unsigned GenProgramOptions::genGetForcedSchemaVersion(bool* ok) const
 {
-    return commsdsl::gen::util::genStrToUnsigned(genValue(GenForceVerStr));
+    return commsdsl::gen::util::genStrToUnsigned(genValue(GenForceVerStr), ok);
 }
 
 bool GenProgramOptions::genCodeInjectComments() const
diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 0ba8e7c..f7055e9 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -272,14 +272,31 @@ std::string genStrInsertIndent(const std::string& str)
     return strings::genIndentStr() + genStrReplace(str, "\n", "\n" + strings::genIndentStr());
 }
 
-unsigned genStrToUnsigned(const std::string& str)
+unsigned genStrToUnsigned(const std::string& str, bool* ok)
 {
+    unsigned result = 0U;
+    bool success = false;
     try {
-        return static_cast<unsigned>(std::stoul(str));
+        std::size_t endPos = 0U;
+        auto value = std::stoul(str, &endPos);
+        success =
+            (endPos == str.size()) &&
+            (str.find('-') == std::string::npos) &&
+            (value <= std::numeric_limits<unsigned>::max());
+
+        if (success) {
+            result = static_cast<unsigned>(value);
+        }
     }
     catch (...) {
-        return 0U;
+        success = false;
+    }
+
+    if (ok != nullptr) {
+        *ok = success;
     }
+
+    return result;
 }
 
 bool genStrStartsWith(const std::string& str, const std::string& prefix)
-- 
2.43.0


From fc210c519dc47d1bfa7ca6475f2a2f62894963b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 17/45] fix: reject size comparison with value followed by
 garbage

---
 lib/src/parse/ParseOptCondImpl.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseOptCondImpl.cpp b/lib/src/parse/ParseOptCondImpl.cpp
index 295e4c2..be23d9c 100644
--- a/lib/src/parse/ParseOptCondImpl.cpp
+++ b/lib/src/parse/ParseOptCondImpl.cpp
@@ -621,11 +621,10 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
 
 bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison(::xmlNodePtr node, const ParseProtocolImpl& protocol) const
 {
-    try {
-        [[maybe_unused]] auto val = std::stoll(m_right);
+    bool ok = false;
+    [[maybe_unused]] auto val = common::parseStrToIntMax(m_right, &ok);
+    if (ok) {
         return true;
-    } catch (...) {
-        // Do nothing
     }
 
     parseLogError(protocol.parseLogger()) << ParseXmlWrap::parseLogPrefix(node) <<
-- 
2.43.0


From cee7c23ff83eca1ec312c9e7119f17747a091645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 18/45] fix: count unknown options as warnings when warnings
 are treated as errors

---
 lib/include/commsdsl/gen/GenProgramOptions.h |  1 +
 lib/src/gen/GenGenerator.cpp                 |  4 ++++
 lib/src/gen/GenProgramOptions.cpp            | 13 ++++++++++++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/include/commsdsl/gen/GenProgramOptions.h b/lib/include/commsdsl/gen/GenProgramOptions.h
index 328e7c3..9c2d1f4 100644
--- a/lib/include/commsdsl/gen/GenProgramOptions.h
+++ b/lib/include/commsdsl/gen/GenProgramOptions.h
@@ -50,6 +50,7 @@ public:
     bool genIsOptUsed(const std::string& optStr) const;
     const std::string& genValue(const std::string& optStr) const;
     const GenStringsList& genArgs() const;
+    const GenStringsList& genUnknownOpts() const;
     const std::string& genApp() const;
     std::string genHelpStr() const;
 
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 2c33336..89e629f 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1391,6 +1391,10 @@ GenGenerator::OptsProcessResult GenGenerator::genProcessOptions(const GenProgram
         logger.genSetWarnAsError();
     }
 
+    for (auto& opt : options.genUnknownOpts()) {
+        logger.genWarning("Unknown option \"" + opt + "\"!");
+    }
+
     if (options.genHasNamespaceOverride()) {
         genSetNamespaceOverride(options.genGetNamespace());
     }
diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index 8069603..a6e5412 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -172,6 +172,11 @@ public:
         return m_args;
     }
 
+    const GenStringsList& genUnknownOpts() const
+    {
+        return m_unknownOpts;
+    }
+
     const std::string& genApp() const
     {
         return m_app;
@@ -293,7 +298,7 @@ private:
 
     void genReportUnknownOption(const std::string& opt)
     {
-        std::cerr << "WARNING: Unknown option \"" << opt << "\"!" << std::endl;
+        m_unknownOpts.push_back(opt);
     }
 
     static const OptInfo* genFindOptInfo(const std::string& optStr, const OptInfosMap& map)
@@ -333,6 +338,7 @@ private:
     OptInfosMap m_shortOpts;
     OptInfosMap m_longOpts;
     GenStringsList m_args;
+    GenStringsList m_unknownOpts;
     std::string m_app;
 };
 
@@ -441,6 +447,11 @@ const GenProgramOptions::GenStringsList& GenProgramOptions::genArgs() const
     return m_impl->genArgs();
 }
 
+const GenProgramOptions::GenStringsList& GenProgramOptions::genUnknownOpts() const
+{
+    return m_impl->genUnknownOpts();
+}
+
 const std::string& GenProgramOptions::genApp() const
 {
     return m_impl->genApp();
-- 
2.43.0


From 536b365733082b99b3ee818af107cd2372be0065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 19/45] fix: test for warnings treated as errors after
 generator specific preparation

---
 lib/src/gen/GenGenerator.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 89e629f..6c5587f 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1067,7 +1067,16 @@ bool GenGenerator::genPrepare(const GenFilesList& files)
         return false;
     }
 
-    return genPrepareImpl();
+    if (!genPrepareImpl()) {
+        return false;
+    }
+
+    if (genLogger().genHadWarning()) {
+        genLogger().genError("Warning treated as error");
+        return false;
+    }
+
+    return true;
 }
 
 bool GenGenerator::genWrite()
-- 
2.43.0


From b25b6a71b2e21d9030ede44d03819ee743d2a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:49 +0000
Subject: [PATCH 20/45] fix: don't copy consumed code injection files to the
 output directory

---
 app/commsdsl2comms/src/CommsGenerator.cpp           | 1 +
 app/commsdsl2emscripten/src/EmscriptenGenerator.cpp | 2 ++
 app/commsdsl2latex/src/LatexGenerator.cpp           | 3 +++
 app/commsdsl2swig/src/SwigGenerator.cpp             | 2 ++
 app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp      | 1 +
 5 files changed, 9 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsGenerator.cpp b/app/commsdsl2comms/src/CommsGenerator.cpp
index b913926..59e8d98 100644
--- a/app/commsdsl2comms/src/CommsGenerator.cpp
+++ b/app/commsdsl2comms/src/CommsGenerator.cpp
@@ -377,6 +377,7 @@ bool CommsGenerator::commsWriteExtraFilesInternal() const
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genConstructFileSuffixStr(),
+        strings::genConstructBodyFileSuffixStr(),
     };
 
     return genCopyExtraSourceFiles(ReservedExt);
diff --git a/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp b/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp
index 842b157..8120f93 100644
--- a/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp
@@ -400,6 +400,8 @@ bool EmscriptenGenerator::emscriptenWriteExtraFilesInternal() const
         strings::genReplaceFileSuffixStr(),
         strings::genExtendFileSuffixStr(),
         strings::genPublicFileSuffixStr(),
+        strings::genProtectedFileSuffixStr(),
+        strings::genPrivateFileSuffixStr(),
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genPrependFileSuffixStr(),
diff --git a/app/commsdsl2latex/src/LatexGenerator.cpp b/app/commsdsl2latex/src/LatexGenerator.cpp
index e7ff875..086d2bb 100644
--- a/app/commsdsl2latex/src/LatexGenerator.cpp
+++ b/app/commsdsl2latex/src/LatexGenerator.cpp
@@ -370,9 +370,11 @@ bool LatexGenerator::latexWriteExtraFilesInternal() const
 {
     const std::vector<std::string> ReservedExt = {
         strings::genReplaceFileSuffixStr(),
+        strings::genPrependFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genPackageFileSuffixStr(),
         strings::genPackageAppendFileSuffixStr(),
+        strings::genDocumentFileSuffixStr(),
         strings::genContentFileSuffixStr(),
         strings::genContentPrependFileSuffixStr(),
         strings::genContentAppendFileSuffixStr(),
@@ -381,6 +383,7 @@ bool LatexGenerator::latexWriteExtraFilesInternal() const
         strings::genMacroFileSuffixStr(),
         strings::genMacroAppendFileSuffixStr(),
         strings::genPdfFileSuffixStr(),
+        strings::genPdfAppendFileSuffixStr(),
         strings::genHtmlFileSuffixStr(),
         strings::genHtmlAppendFileSuffixStr(),
         strings::genHtmlCmdAppendFileSuffixStr(),
diff --git a/app/commsdsl2swig/src/SwigGenerator.cpp b/app/commsdsl2swig/src/SwigGenerator.cpp
index 3de953f..5c93fc1 100644
--- a/app/commsdsl2swig/src/SwigGenerator.cpp
+++ b/app/commsdsl2swig/src/SwigGenerator.cpp
@@ -331,6 +331,8 @@ bool SwigGenerator::swigWriteExtraFilesInternal() const
         strings::genReplaceFileSuffixStr(),
         strings::genExtendFileSuffixStr(),
         strings::genPublicFileSuffixStr(),
+        strings::genProtectedFileSuffixStr(),
+        strings::genPrivateFileSuffixStr(),
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genPrependFileSuffixStr(),
diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index e834dd6..dc3d9aa 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -456,6 +456,7 @@ bool ToolsQtGenerator::toolsWriteExtraFilesInternal() const
         strings::genPublicFileSuffixStr(),
         strings::genProtectedFileSuffixStr(),
         strings::genPrivateFileSuffixStr(),
+        strings::genReadFileSuffixStr(),
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genSourcesFileSuffixStr(),
-- 
2.43.0


From e3c2c0bce13582aa0305c1dab242fdc4b922555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 21/45] fix: use the field type of the version optional field
 in its name() function and specials in the C wrapper

---
 app/commsdsl2c/src/CField.cpp      | 2 +-
 app/commsdsl2c/src/CFloatField.cpp | 8 ++++++++
 app/commsdsl2c/src/CIntField.cpp   | 8 ++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2c/src/CField.cpp b/app/commsdsl2c/src/CField.cpp
index 715d308..d1f715b 100644
--- a/app/commsdsl2c/src/CField.cpp
+++ b/app/commsdsl2c/src/CField.cpp
@@ -782,7 +782,7 @@ std::string CField::cSourceCommonFuncsInternal(bool forcedOptional) const
         "    return from#^#CONV_SUFFIX#$#(field)->length();\n"
         "}\n"
         "\n"
-        "const char* #^#NAME#$##^#SUFFIX#$#_name(const #^#NAME#$##^#SUFFX#$#* field)\n"
+        "const char* #^#NAME#$##^#SUFFIX#$#_name(const #^#NAME#$##^#SUFFIX#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->name();\n"
         "}\n"
diff --git a/app/commsdsl2c/src/CFloatField.cpp b/app/commsdsl2c/src/CFloatField.cpp
index b4684d5..33ced81 100644
--- a/app/commsdsl2c/src/CFloatField.cpp
+++ b/app/commsdsl2c/src/CFloatField.cpp
@@ -147,6 +147,10 @@ std::string CFloatField::cHeaderSpecialsCodeInternal() const
             {"VALUE_TYPE", strings::genValueTypeStr()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
@@ -190,6 +194,10 @@ std::string CFloatField::cSourceSpecialsCodeInternal() const
             {"CONV_SUFFIX", cConversionSuffix()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
diff --git a/app/commsdsl2c/src/CIntField.cpp b/app/commsdsl2c/src/CIntField.cpp
index 1f7efa2..99d01a2 100644
--- a/app/commsdsl2c/src/CIntField.cpp
+++ b/app/commsdsl2c/src/CIntField.cpp
@@ -163,6 +163,10 @@ std::string CIntField::cHeaderSpecialsCodeInternal() const
             {"VALUE_TYPE", strings::genValueTypeStr()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
@@ -206,6 +210,10 @@ std::string CIntField::cSourceSpecialsCodeInternal() const
             {"CONV_SUFFIX", cConversionSuffix()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
-- 
2.43.0


From b1d5d26af5256bc46609a50754855b07e40b08d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 22/45] fix: emit options of the layer member fields

---
 app/commsdsl2comms/src/CommsLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsLayer.cpp b/app/commsdsl2comms/src/CommsLayer.cpp
index 94c65d1..24725ae 100644
--- a/app/commsdsl2comms/src/CommsLayer.cpp
+++ b/app/commsdsl2comms/src/CommsLayer.cpp
@@ -442,7 +442,7 @@ std::string CommsLayer::commsCustomizationOptionsInternal(
             "///     @ref #^#SCOPE#$# layer field.\n"
             "struct #^#CLASS_NAME#$##^#SUFFIX#$##^#EXT#$#\n"
             "{\n"
-            "    #^#FIELD_OPT#$#\n"
+            "    #^#FIELD_OPTS#$#\n"
             "}; // struct #^#CLASS_NAME#$##^#SUFFIX#$#\n";
 
         util::GenReplacementMap repl = {
-- 
2.43.0


From 613628119daef68ca81387e7267e96e2e2afd7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 23/45] fix: emit special values accessors of <int> fields in
 emscripten bindings

---
 app/commsdsl2emscripten/src/EmscriptenIntField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenIntField.cpp b/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
index 10daa4d..9bcacea 100644
--- a/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
@@ -54,7 +54,7 @@ std::string EmscriptenIntField::emscriptenHeaderExtraPublicFuncsImpl() const
         "{\n"
         "    return Base::hasSpecials();\n"
         "}\n\n"
-        "#^#SCPECIALS#$#\n"
+        "#^#SPECIALS#$#\n"
         "#^#DISPLAY_DECIMALS#$#\n"
         "#^#SCALED#$#\n";
 
@@ -70,7 +70,7 @@ std::string EmscriptenIntField::emscriptenHeaderExtraPublicFuncsImpl() const
 std::string EmscriptenIntField::emscriptenSourceBindFuncsImpl() const
 {
     static const std::string Templ =
-        "#^#SCPECIALS#$#\n"
+        "#^#SPECIALS#$#\n"
         "#^#DISPLAY_DECIMALS#$#\n"
         "#^#SCALED#$#\n";
 
-- 
2.43.0


From 32a74eabf1199f5a2351824cfed6b6c6bd7b7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 24/45] fix: bind specification version constants in emscripten

---
 app/commsdsl2emscripten/src/EmscriptenVersion.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/commsdsl2emscripten/src/EmscriptenVersion.cpp b/app/commsdsl2emscripten/src/EmscriptenVersion.cpp
index 74888f5..02b8113 100644
--- a/app/commsdsl2emscripten/src/EmscriptenVersion.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenVersion.cpp
@@ -142,6 +142,7 @@ bool EmscriptenVersion::emscriptenWriteSrcInternal() const
         {"GENERATED", EmscriptenGenerator::emscriptenFileGeneratedComment()},
         {"HEADER", emscriptenRelHeader(m_emscriptenGenerator)},
         {"NAME", m_emscriptenGenerator.emscriptenScopeNameForRoot(strings::genVersionFileNameStr())},
+        {"SPEC", emscriptenSpecConstantsInternal()},
         {"PROT", emscriptenProtConstantsInternal()},
         {"CODE_VER", emscriptenCodeVerConstantsInternal()},
     };
-- 
2.43.0


From cfe30e3df42f7e64aa2847ba5599fc0c34bbd5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 25/45] fix: rename default options of the Qt plugin when they
 are extended

---
 app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp b/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
index c68509b..345f72a 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
@@ -153,7 +153,7 @@ bool ToolsQtDefaultOptions::toolsWriteInternal() const
         "{\n\n"
         "namespace options\n"
         "{\n\n"
-        "using #^#NAME#$# =\n"
+        "using #^#NAME#$##^#ORIG#$# =\n"
         "    #^#OPTS_BASE#$#;\n\n"
         "#^#EXTEND#$#\n"
         "#^#APPEND#$#\n"
-- 
2.43.0


From 7be271f4f0acca462af25b746a2707e732fd03bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 26/45] fix: don't assume code appended to swig CMakeLists.txt

---
 app/commsdsl2swig/src/SwigCmake.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2swig/src/SwigCmake.cpp b/app/commsdsl2swig/src/SwigCmake.cpp
index a8f515a..6fe8e17 100644
--- a/app/commsdsl2swig/src/SwigCmake.cpp
+++ b/app/commsdsl2swig/src/SwigCmake.cpp
@@ -117,7 +117,7 @@ bool SwigCmake::swigWriteInternal() const
         "        $<$<CXX_COMPILER_ID:Clang>:-ftemplate-depth=2048 -fconstexpr-depth=4096 -fbracket-depth=2048>\n"
         "    )\n"
         "endforeach()\n\n"
-        "#^#APPEND#$#"
+        "#^#APPEND#$#\n"
         ;
 
     util::GenReplacementMap repl = {
-- 
2.43.0


From c0c213ffd0fc6cca61ebf1738e96ccd4516071af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:21 +0000
Subject: [PATCH 27/45] fix: copying a bundle or bitfield field keeps its
 aliases and validity condition

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 4 ++++
 lib/src/parse/ParseBundleFieldImpl.cpp   | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index c1c9750..838ac73 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -57,6 +57,10 @@ ParseBitfieldFieldImpl::ParseBitfieldFieldImpl(const ParseBitfieldFieldImpl& oth
     for (auto& m : other.m_members) {
         m_members.push_back(m->parseClone());
     }
+
+    if (other.m_validCond) {
+        m_validCond = other.m_validCond->parseClone();
+    }
 }
 
 ParseBitfieldFieldImpl::ParseMembers ParseBitfieldFieldImpl::parseMembersList() const
diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 43898b3..e5dfc6c 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -64,6 +64,15 @@ ParseBundleFieldImpl::ParseBundleFieldImpl(const ParseBundleFieldImpl& other)
     for (auto& m : other.m_members) {
         m_members.push_back(m->parseClone());
     }
+
+    m_aliases.reserve(other.m_aliases.size());
+    for (auto& a : other.m_aliases) {
+        m_aliases.push_back(a->parseClone());
+    }
+
+    if (other.m_validCond) {
+        m_validCond = other.m_validCond->parseClone();
+    }
 }
 
 ParseBundleFieldImpl::ParseMembers ParseBundleFieldImpl::parseMembersList() const
-- 
2.43.0


From 4dea3b1ca51133273f2eb0e9d641fce1e46285ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 28/45] fix: keep aliases of nested member fields on reuse and
 copying of fields

---
 lib/src/parse/ParseBundleFieldImpl.cpp | 3 ++-
 lib/src/parse/ParseInterfaceImpl.cpp   | 5 +++--
 lib/src/parse/ParseMessageImpl.cpp     | 5 +++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index e5dfc6c..c4b66b7 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -455,7 +455,8 @@ bool ParseBundleFieldImpl::parseUpdateAliases()
                 m_aliases.begin(), m_aliases.end(),
                 [this](auto& alias)
                 {
-                    auto& fieldName = alias->parseFieldName();
+                    auto& aliasedFieldName = alias->parseFieldName();
+                    std::string fieldName(aliasedFieldName, 0, aliasedFieldName.find('.'));
                     auto iter =
                         std::find_if(
                             m_members.begin(), m_members.end(),
diff --git a/lib/src/parse/ParseInterfaceImpl.cpp b/lib/src/parse/ParseInterfaceImpl.cpp
index 608c5f5..78ace50 100644
--- a/lib/src/parse/ParseInterfaceImpl.cpp
+++ b/lib/src/parse/ParseInterfaceImpl.cpp
@@ -576,8 +576,9 @@ bool ParseInterfaceImpl::parseCopyAliases()
                 m_state.m_aliases.begin(), m_state.m_aliases.end(),
                 [this](auto& alias)
                 {
-                    auto& fieldName = alias->parseFieldName();
-                    assert(!fieldName.empty());
+                    auto& aliasedFieldName = alias->parseFieldName();
+                    assert(!aliasedFieldName.empty());
+                    std::string fieldName(aliasedFieldName, 0, aliasedFieldName.find('.'));
                     auto fieldIter =
                         std::find_if(
                             m_state.m_fields.begin(), m_state.m_fields.end(),
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index cf7cf0f..12817b0 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -964,8 +964,9 @@ bool ParseMessageImpl::parseCopyAliases()
                 m_state.m_aliases.begin(), m_state.m_aliases.end(),
                 [this](auto& alias)
                 {
-                    auto& fieldName = alias->parseFieldName();
-                    assert(!fieldName.empty());
+                    auto& aliasedFieldName = alias->parseFieldName();
+                    assert(!aliasedFieldName.empty());
+                    std::string fieldName(aliasedFieldName, 0, aliasedFieldName.find('.'));
                     auto fieldIter =
                         std::find_if(
                             m_state.m_fields.begin(), m_state.m_fields.end(),
-- 
2.43.0


From 098cf0bf834dd038d4d536699b441a32b9360088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 29/45] fix: reject fields having the same name as a reused or
 copied alias

---
 lib/src/parse/ParseBundleFieldImpl.cpp | 7 +++++++
 lib/src/parse/ParseInterfaceImpl.cpp   | 7 +++++++
 lib/src/parse/ParseMessageImpl.cpp     | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index c4b66b7..73431bb 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -470,6 +470,13 @@ bool ParseBundleFieldImpl::parseUpdateAliases()
             m_aliases.end());
     }
 
+    // The reused aliases may clash with the member fields added since
+    for (auto& a : m_aliases) {
+        if (!a->parseVerifyAlias(std::vector<ParseAliasImplPtr>(), m_members)) {
+            return false;
+        }
+    }
+
     auto aliasNodes = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseAliasStr());
 
     if (aliasNodes.empty()) {
diff --git a/lib/src/parse/ParseInterfaceImpl.cpp b/lib/src/parse/ParseInterfaceImpl.cpp
index 78ace50..b57d27e 100644
--- a/lib/src/parse/ParseInterfaceImpl.cpp
+++ b/lib/src/parse/ParseInterfaceImpl.cpp
@@ -628,6 +628,13 @@ void ParseInterfaceImpl::parseCloneAliasesFrom(const ParseBundleFieldImpl& other
 
 bool ParseInterfaceImpl::parseUpdateAliases()
 {
+    // The aliases taken from other element may clash with the fields added since
+    for (auto& a : m_state.m_aliases) {
+        if (!a->parseVerifyAlias(std::vector<ParseAliasImplPtr>(), m_state.m_fields)) {
+            return false;
+        }
+    }
+
     auto aliasNodes = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseAliasStr());
 
     if (aliasNodes.empty()) {
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 12817b0..f3c4104 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -1077,6 +1077,13 @@ bool ParseMessageImpl::parseUpdateFields()
 
 bool ParseMessageImpl::parseUpdateAliases()
 {
+    // The aliases taken from other element may clash with the fields added since
+    for (auto& a : m_state.m_aliases) {
+        if (!a->parseVerifyAlias(std::vector<ParseAliasImplPtr>(), m_state.m_fields)) {
+            return false;
+        }
+    }
+
     auto aliasNodes = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseAliasStr());
 
     if (aliasNodes.empty()) {
-- 
2.43.0


From 60c53a24181524d8ad94302f3ff34d31d58224ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 30/45] fix: reject special values equal to the reused ones
 unless allowed

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 8 ++++++++
 lib/src/parse/ParseIntFieldImpl.cpp   | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index 539e57a..0e747b3 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -525,6 +525,14 @@ bool ParseFloatFieldImpl::parseUpdateSpecials()
     using RecSpecials = std::multimap<double, std::string>;
     RecSpecials recSpecials;
     std::string prevNanSpecial;
+    for (auto& s : m_state.m_specials) {
+        if (std::isnan(s.second.m_value)) {
+            prevNanSpecial = s.first;
+            continue;
+        }
+
+        recSpecials.insert(std::make_pair(s.second.m_value, s.first));
+    }
 
     for (auto* s : specials) {
         static const ParseXmlWrap::ParseNamesList PropNames = {
diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index e73bad8..550b114 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -1012,6 +1012,9 @@ bool ParseIntFieldImpl::parseUpdateSpecials()
 
     using RecSpecials = std::multimap<std::intmax_t, std::string>;
     RecSpecials recSpecials;
+    for (auto& s : m_state.m_specials) {
+        recSpecials.insert(std::make_pair(s.second.m_value, s.first));
+    }
 
     for (auto* s : specials) {
         static const ParseXmlWrap::ParseNamesList PropNames = {
-- 
2.43.0


From 4b0a84f580b78585e831acd0948e1bdbf2e2785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 31/45] fix: check uniqueness of message ids also in deeper
 nested namespaces

---
 lib/src/parse/ParseNamespaceImpl.cpp | 10 ++++++++--
 lib/src/parse/ParseNamespaceImpl.h   |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseNamespaceImpl.cpp b/lib/src/parse/ParseNamespaceImpl.cpp
index 43caaea..7e8eaa8 100644
--- a/lib/src/parse/ParseNamespaceImpl.cpp
+++ b/lib/src/parse/ParseNamespaceImpl.cpp
@@ -449,14 +449,20 @@ ParseNamespaceImpl::ParseFieldRefInfosList ParseNamespaceImpl::parseProcessInter
     return result;
 }
 
-bool ParseNamespaceImpl::parseValidateAllMessages(bool allowNonUniquIds)
+ParseNamespaceImpl::ParseMessagesList ParseNamespaceImpl::parseAllMessagesList() const
 {
     ParseMessagesList allMsgs = parseMessagesList();
     for (auto& ns : m_namespaces) {
-        auto nsMsgs = ns.second->parseMessagesList();
+        auto nsMsgs = ns.second->parseAllMessagesList();
         allMsgs.insert(allMsgs.end(), nsMsgs.begin(), nsMsgs.end());
     }
 
+    return allMsgs;
+}
+
+bool ParseNamespaceImpl::parseValidateAllMessages(bool allowNonUniquIds)
+{
+    ParseMessagesList allMsgs = parseAllMessagesList();
     std::sort(
         allMsgs.begin(), allMsgs.end(),
         [](const auto& msg1, const auto& msg2)
diff --git a/lib/src/parse/ParseNamespaceImpl.h b/lib/src/parse/ParseNamespaceImpl.h
index d737768..36b0996 100644
--- a/lib/src/parse/ParseNamespaceImpl.h
+++ b/lib/src/parse/ParseNamespaceImpl.h
@@ -184,6 +184,8 @@ public:
 
     ParseFieldRefInfosList parseProcessInterfaceFieldRef(const std::string& refStr) const;
 
+    ParseMessagesList parseAllMessagesList() const;
+
     bool parseValidateAllMessages(bool allowNonUniquIds);
 
 protected:
-- 
2.43.0


From 2cd74760018b921d0a578baaff08fe381e89def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:48 +0000
Subject: [PATCH 32/45] fix: avoid division by zero for lists with a maximum
 count of zero

---
 lib/src/parse/parse_common.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/parse/parse_common.cpp b/lib/src/parse/parse_common.cpp
index 6b604d5..9e3c828 100644
--- a/lib/src/parse/parse_common.cpp
+++ b/lib/src/parse/parse_common.cpp
@@ -1570,6 +1570,10 @@ void parseAddToLength(std::size_t newLen, std::size_t& accLen)
 
 std::size_t parseMulLength(std::size_t len, std::size_t factor)
 {
+    if (factor == 0U) {
+        return 0U;
+    }
+
     if ((((MaxPossibleLength - 1) / factor) + 1) <= len) {
         return MaxPossibleLength;
     }
-- 
2.43.0


From 3f9decc06b2562579c30aed256331f3dcc1c35f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:48 +0000
Subject: [PATCH 33/45] fix: saturate calculation of minimal lengths

---
 lib/src/parse/ParseBundleFieldImpl.cpp | 3 ++-
 lib/src/parse/ParseListFieldImpl.cpp   | 7 ++++---
 lib/src/parse/ParseMessageImpl.cpp     | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 73431bb..ca408aa 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -223,7 +223,8 @@ std::size_t ParseBundleFieldImpl::parseMinLengthImpl() const
             m_members.begin(), m_members.end(), static_cast<std::size_t>(0U),
             [](std::size_t soFar, auto& m) -> std::size_t
             {
-                return soFar + m->parseMinLength();
+                common::parseAddToLength(m->parseMinLength(), soFar);
+                return soFar;
             });
 }
 
diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 66e1e0c..8d06d32 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -138,7 +138,7 @@ std::size_t ParseListFieldImpl::parseMinLengthImpl() const
 {
     std::size_t extraLen = 0U;
     if (parseHasElemLengthPrefixField()) {
-        extraLen += parseElemLengthPrefixField().parseMinLength();
+        common::parseAddToLength(parseElemLengthPrefixField().parseMinLength(), extraLen);
     }
 
     if (m_state.m_count != 0U) {
@@ -146,10 +146,11 @@ std::size_t ParseListFieldImpl::parseMinLengthImpl() const
         auto elemMinLength = parseElementField().parseMinLength();
 
         if (!m_state.m_elemFixedLength) {
-            extraLen *= m_state.m_count;
+            extraLen = common::parseMulLength(extraLen, m_state.m_count);
         }
 
-        return (m_state.m_count * elemMinLength) + extraLen;
+        common::parseAddToLength(common::parseMulLength(elemMinLength, m_state.m_count), extraLen);
+        return extraLen;
     }
 
     if (parseHasCountPrefixField()) {
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index f3c4104..680f5cd 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -163,7 +163,8 @@ std::size_t ParseMessageImpl::parseMinLength() const
                         return soFar;
                     }
 
-                    return soFar + elem->parseMinLength();
+                    common::parseAddToLength(elem->parseMinLength(), soFar);
+                    return soFar;
                 });
 }
 
-- 
2.43.0


From 55356b57ba5209fbdd7bece3b2db977a5fd73e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:15 +0000
Subject: [PATCH 34/45] fix: don't assert on reused bitLength of a reference to
 a shorter field

---
 lib/src/parse/ParseRefFieldImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index e3f47ed..81f0095 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -20,6 +20,7 @@
 #include "ParseProtocolImpl.h"
 #include "parse_common.h"
 
+#include <algorithm>
 #include <cassert>
 
 namespace commsdsl
@@ -234,14 +235,15 @@ bool ParseRefFieldImpl::parseUpdateBitLength()
 
     auto& valStr = common::parseGetStringProp(parseProps(), common::parseBitLengthStr());
     assert(0 < parseMaxLength());
-    auto maxBitLength = parseMaxLength() * BitsInByte;
+    auto maxBitLength = common::parseMulLength(parseMaxLength(), BitsInByte);
     if (valStr.empty()) {
         if (m_state.m_bitLength == 0) {
             m_state.m_bitLength = maxBitLength;
             return true;
         }
 
-        assert(m_state.m_bitLength <= maxBitLength);
+        // The reused value may belong to a longer field
+        m_state.m_bitLength = std::min(m_state.m_bitLength, maxBitLength);
         return true;
     }
 
-- 
2.43.0


From ad0cd619fe0b0b58b2dd9d82ce74d6e527ce2740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:13 +0000
Subject: [PATCH 35/45] fix: saturate calculation of the member offsets in the
 LaTeX document

---
 app/commsdsl2latex/src/LatexField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2latex/src/LatexField.cpp b/app/commsdsl2latex/src/LatexField.cpp
index bec5022..8213e0b 100644
--- a/app/commsdsl2latex/src/LatexField.cpp
+++ b/app/commsdsl2latex/src/LatexField.cpp
@@ -417,7 +417,7 @@ std::string LatexField::latexMembersDetails(const LatexFieldsList& latexFields)
 
             offsetStr = std::to_string(offset);
             if (minLength == maxLength) {
-                offset += minLength;
+                offset = comms::genAddLength(offset, minLength);
                 break;
             }
 
-- 
2.43.0


From 97a843f4b2ddfb6278b9f21f94d772b472847ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:52 +0000
Subject: [PATCH 36/45] fix: don't truncate the length of the data following
 the payload

---
 app/commsdsl2tools_qt/src/ToolsQtFrame.cpp | 15 +++++++--------
 app/commsdsl2tools_qt/src/ToolsQtFrame.h   |  2 +-
 app/commsdsl2tools_qt/src/ToolsQtLayer.cpp |  4 ++--
 app/commsdsl2tools_qt/src/ToolsQtLayer.h   |  2 +-
 4 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp b/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp
index 7581734..1dbfea3 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp
@@ -465,7 +465,7 @@ bool ToolsQtFrame::toolsWriteTransportMsgSrcInternal() const
     return true;
 }
 
-unsigned ToolsQtFrame::toolsCalcBackPayloadOffsetInternal() const
+std::size_t ToolsQtFrame::toolsCalcBackPayloadOffsetInternal() const
 {
     auto payloadIter =
         std::find_if(
@@ -477,13 +477,12 @@ unsigned ToolsQtFrame::toolsCalcBackPayloadOffsetInternal() const
     assert(payloadIter != m_toolsLayers.rend());
 
     return
-        static_cast<unsigned>(
-            std::accumulate(
-                m_toolsLayers.rbegin(), payloadIter, std::size_t(0),
-                [](std::size_t soFar, auto* l)
-                {
-                    return soFar + l->toolsMinFieldLength();
-                }));
+        std::accumulate(
+            m_toolsLayers.rbegin(), payloadIter, std::size_t(0),
+            [](std::size_t soFar, auto* l)
+            {
+                return comms::genAddLength(soFar, l->toolsMinFieldLength());
+            });
 }
 
 std::string ToolsQtFrame::toolsRelPathInternal(const commsdsl::gen::GenInterface& iFace) const
diff --git a/app/commsdsl2tools_qt/src/ToolsQtFrame.h b/app/commsdsl2tools_qt/src/ToolsQtFrame.h
index 5bebfb8..b8ceb56 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtFrame.h
+++ b/app/commsdsl2tools_qt/src/ToolsQtFrame.h
@@ -59,7 +59,7 @@ private:
     bool toolsWriteSrcInternal() const;
     bool toolsWriteTransportMsgHeaderInternal() const;
     bool toolsWriteTransportMsgSrcInternal() const;
-    unsigned toolsCalcBackPayloadOffsetInternal() const;
+    std::size_t toolsCalcBackPayloadOffsetInternal() const;
     std::string toolsRelPathInternal(const commsdsl::gen::GenInterface& iFace) const;
     std::string toolsProtTransportMsgDefInternal(const commsdsl::gen::GenInterface& iFace) const;
     std::string toolsProtTransportMsgHeaderExtraIncInternal(const commsdsl::gen::GenInterface& iFace) const;
diff --git a/app/commsdsl2tools_qt/src/ToolsQtLayer.cpp b/app/commsdsl2tools_qt/src/ToolsQtLayer.cpp
index a95f625..8153179 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtLayer.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtLayer.cpp
@@ -44,12 +44,12 @@ bool ToolsQtLayer::toolsPrepare()
     return true;
 }
 
-unsigned ToolsQtLayer::toolsMinFieldLength() const
+std::size_t ToolsQtLayer::toolsMinFieldLength() const
 {
     auto calcFunc =
         [](const commsdsl::gen::GenField& f)
         {
-            return static_cast<unsigned>(f.genParseObj().parseMinLength());
+            return f.genParseObj().parseMinLength();
         };
 
     auto* externalField = m_genLayer.genExternalField();
diff --git a/app/commsdsl2tools_qt/src/ToolsQtLayer.h b/app/commsdsl2tools_qt/src/ToolsQtLayer.h
index 831c995..3d00f34 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtLayer.h
+++ b/app/commsdsl2tools_qt/src/ToolsQtLayer.h
@@ -32,7 +32,7 @@ public:
 
     bool toolsPrepare();
 
-    unsigned toolsMinFieldLength() const;
+    std::size_t toolsMinFieldLength() const;
 
     const commsdsl::gen::GenLayer& toolsGenLayer() const
     {
-- 
2.43.0


From 12037abe25932d7624e9c270fe3791660220f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:28 +0000
Subject: [PATCH 37/45] fix: don't refer to special values non existing in the
 selected schema version

---
 lib/src/gen/GenFloatField.cpp | 8 ++++++--
 lib/src/gen/GenIntField.cpp   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/src/gen/GenFloatField.cpp b/lib/src/gen/GenFloatField.cpp
index 22c95ab..d5219a1 100644
--- a/lib/src/gen/GenFloatField.cpp
+++ b/lib/src/gen/GenFloatField.cpp
@@ -35,11 +35,15 @@ public:
     using ParseFloatField = GenFloatField::ParseFloatField;
     using GenSpecialsList = GenFloatField::GenSpecialsList;
 
-    bool genPrepare(ParseFloatField parseObj)
+    bool genPrepare(const GenGenerator& generator, ParseFloatField parseObj)
     {
         auto& dslSpecials = parseObj.parseSpecialValues();
         m_specialsSorted.reserve(dslSpecials.size());
         for (auto& s : dslSpecials) {
+            if (!generator.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+                continue;
+            }
+
             m_specialsSorted.emplace_back(s.first, s.second);
         }
 
@@ -128,7 +132,7 @@ const GenFloatField::GenSpecialsList& GenFloatField::genSpecialsSortedByValue()
 
 bool GenFloatField::genPrepareImpl()
 {
-    return m_impl->genPrepare(genFloatFieldParseObj());
+    return m_impl->genPrepare(genGenerator(), genFloatFieldParseObj());
 }
 
 GenFloatField::GenFieldRefInfo GenFloatField::genProcessInnerRefImpl(const std::string& refStr) const
diff --git a/lib/src/gen/GenIntField.cpp b/lib/src/gen/GenIntField.cpp
index 9d6eacd..f449490 100644
--- a/lib/src/gen/GenIntField.cpp
+++ b/lib/src/gen/GenIntField.cpp
@@ -34,11 +34,15 @@ public:
     using ParseIntField = GenIntField::ParseIntField;
     using GenSpecialsList = GenIntField::GenSpecialsList;
 
-    bool genPrepare(ParseIntField parseObj)
+    bool genPrepare(const GenGenerator& generator, ParseIntField parseObj)
     {
         auto& dslSpecials = parseObj.parseSpecialValues();
         m_specialsSorted.reserve(dslSpecials.size());
         for (auto& s : dslSpecials) {
+            if (!generator.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+                continue;
+            }
+
             m_specialsSorted.emplace_back(s.first, s.second);
         }
 
@@ -105,7 +109,7 @@ const GenIntField::GenSpecialsList& GenIntField::genSpecialsSortedByValue() cons
 
 bool GenIntField::genPrepareImpl()
 {
-    return m_impl->genPrepare(genIntFieldParseObj());
+    return m_impl->genPrepare(genGenerator(), genIntFieldParseObj());
 }
 
 GenIntField::GenFieldRefInfo GenIntField::genProcessInnerRefImpl(const std::string& refStr) const
-- 
2.43.0


From 2675e82fea32635ce09984a0ba6aa2315b812008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:52 +0000
Subject: [PATCH 38/45] fix: don't refer to enum values non existing in the
 selected schema version

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 32 +++++++++++++++++++++--
 app/commsdsl2comms/src/CommsEnumField.h   |  1 +
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index f3e233e..df4168a 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -335,6 +335,10 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
                 continue;
             }
 
+            if (!commsDoesValueExistInternal(iter->second)) {
+                continue;
+            }
+
             valuesStrings.push_back(prefix + iter->second);
             prevIter = iter;
         }
@@ -663,6 +667,15 @@ bool CommsEnumField::commsPrepareValidRangesInternal()
     return true;
 }
 
+bool CommsEnumField::commsDoesValueExistInternal(const std::string& name) const
+{
+    auto obj = genEnumFieldParseObj();
+    auto& values = obj.parseValues();
+    auto iter = values.find(name);
+    assert(iter != values.end());
+    return genGenerator().genDoesElementExist(iter->second.m_sinceVersion, iter->second.m_deprecatedSince, false);
+}
+
 bool CommsEnumField::commsIsDirectValueNameMappingInternal() const
 {
     auto obj = genEnumFieldParseObj();
@@ -952,8 +965,19 @@ std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInterna
             continue;
         }
 
-        auto revIter = revValues.find(castedV);
-        assert(revIter != revValues.end());
+        auto revRange = revValues.equal_range(castedV);
+        auto revIter =
+            std::find_if(
+                revRange.first, revRange.second,
+                [this](auto& elem)
+                {
+                    return commsDoesValueExistInternal(elem.second);
+                });
+
+        if (revIter == revRange.second) {
+            continue;
+        }
+
         auto& v = *revIter;
 
         auto getDisplayNameFunc =
@@ -1030,6 +1054,10 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
             continue;
         }
 
+        if (!commsDoesValueExistInternal(v.second)) {
+            continue;
+        }
+
         auto getDisplayNameFunc =
             [](auto& infoPair) -> const std::string&
             {
diff --git a/app/commsdsl2comms/src/CommsEnumField.h b/app/commsdsl2comms/src/CommsEnumField.h
index 0532838..4955e86 100644
--- a/app/commsdsl2comms/src/CommsEnumField.h
+++ b/app/commsdsl2comms/src/CommsEnumField.h
@@ -74,6 +74,7 @@ private:
     using CommsValidRangesList = std::vector<CommsRangeInfo>;
 
     bool commsPrepareValidRangesInternal();
+    bool commsDoesValueExistInternal(const std::string& name) const;
     bool commsIsDirectValueNameMappingInternal() const;
     std::string commsCommonEnumInternal() const;
     std::string commsCommonValueNameMapInternal() const;
-- 
2.43.0


From c31c7e24e09a7fd6c5301acd5bccde3df7fcb867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:23 +0000
Subject: [PATCH 39/45] fix: escape the remaining schema texts put into the
 LaTeX document

---
 app/commsdsl2latex/src/Latex.cpp            | 2 +-
 app/commsdsl2latex/src/LatexEnumField.cpp   | 3 ++-
 app/commsdsl2latex/src/LatexFloatField.cpp  | 2 +-
 app/commsdsl2latex/src/LatexIntField.cpp    | 2 +-
 app/commsdsl2latex/src/LatexSetField.cpp    | 2 +-
 app/commsdsl2latex/src/LatexStringField.cpp | 2 +-
 6 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/app/commsdsl2latex/src/Latex.cpp b/app/commsdsl2latex/src/Latex.cpp
index bbce5d6..d4dc776 100644
--- a/app/commsdsl2latex/src/Latex.cpp
+++ b/app/commsdsl2latex/src/Latex.cpp
@@ -302,7 +302,7 @@ std::string Latex::latexTitleInternal() const
     ;
 
     auto& protSchema = m_latexGenerator.genProtocolSchema();
-    auto title = protSchema.genParseObj().parseDisplayName();
+    auto title = LatexGenerator::latexEscString(protSchema.genParseObj().parseDisplayName());
     if (title.empty()) {
         title = "Protocol \"" + LatexGenerator::latexEscString(protSchema.genMainNamespace()) + "\"";
     }
diff --git a/app/commsdsl2latex/src/LatexEnumField.cpp b/app/commsdsl2latex/src/LatexEnumField.cpp
index 6a0c48b..4bdd749 100644
--- a/app/commsdsl2latex/src/LatexEnumField.cpp
+++ b/app/commsdsl2latex/src/LatexEnumField.cpp
@@ -74,7 +74,8 @@ std::string LatexEnumField::latexExtraDetailsImpl() const
 
         auto l =
             LatexGenerator::latexIntegralToStr(iter->second.m_value, unsignedType, hexWidth) + " & " +
-            LatexGenerator::latexEscDisplayName(iter->second.m_displayName, iter->first) + " & " + iter->second.m_description;
+            LatexGenerator::latexEscDisplayName(iter->second.m_displayName, iter->first) + " & " +
+            LatexGenerator::latexEscString(iter->second.m_description);
         lines.push_back(std::move(l));
     }
 
diff --git a/app/commsdsl2latex/src/LatexFloatField.cpp b/app/commsdsl2latex/src/LatexFloatField.cpp
index b96af09..58aa21a 100644
--- a/app/commsdsl2latex/src/LatexFloatField.cpp
+++ b/app/commsdsl2latex/src/LatexFloatField.cpp
@@ -162,7 +162,7 @@ std::string LatexFloatField::latexExtraDetailsImpl() const
         auto& elem = infos.back();
         elem.m_value = s.second.m_value;
         elem.m_name = LatexGenerator::latexEscDisplayName(s.second.m_displayName, s.first);
-        elem.m_description = s.second.m_description;
+        elem.m_description = LatexGenerator::latexEscString(s.second.m_description);
     }
 
     if (infos.empty()) {
diff --git a/app/commsdsl2latex/src/LatexIntField.cpp b/app/commsdsl2latex/src/LatexIntField.cpp
index 2c4624d..26027e0 100644
--- a/app/commsdsl2latex/src/LatexIntField.cpp
+++ b/app/commsdsl2latex/src/LatexIntField.cpp
@@ -133,7 +133,7 @@ std::string LatexIntField::latexExtraDetailsImpl() const
         auto& elem = infos.back();
         elem.m_value = s.second.m_value;
         elem.m_name = LatexGenerator::latexEscDisplayName(s.second.m_displayName, s.first);
-        elem.m_description = s.second.m_description;
+        elem.m_description = LatexGenerator::latexEscString(s.second.m_description);
     }
 
     if (infos.empty()) {
diff --git a/app/commsdsl2latex/src/LatexSetField.cpp b/app/commsdsl2latex/src/LatexSetField.cpp
index fecec9f..5209248 100644
--- a/app/commsdsl2latex/src/LatexSetField.cpp
+++ b/app/commsdsl2latex/src/LatexSetField.cpp
@@ -90,7 +90,7 @@ std::string LatexSetField::latexExtraDetailsImpl() const
         auto& info = iter->second;
         auto l = std::to_string(b.first) + " & " + idxToMaskStr(b.first) + " & " +
             LatexGenerator::latexEscDisplayName(info.m_displayName, b.second) + " & " +
-            info.m_description;
+            LatexGenerator::latexEscString(info.m_description);
 
         auto addVersionInfo =
             [&info, &l]()
diff --git a/app/commsdsl2latex/src/LatexStringField.cpp b/app/commsdsl2latex/src/LatexStringField.cpp
index 98925a2..e89d31b 100644
--- a/app/commsdsl2latex/src/LatexStringField.cpp
+++ b/app/commsdsl2latex/src/LatexStringField.cpp
@@ -52,7 +52,7 @@ std::string LatexStringField::latexInfoDetailsImpl() const
 
         util::GenStringsList values;
         for (auto& v : validValues) {
-            values.push_back("\"" + v.m_value + "\"");
+            values.push_back("\"" + LatexGenerator::latexEscString(v.m_value) + "\"");
         }
 
         list.push_back("\\textbf{Valid Values} & " + util::genStrListToString(values, ", ", ""));
-- 
2.43.0


From fc7096031b6a546b437622d50e28ae7dc47bc775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:23 +0000
Subject: [PATCH 40/45] fix: escape the text of the LaTeX document in a single
 pass

---
 app/commsdsl2latex/src/LatexGenerator.cpp | 39 +++++++++++++++--------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/app/commsdsl2latex/src/LatexGenerator.cpp b/app/commsdsl2latex/src/LatexGenerator.cpp
index 086d2bb..5a50b07 100644
--- a/app/commsdsl2latex/src/LatexGenerator.cpp
+++ b/app/commsdsl2latex/src/LatexGenerator.cpp
@@ -203,24 +203,37 @@ std::string LatexGenerator::latexLabelId(const GenElem& elem)
 
 std::string LatexGenerator::latexEscString(const std::string& str)
 {
-    auto strTmp = util::genStrReplace(str, "\\", "\\textbackslash{}");
     std::string result;
-    std::size_t pos = 0U;
-    while (pos < str.size()) {
-        auto nextPos = strTmp.find_first_of("{}#%$_&", pos);
-        if (str.size() <= nextPos) {
-            result.append(str, pos, std::string::npos);
+    for (auto ch : str) {
+        switch (ch) {
+        case '\\':
+            result.append("\\textbackslash{}");
+            break;
+
+        case '^':
+        case '~':
+            result.push_back('\\');
+            result.push_back(ch);
+            result.append("{}");
             break;
-        }
 
-        result.append(str, pos, nextPos - pos);
-        result.append("\\");
-        result.push_back(str[nextPos]);
-        pos = nextPos + 1U;
+        case '{':
+        case '}':
+        case '#':
+        case '%':
+        case '$':
+        case '_':
+        case '&':
+            result.push_back('\\');
+            result.push_back(ch);
+            break;
+
+        default:
+            result.push_back(ch);
+            break;
+        }
     }
 
-    result = util::genStrReplace(result, "^", "\\^{}");
-    result = util::genStrReplace(result, "~", "\\~{}");
     return result;
 }
 
-- 
2.43.0


From baefb2a8b8f44ee0beb0f5c41f82036f4504eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:04 +0000
Subject: [PATCH 41/45] fix: reject platform names which are not identifiers

---
 lib/src/parse/ParseProtocolImpl.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 216bf10..0647dcf 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -709,11 +709,9 @@ bool ParseProtocolImpl::parseValidateSinglePlatform(::xmlNodePtr node)
     }
 
     auto& name = iter->second;
-    static const std::string InvalidChars("+-,");
-    auto pos = name.find_first_of(InvalidChars);
-    if (pos != std::string::npos) {
+    if (!common::parseIsValidName(name)) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
-            "Invalid platform name (" << name << ".";
+            "Invalid platform name (" << name << ").";
         return false;
     }
 
-- 
2.43.0


From 0ad78003481c65879296468ce5dc265fddcb470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:13 +0000
Subject: [PATCH 42/45] fix: inherit order and platforms when reusing a message

The definition of a message which reuses another one (without overriding
its order and/or platforms) aborted, and the "-" form of the platforms
property was appended to the reused list instead of overriding it.
---
 lib/src/parse/ParseMessageImpl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 680f5cd..5e1d55a 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -540,7 +540,7 @@ bool ParseMessageImpl::parseUpdateOrder()
 
     auto iter = m_props.find(common::parseOrderStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_order == 0U);
+        // The value (if any) is inherited from the reused message
         return true;
     }
 
@@ -616,7 +616,7 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     auto iter = m_props.find(common::parsePlatformsStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_platforms.empty());
+        // The value (if any) is inherited from the reused message
         return true;
     }
 
@@ -682,6 +682,7 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     assert(op == Minus);
     assert(platList.size() <= allPlatforms.size());
+    m_state.m_platforms.clear();
     m_state.m_platforms.reserve(allPlatforms.size() - platList.size());
     std::set_difference(
         allPlatforms.begin(), allPlatforms.end(),
-- 
2.43.0


From 8e74043aa62e37262ede4e54ccd1263410b1d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:13 +0000
Subject: [PATCH 43/45] fix: reject set bitLength exceeding 64 bits

The length calculated out of such bit length was used as an index past the
end of the table of the underlying types.
---
 lib/src/parse/ParseSetFieldImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index e9a4515..207a715 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -374,12 +374,14 @@ bool ParseSetFieldImpl::parseUpdateLength()
         }
 
         bool ok = false;
-        m_state.m_bitLength = static_cast<decltype(m_state.m_bitLength)>(common::parseStrToUintMax(bitLengthStr, &ok));
-        if ((!ok) || (m_state.m_bitLength == 0U)) {
+        auto bitLength = common::parseStrToUintMax(bitLengthStr, &ok);
+        static const decltype(bitLength) MaxBitLength = sizeof(std::uint64_t) * 8U;
+        if ((!ok) || (bitLength == 0U) || (MaxBitLength < bitLength)) {
             parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), bitLengthStr);
             return false;
         }
 
+        m_state.m_bitLength = static_cast<decltype(m_state.m_bitLength)>(bitLength);
         if ((m_state.m_length != 0) && ((m_state.m_length * 8U) < m_state.m_bitLength)) {
             parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), bitLengthStr);
             return false;
-- 
2.43.0


From 5ff31f079c3490040f666e7b68614350977bfcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:13 +0000
Subject: [PATCH 44/45] fix: accept <replace> without any member field

The empty <replace> element aborted the parsing.
---
 lib/src/parse/ParseFieldImpl.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index f9e36ad..73a5fe0 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1147,7 +1147,6 @@ bool ParseFieldImpl::parseCheckReplace()
         replMembers.push_back(std::move(field));
     }
 
-    assert(!replMembers.empty());
     return parseReplaceMembersImpl(replMembers);
 }
 
-- 
2.43.0


From 44ea9593e6e53a273fb58e52ca1d6d60a80a5b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:31 +0000
Subject: [PATCH 45/45] fix: escape the texts put in the string literals of the
 generated code

Display names and string values containing a quote, a backslash or a
control character ended (or changed) the literal they were written to.
---
 app/commsdsl2c/src/CDoxygen.cpp             |  2 +-
 app/commsdsl2comms/src/CommsDoxygen.cpp     |  2 +-
 app/commsdsl2comms/src/CommsEnumField.cpp   |  6 ++---
 app/commsdsl2comms/src/CommsField.cpp       |  2 +-
 app/commsdsl2comms/src/CommsMessage.cpp     |  2 +-
 app/commsdsl2comms/src/CommsSetField.cpp    |  2 +-
 app/commsdsl2comms/src/CommsStringField.cpp |  6 ++---
 lib/include/commsdsl/gen/util.h             |  1 +
 lib/src/gen/util.cpp                        | 27 +++++++++++++++++++++
 9 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/app/commsdsl2c/src/CDoxygen.cpp b/app/commsdsl2c/src/CDoxygen.cpp
index c6f18e3..36eed7e 100644
--- a/app/commsdsl2c/src/CDoxygen.cpp
+++ b/app/commsdsl2c/src/CDoxygen.cpp
@@ -144,7 +144,7 @@ bool CDoxygen::cWriteConfInternal() const
         "\n";
 
     util::GenReplacementMap repl = {
-        {"PROJ_NAME", m_cGenerator.genProtocolSchema().genDisplayName()},
+        {"PROJ_NAME", util::genStrEscapeLiteral(m_cGenerator.genProtocolSchema().genDisplayName())},
         {"APPEND", m_cGenerator.genReadScriptCodeInjectCode(m_cGenerator.cInputRelPathForDoc(FileName) + strings::genAppendFileSuffixStr(), "Append here")},
     };
 
diff --git a/app/commsdsl2comms/src/CommsDoxygen.cpp b/app/commsdsl2comms/src/CommsDoxygen.cpp
index b8f9f9a..d5c88f0 100644
--- a/app/commsdsl2comms/src/CommsDoxygen.cpp
+++ b/app/commsdsl2comms/src/CommsDoxygen.cpp
@@ -122,7 +122,7 @@ bool CommsDoxygen::commsWriteConfInternal() const
         "\n";
 
     util::GenReplacementMap repl = {
-        {"PROJ_NAME", m_commsGenerator.genCurrentSchema().genDisplayName()},
+        {"PROJ_NAME", util::genStrEscapeLiteral(m_commsGenerator.genCurrentSchema().genDisplayName())},
         {"APPEND", m_commsGenerator.genReadScriptCodeInjectCode(comms::genInputCodeRelPathForDoc(FileName) + strings::genAppendFileSuffixStr(), "Append here")},
     };
 
diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index df4168a..e92d1f8 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -869,7 +869,7 @@ std::string CommsEnumField::commsCommonValueNamesMapDirectBodyInternal() const
         auto addElementNameFunc =
             [&names, getDisplayNameFunc](auto& infoPair)
             {
-                names.push_back('\"' + getDisplayNameFunc(infoPair) + '\"');
+                names.push_back('\"' + util::genStrEscapeLiteral(getDisplayNameFunc(infoPair)) + '\"');
             };
 
         auto valIter = values.find(v.second);
@@ -999,7 +999,7 @@ std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInterna
             {
                 auto str =
                     "std::make_pair(ValueType::" +
-                    v.second + ", \"" + getDisplayNameFunc(infoPair) +
+                    v.second + ", \"" + util::genStrEscapeLiteral(getDisplayNameFunc(infoPair)) +
                     "\")";
                 names.push_back(std::move(str));
                 firstElem = false;
@@ -1088,7 +1088,7 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
                 auto str =
                     "std::make_pair(" +
                     getValueStrFunc(v.second) +
-                    ", \"" + getDisplayNameFunc(infoPair) +
+                    ", \"" + util::genStrEscapeLiteral(getDisplayNameFunc(infoPair)) +
                     "\")";
                 names.push_back(std::move(str));
                 firstElem = false;
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 5235e3a..c2b823e 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -754,7 +754,7 @@ std::string CommsField::commsCommonNameFuncCode() const
 
     util::GenReplacementMap repl = {
         {"SCOPE", comms::genScopeFor(m_genField, generator)},
-        {"NAME", util::genDisplayName(m_genField.genParseObj().parseDisplayName(), m_genField.genParseObj().parseName())},
+        {"NAME", util::genStrEscapeLiteral(util::genDisplayName(m_genField.genParseObj().parseDisplayName(), m_genField.genParseObj().parseName()))},
         {"CUSTOM", m_customCode.m_name}
     };
 
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 6d40103..7429473 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -763,7 +763,7 @@ std::string CommsMessage::commsCommonNameFuncInternal() const
 
     util::GenReplacementMap repl = {
         {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"NAME", util::genDisplayName(genParseObj().parseDisplayName(), genParseObj().parseName())}
+        {"NAME", util::genStrEscapeLiteral(util::genDisplayName(genParseObj().parseDisplayName(), genParseObj().parseName()))}
     };
 
     return util::genProcessTemplate(Templ, repl);
diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index 2f8cf22..54508fb 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -451,7 +451,7 @@ std::string CommsSetField::commsCommonBitNameFuncCodeInternal() const
         auto addElementNameFunc =
             [&names, getDisplayNameFunc](auto& infoPair)
             {
-                names.push_back('\"' + getDisplayNameFunc(infoPair) + '\"');
+                names.push_back('\"' + util::genStrEscapeLiteral(getDisplayNameFunc(infoPair)) + '\"');
             };
 
         auto bitIter = bits.find(b.second);
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index 982673f..86b13a1 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -171,7 +171,7 @@ std::string CommsStringField::commsDefConstructCodeImpl() const
         "Base::setValue(typename Base::ValueType(&Str[0], StrSize - 1));\n";
 
     util::GenReplacementMap repl = {
-        {"STR", defaultValue}
+        {"STR", util::genStrEscapeLiteral(defaultValue)}
     };
 
     return util::genProcessTemplate(Templ, repl);
@@ -307,7 +307,7 @@ std::string CommsStringField::commsDefValidFuncBodyImpl() const
             continue;
         }
 
-        values.push_back("\"" + info.m_value + "\"");
+        values.push_back("\"" + util::genStrEscapeLiteral(info.m_value) + "\"");
     }
 
     static const std::string Templ =
@@ -440,7 +440,7 @@ std::string CommsStringField::commsCompPrepValueStrImpl(const std::string& accSt
         valueTmp.assign(value, 1, std::string::npos);
     } while (false);
 
-    return CommsBase::commsCompPrepValueStrImpl(accStr, '\"' + valueTmp + '\"');
+    return CommsBase::commsCompPrepValueStrImpl(accStr, '\"' + util::genStrEscapeLiteral(valueTmp) + '\"');
 }
 
 std::string CommsStringField::commsDefFieldOptsInternal() const
diff --git a/lib/include/commsdsl/gen/util.h b/lib/include/commsdsl/gen/util.h
index 7413641..e61ef63 100644
--- a/lib/include/commsdsl/gen/util.h
+++ b/lib/include/commsdsl/gen/util.h
@@ -36,6 +36,7 @@ std::string genStrToName(const std::string& value);
 std::vector<std::string> genStrSplitByAnyChar(const std::string& str, const std::string& splitChars, bool compressed = true);
 std::vector<std::string> genStrSplit(const std::string& str, const std::string& sep, bool compressed = true);
 std::string genStrInsertIndent(const std::string& str);
+std::string genStrEscapeLiteral(const std::string& str);
 unsigned genStrToUnsigned(const std::string& str, bool* ok = nullptr);
 bool genStrStartsWith(const std::string& str, const std::string& prefix);
 bool genStrEndsWith(const std::string& str, const std::string& suffix);
diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index f7055e9..322ca38 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -272,6 +272,33 @@ std::string genStrInsertIndent(const std::string& str)
     return strings::genIndentStr() + genStrReplace(str, "\n", "\n" + strings::genIndentStr());
 }
 
+std::string genStrEscapeLiteral(const std::string& str)
+{
+    std::string result;
+    result.reserve(str.size());
+    for (auto ch : str) {
+        if ((ch == '\"') || (ch == '\\')) {
+            result.push_back('\\');
+            result.push_back(ch);
+            continue;
+        }
+
+        auto code = static_cast<unsigned>(static_cast<unsigned char>(ch));
+        if ((code < 0x20U) || (code == 0x7fU)) {
+            // Three octal digits, i.e. cannot be extended by the following characters
+            result.push_back('\\');
+            result.push_back(static_cast<char>('0' + ((code >> 6U) & 0x7U)));
+            result.push_back(static_cast<char>('0' + ((code >> 3U) & 0x7U)));
+            result.push_back(static_cast<char>('0' + (code & 0x7U)));
+            continue;
+        }
+
+        result.push_back(ch);
+    }
+
+    return result;
+}
+
 unsigned genStrToUnsigned(const std::string& str, bool* ok)
 {
     unsigned result = 0U;
-- 
2.43.0

