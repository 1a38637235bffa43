From 90f13cbfd41ed7dc442c69906434213992734e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 01/59] fix: generator loops forever on a function whose
 declaration starts with a macro

The walk over the tokens before the function name started from a location
inside a macro expansion (e.g. the bool macro of stdbool.h), where raw tokens
cannot be read; an empty token made it loop forever.
---
 .../src/LLVMParser/LLVMParser.cpp               | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 2d6c2b0..ba05f08 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -431,12 +431,19 @@ private:
      * This is needed because some attribute like "noreturn" aren't part of the function attribute list for
      * LLVM.
      */
-    clang::SourceLocation itrSource = beginSourceLocation;
-    while(m_SM->isBeforeInTranslationUnit(itrSource,startOfFunNameLocation))
+    /*
+     * Raw tokens can only be read from a file location. Walking through the tokens from a location which is inside a
+     * macro expansion (e.g. the bool macro of stdbool.h) gives unrelated tokens and can loop forever.
+     */
+    clang::SourceLocation itrSource = m_SM->getExpansionLoc(beginSourceLocation);
+    const clang::SourceLocation endSource = m_SM->getExpansionLoc(startOfFunNameLocation);
+    while(m_SM->isBeforeInTranslationUnit(itrSource, endSource))
     {
-      //itrSource = clang::Lexer::GetBeginningOfToken(itrSource, *m_SM, *m_LO);
       clang::Token rawToken;
-      clang::Lexer::getRawToken(itrSource, rawToken, *m_SM, *m_LO, true);
+      if(clang::Lexer::getRawToken(itrSource, rawToken, *m_SM, *m_LO, true) || rawToken.getLength() == 0)
+      {
+        break;
+      }
 
       clang::CharSourceRange dumpSourceRange = clang::Lexer::getAsCharRange(rawToken.getLocation(), *m_SM, *m_LO);
       dumpSourceRange.setEnd(rawToken.getEndLoc());
@@ -452,7 +459,7 @@ private:
           removeFromString(declString, std::move(currentTokenStr), md.hasParameters());
         }
       }
-      itrSource = itrSource.getLocWithOffset(currentTokenStr.length());
+      itrSource = rawToken.getEndLoc();
     }
 
     declString = std::regex_replace(declString, removeAttrRegex, "");
-- 
2.43.0


From 522e9bb531f821f137ae3d6a483567bc290ac823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 02/59] fix: function attributed to an unrelated namespace of
 the header

The enclosing namespace was looked up among the declarations of the enclosing
contexts, so a function of a second namespace, or a class member following a
namespace, was generated in the first namespace of the header.
---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index ba05f08..cb3d934 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -479,16 +479,10 @@ private:
       return getGlobalNamespace();
     }
     const clang::DeclContext* parentContext = declContext->getParent();
-    for(auto lookup : declContext->lookups())
+    const auto* namespaceDecl = llvm::dyn_cast<clang::NamespaceDecl>(declContext);
+    if(namespaceDecl)
     {
-      for (auto namedDecl: lookup)
-      {
-        if(namedDecl->getKind() == clang::Decl::Kind::Namespace)
-        {
-          const auto enclosingNamespace = getNamespace(parentContext);
-          return std::make_shared<const Namespace>(namedDecl->getNameAsString(), enclosingNamespace);
-        }
-      }
+      return std::make_shared<const Namespace>(namespaceDecl->getNameAsString(), getNamespace(parentContext));
     }
     return getNamespace(parentContext);
   }
-- 
2.43.0


From 216cf39ef2568f80b7469452adf19ea8d7be375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 03/59] fix: signed char is mocked as char

The mock of a function using signed char conflicted with its declaration in C
and was another overload in C++.
---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index cb3d934..0393835 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -666,6 +666,11 @@ private:
       }
       else
 #endif
+      if(type.isSpecificBuiltinType(clang::BuiltinType::SChar))
+      {
+        cType = std::make_shared<CType>(CTYPE_SCHAR);
+      }
+      else
       {
         cType = std::make_shared<CType>(CTYPE_CHAR);
       }
-- 
2.43.0


From 0898a48184f2bd6feff3a937878e4baabaaf1380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 04/59] fix: _Bool is mocked as unsigned int

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 0393835..e5ebb38 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -723,6 +723,11 @@ private:
     {
       cType->setUnsigned(true);
     }
+    if(isBoolType(type))
+    {
+      //There is no boolean CType. The type is spelled _Bool in C and bool in C++.
+      cType->setName(nakedDeclString);
+    }
     const std::string typedefName = getTypedefName(type);
     std::shared_ptr<TypeItf> returnedType = cType;
     if(!typedefName.empty())
-- 
2.43.0


From 5daf9b4daeb7bef1d8248a5db3006575be6fe5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 05/59] fix: comparator of a nested struct is called by another
 name than its own

---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp   | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 3eab7b3..ab4cc34 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1813,11 +1813,6 @@ void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictio
       ifPreSectionDict->SetValue(STRUCT_COMPARE_PRE_IF_SECTION_VAR_NAME, preFieldVarName.c_str());
       std::string condition {};
       condition.append("cmp_");
-      if(curFieldComposableType && curFieldComposableType->isDeclarationEmbeddedInOtherType() && p_uniquePrepend.size() > 0)
-      {
-        condition.append(p_uniquePrepend);
-        condition.push_back('_');
-      }
       if(curFieldComposableType)
       {
         condition.append(getComparatorName(curFieldComposableType));
@@ -2271,14 +2266,6 @@ void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const Composabl
   }
   m_generatedComparator.insert(uniqueName);
 
-  if(p_composedType->isDeclarationEmbeddedInOtherType())
-  {
-    if(!(p_uniquePrepend.size() == 1 && p_uniquePrepend[0] == '_'))
-    {
-      uniqueName = p_uniquePrepend + uniqueName;
-    }
-  }
-
   const std::string& composableTypeName = getMostDefinedName(p_composedType);
   p_declPrepend.append(composableTypeName);
 
-- 
2.43.0


From 5ae65fc0c45a1f9068c6ad0b0a6d8918a208689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 06/59] fix: parameters named errorMessage or curCallVal are
 not the ones compared

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index ab4cc34..972be76 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -647,14 +647,14 @@ const char templateText[] =
         IF_SECTION_EXISTS(C_ONLY_SECTION,
         "    if(" CURRENT_DATA_CALL_MEMBER(FUNCTION_MOCK_DATA_CUR_MATCH_VAR) " != easyMock_null)" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
-        "        char errorMessage[EASYMOCK_MAX_CMP_ERR] = {0};" CARRIAGE_RETURN
-        "        void *curCallVal = (void *) &" PARAMETER_NAME("") ";" CARRIAGE_RETURN
+        "        char easyMock_errorMessage[EASYMOCK_MAX_CMP_ERR] = {0};" CARRIAGE_RETURN
+        "        void *easyMock_curCallVal = (void *) &" PARAMETER_NAME("") ";" CARRIAGE_RETURN
         "        void *expectedCallVal = (void *) &" CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME("")) ";" CARRIAGE_RETURN
         "        EasyMock_Matcher matcher = " CURRENT_DATA_CALL_MEMBER(FUNCTION_MOCK_DATA_CUR_MATCH_VAR) ";" CARRIAGE_RETURN
-        "        int error = matcher(curCallVal, expectedCallVal, \"" PARAMETER_NAME("") "\", errorMessage);" CARRIAGE_RETURN
+        "        int error = matcher(easyMock_curCallVal, expectedCallVal, \"" PARAMETER_NAME("") "\", easyMock_errorMessage);" CARRIAGE_RETURN
         "        if(error)" CARRIAGE_RETURN
         "        {" CARRIAGE_RETURN
-        "            easyMock_addError(printCallStack, \"Error : at call %d of '%s': %s\", MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "), MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), errorMessage);" CARRIAGE_RETURN
+        "            easyMock_addError(printCallStack, \"Error : at call %d of '%s': %s\", MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "), MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), easyMock_errorMessage);" CARRIAGE_RETURN
         "        }" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         )
-- 
2.43.0


From 0ab3488eb1f99a4523a2ed210c8551bd50b8c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 07/59] fix: the order of the calls is not checked by default
 as documented

---
 src/easyMockFramework/src/easyMock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockFramework/src/easyMock.cpp b/src/easyMockFramework/src/easyMock.cpp
index 3a751e4..b78b0f3 100644
--- a/src/easyMockFramework/src/easyMock.cpp
+++ b/src/easyMockFramework/src/easyMock.cpp
@@ -44,7 +44,7 @@ class EasyMock
 public:
 
   EasyMock() :
-  m_checkCallsOrder(false)
+  m_checkCallsOrder(true)
 #if defined(BACKTRACE_SUPPORT)
   , m_printCallStack(true)
 #endif
-- 
2.43.0


From cbff2ac8d2f323dab9e1a4bf9653b838e3e16dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 08/59] fix: headers whose names differ after a dot share the
 include guard of their mock

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 972be76..f060032 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2,6 +2,7 @@
  *
  * \brief See CodeGeneratorCTemplate.hpp
  */
+#include <cctype>
 #include <cstdio>
 #include <algorithm>
 #include <cstring>
@@ -1307,7 +1308,8 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   const auto& fList = p_ctxt.getElementToMock();
   std::string fileNameWithoutExtUpper = p_mockedHeader.substr(0, p_mockedHeader.find_last_of("."));
   std::transform(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), fileNameWithoutExtUpper.begin(), ::toupper);
-  std::replace( fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), '-', '_');
+  //A character which can't be part of an identifier would end the name of the include guard there.
+  std::replace_if(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), [](unsigned char c) { return !std::isalnum(c); }, '_');
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
   std::unordered_set<std::size_t> generatedElements;
   for (const auto& fun: fList)
-- 
2.43.0


From 03cdd5cf75e7c475dea24ba09c6d03cc0ca16bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:27 +0000
Subject: [PATCH 09/59] fix: storage class spelled by a macro becomes part of
 the mocked return type

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index e5ebb38..1981ab8 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -453,8 +453,10 @@ private:
       {
         const MacroDefinition& md = m_ctxt.getMacroDefinition(currentTokenStr);
         std::string macroStr = md.getDefinition();
-        std::smatch match;
-        if(macroStr.empty() || std::regex_match(macroStr, match, removeAttrRegex))
+        //What remains once the attributes and the storage class are removed is the part of the type which the macro spells.
+        static std::regex removeStorageRegex{"\\b(extern|static|__?inline(__)?|inline|__extension__)\\b"};
+        macroStr = trim(std::regex_replace(std::regex_replace(macroStr, removeAttrRegex, ""), removeStorageRegex, ""));
+        if(macroStr.empty())
         {
           removeFromString(declString, std::move(currentTokenStr), md.hasParameters());
         }
-- 
2.43.0


From efa4d660fc96dc8b43123e87f571e5521a21a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 10/59] fix: 128-bit values are reported without the zeros
 inside them

---
 src/easyMockFramework/src/easyMock_matcher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockFramework/src/easyMock_matcher.cpp b/src/easyMockFramework/src/easyMock_matcher.cpp
index ec659c2..26a3663 100644
--- a/src/easyMockFramework/src/easyMock_matcher.cpp
+++ b/src/easyMockFramework/src/easyMock_matcher.cpp
@@ -68,7 +68,7 @@ extern "C" int cmp_int128(const void *currentCall_ptr, const void *expectedCall_
   uint64_t highDigitCurrent = currentCall_val >> 64;
   uint64_t highDigitExpected = expectedCall_val >> 64;
   std::snprintf(errorMessage, EASYMOCK_MAX_CMP_ERR,
-  "Parameter '%s' has value '%#" PRIx64 "%" PRIx64 "', was expecting '%#" PRIx64 "%" PRIx64 "'",
+  "Parameter '%s' has value '%#" PRIx64 "%016" PRIx64 "', was expecting '%#" PRIx64 "%016" PRIx64 "'",
         paramName, highDigitCurrent, lowDigitCurrent, highDigitExpected, lowDigitExpected);
   return -1;
 }
@@ -85,7 +85,7 @@ extern "C" int cmp_uint128(const void *currentCall_ptr, const void *expectedCall
   uint64_t highDigitCurrent = currentCall_val >> 64;
   uint64_t highDigitExpected = expectedCall_val >> 64;
   std::snprintf(errorMessage, EASYMOCK_MAX_CMP_ERR,
-  "Parameter '%s' has value '%#" PRIx64 "%" PRIx64 "', was expecting '%#" PRIx64 "%" PRIx64 "'",
+  "Parameter '%s' has value '%#" PRIx64 "%016" PRIx64 "', was expecting '%#" PRIx64 "%016" PRIx64 "'",
         paramName, highDigitCurrent, lowDigitCurrent, highDigitExpected, lowDigitExpected);
   return -1;
 }
-- 
2.43.0


From d730a2ca14639d1adc3a36d229d4fc507ca5e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:36 +0000
Subject: [PATCH 11/59] fix: unnamed parameter declared through a macro loses
 its pointer

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 1981ab8..f083e71 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -515,7 +515,9 @@ private:
        * See VoidFunUnnamedPtrParam test for reproduction scenario.
        * See VoidFunEnumFactory (unnamed param) test for reproduction scenario.
        */
-      if(beginLoc.isMacroID() || parameterRawType->isImplicit())
+      //The declaration of an unnamed parameter ends with its type and not with a name which can be cut off.
+      const bool isNamed = !paramName.empty();
+      if((beginLoc.isMacroID() && isNamed) || parameterRawType->isImplicit())
       {
         std::string declareString = getDeclareString(beginLoc, param->getEndLoc(), false);
         setDeclaratorDeclareString(paramQualType, &p, declareString);
-- 
2.43.0


From b0c4ec3c8020e79ac58007512e16c563c532ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 12/59] fix: const _Bool is mocked with the const twice

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index f083e71..ba1f216 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -730,7 +730,7 @@ private:
     if(isBoolType(type))
     {
       //There is no boolean CType. The type is spelled _Bool in C and bool in C++.
-      cType->setName(nakedDeclString);
+      cType->setName(clang::QualType(&type, 0).getCanonicalType().getUnqualifiedType().getAsString());
     }
     const std::string typedefName = getTypedefName(type);
     std::shared_ptr<TypeItf> returnedType = cType;
-- 
2.43.0


From d626fa5dad0bb25fc20d6b4fb7bb78909d2323bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 13/59] fix: comparator reads a typedef'd pointer field as the
 structure it points to

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp          | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index f060032..79da9b5 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1772,8 +1772,7 @@ void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictio
   static unsigned int s_nbAnonymousField = 0;
 
   const TypeItf* curFieldType = p_curField->getType();
-  const TypeItf* unqualType = curFieldType->unqualify();
-  const bool isPointer = unqualType->isPointer();
+  const bool isPointer = getUnqualifiedAndUntypedefType(curFieldType)->isPointer();
   const TypeItf* rawCurFieldType = getRawType(curFieldType);
   const ComposableType* curFieldComposableType = rawCurFieldType->asComposableType();
   const IncompleteType* incompleteType = rawCurFieldType->asIncompleteType();
-- 
2.43.0


From 2ae1b1a4c34a2955aad38dfdf709175a00c74e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 14/59] fix: comments inside a declaration become part of the
 mocked type

---
 .../src/LLVMParser/LLVMParser.cpp             | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index ba1f216..334c679 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -528,21 +528,29 @@ private:
     return vectParam;
   }
 
-  std::string removeComments(std::string declareString)
+  std::string removeComments(const std::string& declareString)
   {
-    static std::regex oneLineCommentRegex{"//.*\n"};
-    declareString = std::regex_replace(declareString, oneLineCommentRegex, "");
-    for(auto& c : declareString)
+    std::string res;
+    for(size_t i = 0; i < declareString.size(); i++)
     {
-      if(c == '\n')
+      const bool isBlockComment = declareString.compare(i, 2, "/*") == 0;
+      const bool isLineComment = declareString.compare(i, 2, "//") == 0;
+      if(isBlockComment || isLineComment)
       {
-        c = ' ';
+        size_t end = isBlockComment ? declareString.find("*/", i + 2) : declareString.find('\n', i + 2);
+        if(end == std::string::npos)
+        {
+          break;
+        }
+        //A comment separates what is around it
+        res.push_back(' ');
+        i = isBlockComment ? end + 1 : end;
+        continue;
       }
+      res.push_back(declareString[i] == '\n' ? ' ' : declareString[i]);
     }
-    static std::regex commentRegex{"/\\*.*\\*/"};
-    declareString = std::regex_replace(declareString, commentRegex, "");
 
-    return declareString;
+    return res;
   }
 
   std::string getDeclareString(const clang::SourceLocation& startLoc, const clang::SourceLocation& endLoc, bool fieldDecl)
@@ -550,7 +558,7 @@ private:
     clang::CharSourceRange charSourceRange = clang::Lexer::getAsCharRange(startLoc, *m_SM, *m_LO);
     charSourceRange.setEnd(endLoc);
     clang::StringRef strRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
-    std::string declareString = strRef.str();
+    std::string declareString = removeComments(strRef.str());
     /*
      * When a declaration is inlined, we ignore the whole declaration in this way
      */
@@ -586,7 +594,6 @@ private:
         declareString.pop_back();
       }
     }
-    declareString = removeComments(std::move(declareString));
     declareString = trim(std::move(declareString));
 
     return declareString;
-- 
2.43.0


From fcb7e8b40269e4c24a40c362b4bd240585fb8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 15/59] fix: array parameter declared through a macro is mocked
 as its element

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 334c679..32c3aff 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -517,7 +517,9 @@ private:
        */
       //The declaration of an unnamed parameter ends with its type and not with a name which can be cut off.
       const bool isNamed = !paramName.empty();
-      if((beginLoc.isMacroID() && isNamed) || parameterRawType->isImplicit())
+      //The declaration of an array does not spell the pointer it stands for.
+      const bool isArray = param->getOriginalType()->isArrayType();
+      if((beginLoc.isMacroID() && isNamed && !isArray) || parameterRawType->isImplicit())
       {
         std::string declareString = getDeclareString(beginLoc, param->getEndLoc(), false);
         setDeclaratorDeclareString(paramQualType, &p, declareString);
-- 
2.43.0


From 0af67aa468180353c72b4b66690463fcee4dff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 16/59] fix: function declared again with other qualifiers on
 its parameters is mocked twice

---
 src/easyMockGenerate/src/Function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/Function.cpp b/src/easyMockGenerate/src/Function.cpp
index e2a113a..b85d253 100644
--- a/src/easyMockGenerate/src/Function.cpp
+++ b/src/easyMockGenerate/src/Function.cpp
@@ -184,7 +184,8 @@ std::size_t Function::getRawHash() const noexcept
   boost::hash_combine(seed, m_name);
   for(const auto& param: m_parameters)
   {
-    const TypeItf* typeItf = param.getType();
+    //The qualifiers of a parameter itself are not part of the type of a function
+    const TypeItf* typeItf = param.getType()->unqualify();
     boost::hash_combine(seed, typeItf->getRawHash());
   }
   const TypeItf* typeItf = m_returnType.getType();
-- 
2.43.0


From 0122f3b6f6ac024d7e975b45ea136815ee0d51b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 17/59] fix: removing nested qualifiers from a type never ends

---
 src/easyMockGenerate/src/TypeItf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/TypeItf.cpp b/src/easyMockGenerate/src/TypeItf.cpp
index 6839233..092a25c 100644
--- a/src/easyMockGenerate/src/TypeItf.cpp
+++ b/src/easyMockGenerate/src/TypeItf.cpp
@@ -123,7 +123,7 @@ const TypeItf* TypeItf::unqualify() const
   const TypeItf* unqualifiedType = this;
   while(unqualifiedType->m_isQualifiedType)
   {
-    unqualifiedType = static_cast<const QualifiedType*>(this)->getUnqualifiedType();
+    unqualifiedType = static_cast<const QualifiedType*>(unqualifiedType)->getUnqualifiedType();
   }
   return unqualifiedType;
 }
-- 
2.43.0


From e87c3ef273dd6581bc3d046f05a0b72ecde19645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 18/59] fix: generator aborts on a bitfield of enum or
 qualified type

---
 .../include/ComposableBitfield.h                 |  8 ++++++++
 src/easyMockGenerate/src/ComposableBitfield.cpp  | 16 ++++++++++++----
 .../src/LLVMParser/LLVMParser.cpp                |  5 ++---
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/easyMockGenerate/include/ComposableBitfield.h b/src/easyMockGenerate/include/ComposableBitfield.h
index b63e903..2c1b793 100644
--- a/src/easyMockGenerate/include/ComposableBitfield.h
+++ b/src/easyMockGenerate/include/ComposableBitfield.h
@@ -52,6 +52,14 @@ public:
    */
   bool isComposableBitfield() const override;
 
+  /*!
+   * \brief Tells whether a bitfield can be declared with the given type.
+   *
+   * It is the case for the types, qualified or not and possibly named via
+   * a typedef, which are a ::CType or an ::Enum.
+   */
+  static bool isValidType(const TypeItf* p_type);
+
   /*!
    * \brief Get the number of bit that the bitfield has.
    */
diff --git a/src/easyMockGenerate/src/ComposableBitfield.cpp b/src/easyMockGenerate/src/ComposableBitfield.cpp
index f0702c7..94a7e7f 100644
--- a/src/easyMockGenerate/src/ComposableBitfield.cpp
+++ b/src/easyMockGenerate/src/ComposableBitfield.cpp
@@ -1,6 +1,7 @@
 #include <ComposableBitfield.h>
 
 #include <EasyMock_CType.h>
+#include <QualifiedType.h>
 #include <TypedefType.h>
 
 #include <boost/functional/hash.hpp>
@@ -18,15 +19,22 @@ m_cachedHash{0}
 {
   TypeItf* typeItf = getType();
   assert(typeItf);
-  TypedefType* typedefType = typeItf->asTypedefType();
+  assert(isValidType(typeItf));
+}
+
+bool ComposableBitfield::isValidType(const TypeItf* p_type)
+{
+  const TypedefType* typedefType = p_type->asTypedefType();
   if(typedefType)
   {
-    assert(typedefType->getMostDefinedTypee()->isCType());
+    return isValidType(typedefType->getMostDefinedTypee());
   }
-  else
+  const QualifiedType* qualifiedType = p_type->asQualifiedType();
+  if(qualifiedType)
   {
-    assert(typeItf->isCType());
+    return isValidType(qualifiedType->getUnqualifiedType());
   }
+  return p_type->isCType() || p_type->isEnum();
 }
 
 bool ComposableBitfield::operator==(const ComposableBitfield &other) const
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 32c3aff..acaa492 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -924,10 +924,9 @@ private:
 
         if (FD->isBitField())
         {
-          TypedefType *typedefFieldType = fieldType->asTypedefType();
-          if (!fieldType->isCType() && (typedefFieldType && !typedefFieldType->getMostDefinedTypee()->isCType()))
+          if (!ComposableBitfield::isValidType(fieldType.get()))
           {
-            fprintf(stderr, "Type must be CType for bitfields");
+            fprintf(stderr, "Type must be CType or Enum for bitfields");
             typePtr->dump();
             assert(false);
           }
-- 
2.43.0


From fda68b33be0b5dece9b82239c56cbf50106ed039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:16 +0000
Subject: [PATCH 19/59] fix: output of a typedef'd incomplete type takes the
 size of the type

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 79da9b5..264b08f 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1659,6 +1659,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
+        pointedType = getUnqualifiedAndUntypedefType(pointedType);
         const ComposableType* composableTypeField = pointedType->asComposableType();
         if(pointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared()))
         {
-- 
2.43.0


From b3775bfeecd5f673693604a1653bf634d05ec26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 20/59] fix: comparator prints garbage for the 128-bit fields
 which differ

---
 .../CodeGeneratorCTemplate.cpp                | 19 ++++++++++++++++---
 .../src/EasyMockGenerateTypes.cpp             |  4 ++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 264b08f..77927cd 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -201,6 +201,8 @@
 #define ERROR_PRINTF_VAL_SPECIFIC_CAST_VAR "ERROR_PRINTF_VAL_SPECIFIC_CAST_VAR"
 #define ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR TEMPLATE_VAR(ERROR_PRINTF_VAL_SPECIFIC_CAST_VAR)
 
+#define ERROR_PRINTF_INT128_SECTION "ERROR_PRINTF_INT128_SECTION"
+
 #define EXTRA_DECL_SECTION "EXTRA_DECL_SECTION"
 #define EXTRA_TOP_LEVEL_DECL_SECTION "EXTRA_TOP_LEVEL_DECL_SECTION"
 
@@ -442,6 +444,12 @@ FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 #define STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR TEMPLATE_VAR(STRUCT_COMPARE_PRINTF_FORMAT)
 #define STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR TEMPLATE_VAR(STRUCT_COMPARE_TYPE)
 
+/*!
+ * \brief Helper macro to print a 128 bits field as its high digits followed by its low digits.
+ */
+#define ERROR_PRINTF_INT128_HIGH_DIGITS(VAL) \
+  IF_SECTION_EXISTS(ERROR_PRINTF_INT128_SECTION, "(unsigned long long)(" VAL "->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR " >> 64), (unsigned long long)")
+
 #define COMPOSED_TYPED_COMPARE_FUNCTION_SIGNATURE \
 "int cmp_" COMPOSED_TYPED_COMPARE_SECTION_UNIQUE_NAME_VAR "(const void *currentCall_ptr, const void *expectedCall_ptr, const char *paramName, char *errorMessage )"
 
@@ -526,7 +534,7 @@ const char templateText[] =
         "    if(" STRUCT_COMPARE_PARAM_SECTION_COMPARE_CONDITION_VAR ")" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(STRUCT_COMPARE_ERROR)
-        "        easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName, " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ", " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ");" CARRIAGE_RETURN
+        "        easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName, " ERROR_PRINTF_INT128_HIGH_DIGITS("currentCall_val") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ", " ERROR_PRINTF_INT128_HIGH_DIGITS("expectedCall_val") IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ");" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(STRUCT_COMPARE_ERROR)
         "        return -1;" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
@@ -542,7 +550,7 @@ const char templateText[] =
         "        if(" STRUCT_COMPARE_PARAM_SECTION_COMPARE_CONDITION_VAR ")" CARRIAGE_RETURN
         "        {" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(STRUCT_COMPARE_ERROR)
-        "            easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field array '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' " PRINT_CMP_ARRAY_IDX " with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName" PRINT_CMP_ARRAY_IDX_value ",  currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ", expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ");" CARRIAGE_RETURN
+        "            easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field array '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' " PRINT_CMP_ARRAY_IDX " with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName" PRINT_CMP_ARRAY_IDX_value ",  " ERROR_PRINTF_INT128_HIGH_DIGITS("currentCall_val") "currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ", " ERROR_PRINTF_INT128_HIGH_DIGITS("expectedCall_val") "expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ");" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(STRUCT_COMPARE_ERROR)
         "            return -1;" CARRIAGE_RETURN
         "        }" CARRIAGE_RETURN
@@ -1874,7 +1882,12 @@ void CodeGeneratorCTemplate::setStructCompareStringFormat(ctemplate::TemplateDic
   }
   else if(p_curFieldType->isCType())
   {
-    p_errorDict->SetValue(STRUCT_COMPARE_PRINTF_FORMAT, easyMock_printfFormat[p_curFieldType->getCType()]);
+    const easyMock_cTypes_t cType = p_curFieldType->getCType();
+    p_errorDict->SetValue(STRUCT_COMPARE_PRINTF_FORMAT, easyMock_printfFormat[cType]);
+    if(cType == CTYPE_INT128 || cType == CTYPE_UINT128)
+    {
+      p_errorDict->AddSectionDictionary(ERROR_PRINTF_INT128_SECTION);
+    }
   }
   else
   {
diff --git a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
index e9171d5..6cb982d 100644
--- a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
+++ b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
@@ -42,8 +42,8 @@ const char *easyMock_printfFormat[] =
   "f",
   "lf",
   "Lf",
-  "lf%lf",
-  "Lf%Lf",
+  "#llx%016llx",
+  "#llx%016llx",
   "voidInvalidPrintfFormat",
   "invalidPrintfFormat"
 };
-- 
2.43.0


From b44de5f9522fe6ad9076576bf5d9732431047ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 21/59] fix: generated enum loses constants which are negative,
 wide or share a value

The constants were kept in a map keyed by unsigned int: of the constants
sharing a value only the first was generated, and values were reduced
modulo 2^32.
---
 src/easyMockGenerate/include/Enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/Enum.h b/src/easyMockGenerate/include/Enum.h
index 714131e..5608992 100644
--- a/src/easyMockGenerate/include/Enum.h
+++ b/src/easyMockGenerate/include/Enum.h
@@ -25,7 +25,7 @@ public:
   /*!
    * \brief Type used to store enum values
    */
-  using listOfValuesType = std::map<unsigned int, std::string>;
+  using listOfValuesType = std::multimap<int64_t, std::string>;
 
   /*!
    * \brief Creates an enum
-- 
2.43.0


From 36c9879392a3102ff9b280c6ac793befb5f099fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 22/59] fix: generated typedef of a pointer to an anonymous or
 typedef'd type does not compile

typedef s *sp; with s naming an anonymous structure was generated with the
name of the anonymous structure behind the star, and before s.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp     | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 77927cd..333d558 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2506,6 +2506,8 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
 
   const TypeItf* typeeType = typedefType->getTypee();
   const std::string& typedefName = typedefType->getName();
+  //A typedef which is pointed to must be declared first
+  generateSimpleTypeDef(getMostPointedType(typeeType)->unqualify());
   /*
    * getFullDeclarationName gives all all the necessary qualifiers without the
    * typedef (p_naked == true).
@@ -2519,9 +2521,11 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
 
   if(!isRawTypeFunctionType)
   {
-    if (rawType->getName().empty())
+    if (rawType->getName().empty() && !typeeType->containsTypeDef())
     {
-      localType += std::string{" "} + getAnonymousName(rawType);
+      //The name comes right after the keyword, e.g. typedef const struct {int a;} *sp; is printed as "struct const*"
+      const std::size_t endOfKeyword = std::min(localType.find_first_of(" *"), localType.size());
+      localType.insert(endOfKeyword, std::string{" "} + getAnonymousName(rawType));
     }
     typeDefDict->SetValue(GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_VAR, typedefName);
   }
-- 
2.43.0


From 2f5e8ee84c5db3efd9a3fcf15ead52d38091332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 23/59] fix: typedef of the type of a bitfield is generated
 without the type

The type of a bitfield was not declared before the structure, so a bitfield
of a typedef'd enum did not compile with --generate-types.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 333d558..ffd1c41 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2023,9 +2023,9 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
               generateDeclarationOfUsedType(p_parentDictionary, composableFieldType, false);
             }
           },
-          [](const auto &)
+          [this, &p_parentDictionary](const ComposableBitfield &composableBitfield)
           {
-            //Nothing to do for types other than ComposableField
+            generateDeclarationOfUsedType(p_parentDictionary, composableBitfield.getType(), false);
           }
         },fItf);
       }
-- 
2.43.0


From 98f6b3c6eeb2d77ee89f7fdbfec5778280176641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 24/59] fix: flexible array member is generated as a single
 element

With --generate-types, struct s { int n; char a[]; }; was generated with
char a; and another size.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp     | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index ffd1c41..ae66077 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2201,6 +2201,10 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
             curFieldName.append(std::to_string(curCompField->getArraySize()));
             curFieldName.push_back(']');
           }
+          else if(curCompField && curCompField->isUnboundSpecifiedArray())
+          {
+            curFieldName.append("[]");
+          }
           subAnonymousDeclDict->AddSectionDictionary(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_SECTION)->SetValue(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_VAR, curFieldName);
         }
       }
@@ -2219,6 +2223,10 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
           fieldName.append(std::to_string(curCompField->getArraySize()));
           fieldName.push_back(']');
         }
+        else if(curCompField && curCompField->isUnboundSpecifiedArray())
+        {
+          fieldName.append("[]");
+        }
         if(curField.isComposableBitfield())
         {
           const ComposableBitfield *curComposableBitfield = dynamic_cast<const ComposableBitfield*>(&curField);
-- 
2.43.0


From f968f3655857e10634a9b8448830584f6b2b14e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 25/59] fix: relative -i and -o are not taken from the
 directory given to --cwd

They were looked up in the initial directory while the command line was
parsed, and in the new one afterwards.
---
 .../src/CmdLineParser/CmdLineParser.cpp       | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index f6e7819..a725a93 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -51,12 +51,6 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
       }
       else
       {
-        if(!fs::is_regular_file(opt.m_inputHeaderFile))
-        {
-          opt.m_errorMessage = g_inputFileIsntRegular;
-          opt.m_inputHeaderFile.clear();
-          return opt;
-        }
         argIdx++;
       }
     }
@@ -74,12 +68,6 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
       }
       else
       {
-        if(!fs::is_directory(opt.m_outputDir))
-        {
-          opt.m_errorMessage = g_outputDirIsntDir;
-          opt.m_outputDir.clear();
-          return opt;
-        }
         argIdx++;
       }
     }
@@ -223,6 +211,20 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
       opt.m_extraArgs.emplace_back(std::string(argv[argIdx]));
     }
   }
+  //The relative paths are relative to the directory given to --cwd, wherever that option is on the command line
+  const fs::path workingDir { opt.m_changeWorkingDir };
+  if(!opt.m_inputHeaderFile.empty() && !fs::is_regular_file(workingDir / opt.m_inputHeaderFile))
+  {
+    opt.m_errorMessage = g_inputFileIsntRegular;
+    opt.m_inputHeaderFile.clear();
+    return opt;
+  }
+  if(!opt.m_outputDir.empty() && !fs::is_directory(workingDir / opt.m_outputDir))
+  {
+    opt.m_errorMessage = g_outputDirIsntDir;
+    opt.m_outputDir.clear();
+    return opt;
+  }
   if(opt.m_inputHeaderFile.empty())
   {
     opt.m_errorMessage = g_errorInputMissing;
-- 
2.43.0


From 83b433da67459e0a867f831107d5608c6547a352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 26/59] fix: generator aborts on a path which cannot be looked
 up

The file system library throws for a name which is too long or a loop of
symbolic links; now the path is reported as not valid.
---
 src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index a725a93..2246749 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -1,6 +1,7 @@
 #include "CmdLineParser.h"
 
 #include <string>
+#include <system_error>
 
 #if __has_include(<filesystem>)
 #include <filesystem>
@@ -213,13 +214,14 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
   }
   //The relative paths are relative to the directory given to --cwd, wherever that option is on the command line
   const fs::path workingDir { opt.m_changeWorkingDir };
-  if(!opt.m_inputHeaderFile.empty() && !fs::is_regular_file(workingDir / opt.m_inputHeaderFile))
+  std::error_code errorCode; //A path which cannot be looked up is reported as well
+  if(!opt.m_inputHeaderFile.empty() && !fs::is_regular_file(workingDir / opt.m_inputHeaderFile, errorCode))
   {
     opt.m_errorMessage = g_inputFileIsntRegular;
     opt.m_inputHeaderFile.clear();
     return opt;
   }
-  if(!opt.m_outputDir.empty() && !fs::is_directory(workingDir / opt.m_outputDir))
+  if(!opt.m_outputDir.empty() && !fs::is_directory(workingDir / opt.m_outputDir, errorCode))
   {
     opt.m_errorMessage = g_outputDirIsntDir;
     opt.m_outputDir.clear();
-- 
2.43.0


From dbcc3409391ba83b6cb7422d3e7479938ed323ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 27/59] fix: generator exits with success when a mock cannot be
 written

The result of the code generator was ignored, and a write which fails when
the file is closed was not noticed.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp        | 5 +++--
 src/easyMockGenerate/src/MainCodeGenerator.cpp               | 3 +--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index ae66077..31e62bf 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2420,9 +2420,10 @@ bool CodeGeneratorCTemplate::generateCodeToFile(const std::string &p_outDir, con
     goto closeFile;
   }
 closeFile:
-  if (f != nullptr)
+  if (f != nullptr && std::fclose(f) != 0)
   {
-    std::fclose(f);
+    std::fprintf(stderr, "Error writing into %s: %s", outFilename.c_str(), strerror(errno));
+    rv = false;
   }
 
   return rv;
diff --git a/src/easyMockGenerate/src/MainCodeGenerator.cpp b/src/easyMockGenerate/src/MainCodeGenerator.cpp
index 186124c..4c9dddc 100644
--- a/src/easyMockGenerate/src/MainCodeGenerator.cpp
+++ b/src/easyMockGenerate/src/MainCodeGenerator.cpp
@@ -17,6 +17,5 @@ bool MainCodeGenerator::generateCode(const std::string &outDir, bool ignoreParse
     fprintf(stderr, "Parsing of %s failed.\n\r", m_filename.c_str());
     return false;
   }
-  m_codeGeneratorItf.generateCode(outDir, m_filename, ctxt);
-  return true;
+  return m_codeGeneratorItf.generateCode(outDir, m_filename, ctxt);
 }
-- 
2.43.0


From fbd25255c3c34c993a92ea1daf274465fc6d2536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 28/59] fix: pointer to a typedef'd function pointer is
 declared as a function

cb_t *cb was generated as cb_t *cb)(int), in parameters, return types and
fields.
---
 .../CodeGeneratorCTemplate.cpp                | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 31e62bf..f8db82b 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1033,6 +1033,25 @@ bool isComposableTypeComplete(const ComposableType* composableType)
   return true;
 }
 
+/*!
+ * \brief Returns the function type a pointer spells, or nullptr if the
+ * pointer doesn't lead to a function or if a typedef names what it leads to.
+ */
+const FunctionType* getSpelledFunctionType(const Pointer* p_pointer)
+{
+  const TypeItf* type = p_pointer;
+  while(const Pointer* pointer = type->asPointer())
+  {
+    type = pointer->getPointedType();
+    if(type->containsTypeDef())
+    {
+      return nullptr;
+    }
+    type = type->unqualify();
+  }
+  return type->asFunctionType();
+}
+
 bool doesFunctionUsesEmptyEnum(const FunctionDeclaration& fd)
 {
   const Enum* rv = fd.getReturnValue()->getType()->unqualify()->asEnum();
@@ -1496,8 +1515,7 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   functionSectionDict->SetValue(FUNCTION_NON_QUALIFIED_RETURN_VALUE, nonQualDereferencedRetTypeStr);
   if(nonQualifiedReturnValuePointer)
   {
-    const TypeItf *returnValuePointerPointedType = getRawType(nonQualifiedReturnValuePointer);
-    const FunctionType *functionType = returnValuePointerPointedType->asFunctionType();
+    const FunctionType *functionType = getSpelledFunctionType(nonQualifiedReturnValuePointer);
     if(functionType)
     {
       generateDeclarationOfUsedType(p_parentDictionary, functionType, false);
@@ -1521,8 +1539,7 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
     returnValParamDict->SetValue(FUNCTION_DEREFERENCED_RETURN_VALUE, getDereferencedType(*rvType).getFullDeclarationName());
     if(nonQualifiedReturnValuePointer)
     {
-      const TypeItf *returnValuePointerPointedType = getRawType(nonQualifiedReturnValuePointer);
-      const FunctionType *functionType = returnValuePointerPointedType->asFunctionType();
+      const FunctionType *functionType = getSpelledFunctionType(nonQualifiedReturnValuePointer);
       if(functionType)
       {
         generateDeclarationOfUsedType(p_parentDictionary, functionType, false);
@@ -1559,8 +1576,7 @@ void CodeGeneratorCTemplate::generateExtraDecl(ctemplate::TemplateDictionary *di
   const Pointer *nonQualifiedReturnValueTypePointer = returnValueType->unqualify()->asPointer();
   if(nonQualifiedReturnValueTypePointer)
   {
-    const TypeItf *returnValuePointedType = getRawType(nonQualifiedReturnValueTypePointer);
-    const FunctionType *recursiveFunctionType = returnValuePointedType->asFunctionType();
+    const FunctionType *recursiveFunctionType = getSpelledFunctionType(nonQualifiedReturnValueTypePointer);
     if(recursiveFunctionType)
     {
       ctemplate::TemplateDictionary *inInDict = extraDeclDict->AddSectionDictionary(std::string(sectionName) + "INSIDE");
@@ -1613,8 +1629,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     else
     {
       functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, argType);
-      const TypeItf *paramPtrPointedType = getRawType(nonQualifiedParamPtrType);
-      const FunctionType *ft = paramPtrPointedType->asFunctionType();
+      const FunctionType *ft = getSpelledFunctionType(nonQualifiedParamPtrType);
       if(ft)
       {
         generateDeclarationOfUsedType(m_rootDictionary, ft, false);
@@ -2237,7 +2252,7 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
         const Pointer* nonQualifiedFieldPtrType = fieldType->unqualify()->asPointer();
         if(nonQualifiedFieldPtrType)
         {
-          const FunctionType *ft = getRawType(nonQualifiedFieldPtrType)->asFunctionType();
+          const FunctionType *ft = getSpelledFunctionType(nonQualifiedFieldPtrType);
           if (ft)
           {
             generateDeclarationOfUsedType(m_rootDictionary, ft, false);
-- 
2.43.0


From 045f3f5b1fca59cadc6468ba8ace81fc941748e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 29/59] fix: generated typedef of a pointer to a typedef'd
 function pointer does not compile

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index f8db82b..89137a1 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2539,7 +2539,7 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
   std::string localType { typeeType->getFullDeclarationName(true) };
   const TypeItf *rawType = getRawType(typeeType);
   const FunctionType *functionType = rawType->asFunctionType();
-  bool isRawTypeFunctionType = functionType != nullptr;
+  bool isRawTypeFunctionType = functionType != nullptr && !typeeType->containsTypeDef();
   ctemplate::TemplateDictionary *typeDefDict = m_rootDictionary->AddSectionDictionary(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION);
   typeDefDict->SetValue(GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME_NAME, typedefName);
 
-- 
2.43.0


From 65c0815a8e83be589c7fa8ddfe3da4b63065b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 30/59] fix: function declared with a typedef of its type
 returns that type in its mock

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index acaa492..7aa1418 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -408,6 +408,15 @@ private:
     auto type = getEasyMocktype(rvQualType, structKnownType, false);
     ReturnValue rv(std::move(type));
 
+    /*
+     * A function declared with a typedef of its type (e.g. typedef int type(void); type fun;) doesn't spell
+     * its return type.
+     */
+    if(!func->getFunctionTypeLoc())
+    {
+      return rv;
+    }
+
     /*
      * clang::QualType doesn't have any SourceRange information. The source range is approximated by taking
      * the very beginning of the function declaration and the beginning position of the function name.
-- 
2.43.0


From 217ba085cf23f16f54bda93eada176b07fc804d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 31/59] fix: generated zero-length array in the middle of a
 struct does not compile

With --generate-types, struct s { int a; char pad[0]; int b; }; was generated
with char pad[]; which is an error there. [0] is right in both places.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 89137a1..877ed9f 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2218,7 +2218,7 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
           }
           else if(curCompField && curCompField->isUnboundSpecifiedArray())
           {
-            curFieldName.append("[]");
+            curFieldName.append("[0]");
           }
           subAnonymousDeclDict->AddSectionDictionary(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_SECTION)->SetValue(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_VAR, curFieldName);
         }
@@ -2240,7 +2240,7 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
         }
         else if(curCompField && curCompField->isUnboundSpecifiedArray())
         {
-          fieldName.append("[]");
+          fieldName.append("[0]");
         }
         if(curField.isComposableBitfield())
         {
-- 
2.43.0


From e60990e67b97ca150584e1b6515081eb05e3c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 32/59] fix: function after a #line directive or in a path with
 a colon is not mocked

The name of the file was cut out of a printed location, which follows #line
and ends at the first colon, and looking it up aborted the generator.
---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 7aa1418..7163414 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -150,8 +150,8 @@ public:
       return nullptr;
     }
     std::string originFileFullInfo = func->getLocation().printToString(*m_SM);
-    size_t posColumn = originFileFullInfo.find_first_of(':');
-    std::string originFile = originFileFullInfo.substr(0,posColumn);
+    //The file which really contains the declaration: the location above follows the #line directives and may contain a ':' in its path.
+    std::string originFile = m_SM->getFilename(m_SM->getExpansionLoc(func->getLocation())).str();
     boost::filesystem::path originCanon = boost::filesystem::canonical(originFile);
 
     bool isFromMainFile = m_mainFile == originCanon;
-- 
2.43.0


From 2b212ece603028b5ae75db597d7bd493ae3e5d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 33/59] fix: return type whose name ends in a storage class
 loses it, __inline__ stays in the return type

struct nonstatic f(void); was mocked as struct non, and with --generate-types
static __inline__ int f(void) as a function returning __inline__ int.
---
 .../src/LLVMParser/LLVMParser.cpp                | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 7163414..948f43c 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -433,6 +433,7 @@ private:
       removeAttr(declString, attr);
     }
     static std::regex removeAttrRegex{"__attribute__[[:space:]]*\\([[:space:]]*\\(.*\\)[[:space:]]*\\)"};
+    static std::regex removeStorageRegex{"\\b(extern|static|__?inline(__)?|inline|__extension__|_Noreturn)\\b"};
 
     /*
      * Loop through all the token of the declaration and verifies if it expands to __attribute((<something>)).
@@ -463,7 +464,6 @@ private:
         const MacroDefinition& md = m_ctxt.getMacroDefinition(currentTokenStr);
         std::string macroStr = md.getDefinition();
         //What remains once the attributes and the storage class are removed is the part of the type which the macro spells.
-        static std::regex removeStorageRegex{"\\b(extern|static|__?inline(__)?|inline|__extension__)\\b"};
         macroStr = trim(std::regex_replace(std::regex_replace(macroStr, removeAttrRegex, ""), removeStorageRegex, ""));
         if(macroStr.empty())
         {
@@ -474,10 +474,7 @@ private:
     }
 
     declString = std::regex_replace(declString, removeAttrRegex, "");
-    eraseInString(declString, "inline ");
-    eraseInString(declString, "extern ");
-    eraseInString(declString, "static ");
-    declString = trim(declString);
+    declString = trim(std::regex_replace(declString, removeStorageRegex, ""));
     setDeclaratorDeclareString(rvQualType, &rv, declString);
 
     return rv;
@@ -1117,15 +1114,6 @@ private:
     return func->getNameInfo().getName().getAsString();
   }
 
-  void eraseInString(std::string &string,const std::string& toErase)
-  {
-    size_t pos = string.find(toErase);
-    if(pos != std::string::npos)
-    {
-        string.erase(pos, toErase.length());
-    }
-  }
-
   std::string getTypedefName(const clang::Type &type)
   {
     const clang::TypedefType* TDT = type.getAs<clang::TypedefType>();
-- 
2.43.0


From 36f616da3b9d82b4cf53f1b0ee9dd0121c303ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 34/59] fix: attributes with a string parameter, like section,
 generate a mock which does not compile

---
 .../CodeGeneratorCTemplate.cpp                | 37 ++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 877ed9f..02e3709 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -113,6 +113,7 @@
 #define FUNCTION_ATTR_PARAMETER_SECTION "FUNCTION_ATTR_PARAMETER_SECTION"
 #define FUNCTION_ATTR_PARAMETER_LIST "FUNCTION_ATTR_PARAMETER_LIST"
 #define FUNCTION_ATTR_PARAMETER_LIST_SEPARATOR FUNCTION_ATTR_PARAMETER_LIST "_separator"
+#define FUNCTION_ATTR_PARAM_STRING_LITERAL "FUNCTION_ATTR_PARAM_STRING_LITERAL"
 
 #define COMPOSED_TYPE_VAR "COMPOSED_TYPE_VAR" //struct or union
 #define COMPOSED_TYPE_TEMPLATE_VAR TEMPLATE_VAR(COMPOSED_TYPE_VAR)
@@ -318,11 +319,20 @@ SPACES "std::reference_wrapper<" DEREFERENCED_PARAM_TYPE "> " PARAM_NAME "{ defa
     TEMPLATE_END_SECTION(SECTION ## _SEPARATOR) \
   TEMPLATE_END_SECTION(SECTION)
 
-#define FUNCTION_ATTRIBUTE_DECLARATION_LIST \
+#define FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_ATTRIBUTE_LIST(TEMPLATE_VAR(FUNCTION_PARAM_NAME))
+#define FUNCTION_ATTRIBUTE_STRING_LITERAL_LIST FUNCTION_ATTRIBUTE_LIST(TEMPLATE_VAR(FUNCTION_ATTR_PARAM_STRING_LITERAL))
+#define FUNCTION_ATTRIBUTE_LIST(PARAM) \
   TEMPLATE_BEG_SECTION(FUNCTION_ATTR_LIST_SECTION) \
     "__attribute__((" \
     FUNCTION_ATTR_NAME_TEMPLATE_VAR \
-    IF_SECTION_EXISTS(FUNCTION_ATTR_PARAMETER_SECTION, "(" FUNCTION_PARAM_CALL(FUNCTION_ATTR_PARAMETER_LIST, "") ")") \
+    IF_SECTION_EXISTS(FUNCTION_ATTR_PARAMETER_SECTION, "(" \
+      TEMPLATE_BEG_SECTION(FUNCTION_ATTR_PARAMETER_LIST) \
+        PARAM \
+        TEMPLATE_BEG_SECTION(FUNCTION_ATTR_PARAMETER_LIST_SEPARATOR) \
+          ", " \
+        TEMPLATE_END_SECTION(FUNCTION_ATTR_PARAMETER_LIST_SEPARATOR) \
+      TEMPLATE_END_SECTION(FUNCTION_ATTR_PARAMETER_LIST) \
+    ")") \
     ")) " \
     TEMPLATE_BEG_SECTION(FUNCTION_ATTR_LIST_SECTION_SEPARATOR) \
       " " \
@@ -433,7 +443,9 @@ FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 #define INSIDE_CLASS_FUNCTION_DECLARATION FUNCTION_ACCESS_SPECIFIER ": " FUNCTION_RETURN_VALUE_TYPE " " FUNCTION_NAME FUNCTION_PARAMETERS IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") ";"
 
 #define FUNCTION_PARAMETERS "("  FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_SECTION_EXISTS(VARIADIC_SECTION, VARIADIC_TEMPLATE_VAR) ")"
-#define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
+#define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST TEMPLATE_FUNCTION_WITHOUT_ATTRIBUTES
+#define TEMPLATE_FUNCTION_STRING_LITERAL "\"" FUNCTION_ATTRIBUTE_STRING_LITERAL_LIST TEMPLATE_FUNCTION_WITHOUT_ATTRIBUTES "\""
+#define TEMPLATE_FUNCTION_WITHOUT_ATTRIBUTES FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
 #define MOCKED_FUN_CLASS(F_NAME) "mocked_" F_NAME
 #define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_NAME)
 
@@ -769,7 +781,7 @@ const char templateText[] =
         FUNCTION_INIT_ALL_MOCK_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(FUNCTION_SECTION)
-        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", \"" TEMPLATE_FUNCTION_TO_BE_MOCKED "\", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
+        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", " TEMPLATE_FUNCTION_STRING_LITERAL ", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_SECTION)
         "}"
         CARRIAGE_RETURN
@@ -1415,10 +1427,25 @@ void CodeGeneratorCTemplate::generateFunctionAttributes(const std::shared_ptr<co
     if(!funAttrParams.empty())
     {
       ctemplate::TemplateDictionary *funAttrParamsList = funAttrSectionDict->AddSectionDictionary(FUNCTION_ATTR_PARAMETER_SECTION);
-      for(const std::string& funAttrParam : funAttrParams)
+      for(std::string funAttrParam : funAttrParams)
       {
+        //The parser gives the name of the section, without the quotes
+        if(name == "section" || name == "__section__")
+        {
+          funAttrParam = '"' + funAttrParam + '"';
+        }
         ctemplate::TemplateDictionary *funAttrParamDict = funAttrParamsList->AddSectionDictionary(FUNCTION_ATTR_PARAMETER_LIST);
         funAttrParamDict->SetValue(FUNCTION_PARAM_NAME, funAttrParam);
+        std::string stringLiteral;
+        for(const char c : funAttrParam)
+        {
+          if(c == '"' || c == '\\')
+          {
+            stringLiteral.push_back('\\');
+          }
+          stringLiteral.push_back(c);
+        }
+        funAttrParamDict->SetValue(FUNCTION_ATTR_PARAM_STRING_LITERAL, stringLiteral);
       }
     }
   }
-- 
2.43.0


From 965dad6b238d55e80fb93aa2f1e8d3b4456203bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 35/59] fix: return type between two attributes or behind
 __attribute is lost or misread

---
 .../src/LLVMParser/LLVMParser.cpp             | 44 +++++++++++++++++--
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 948f43c..609726d 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -399,6 +399,45 @@ private:
     }
   }
 
+  /*
+   * Removes each __attribute__((...)) up to the parenthesis which closes it.
+   */
+  static std::string removeAttributes(const std::string &declString)
+  {
+    static const std::regex attrRegex{"\\b__attribute(__)?[[:space:]]*\\("};
+    std::string rv;
+    std::string remaining{declString};
+    std::smatch match;
+    while(std::regex_search(remaining, match, attrRegex))
+    {
+      size_t pos = match.position() + match.length();
+      bool inString = false;
+      for(size_t nbOpen = 1; nbOpen != 0 && pos < remaining.size(); pos++)
+      {
+        const char c = remaining[pos];
+        if(inString && c == '\\')
+        {
+          pos++;
+        }
+        else if(c == '"')
+        {
+          inString = !inString;
+        }
+        else if(!inString && c == '(')
+        {
+          nbOpen++;
+        }
+        else if(!inString && c == ')')
+        {
+          nbOpen--;
+        }
+      }
+      rv.append(remaining, 0, match.position());
+      remaining.erase(0, pos);
+    }
+    return rv + remaining;
+  }
+
   ReturnValue getFunctionReturnValue(const clang::FunctionDecl* func)
   {
     const std::string funName = getFunctionName(func);
@@ -432,7 +471,6 @@ private:
     {
       removeAttr(declString, attr);
     }
-    static std::regex removeAttrRegex{"__attribute__[[:space:]]*\\([[:space:]]*\\(.*\\)[[:space:]]*\\)"};
     static std::regex removeStorageRegex{"\\b(extern|static|__?inline(__)?|inline|__extension__|_Noreturn)\\b"};
 
     /*
@@ -464,7 +502,7 @@ private:
         const MacroDefinition& md = m_ctxt.getMacroDefinition(currentTokenStr);
         std::string macroStr = md.getDefinition();
         //What remains once the attributes and the storage class are removed is the part of the type which the macro spells.
-        macroStr = trim(std::regex_replace(std::regex_replace(macroStr, removeAttrRegex, ""), removeStorageRegex, ""));
+        macroStr = trim(std::regex_replace(removeAttributes(macroStr), removeStorageRegex, ""));
         if(macroStr.empty())
         {
           removeFromString(declString, std::move(currentTokenStr), md.hasParameters());
@@ -473,7 +511,7 @@ private:
       itrSource = rawToken.getEndLoc();
     }
 
-    declString = std::regex_replace(declString, removeAttrRegex, "");
+    declString = removeAttributes(declString);
     declString = trim(std::regex_replace(declString, removeStorageRegex, ""));
     setDeclaratorDeclareString(rvQualType, &rv, declString);
 
-- 
2.43.0


From 4af56381b0abd3fbf4be028df7ef7aa07372d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 36/59] fix: all the format attributes of a function get the
 parameters of the first

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 609726d..6c1fa8f 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -253,7 +253,7 @@ private:
         continue;
       }
       std::string attrName = identifierInfo->getName().str();
-      FunctionAttribute::ParametersList parametersList = getFunAttrParamList(clangFunc, attr);
+      FunctionAttribute::ParametersList parametersList = getFunAttrParamList(attr);
       FunctionAttribute functionAttribute{std::move(attrName), std::move(parametersList)};
 
       easyMockFun.addAttribute(std::move(functionAttribute));
@@ -281,7 +281,7 @@ private:
     return parametersList;
   }
 
-  FunctionAttribute::ParametersList getFunAttrParamList(const clang::FunctionDecl* clangFunc, const clang::Attr *attr)
+  FunctionAttribute::ParametersList getFunAttrParamList(const clang::Attr *attr)
   {
     FunctionAttribute::ParametersList parametersList{};
     /*
@@ -295,8 +295,8 @@ private:
      * to the code.
      * This fallback case works for the majority of the case we have seen so far.
      */
-    const clang::FormatAttr *formatAttr = attr->getKind() == clang::attr::Kind::Format ? clangFunc->getAttr<clang::FormatAttr>() : nullptr;
-    const clang::SectionAttr *sectionAttr = attr->getKind() == clang::attr::Kind::Section ? clangFunc->getAttr<clang::SectionAttr>() : nullptr;
+    const clang::FormatAttr *formatAttr = llvm::dyn_cast<clang::FormatAttr>(attr);
+    const clang::SectionAttr *sectionAttr = llvm::dyn_cast<clang::SectionAttr>(attr);
     if(formatAttr)
     {
       parametersList = getFormatAttrParamList(formatAttr);
-- 
2.43.0


From f6250be8f4a609749db43f131e88336a711163e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 37/59] fix: generator exits with success when the parser
 refuses one of its options

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 6c1fa8f..f4a0d68 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -24,6 +24,7 @@
 #include <clang/AST/DeclContextInternals.h>
 #include <clang/Frontend/CompilerInstance.h>
 #include <clang/Frontend/FrontendActions.h>
+#include <clang/Frontend/TextDiagnosticPrinter.h>
 #include <clang/Tooling/CompilationDatabase.h>
 #include <clang/Tooling/Tooling.h>
 
@@ -1372,8 +1373,13 @@ CodeParser_errCode LLVMParser::getElementToMockContext(ElementToMockContext& p_c
       m_parseIncludedFunctions,
       m_forceCpp
     };
+  //The tool doesn't fail when the parser refuses one of its options: this is only known by the reported errors
+  llvm::IntrusiveRefCntPtr<clang::DiagnosticOptions> diagnosticOptions{new clang::DiagnosticOptions{}};
+  diagnosticOptions->ShowColors = llvm::errs().has_colors();
+  clang::TextDiagnosticPrinter diagnosticPrinter{llvm::errs(), diagnosticOptions.get()};
+  tool.setDiagnosticConsumer(&diagnosticPrinter);
   int rv = tool.run(newFunctionDeclFrontendAction(p_ctxt, parserConfig).get());
-  return rv == 0 ? cp_OK : cp_ERROR;
+  return rv == 0 && diagnosticPrinter.getNumErrors() == 0 ? cp_OK : cp_ERROR;
 }
 
 LLVMParser::~LLVMParser() { }
-- 
2.43.0


From 7ad4599087d5a10cd0f7f81ed00b15a65d05c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 38/59] fix: type laid out over lines ending in \r, \v, \f or a
 backslash is misread

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index f4a0d68..be4ab0c 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -30,6 +30,7 @@
 
 #include <boost/filesystem.hpp>
 
+#include <cctype>
 #include <string>
 #include <vector>
 #include <unordered_map>
@@ -594,7 +595,8 @@ private:
         i = isBlockComment ? end + 1 : end;
         continue;
       }
-      res.push_back(declareString[i] == '\n' ? ' ' : declareString[i]);
+      const bool isSpace = std::isspace(static_cast<unsigned char>(declareString[i]));
+      res.push_back(isSpace ? ' ' : declareString[i]);
     }
 
     return res;
@@ -605,7 +607,8 @@ private:
     clang::CharSourceRange charSourceRange = clang::Lexer::getAsCharRange(startLoc, *m_SM, *m_LO);
     charSourceRange.setEnd(endLoc);
     clang::StringRef strRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
-    std::string declareString = removeComments(strRef.str());
+    static const std::regex lineSpliceRegex{"\\\\[ \\t\\v\\f]*\\r?\\n"};
+    std::string declareString = removeComments(std::regex_replace(strRef.str(), lineSpliceRegex, ""));
     /*
      * When a declaration is inlined, we ignore the whole declaration in this way
      */
-- 
2.43.0


From 407e809891c60605cda31172ff82e3c4511ace1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 39/59] fix: types which share a name, or parts of it, are
 taken for each other

---
 .../src/LLVMParser/LLVMParser.cpp             | 36 ++++++++-----------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index be4ab0c..7edaf60 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -33,6 +33,7 @@
 #include <cctype>
 #include <string>
 #include <vector>
+#include <map>
 #include <unordered_map>
 #include <regex>
 #include <memory>
@@ -105,7 +106,7 @@ struct ParserConfig
 class FunctionDeclASTVisitor : public clang::RecursiveASTVisitor<FunctionDeclASTVisitor>
 {
 private:
-  using structKnownTypeMap = std::unordered_map<std::string, std::shared_ptr<IncompleteType>>;
+  using structKnownTypeMap = std::unordered_map<const clang::RecordDecl*, std::shared_ptr<IncompleteType>>;
 public:
 
   explicit FunctionDeclASTVisitor(clang::SourceManager& sm, ElementToMockContext& ctxt, const ParserConfig& parserConfig)
@@ -231,7 +232,7 @@ private:
   const clang::LangOptions *m_LO;
   const MockOnlyList& m_mockOnlyList;
   const IgnoreTypeFieldList& m_ignoreTypeFieldList;
-  std::unordered_map<std::string, std::shared_ptr<TypeItf>> m_cachedStruct;
+  std::map<std::pair<const clang::RecordDecl*, std::string>, std::shared_ptr<TypeItf>> m_cachedStruct;
   const boost::filesystem::path& m_mainFile;
   const IgnoreFunList& m_ignoreFunList;
   bool m_parseIncludedFunctions;
@@ -893,17 +894,16 @@ private:
     std::string typeName = RD->getNameAsString();
     std::string typedDefName = getTypedefName(p_type);
 
-    if(structKnownType.find(typedDefName) != structKnownType.end())
+    //A tag, a typedef and types of other scopes may share a name: the declaration is what identifies the type
+    const auto knownType = structKnownType.find(RD);
+    if(knownType != structKnownType.end())
     {
-      return structKnownType.at(typedDefName);
-    }
-    if(structKnownType.find(typeName) != structKnownType.end())
-    {
-      return structKnownType.at(typeName);
+      return knownType->second;
     }
 
-    std::string declToCheck = typeName + std::string{"_"} + typedDefName;
-    if(declToCheck.compare("_") != 0)
+    const bool isAnonymous = typeName.empty() && typedDefName.empty();
+    const auto declToCheck = std::make_pair(static_cast<const clang::RecordDecl*>(RD), typedDefName);
+    if(!isAnonymous)
     {
       if(m_cachedStruct.find(declToCheck) != m_cachedStruct.end())
       {
@@ -948,13 +948,9 @@ private:
         sType = classType;
         break;
     }
-    if(!typedDefName.empty())
+    if(!isAnonymous)
     {
-      structKnownType.insert({typedDefName,std::make_shared<IncompleteType>(*sType, incType)});
-    }
-    if(!typeName.empty())
-    {
-      structKnownType.insert({typeName, std::make_shared<IncompleteType>(*sType, incType)});
+      structKnownType.insert({RD, std::make_shared<IncompleteType>(*sType, incType)});
     }
 
     // If the type doesn't have a complete definition, it is forward declared.
@@ -998,14 +994,10 @@ private:
     if(!typedDefName.empty())
     {
       toReturn = std::make_shared<TypedefType>(typedDefName, std::move(toReturn));
-      structKnownType.erase(typedDefName);
-    }
-    if(!typeName.empty())
-    {
-      structKnownType.erase(typeName);
     }
+    structKnownType.erase(RD);
 
-    if(declToCheck.compare("_") != 0)
+    if(!isAnonymous)
     {
       if(m_cachedStruct.find(declToCheck) == m_cachedStruct.end())
       {
-- 
2.43.0


From 06652b6ccdf5a79ba716695df88f41de5da57372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 40/59] fix: generated tag and typedef of the same name exclude
 each other

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 02e3709..8b3b5c4 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -158,7 +158,7 @@
 #define GENERATED_TYPE_SIMPLE_TYPEDEF_TYPEE_TEMPLATE_VAR TEMPLATE_VAR(GENERATED_TYPE_SIMPLE_TYPEDEF_TYPEE_VAR)
 #define GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_VAR "GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_VAR"
 #define GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_TEMPLATE_VAR TEMPLATE_VAR(GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_VAR)
-#define GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME MOCK_FRAMEWORK_NAME_UPPER "_" GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME_NAME_VAR "_GENERATED"
+#define GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME MOCK_FRAMEWORK_NAME_UPPER "_typedef_" GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME_NAME_VAR "_GENERATED"
 
 #define GENERATED_TYPE_ENUM_SECTION "GENERATED_TYPE_ENUM_SECTION"
 #define GENERATED_TYPE_ENUM_NAME_VAR "GENERATED_TYPE_ENUM_NAME_VAR"
@@ -168,7 +168,7 @@
 #define GENERATED_TYPE_ENUM_VALUE_NAME_TEMPLATE_VAR TEMPLATE_VAR("GENERATED_TYPE_ENUM_VALUE_NAME_VAR")
 #define GENERATED_TYPE_ENUM_VALUE_VALUE_VAR "GENERATED_TYPE_ENUM_VALUE_VALUE_VAR"
 #define GENERATED_TYPE_ENUM_VALUE_VALUE_TEMPLATE_VAR TEMPLATE_VAR("GENERATED_TYPE_ENUM_VALUE_VALUE_VAR")
-#define GENERATED_TYPE_ENUM_GUARD_NAME MOCK_FRAMEWORK_NAME_UPPER "_" GENERATED_TYPE_ENUM_NAME_TEMPLATE_VAR "_GENERATED"
+#define GENERATED_TYPE_ENUM_GUARD_NAME MOCK_FRAMEWORK_NAME_UPPER "_enum_" GENERATED_TYPE_ENUM_NAME_TEMPLATE_VAR "_GENERATED"
 
 #define COMPOSABLE_TYPE_DECLARE_TYPE_SECTION "COMPOSABLE_TYPE_DECLARE_TYPE_SECTION"
 #define TYPE_DECLARATION_VAR "TYPE_DECLARATION_VAR"
@@ -2076,11 +2076,14 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
        */
       ctemplate::TemplateDictionary *generatedType_section = p_parentDictionary->AddSectionDictionary(
           GENERATED_TYPE_SECTION);
+      //The kinds of names are kept apart: the same name may be the one of a tag and of a typedef
       std::string guardName{composableType->getComposableTypeKeyword()};
+      guardName.push_back('_');
       const std::string &typeName = p_type->getName();
       std::string finalTypeName{typeName};
       if (finalTypeName.empty())
       {
+        guardName.insert(0, "anonymous_");
         finalTypeName = getAnonymousTypedefUniqueName(p_type);
       }
       guardName.append(finalTypeName);
-- 
2.43.0


From 1d3623ebb5ca562e92d300d51b3dd95f1244a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 41/59] fix: a class whose methods use the class itself
 exhausts the stack of the generator

---
 src/easyMockGenerate/src/ComposableType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/ComposableType.cpp b/src/easyMockGenerate/src/ComposableType.cpp
index b2f3fcb..624c7c8 100644
--- a/src/easyMockGenerate/src/ComposableType.cpp
+++ b/src/easyMockGenerate/src/ComposableType.cpp
@@ -45,8 +45,8 @@ std::size_t ComposableType::getHash() const noexcept
   boost::hash_combine(seed, m_is_forward_declared);
   for(const auto& function : m_functions)
   {
-    //const auto f_ptr = function.lock();
-    boost::hash_combine(seed, *function);
+    //The types of a method may be, or hold, the class itself: the prototype, which is also what isEqual() compares, ends there
+    boost::hash_combine(seed, function->getFunctionPrototype());
   }
 
   return seed;
-- 
2.43.0


From f62c99d079e3ea90c63b574dcc369f2481d69bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:57 +0000
Subject: [PATCH 42/59] fix: the generated enum without values is remembered by
 the address of a copy which is gone

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 8b3b5c4..cf79322 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2612,8 +2612,9 @@ void CodeGeneratorCTemplate::generateEnum(const TypeItf* p_type)
     dummyAttr.push_back('_');
     dummyAttr.append("dummy");
     copyEnum.addEnumValue(0, dummyAttr);
-    enumType = &copyEnum;
   }
+  //The generated enum is remembered below: that can't be the copy, which ends with this function
+  const Enum& enumWithValues = enumType->getValues().empty() ? copyEnum : *enumType;
 
   /*
    * First generate the typedef if any. It is very important to do so because
@@ -2634,7 +2635,7 @@ void CodeGeneratorCTemplate::generateEnum(const TypeItf* p_type)
   }
   ctemplate::TemplateDictionary* enumSection = m_rootDictionary->AddSectionDictionary(GENERATED_TYPE_ENUM_SECTION);
   enumSection->SetValue(GENERATED_TYPE_ENUM_NAME_VAR, localTypeName);
-  for(const auto& enumVal : enumType->getValues())
+  for(const auto& enumVal : enumWithValues.getValues())
   {
     ctemplate::TemplateDictionary *curVal = enumSection->AddSectionDictionary(GENERATED_TYPE_ENUM_VALUE_SECTION);
     curVal->SetValue(GENERATED_TYPE_ENUM_VALUE_VALUE_VAR, std::to_string(enumVal.first));
-- 
2.43.0


From e23e789e389b840045831534ff5d11157d31a009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 43/59] fix: the generated macro without parameters is not
 function-like any more

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 7edaf60..1f9a83d 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1220,6 +1220,11 @@ public:
           parameters.emplace_back(paramStr);
         }
       }
+      if(params.empty())
+      {
+        //Without any parameter, the parentheses still are a part of what the macro is called with
+        parameters.emplace_back("");
+      }
     }
     unsigned numToken = macroInfo->getNumTokens();
     for(unsigned i = 0; i < numToken; i++)
-- 
2.43.0


From 8fe5ccfda9a60f91bef228a0cc98ec911a4b9045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 44/59] fix: the named variable arguments of a macro become a
 single parameter in the generated one

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 1f9a83d..2f4fd92 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1220,6 +1220,10 @@ public:
           parameters.emplace_back(paramStr);
         }
       }
+      if(macroInfo->isGNUVarargs())
+      {
+        parameters.back().append("...");
+      }
       if(params.empty())
       {
         //Without any parameter, the parentheses still are a part of what the macro is called with
-- 
2.43.0


From e5094c622e7c683ba5e845dd6320b091a95168ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 45/59] fix: the first definition of a macro is generated
 instead of the last one

---
 src/easyMockGenerate/src/ElementToMockContext.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/ElementToMockContext.cpp b/src/easyMockGenerate/src/ElementToMockContext.cpp
index 05e21b1..980a415 100644
--- a/src/easyMockGenerate/src/ElementToMockContext.cpp
+++ b/src/easyMockGenerate/src/ElementToMockContext.cpp
@@ -13,7 +13,8 @@ void ElementToMockContext::addMacroDefine(std::string p_id, std::vector<std::str
 void ElementToMockContext::addMacroDefine(std::string p_id, std::vector<std::string> p_parameters, std::string p_definition, std::string p_originFile)
 {
   std::string copy_id = p_id;
-  m_macroDefinition.try_emplace(std::move(p_id), std::move(copy_id), std::move(p_parameters), std::move(p_definition), std::move(p_originFile));
+  //As for the compiler, the last definition is the one which holds
+  m_macroDefinition.insert_or_assign(std::move(p_id), MacroDefinition{std::move(copy_id), std::move(p_parameters), std::move(p_definition), std::move(p_originFile)});
 }
 
 void ElementToMockContext::deleteMacroDefine(const std::string &p_id)
-- 
2.43.0


From e2781451ba91275891e535df9e40598b7768ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 46/59] fix: C++ mock of a method with several parameters, or
 with none and a return value, does not compile

---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index cf79322..8860c45 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -102,6 +102,7 @@
 #define FUNCTION_NAME_UPPER "FUNCTION_NAME_UPPER"
 #define FUNCTION_MATCHER_LIST_SECTION "FUNCTION_MATCHER_LIST_SECTION"
 #define FUNCTION_PARAM_LIST_SECTION "FUNCTION_PARAM_LIST_SECTION"
+#define FUNCTION_INSTANCE_SEPARATOR_SECTION "FUNCTION_INSTANCE_SEPARATOR_SECTION"
 #define FUNCTION_PARAM_PTR_LIST_SECTION "FUNCTION_PARAM_PTR_LIST_SECTION"
 #define NON_TYPED_DEF_COMPOSED_TYPE_SECTION "NON_TYPED_DEF_COMPOSED_TYPE_SECTION"
 
@@ -381,7 +382,7 @@ IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectAndReturn("
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM \
 IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "::" FUNCTION_CLASS_NAME "* instance" \
-                  IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", ") \
+                  IF_SECTION_EXISTS(FUNCTION_INSTANCE_SEPARATOR_SECTION, ", ") \
                   ) \
 FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_TO_RETURN_VALUE_TYPE " to_return" TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)) IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_MATCHER_LIST
 
@@ -722,7 +723,7 @@ const char templateText[] =
         FUNCTION_EXPECT_AND_RETURN_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", "))
+                IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_INSTANCE_SEPARATOR_SECTION, ", "))
                 FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_HARDCODED_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, "easyMock_null")
               ");" CARRIAGE_RETURN
         "}" CARRIAGE_RETURN
@@ -731,7 +732,7 @@ const char templateText[] =
              FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE CARRIAGE_RETURN
              "{" CARRIAGE_RETURN
              "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                      IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", "))
+                      IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_INSTANCE_SEPARATOR_SECTION, ", "))
                       FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, MOCK_OUT_PREFIX)
                   ");" CARRIAGE_RETURN
              "}" CARRIAGE_RETURN
@@ -1551,6 +1552,11 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   }
 
   bool isRvVoid = rvType->isCType() && rvType->getCType() == CTYPE_VOID && !rvType->unqualify()->isPointer();
+  if (!isRvVoid || !p_elemToMock->getFunctionsParameters().empty())
+  {
+    //The instance is followed by the parameters, or else by the value to return
+    functionSectionDict->AddSectionDictionary(FUNCTION_INSTANCE_SEPARATOR_SECTION);
+  }
   if (!isRvVoid)
   {
     ctemplate::TemplateDictionary *returnValParamDict = functionSectionDict->AddSectionDictionary(FUNCTION_RETURN_VALUE_PARAM_SECTION);
-- 
2.43.0


From 09cb2f3498efb7e9c414f31048ded8de81469ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 47/59] fix: the mock of a header whose extension is not .h
 includes a file which is not generated

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 8860c45..226f28f 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -53,6 +53,7 @@
 #define CARRIAGE_RETURN "\n"
 
 #define MOCKED_HEADER_FILENAME "MOCKED_HEADER_FILENAME"
+#define MOCK_HEADER_FILENAME "MOCK_HEADER_FILENAME"
 #define MOCKED_FILE_NAME_WITHOUT_EXT_UPPER "MOCKED_FILE_NAME_WITHOUT_EXT_UPPER"
 #define FUNCTION_SECTION "FUNCTION_SECTION"
 #define FUNCTION_PARAM_SECTION "FUNCTION_PARAM_SECTION"
@@ -514,7 +515,7 @@ const char templateText[] =
         "#include <tuple>" CARRIAGE_RETURN
         )
         CARRIAGE_RETURN
-        "#include \"" MOCK_FRAMEWORK_NAME "_" TEMPLATE_VAR(MOCKED_HEADER_FILENAME) "\"" CARRIAGE_RETURN
+        "#include \"" TEMPLATE_VAR(MOCK_HEADER_FILENAME) "\"" CARRIAGE_RETURN
         CARRIAGE_RETURN
 
         FUNCTION_INIT_ALL_MOCK_SIGNATURE ";" CARRIAGE_RETURN
@@ -1347,6 +1348,8 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
 
   const auto& fList = p_ctxt.getElementToMock();
   std::string fileNameWithoutExtUpper = p_mockedHeader.substr(0, p_mockedHeader.find_last_of("."));
+  //The name given to the generated header, whatever the extension of the mocked one
+  m_rootDictionary->SetValue(MOCK_HEADER_FILENAME, MOCK_FRAMEWORK_NAME "_" + fileNameWithoutExtUpper + ".h");
   std::transform(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), fileNameWithoutExtUpper.begin(), ::toupper);
   //A character which can't be part of an identifier would end the name of the include guard there.
   std::replace_if(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), [](unsigned char c) { return !std::isalnum(c); }, '_');
-- 
2.43.0


From 60f964a44cd1dea3984671fcff93731dfff32e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 48/59] fix: bool is spelled _Bool in C++ mocks

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 2f4fd92..052e8f9 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -788,7 +788,7 @@ private:
     if(isBoolType(type))
     {
       //There is no boolean CType. The type is spelled _Bool in C and bool in C++.
-      cType->setName(clang::QualType(&type, 0).getCanonicalType().getUnqualifiedType().getAsString());
+      cType->setName(m_LO->CPlusPlus ? "bool" : "_Bool");
     }
     const std::string typedefName = getTypedefName(type);
     std::shared_ptr<TypeItf> returnedType = cType;
-- 
2.43.0


From 06590e9a910b20fac8673d83b43ebfadfacd0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 49/59] fix: the & of a returned reference is dropped when it
 stands next to the name of the function

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 052e8f9..9828f39 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -640,6 +640,7 @@ private:
               declareString.back() != '\r' &&
               declareString.back() != '\t' &&
               declareString.back() != '*' &&
+              declareString.back() != '&' &&
               declareString.back() != ')')
       {
         declareString.pop_back();
-- 
2.43.0


From e1d3788fd689cf442aef8c56c0c5c3da6909dc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 50/59] fix: C++ mock of a function with a reference to a
 pointer does not compile

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 226f28f..21cce20 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1652,7 +1652,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     if(nonQualifiedParamRefType)
     {
       functionParamSection->AddSectionDictionary(REFERENCE_MEMBER_SECTION);
-      functionParamSection->SetValue(PARAMETER_RAW_TYPE, rawType->getName());
+      functionParamSection->SetValue(PARAMETER_RAW_TYPE, dereferencedNonQualifiedArgType);
     }
     else
     {
-- 
2.43.0


From 8c5137b7c0acbff720449c1fc3be7a2db0346b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 51/59] fix: C++ mock of a class in a namespace does not
 compile

---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 21cce20..a2ef411 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -91,6 +91,8 @@
 
 #define FUNCTION_CLASS_NAME_VAR "FUNCTION_CLASS_NAME_VAR"
 #define FUNCTION_CLASS_NAME TEMPLATE_VAR(FUNCTION_CLASS_NAME_VAR)
+#define FUNCTION_NAMESPACE_VAR "FUNCTION_NAMESPACE_VAR"
+#define FUNCTION_NAMESPACE TEMPLATE_VAR(FUNCTION_NAMESPACE_VAR)
 #define IS_FUNCTION_CLASS_NAME "IS_FUNCTION_CLASS_NAME"
 
 #define REFERENCE_MEMBER_SECTION "REFERENCE_MEMBER_SECTION"
@@ -382,7 +384,7 @@ SPACES "std::reference_wrapper<" DEREFERENCED_PARAM_TYPE "> " PARAM_NAME "{ defa
 IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectAndReturn("
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM \
-IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "::" FUNCTION_CLASS_NAME "* instance" \
+IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "::" FUNCTION_NAMESPACE FUNCTION_CLASS_NAME "* instance" \
                   IF_SECTION_EXISTS(FUNCTION_INSTANCE_SEPARATOR_SECTION, ", ") \
                   ) \
 FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_TO_RETURN_VALUE_TYPE " to_return" TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)) IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_MATCHER_LIST
@@ -588,7 +590,7 @@ const char templateText[] =
         IF_SECTION_EXISTS(C_ONLY_SECTION, "typedef ")
         "struct " IF_SECTION_EXISTS(CPP_ONLY_SECTION, FUNCTION_MOCK_DATA_TYPE) " {" CARRIAGE_RETURN
         IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME,
-          "    ::" FUNCTION_CLASS_NAME "* instance;" CARRIAGE_RETURN
+          "    ::" FUNCTION_NAMESPACE FUNCTION_CLASS_NAME "* instance;" CARRIAGE_RETURN
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
         IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION,
@@ -1513,6 +1515,12 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   }
   functionSectionDict->SetValue(ORIGIN_FILE_VAR, p_elemToMock->getOriginFile());
   generateFunctionAttributes(p_elemToMock, functionSectionDict);
+  std::string namespacePrefix;
+  for(const Namespace* ns = p_elemToMock->getNamespace().get(); ns && !ns->isGlobal(); ns = ns->m_parent.get())
+  {
+    namespacePrefix = ns->m_name + "::" + namespacePrefix;
+  }
+  functionSectionDict->SetValue(FUNCTION_NAMESPACE_VAR, namespacePrefix);
   const auto& parentData = p_elemToMock->getParentData();
   if(parentData)
   {
-- 
2.43.0


From 76777518d7498be2fa0ca26e44f650b21c5379ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 52/59] fix: functions of the same name in other classes,
 namespaces or with other parameters have no C++ mock

---
 .../include/CodeGeneratorCTemplate.h          |  1 +
 .../CodeGeneratorCTemplate.cpp                | 29 +++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 6f67809..ab1e19d 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -107,6 +107,7 @@ private:
   const TypeItf* getMostPointedType(const TypeItf* p_type);
 
   std::unordered_set<std::string> m_generatedComparator;
+  std::unordered_set<std::string> m_generatedFunctionName;
   unsigned int m_nbUnamedParam;
   ctemplate::TemplateDictionary *m_rootDictionary;
   ctemplate::TemplateDictionary *m_generateMockedTypeSection;
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index a2ef411..3d85481 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -8,6 +8,7 @@
 #include <cstring>
 #include "CodeGeneratorCTemplate.h"
 #include <boost/filesystem.hpp>
+#include <boost/functional/hash.hpp>
 #include <unordered_set>
 
 #include "TypeItf.h"
@@ -270,6 +271,9 @@
 #define FUNCTION_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_RETURN_VALUE)
 #define FUNCTION_TO_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_TO_RETURN_VALUE)
 #define FUNCTION_NAME TEMPLATE_VAR(FUNCTION_NAME_VAR)
+//The name of the function in the names which are local to the mock. It is different for each function.
+#define FUNCTION_UNIQUE_NAME_VAR "FUNCTION_UNIQUE_NAME_VAR"
+#define FUNCTION_UNIQUE_NAME TEMPLATE_VAR(FUNCTION_UNIQUE_NAME_VAR)
 #define FUNCTION_ACCESS_SPECIFIER TEMPLATE_VAR(FUNCTION_ACCESS_SPECIFIER_VAR)
 
 #define FUNCTION_NON_QUALIFIED_RETURN_VALUE "FUNCTION_NON_QUALIFIED_RETURN_VALUE"
@@ -396,7 +400,7 @@ FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXIST
 IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectReturnAndOutput"
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME \
-FUNCTION_NAME "_ExpectReturnAndOutput_common"
+FUNCTION_UNIQUE_NAME "_ExpectReturnAndOutput_common"
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE_PARAM \
 FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_PARAM_LIST(FUNCTION_PARAM_PTR_SECTION, MOCK_OUT_PREFIX)
@@ -429,7 +433,7 @@ MOCK_FRAMEWORK_NAME "_verifyAllMocksInThisHeader"
 "static easyMock_bool " VERIFY_ALL_MOCK_FUNCTION_NAME "()"
 
 #define FUNCTION_MOCK_DATA_TYPE \
-FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_data"
+FUNCTION_CLASS_NAME "_" FUNCTION_UNIQUE_NAME "_data"
 
 #define FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE \
 FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_returnValue"
@@ -451,7 +455,7 @@ FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 #define TEMPLATE_FUNCTION_STRING_LITERAL "\"" FUNCTION_ATTRIBUTE_STRING_LITERAL_LIST TEMPLATE_FUNCTION_WITHOUT_ATTRIBUTES "\""
 #define TEMPLATE_FUNCTION_WITHOUT_ATTRIBUTES FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
 #define MOCKED_FUN_CLASS(F_NAME) "mocked_" F_NAME
-#define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_NAME)
+#define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_UNIQUE_NAME)
 
 #define COMPOSED_TYPED_COMPARE_SECTION_DECL_NAME_VAR TEMPLATE_VAR(COMPOSED_TYPED_DECL_STRING)
 #define COMPOSED_TYPED_COMPARE_SECTION_UNIQUE_NAME_VAR TEMPLATE_VAR(COMPOSED_TYPED_UNIQUE_NAME)
@@ -624,7 +628,7 @@ const char templateText[] =
         IF_SECTION_EXISTS(C_ONLY_SECTION, "static MockedFunction " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_SECTION_EXISTS(CPP_ONLY_SECTION, "static MockedCppFunction<" FUNCTION_MOCK_DATA_TYPE "> " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_RETURN_VALUE(
-          "static " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " dummyRes_" FUNCTION_NAME TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
+          "static " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " dummyRes_" FUNCTION_UNIQUE_NAME TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
           IF_SECTION_EXISTS(CPP_ONLY_SECTION, "{}")
           ";"
           CARRIAGE_RETURN
@@ -638,11 +642,11 @@ const char templateText[] =
         CARRIAGE_RETURN
         IF_RETURN_VALUE(
           IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION,
-              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> default_res { dummyRes_" FUNCTION_NAME " };" CARRIAGE_RETURN
+              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> default_res { dummyRes_" FUNCTION_UNIQUE_NAME " };" CARRIAGE_RETURN
           )
           IF_SECTION_EXISTS(REGULAR_RETURN_SECTION,
               "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) ";" CARRIAGE_RETURN
-              "    easyMock_memcpy((void*)&default_res, (void*)&dummyRes_" FUNCTION_NAME ", sizeof(default_res));" CARRIAGE_RETURN
+              "    easyMock_memcpy((void*)&default_res, (void*)&dummyRes_" FUNCTION_UNIQUE_NAME ", sizeof(default_res));" CARRIAGE_RETURN
           )
           CARRIAGE_RETURN
         )
@@ -1357,6 +1361,7 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   std::replace_if(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), [](unsigned char c) { return !std::isalnum(c); }, '_');
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
   std::unordered_set<std::size_t> generatedElements;
+  m_generatedFunctionName.clear();
   for (const auto& fun: fList)
   {
 
@@ -1403,6 +1408,11 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
         continue;
       }
       std::size_t rawHash = fun->getRawHash();
+      boost::hash_combine(rawHash, *fun->getNamespace());
+      if(fun->getParentData())
+      {
+        boost::hash_combine(rawHash, fun->getParentData()->getName());
+      }
       if(generatedElements.find(rawHash) != generatedElements.end())
       {
         continue;
@@ -1534,6 +1544,13 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   }
 
   functionSectionDict->SetValue(FUNCTION_NAME_VAR, *p_elemToMock->getName());
+  std::string uniqueName(*p_elemToMock->getName());
+  while(!m_generatedFunctionName.insert(uniqueName).second)
+  {
+    //In C++, the functions of other namespaces and classes can have the same name
+    uniqueName.append("_");
+  }
+  functionSectionDict->SetValue(FUNCTION_UNIQUE_NAME_VAR, uniqueName);
   std::string upperString(*p_elemToMock->getName());
   std::transform(upperString.begin(), upperString.end(), upperString.begin(), ::toupper);
   functionSectionDict->SetValue(FUNCTION_NAME_UPPER, upperString);
-- 
2.43.0


From f7c98d529903fe73ae66431db1eb8c0772fe7d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:00 +0000
Subject: [PATCH 53/59] fix: method of a struct is mocked as a free function

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 9828f39..ffa51c4 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -81,13 +81,13 @@ std::string trim(const std::string &s) {
 
 /*
  * In order to represent the fact that a function belongs to an object,
- * the ClassType objects are stored as weak references into Function object to break the circular dependency.
+ * the objects of the classes, structs and unions are stored as weak references into Function object to break the circular dependency.
  * We need to store its shared_ptr instance in a global list to keep the ClassType object alive.
  *
  * If we don't store the ClassType object in the function object as weak_ptr, this creates an
  * indirect memory leak.
  */
-UniqueStdSharePtrObjectSet<ClassType> globalListOfClasses;
+UniqueStdSharePtrObjectSet<ComposableType> globalListOfClasses;
 }
 
 struct ParserConfig
@@ -178,6 +178,8 @@ public:
       auto type = getEasyMocktype(qualType, structKnownType, false);
       assert(type->isComposableType());
       parentData = std::dynamic_pointer_cast<ComposableType>(type);
+      //Structs and unions have methods too
+      globalListOfClasses.addObject(parentData);
       const clang::AccessSpecifier accessSpecifier = func->getAccess();
       switch(accessSpecifier)
       {
-- 
2.43.0


From 9aefa5d8453448df802cdbb55dda361fa8eaaec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:57 +0000
Subject: [PATCH 54/59] fix: comparator of a nested untagged record reads the
 wrong bytes when it holds a packed, aligned or ignored type

---
 src/easyMockGenerate/include/CodeGeneratorCTemplate.h |  1 +
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index ab1e19d..ca5e22f 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -60,6 +60,7 @@ private:
   enum class GenerateDeclarationOfComposableTypeOrigin
   {
     GENERATE_COMPARE_FUNCTION,
+    GENERATE_COMPARE_FUNCTION_SUB_LEVEL,
     GENERATE_TOP_LEVEL_USED_TYPE,
     GENERATE_SUB_LEVEL_USED_TYPE
   };
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 3d85481..a6fd67e 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2254,18 +2254,23 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
     {
       const TypeItf* fieldType = curField.getType();
       const ComposableType* composableType = fieldType->asComposableType();
+      // The comparators use the named types as they are declared
+      const bool isNamedTypeOfComparator = composableType && !fieldType->isAnonymous() &&
+        (p_origin == GenerateDeclarationOfComposableTypeOrigin::GENERATE_COMPARE_FUNCTION ||
+         p_origin == GenerateDeclarationOfComposableTypeOrigin::GENERATE_COMPARE_FUNCTION_SUB_LEVEL);
 
       ctemplate::TemplateDictionary *curFieldDict = templateDictionary->AddIncludeDictionary(COMPOSABLE_TYPE_DECLARE_TYPE_FIELD_OR_COMPOSABLE_TYPE_FIELD_SECTION);
       curFieldDict->SetFilename(COMPOSABLE_TYPE_DECLARE_TYPE_FIELD_OR_COMPOSABLE_TYPE_FIELD_TEMPLATE_NAME);
 
-      if(composableType)
+      if(composableType && !isNamedTypeOfComparator)
       {
         std::string curFieldName = curField.getName();
         int nextNbLevelToGenerate = p_nbLevelToGenerate == 0 ? 0 : p_nbLevelToGenerate - 1;
         GenerateDeclarationOfComposableTypeOrigin nextOrigin =
-          p_origin == GenerateDeclarationOfComposableTypeOrigin::GENERATE_TOP_LEVEL_USED_TYPE ||
+          p_origin == GenerateDeclarationOfComposableTypeOrigin::GENERATE_TOP_LEVEL_USED_TYPE ?
+          GenerateDeclarationOfComposableTypeOrigin::GENERATE_SUB_LEVEL_USED_TYPE :
           p_origin == GenerateDeclarationOfComposableTypeOrigin::GENERATE_COMPARE_FUNCTION ?
-          GenerateDeclarationOfComposableTypeOrigin::GENERATE_SUB_LEVEL_USED_TYPE : p_origin;
+          GenerateDeclarationOfComposableTypeOrigin::GENERATE_COMPARE_FUNCTION_SUB_LEVEL : p_origin;
         if(fieldType->isAnonymous())
         {
           nextNbLevelToGenerate++;
-- 
2.43.0


From f2ca219174ad63831a1a39532255e2c6102dee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:04 +0000
Subject: [PATCH 55/59] fix: message of a refused argument names a later call
 when a matcher calls the function again

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index a6fd67e..a7e9da5 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -655,6 +655,8 @@ const char templateText[] =
         "        easyMock_addError(printCallStack, \"Error : unexpected call of '%s'." IF_RETURN_VALUE(" " FUNCTION_NAME " is returning a random value.") "\", MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "));" CARRIAGE_RETURN
         "        return" IF_RETURN_VALUE(" default_res") ";" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
+        "    const unsigned int easyMock_callNumber = MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "); // A matcher can call the function again" CARRIAGE_RETURN
+        "    (void)easyMock_callNumber;" CARRIAGE_RETURN
         CARRIAGE_RETURN
         "    " FUNCTION_MOCK_DATA_TYPE " " CURRENT_DATA_CALL ";" CARRIAGE_RETURN
         "    if (!MockedFunction_getCurrentCallParam(&" TEMPLATE_MOCKED_FUN_CLASS ", &" CURRENT_DATA_CALL "))" CARRIAGE_RETURN
@@ -668,7 +670,7 @@ const char templateText[] =
         "    {" CARRIAGE_RETURN
         "        std::ostringstream errorMessage{};" CARRIAGE_RETURN
         "        errorMessage << \"Expecting this object being \" << " CURRENT_DATA_CALL_MEMBER("instance") " << \", got this = \" << this << std::endl" ";" CARRIAGE_RETURN
-        "        easyMock_addError(printCallStack, \"Error : at call %d of '%s': %s\", MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "), MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), errorMessage.str().c_str());" CARRIAGE_RETURN
+        "        easyMock_addError(printCallStack, \"Error : at call %d of '%s': %s\", easyMock_callNumber, MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), errorMessage.str().c_str());" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         )
         CARRIAGE_RETURN
@@ -683,7 +685,7 @@ const char templateText[] =
         "        int error = matcher(easyMock_curCallVal, expectedCallVal, \"" PARAMETER_NAME("") "\", easyMock_errorMessage);" CARRIAGE_RETURN
         "        if(error)" CARRIAGE_RETURN
         "        {" CARRIAGE_RETURN
-        "            easyMock_addError(printCallStack, \"Error : at call %d of '%s': %s\", MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "), MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), easyMock_errorMessage);" CARRIAGE_RETURN
+        "            easyMock_addError(printCallStack, \"Error : at call %d of '%s': %s\", easyMock_callNumber, MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), easyMock_errorMessage);" CARRIAGE_RETURN
         "        }" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         )
@@ -697,7 +699,7 @@ const char templateText[] =
         "        bool error = matcher(curCallVal, expectedCallVal, \"" PARAMETER_NAME("") "\", errorMessage);" CARRIAGE_RETURN
         "        if(error)" CARRIAGE_RETURN
         "        {" CARRIAGE_RETURN
-        "            easyMock_addError(printCallStack, \"Error : at call %d of '%s': %s\", MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "), MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), errorMessage.str().c_str());" CARRIAGE_RETURN
+        "            easyMock_addError(printCallStack, \"Error : at call %d of '%s': %s\", easyMock_callNumber, MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), errorMessage.str().c_str());" CARRIAGE_RETURN
         "        }" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
         )
-- 
2.43.0


From 8d4ea39bf4baf3cf1c332f3b58b489fa3e605cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:34 +0000
Subject: [PATCH 56/59] fix: names of the unnamed parameters of a function
 depend on the functions before it

---
 src/easyMockGenerate/include/CodeGeneratorCTemplate.h      | 1 -
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp      | 7 ++++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index ca5e22f..ccdb4c6 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -109,7 +109,6 @@ private:
 
   std::unordered_set<std::string> m_generatedComparator;
   std::unordered_set<std::string> m_generatedFunctionName;
-  unsigned int m_nbUnamedParam;
   ctemplate::TemplateDictionary *m_rootDictionary;
   ctemplate::TemplateDictionary *m_generateMockedTypeSection;
   EasyMock::HashablePointerUnorderedMap<const TypeItf*, const TypedefType*> m_typeToTypedef;
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index a7e9da5..a364d60 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1244,7 +1244,7 @@ std::string CodeGeneratorCTemplate::getAnonymousTypedefUniqueName(const TypeItf*
 }
 
 CodeGeneratorCTemplate::CodeGeneratorCTemplate():
-CodeGeneratorItf{} , m_nbUnamedParam { 0 }
+CodeGeneratorItf{}
 {
 }
 
@@ -1650,6 +1650,7 @@ void CodeGeneratorCTemplate::generateExtraDecl(ctemplate::TemplateDictionary *di
 
 void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDictionary *p_functionSectionDict, const Parameter::Vector& p_functionParam)
 {
+  unsigned int nbUnnamedParam = 0;
   bool ptrSectionAdded = false;
   if (p_functionParam.size() > 0)
   {
@@ -1702,8 +1703,8 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     std::string paramName = fParam.getName();
     if(paramName.empty())
     {
-      paramName.append("__easymock_param" + std::to_string(m_nbUnamedParam));
-      m_nbUnamedParam++;
+      paramName.append("__easymock_param" + std::to_string(nbUnnamedParam));
+      nbUnnamedParam++;
     }
     functionParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
     // For easyMock_matcher_*
-- 
2.43.0


From f7fe3e763e1c818397bbb323013cd1d12354802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:50 +0000
Subject: [PATCH 57/59] fix: comparator named by the tag is missing when the
 typedef of the type is used before

---
 .../include/CodeGeneratorCTemplate.h          |  3 +-
 .../CodeGeneratorCTemplate.cpp                | 40 +++++++++++++++++--
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index ccdb4c6..5caf18f 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -80,7 +80,7 @@ private:
   //p_uniquePrepend and p_declPrepend must never become a reference because the string appended in recursive calls must reverted when the recursive call returns
   void generateAllFieldStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const ComposableType *p_composedType, std::string p_uniquePrepend, std::string p_declPrepend);
   void generateBodyStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const char* p_sectionToAdd, const ComposableType *p_structType, const ComposableFieldItf *p_curField, const ComposableFieldItf *p_previousField, std::string p_uniquePrepend, std::string p_declPrepend);
-  void generateComposedTypedCompareSection(const ComposableType *p_composedType, std::string p_uniquePrepend, std::string p_declPrepend);
+  void generateComposedTypedCompareSection(const ComposableType *p_composedType, std::string p_uniquePrepend, std::string p_declPrepend, const std::string& uniqueName);
   ctemplate::TemplateDictionary* generateDeclarationOfComposableType(ctemplate::TemplateDictionary *compareDir, const ComposableType *p_composedType, int p_level, GenerateDeclarationOfComposableTypeOrigin p_origin);
   void generateDeclarationOfUsedType(ctemplate::TemplateDictionary* p_parentDict, const TypeItf* p_type, bool p_generateIncomplete);
   bool generateCodeToFile(const std::string &outDir, const std::string &filename, const std::string &extension, const std::string &generatedCode);
@@ -95,6 +95,7 @@ private:
   void generateSimpleTypeDef(const TypeItf* p_type);
   void generateEnum(const TypeItf* p_type);
   std::string getAnonymousTypedefUniqueName(const TypeItf* p_type);
+  std::string getSpelledComparatorName(const TypeItf* p_type);
   template <class T>
   std::string getComparatorName(const T* p_composableType);
   void registerTypeDef(const TypeItf* p_type);
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index a364d60..47769c5 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1202,6 +1202,37 @@ const std::string& CodeGeneratorCTemplate::getMostDefinedName(const TypeItf* p_t
   return typeName;
 }
 
+std::string CodeGeneratorCTemplate::getSpelledComparatorName(const TypeItf* p_type)
+{
+  const TypedefType* typedefType = p_type->asTypedefType();
+  if(typedefType && typedefType->getTypee()->asComposableType())
+  {
+    return typedefType->getName();
+  }
+  if(typedefType)
+  {
+    return getSpelledComparatorName(typedefType->getTypee());
+  }
+  if(const Pointer* pointerType = p_type->asPointer())
+  {
+    return getSpelledComparatorName(pointerType->getPointedType());
+  }
+  if(const Reference* referenceType = p_type->asReference())
+  {
+    return getSpelledComparatorName(referenceType->getPointedType());
+  }
+  if(const QualifiedType* qualifiedType = p_type->asQualifiedType())
+  {
+    return getSpelledComparatorName(qualifiedType->getUnqualifiedType());
+  }
+  const ComposableType* composableType = p_type->asComposableType();
+  if(composableType->isAnonymous())
+  {
+    return getComparatorName(composableType);
+  }
+  return composableType->getComposableTypeKeyword() + ("_" + composableType->getName());
+}
+
 template <class T>
 std::string CodeGeneratorCTemplate::getComparatorName(const T* p_composableType)
 {
@@ -1673,7 +1704,8 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     {
       std::string prepend {};
       std::string declare {};
-      generateComposedTypedCompareSection(composableType, prepend, declare);
+      generateComposedTypedCompareSection(composableType, prepend, declare, getComparatorName(composableType));
+      generateComposedTypedCompareSection(composableType, prepend, declare, getSpelledComparatorName(paramType));
     }
     functionParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
     functionParamSection->SetValue(FUNCTION_PARAM_DEREFERENCED_TYPE, getDereferencedType(*paramType).getFullDeclarationName());
@@ -1922,7 +1954,8 @@ void CodeGeneratorCTemplate::generateBodyStructCompare(ctemplate::TemplateDictio
       p_declPrepend.append("::");
       if(curFieldComposableType)
       {
-        generateComposedTypedCompareSection(curFieldComposableType, p_uniquePrepend, p_declPrepend);
+        generateComposedTypedCompareSection(curFieldComposableType, p_uniquePrepend, p_declPrepend, getComparatorName(curFieldComposableType));
+        generateComposedTypedCompareSection(curFieldComposableType, p_uniquePrepend, p_declPrepend, getSpelledComparatorName(curFieldType));
       }
 
       paramSectDict->SetValue(COMPARE_CONDITION, condition);
@@ -2345,13 +2378,12 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
   return anonymousDeclDict;
 }
 
-void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const ComposableType *p_composedType, std::string p_uniquePrepend, std::string p_declPrepend)
+void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const ComposableType *p_composedType, std::string p_uniquePrepend, std::string p_declPrepend, const std::string& uniqueName)
 {
   if(p_composedType->isForwardDeclared())
   {
     return;
   }
-  std::string uniqueName {getComparatorName(p_composedType) };
   std::string toFind {uniqueName};
   auto keywordList = {"struct_", "union_"};
   for(const auto& keyword: keywordList)
-- 
2.43.0


From 74831f4c549c5f8e0f9941b4924507ab1b4b76db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:41 +0000
Subject: [PATCH 58/59] fix: comparator of a selected type misses the one of
 the record without a name it holds

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 47769c5..da38d58 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2396,7 +2396,9 @@ void CodeGeneratorCTemplate::generateComposedTypedCompareSection(const Composabl
   }
   bool forceGenerateAll = std::find(std::begin(m_comparatorList), std::end(m_comparatorList), "EasyMock_all_comparators") != std::end(m_comparatorList);
   bool mustGenerate = std::find(std::begin(m_comparatorList), std::end(m_comparatorList), toFind) != std::end(m_comparatorList);
-  if(!forceGenerateAll && !mustGenerate)
+  //A field's type which has no name cannot be selected, it goes with the type which holds it
+  const bool goesWithHolder = !p_declPrepend.empty() && p_composedType->isAnonymous() && getTypeDefName(p_composedType).empty();
+  if(!forceGenerateAll && !mustGenerate && !goesWithHolder)
   {
     return;
   }
-- 
2.43.0


From 4b5ba2e6bcd038225aa279e7d00cf85c60cce105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:18 +0000
Subject: [PATCH 59/59] fix: function which the header defines after declaring
 it is mocked all the same

---
 src/easyMockGenerate/include/FunctionDeclaration.h   | 12 ++++++++++++
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp    |  2 +-
 src/easyMockGenerate/src/FunctionDeclaration.cpp     | 11 +++++++++++
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp   |  1 +
 4 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/FunctionDeclaration.h b/src/easyMockGenerate/include/FunctionDeclaration.h
index 510de1b..558a440 100644
--- a/src/easyMockGenerate/include/FunctionDeclaration.h
+++ b/src/easyMockGenerate/include/FunctionDeclaration.h
@@ -57,6 +57,17 @@ public:
    */
   void setDoesThisDeclarationHasABody(bool val) noexcept;
 
+  /*!
+   * \brief Returns whether the header defines the function, with this
+   * declaration or with another one.
+   */
+  bool isDefinedByHeader() const noexcept;
+
+  /*!
+   * \brief Sets whether the header defines the function.
+   */
+  void setDefinedByHeader(bool val) noexcept;
+
   /*!
    * \copydoc ::EasyMock::Hashable::getHash()
    */
@@ -83,6 +94,7 @@ public:
   }
 private:
   bool m_doesThisDeclarationHasBody;
+  bool m_isDefinedByHeader;
   std::size_t m_cachedHash;
   std::shared_ptr<const Namespace> m_namespace;
 };
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index da38d58..38ef5c9 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1402,7 +1402,7 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
        * In the case where the used types are generated, it is ok to create a mock for the function
        * since the original header is not used by the mock.
        */
-      if((fun->isInlined() || fun->doesThisDeclarationHasABody() || fun->isStatic()) &&
+      if((fun->isInlined() || fun->doesThisDeclarationHasABody() || fun->isDefinedByHeader() || fun->isStatic()) &&
           !m_generateUsedType)
       {
         continue;
diff --git a/src/easyMockGenerate/src/FunctionDeclaration.cpp b/src/easyMockGenerate/src/FunctionDeclaration.cpp
index 45a3c39..19420d4 100644
--- a/src/easyMockGenerate/src/FunctionDeclaration.cpp
+++ b/src/easyMockGenerate/src/FunctionDeclaration.cpp
@@ -13,6 +13,7 @@ FunctionDeclaration::FunctionDeclaration(std::string p_functionName, ReturnValue
     Function{std::move(p_functionName), std::move(p_functionReturnType), std::move(p_functionParameters), std::move(p_parentData)},
     ElementToMock{},
     m_doesThisDeclarationHasBody{false},
+    m_isDefinedByHeader{false},
     m_cachedHash{0},
     m_namespace{std::move(p_namespace)}
 {
@@ -28,6 +29,16 @@ void FunctionDeclaration::setDoesThisDeclarationHasABody(bool val) noexcept
   m_doesThisDeclarationHasBody = val;
 }
 
+bool FunctionDeclaration::isDefinedByHeader() const noexcept
+{
+  return m_isDefinedByHeader;
+}
+
+void FunctionDeclaration::setDefinedByHeader(bool val) noexcept
+{
+  m_isDefinedByHeader = val;
+}
+
 size_t FunctionDeclaration::getHash() const noexcept
 {
   if(m_cachedHash != 0)
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index ffa51c4..28bfb50 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -213,6 +213,7 @@ public:
     f->setInlined(isInline);
     f->setIsStatic(isStatic);
     f->setDoesThisDeclarationHasABody(doesThisDeclHasABody);
+    f->setDefinedByHeader(func->isDefined());
     f->setOriginFile(originFileFullInfo);
     f->setClassConst(isClassConst);
     setFunctionAttribute(func, *f);
-- 
2.43.0

