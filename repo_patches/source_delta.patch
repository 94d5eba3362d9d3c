From f136ef34512f62c4bc74a4c4bd8425a5c6d50485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 01/50] fix: report failure to write the mock through the exit
 status

The result of the code generator was dropped, and a write which fails only
when the buffer is flushed at fclose was not noticed: EasyMockGenerate exited
with 0 without having (completely) written the mock.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp       | 6 ++++--
 src/easyMockGenerate/src/MainCodeGenerator.cpp              | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 3eab7b3..0f23387 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2410,9 +2410,11 @@ bool CodeGeneratorCTemplate::generateCodeToFile(const std::string &p_outDir, con
     goto closeFile;
   }
 closeFile:
-  if (f != nullptr)
+  if (f != nullptr && std::fclose(f) != 0 && rv)
   {
-    std::fclose(f);
+    //What was still buffered couldn't be written
+    std::fprintf(stderr, "Error writing into %s: %s", outFilename.c_str(), strerror(errno));
+    rv = false;
   }
 
   return rv;
diff --git a/src/easyMockGenerate/src/MainCodeGenerator.cpp b/src/easyMockGenerate/src/MainCodeGenerator.cpp
index 186124c..43e03df 100644
--- a/src/easyMockGenerate/src/MainCodeGenerator.cpp
+++ b/src/easyMockGenerate/src/MainCodeGenerator.cpp
@@ -17,6 +17,10 @@ bool MainCodeGenerator::generateCode(const std::string &outDir, bool ignoreParse
     fprintf(stderr, "Parsing of %s failed.\n\r", m_filename.c_str());
     return false;
   }
-  m_codeGeneratorItf.generateCode(outDir, m_filename, ctxt);
+  if(!m_codeGeneratorItf.generateCode(outDir, m_filename, ctxt))
+  {
+    fprintf(stderr, "Generating the mock of %s failed.\n\r", m_filename.c_str());
+    return false;
+  }
   return true;
 }
-- 
2.43.0


From aa72a047b4f2755b5cb7f828e80811c4e736b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 02/50] fix: -i and -o without a value are errors

A trailing -i or -o was silently handed over to the parser, and one followed
by another option was silently dropped when a later one carried a value.
---
 .../src/CmdLineParser/CmdLineParser.cpp       | 44 +++++++++----------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index f6e7819..a541d80 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -37,51 +37,47 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
   for(argIdx = 1; argv[argIdx] != nullptr && argIdx < argc; argIdx++)
   {
     const std::string currentParam(argv[argIdx]);
-    if(currentParam == g_inputHeaderParam && hasOneMoreArgument(argIdx, argc))
+    if(currentParam == g_inputHeaderParam)
     {
       if(!opt.m_inputHeaderFile.empty())
       {
         opt.m_errorMessage = g_minusIParameterGivenTwice;
         return opt;
       }
-      opt.m_inputHeaderFile = std::string(argv[argIdx+1]);
-      if(opt.m_inputHeaderFile[0] == '-')
+      if(!hasOneMoreArgument(argIdx, argc) || !nextArgumentValid(argIdx, argv))
       {
-        opt.m_inputHeaderFile.clear();
+        opt.m_errorMessage = g_errorInputMissing;
+        return opt;
       }
-      else
+      opt.m_inputHeaderFile = std::string(argv[argIdx+1]);
+      if(!fs::is_regular_file(opt.m_inputHeaderFile))
       {
-        if(!fs::is_regular_file(opt.m_inputHeaderFile))
-        {
-          opt.m_errorMessage = g_inputFileIsntRegular;
-          opt.m_inputHeaderFile.clear();
-          return opt;
-        }
-        argIdx++;
+        opt.m_errorMessage = g_inputFileIsntRegular;
+        opt.m_inputHeaderFile.clear();
+        return opt;
       }
+      argIdx++;
     }
-    else if(currentParam == g_outputDirParam && hasOneMoreArgument(argIdx, argc))
+    else if(currentParam == g_outputDirParam)
     {
       if(!opt.m_outputDir.empty())
       {
         opt.m_errorMessage = g_minusOParameterGivenTwice;
         return opt;
       }
-      opt.m_outputDir = std::string(argv[argIdx+1]);
-      if(opt.m_outputDir[0] == '-')
+      if(!hasOneMoreArgument(argIdx, argc) || !nextArgumentValid(argIdx, argv))
       {
-        opt.m_outputDir.clear();
+        opt.m_errorMessage = g_errorOutputMissing;
+        return opt;
       }
-      else
+      opt.m_outputDir = std::string(argv[argIdx+1]);
+      if(!fs::is_directory(opt.m_outputDir))
       {
-        if(!fs::is_directory(opt.m_outputDir))
-        {
-          opt.m_errorMessage = g_outputDirIsntDir;
-          opt.m_outputDir.clear();
-          return opt;
-        }
-        argIdx++;
+        opt.m_errorMessage = g_outputDirIsntDir;
+        opt.m_outputDir.clear();
+        return opt;
       }
+      argIdx++;
     }
     else if(currentParam == g_mockOnlyParam)
     {
-- 
2.43.0


From 062fb994a18bb7b5dd01ec188f13efb08f056916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 03/50] fix: take relative -i and -o from the --cwd directory

The paths were checked for existence before the --cwd directory was known,
so that a relative path valid only from there was refused.
---
 .../src/CmdLineParser/CmdLineParser.cpp       | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index a541d80..b140d0e 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -50,12 +50,6 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
         return opt;
       }
       opt.m_inputHeaderFile = std::string(argv[argIdx+1]);
-      if(!fs::is_regular_file(opt.m_inputHeaderFile))
-      {
-        opt.m_errorMessage = g_inputFileIsntRegular;
-        opt.m_inputHeaderFile.clear();
-        return opt;
-      }
       argIdx++;
     }
     else if(currentParam == g_outputDirParam)
@@ -71,12 +65,6 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
         return opt;
       }
       opt.m_outputDir = std::string(argv[argIdx+1]);
-      if(!fs::is_directory(opt.m_outputDir))
-      {
-        opt.m_errorMessage = g_outputDirIsntDir;
-        opt.m_outputDir.clear();
-        return opt;
-      }
       argIdx++;
     }
     else if(currentParam == g_mockOnlyParam)
@@ -229,6 +217,20 @@ EasyMockOptions CmdLineParser::getParsedArguments(int argc,const char* argv[]) c
     opt.m_errorMessage = g_errorOutputMissing;
     return opt;
   }
+  //Relative paths are relative to the directory given to --cwd
+  const fs::path workingDir(opt.m_changeWorkingDir);
+  if(!fs::is_regular_file(workingDir / opt.m_inputHeaderFile))
+  {
+    opt.m_errorMessage = g_inputFileIsntRegular;
+    opt.m_inputHeaderFile.clear();
+    return opt;
+  }
+  if(!fs::is_directory(workingDir / opt.m_outputDir))
+  {
+    opt.m_errorMessage = g_outputDirIsntDir;
+    opt.m_outputDir.clear();
+    return opt;
+  }
 
   return opt;
 }
-- 
2.43.0


From 9e0bd777508edc70aa75c3dbf189223c472fb172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 04/50] fix: mocks of headers named otherwise than identifier.h

The generated source included easyMock_<header> although the generated header
is always called easyMock_<stem>.h, and the include guard kept characters which
can't be part of an identifier.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 0f23387..2ef2cbc 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -52,6 +52,7 @@
 #define CARRIAGE_RETURN "\n"
 
 #define MOCKED_HEADER_FILENAME "MOCKED_HEADER_FILENAME"
+#define MOCKED_FILE_NAME_WITHOUT_EXT "MOCKED_FILE_NAME_WITHOUT_EXT"
 #define MOCKED_FILE_NAME_WITHOUT_EXT_UPPER "MOCKED_FILE_NAME_WITHOUT_EXT_UPPER"
 #define FUNCTION_SECTION "FUNCTION_SECTION"
 #define FUNCTION_PARAM_SECTION "FUNCTION_PARAM_SECTION"
@@ -492,7 +493,7 @@ const char templateText[] =
         "#include <tuple>" CARRIAGE_RETURN
         )
         CARRIAGE_RETURN
-        "#include \"" MOCK_FRAMEWORK_NAME "_" TEMPLATE_VAR(MOCKED_HEADER_FILENAME) "\"" CARRIAGE_RETURN
+        "#include \"" MOCK_FRAMEWORK_NAME "_" TEMPLATE_VAR(MOCKED_FILE_NAME_WITHOUT_EXT) ".h\"" CARRIAGE_RETURN
         CARRIAGE_RETURN
 
         FUNCTION_INIT_ALL_MOCK_SIGNATURE ";" CARRIAGE_RETURN
@@ -1306,8 +1307,10 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
 
   const auto& fList = p_ctxt.getElementToMock();
   std::string fileNameWithoutExtUpper = p_mockedHeader.substr(0, p_mockedHeader.find_last_of("."));
+  m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT, fileNameWithoutExtUpper);
   std::transform(fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), fileNameWithoutExtUpper.begin(), ::toupper);
-  std::replace( fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), '-', '_');
+  //Whatever can't be part of an identifier can't be part of the include guard
+  std::replace_if( fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), [](unsigned char c) { return !std::isalnum(c); }, '_');
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
   std::unordered_set<std::size_t> generatedElements;
   for (const auto& fun: fList)
-- 
2.43.0


From b54a69f3cb136d131da9a6570d145802a8c77aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 05/50] fix: an empty -i, -o or --cwd value is a missing value

It was taken as if the option had not been given, so that the option could be
repeated and an empty --cwd was silently ignored.
---
 src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
index b140d0e..7835ea2 100644
--- a/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
+++ b/src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp
@@ -21,7 +21,8 @@ bool hasOneMoreArgument(int argIdx, int argc)
 
 bool nextArgumentValid(int argIdx, const char* argv[])
 {
-  return argv[argIdx+1][0] != '-';
+  //An empty value is the same as no value
+  return argv[argIdx+1][0] != '-' && argv[argIdx+1][0] != '\0';
 }
 }
 
-- 
2.43.0


From 34761b9e7e725bd1e53f0141e86b0273655c32f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 06/50] fix: judge all the declarations of a function when
 choosing what to mock

A prototype followed by an inline, static or plain definition was mocked although
it cannot be replaced, and redeclarations spelled differently were mocked twice.
---
 .../include/FunctionDeclaration.h             | 27 ++++++++++++++
 .../CodeGeneratorCTemplate.cpp                |  4 +++
 .../src/FunctionDeclaration.cpp               | 22 ++++++++++++
 .../src/LLVMParser/LLVMParser.cpp             | 35 ++++++++++++++++---
 4 files changed, 84 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/include/FunctionDeclaration.h b/src/easyMockGenerate/include/FunctionDeclaration.h
index 510de1b..05e0737 100644
--- a/src/easyMockGenerate/include/FunctionDeclaration.h
+++ b/src/easyMockGenerate/include/FunctionDeclaration.h
@@ -57,6 +57,31 @@ public:
    */
   void setDoesThisDeclarationHasABody(bool val) noexcept;
 
+  /*!
+   * \brief Returns whether a mock can take the place of the function.
+   *
+   * This isn't the case when any of the declarations of the function is static, inline or
+   * has a body. This isn't part of the description of the declaration, hence not compared.
+   */
+  bool isReplaceable() const noexcept;
+
+  /*!
+   * \brief Sets whether a mock can take the place of the function.
+   */
+  void setReplaceable(bool val) noexcept;
+
+  /*!
+   * \brief Returns whether this declares again a function which has been declared before.
+   *
+   * This isn't part of the description of the declaration, hence not compared.
+   */
+  bool isRedeclaration() const noexcept;
+
+  /*!
+   * \brief Sets whether this declares again a function which has been declared before.
+   */
+  void setRedeclaration(bool val) noexcept;
+
   /*!
    * \copydoc ::EasyMock::Hashable::getHash()
    */
@@ -83,6 +108,8 @@ public:
   }
 private:
   bool m_doesThisDeclarationHasBody;
+  bool m_isReplaceable;
+  bool m_isRedeclaration;
   std::size_t m_cachedHash;
   std::shared_ptr<const Namespace> m_namespace;
 };
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 2ef2cbc..c421b72 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1325,6 +1325,10 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
       {
         continue;
       }
+      if(fun->isRedeclaration() || (!fun->isReplaceable() && !m_generateUsedType))
+      {
+        continue;
+      }
       if(m_mockOnlyList.size() > 0 && m_mockOnlyList.find(*fun->getName()) == m_mockOnlyList.end())
       {
         continue;
diff --git a/src/easyMockGenerate/src/FunctionDeclaration.cpp b/src/easyMockGenerate/src/FunctionDeclaration.cpp
index 45a3c39..e32c514 100644
--- a/src/easyMockGenerate/src/FunctionDeclaration.cpp
+++ b/src/easyMockGenerate/src/FunctionDeclaration.cpp
@@ -13,6 +13,8 @@ FunctionDeclaration::FunctionDeclaration(std::string p_functionName, ReturnValue
     Function{std::move(p_functionName), std::move(p_functionReturnType), std::move(p_functionParameters), std::move(p_parentData)},
     ElementToMock{},
     m_doesThisDeclarationHasBody{false},
+    m_isReplaceable{true},
+    m_isRedeclaration{false},
     m_cachedHash{0},
     m_namespace{std::move(p_namespace)}
 {
@@ -28,6 +30,26 @@ void FunctionDeclaration::setDoesThisDeclarationHasABody(bool val) noexcept
   m_doesThisDeclarationHasBody = val;
 }
 
+bool FunctionDeclaration::isReplaceable() const noexcept
+{
+  return m_isReplaceable;
+}
+
+void FunctionDeclaration::setReplaceable(bool val) noexcept
+{
+  m_isReplaceable = val;
+}
+
+bool FunctionDeclaration::isRedeclaration() const noexcept
+{
+  return m_isRedeclaration;
+}
+
+void FunctionDeclaration::setRedeclaration(bool val) noexcept
+{
+  m_isRedeclaration = val;
+}
+
 size_t FunctionDeclaration::getHash() const noexcept
 {
   if(m_cachedHash != 0)
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 2d6c2b0..0310c7e 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -32,6 +32,7 @@
 #include <string>
 #include <vector>
 #include <unordered_map>
+#include <unordered_set>
 #include <regex>
 #include <memory>
 #include <optional>
@@ -160,6 +161,20 @@ public:
       return nullptr;
     }
 
+    const clang::FunctionDecl* currentDecl = func;
+    if(!func->hasPrototype())
+    {
+      // int f(); int f(int a); -> only the declaration with a prototype tells the parameters
+      for(const clang::FunctionDecl* redecl : func->redecls())
+      {
+        if(redecl->hasWrittenPrototype())
+        {
+          func = redecl;
+          break;
+        }
+      }
+    }
+
     ReturnValue rv = getFunctionReturnValue(func);
     Parameter::Vector param = getFunctionParameters(func);
 
@@ -201,16 +216,27 @@ public:
     {
       parentData->addFunction(f);
     }
-    bool isInline = func->isInlined();
-    bool doesThisDeclHasABody = func->doesThisDeclarationHaveABody();
-    bool isStatic = func->isStatic();
+    bool isInline = currentDecl->isInlined();
+    bool doesThisDeclHasABody = currentDecl->doesThisDeclarationHaveABody();
+    bool isStatic = currentDecl->isStatic();
+    bool isReplaceable = true;
+    for(const clang::FunctionDecl* redecl : func->redecls())
+    {
+      if(redecl->isInlined() || redecl->doesThisDeclarationHaveABody() || redecl->isStatic())
+      {
+        isReplaceable = false;
+      }
+    }
     f->setVariadic(func->isVariadic());
     f->setInlined(isInline);
     f->setIsStatic(isStatic);
     f->setDoesThisDeclarationHasABody(doesThisDeclHasABody);
     f->setOriginFile(originFileFullInfo);
     f->setClassConst(isClassConst);
-    setFunctionAttribute(func, *f);
+    f->setReplaceable(isReplaceable);
+    f->setRedeclaration(!m_parsedFunctions.insert(func->getCanonicalDecl()).second);
+    // The last declaration carries the attributes of all the previous ones.
+    setFunctionAttribute(func->getMostRecentDecl(), *f);
 
     return f;
   }
@@ -233,6 +259,7 @@ private:
   const boost::filesystem::path& m_mainFile;
   const IgnoreFunList& m_ignoreFunList;
   bool m_parseIncludedFunctions;
+  std::unordered_set<const clang::FunctionDecl*> m_parsedFunctions;
 
   enum ContainerType {
     STRUCT,
-- 
2.43.0


From 28a715dadc50a8d450fce066bfe483837a0fd806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 07/50] fix: endless loop on a function declared with an
 attribute macro first

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 0310c7e..cb5f3b6 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -458,8 +458,9 @@ private:
      * This is needed because some attribute like "noreturn" aren't part of the function attribute list for
      * LLVM.
      */
-    clang::SourceLocation itrSource = beginSourceLocation;
-    while(m_SM->isBeforeInTranslationUnit(itrSource,startOfFunNameLocation))
+    clang::SourceLocation itrSource = m_SM->getExpansionLoc(beginSourceLocation);
+    const clang::SourceLocation endOfItrSource = m_SM->getExpansionLoc(startOfFunNameLocation);
+    while(m_SM->isBeforeInTranslationUnit(itrSource, endOfItrSource))
     {
       //itrSource = clang::Lexer::GetBeginningOfToken(itrSource, *m_SM, *m_LO);
       clang::Token rawToken;
@@ -479,7 +480,11 @@ private:
           removeFromString(declString, std::move(currentTokenStr), md.hasParameters());
         }
       }
-      itrSource = itrSource.getLocWithOffset(currentTokenStr.length());
+      if(rawToken.is(clang::tok::eof))
+      {
+        break;
+      }
+      itrSource = rawToken.getEndLoc();
     }
 
     declString = std::regex_replace(declString, removeAttrRegex, "");
-- 
2.43.0


From c05a09db0b8025a75478bebca41d177e75a95257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:19 +0000
Subject: [PATCH 08/50] fix: only remove whole macros from the declaration of a
 return type

---
 .../src/LLVMParser/LLVMParser.cpp             | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index cb5f3b6..67927e2 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -377,14 +377,27 @@ private:
 
   void removeFromString(std::string &declString, std::string macroStr, bool hasParameter)
   {
+    if(macroStr.empty())
+    {
+      return;
+    }
+    auto isIdentifierChar = [](unsigned char c) { return std::isalnum(c) || c == '_'; };
+    const bool startsWithIdentifier = isIdentifierChar(macroStr.front());
+    const bool endsWithIdentifier = isIdentifierChar(macroStr.back());
     /*
-     * It is needed to escape "(" and ")" in case there are some so that they are not taken as group inside the
-     * std::regex
+     * It is needed to escape all the special characters so that they aren't interpreted by the std::regex
+     * and to only remove the macro when it isn't part of a longer identifier.
      */
-    static std::regex leftParentRegex{"\\("};
-    static std::regex rightParentRegex{"\\)"};
-    macroStr = std::regex_replace(macroStr, leftParentRegex, "\\(");
-    macroStr = std::regex_replace(macroStr, rightParentRegex, "\\)");
+    static std::regex specialCharRegex{"[\\^$.*+?()\\[\\]{}|\\\\]"};
+    macroStr = std::regex_replace(macroStr, specialCharRegex, "\\$&");
+    if(startsWithIdentifier)
+    {
+      macroStr.insert(0, "\\b");
+    }
+    if(endsWithIdentifier)
+    {
+      macroStr.append("\\b");
+    }
     /*
      * The macro string doesn't contain any parameter. Matching any parameter is added by hand.
      */
-- 
2.43.0


From ad2698ba9a3673d7079975c48b519eb1ba432f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 09/50] fix: specifiers hidden in macros or spelled differently
 aren't part of the return type

---
 .../src/LLVMParser/LLVMParser.cpp             | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 67927e2..4f84a30 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -465,6 +465,9 @@ private:
     }
     static std::regex removeAttrRegex{"__attribute__[[:space:]]*\\([[:space:]]*\\(.*\\)[[:space:]]*\\)"};
 
+    static const std::string specifiers{"(extern|static|inline|__inline|__inline__|_Noreturn|__extension__)"};
+    static std::regex specifiersRegex{specifiers + "([[:space:]]+" + specifiers + ")*"};
+
     /*
      * Loop through all the token of the declaration and verifies if it expands to __attribute((<something>)).
      * If so, remove the token.
@@ -488,7 +491,7 @@ private:
         const MacroDefinition& md = m_ctxt.getMacroDefinition(currentTokenStr);
         std::string macroStr = md.getDefinition();
         std::smatch match;
-        if(macroStr.empty() || std::regex_match(macroStr, match, removeAttrRegex))
+        if(macroStr.empty() || std::regex_match(macroStr, match, removeAttrRegex) || std::regex_match(macroStr, match, specifiersRegex))
         {
           removeFromString(declString, std::move(currentTokenStr), md.hasParameters());
         }
@@ -501,9 +504,8 @@ private:
     }
 
     declString = std::regex_replace(declString, removeAttrRegex, "");
-    eraseInString(declString, "inline ");
-    eraseInString(declString, "extern ");
-    eraseInString(declString, "static ");
+    // The specifiers of the declaration aren't part of the type
+    declString = std::regex_replace(declString, std::regex{"\\b" + specifiers + "\\b"}, "");
     declString = trim(declString);
     setDeclaratorDeclareString(rvQualType, &rv, declString);
 
@@ -1130,15 +1132,6 @@ private:
     return func->getNameInfo().getName().getAsString();
   }
 
-  void eraseInString(std::string &string,const std::string& toErase)
-  {
-    size_t pos = string.find(toErase);
-    if(pos != std::string::npos)
-    {
-        string.erase(pos, toErase.length());
-    }
-  }
-
   std::string getTypedefName(const clang::Type &type)
   {
     const clang::TypedefType* TDT = type.getAs<clang::TypedefType>();
-- 
2.43.0


From 5b2b9fa6abfa3c0bbf8f1807f8aed1040be92b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 10/50] fix: mock functions declared through a typedef of a
 function type

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 4f84a30..4254e2c 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -448,6 +448,12 @@ private:
     auto type = getEasyMocktype(rvQualType, structKnownType, false);
     ReturnValue rv(std::move(type));
 
+    if(func->getFunctionTypeLoc().isNull())
+    {
+      // typedef int fun_t(int); fun_t f; -> the return type isn't in the declaration of the function
+      return rv;
+    }
+
     /*
      * clang::QualType doesn't have any SourceRange information. The source range is approximated by taking
      * the very beginning of the function declaration and the beginning position of the function name.
-- 
2.43.0


From 5a36b20261cc3690622ff24fe8349258af893c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 11/50] fix: show all the digits of 128-bit values in the error
 messages of their matchers

---
 src/easyMockFramework/src/easyMock_matcher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockFramework/src/easyMock_matcher.cpp b/src/easyMockFramework/src/easyMock_matcher.cpp
index ec659c2..622dd78 100644
--- a/src/easyMockFramework/src/easyMock_matcher.cpp
+++ b/src/easyMockFramework/src/easyMock_matcher.cpp
@@ -68,7 +68,7 @@ extern "C" int cmp_int128(const void *currentCall_ptr, const void *expectedCall_
   uint64_t highDigitCurrent = currentCall_val >> 64;
   uint64_t highDigitExpected = expectedCall_val >> 64;
   std::snprintf(errorMessage, EASYMOCK_MAX_CMP_ERR,
-  "Parameter '%s' has value '%#" PRIx64 "%" PRIx64 "', was expecting '%#" PRIx64 "%" PRIx64 "'",
+  "Parameter '%s' has value '0x%" PRIx64 "%016" PRIx64 "', was expecting '0x%" PRIx64 "%016" PRIx64 "'",
         paramName, highDigitCurrent, lowDigitCurrent, highDigitExpected, lowDigitExpected);
   return -1;
 }
@@ -85,7 +85,7 @@ extern "C" int cmp_uint128(const void *currentCall_ptr, const void *expectedCall
   uint64_t highDigitCurrent = currentCall_val >> 64;
   uint64_t highDigitExpected = expectedCall_val >> 64;
   std::snprintf(errorMessage, EASYMOCK_MAX_CMP_ERR,
-  "Parameter '%s' has value '%#" PRIx64 "%" PRIx64 "', was expecting '%#" PRIx64 "%" PRIx64 "'",
+  "Parameter '%s' has value '0x%" PRIx64 "%016" PRIx64 "', was expecting '0x%" PRIx64 "%016" PRIx64 "'",
         paramName, highDigitCurrent, lowDigitCurrent, highDigitExpected, lowDigitExpected);
   return -1;
 }
-- 
2.43.0


From 5a0a4281be774fb68056893d6cb19185343a339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 12/50] fix: parameters named like a variable of the mock are
 hidden by it, or the mock doesn't compile

---
 .../CodeGeneratorCTemplate.cpp                | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index c421b72..29c6b4e 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -652,7 +652,7 @@ const char templateText[] =
         "        void *curCallVal = (void *) &" PARAMETER_NAME("") ";" CARRIAGE_RETURN
         "        void *expectedCallVal = (void *) &" CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME("")) ";" CARRIAGE_RETURN
         "        EasyMock_Matcher matcher = " CURRENT_DATA_CALL_MEMBER(FUNCTION_MOCK_DATA_CUR_MATCH_VAR) ";" CARRIAGE_RETURN
-        "        int error = matcher(curCallVal, expectedCallVal, \"" PARAMETER_NAME("") "\", errorMessage);" CARRIAGE_RETURN
+        "        int error = matcher(curCallVal, expectedCallVal, \"" MATCHER_NAME "\", errorMessage);" CARRIAGE_RETURN
         "        if(error)" CARRIAGE_RETURN
         "        {" CARRIAGE_RETURN
         "            easyMock_addError(printCallStack, \"Error : at call %d of '%s': %s\", MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "), MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), errorMessage);" CARRIAGE_RETURN
@@ -666,7 +666,7 @@ const char templateText[] =
         "        auto& curCallVal = " PARAMETER_NAME("") ";" CARRIAGE_RETURN
         "        auto& expectedCallVal = " CURRENT_DATA_CALL_MEMBER(PARAMETER_NAME("")) ";" CARRIAGE_RETURN
         "        auto& matcher = " CURRENT_DATA_CALL_MEMBER(FUNCTION_MOCK_DATA_CUR_MATCH_VAR) ";" CARRIAGE_RETURN
-        "        bool error = matcher(curCallVal, expectedCallVal, \"" PARAMETER_NAME("") "\", errorMessage);" CARRIAGE_RETURN
+        "        bool error = matcher(curCallVal, expectedCallVal, \"" MATCHER_NAME "\", errorMessage);" CARRIAGE_RETURN
         "        if(error)" CARRIAGE_RETURN
         "        {" CARRIAGE_RETURN
         "            easyMock_addError(printCallStack, \"Error : at call %d of '%s': %s\", MockedFunction_getNbActualCall(&" TEMPLATE_MOCKED_FUN_CLASS "), MockedFunction_getName(&" TEMPLATE_MOCKED_FUN_CLASS "), errorMessage.str().c_str());" CARRIAGE_RETURN
@@ -964,6 +964,19 @@ const char namespaceEndTemplate[] =
 template<class... Ts> struct overloaded : Ts... { using Ts::operator()...; };
 template<class... Ts> overloaded(Ts...) -> overloaded<Ts...>;
 
+/*!
+ * \brief Returns whether a parameter cannot keep its name because the mock
+ * uses that name for something else.
+ */
+inline bool isNameUsedByMock(const std::string& p_name)
+{
+  static const std::unordered_set<std::string> mockNames {
+    "printCallStack", "checkCallsOrder", "default_res", CURRENT_DATA_CALL, MOCKED_DATA, "to_return", "instance",
+    "errorMessage", "curCallVal", "expectedCallVal", "matcher", "error", "currentCall", "curFuncCall"
+  };
+  return mockNames.find(p_name) != mockNames.end() || p_name.compare(0, sizeof(MOCK_OUT_PREFIX) - 1, MOCK_OUT_PREFIX) == 0;
+}
+
 inline std::string getAnonymousName(const TypeItf* p_type)
 {
   static const std::string GENERATED_ANONYMOUS_TYPE_PREFIX { "easymock_generated_anonymous_type_hash_" };
@@ -1624,9 +1637,13 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
       paramName.append("__easymock_param" + std::to_string(m_nbUnamedParam));
       m_nbUnamedParam++;
     }
-    functionParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
-    // For easyMock_matcher_*
+    // For easyMock_matcher_* and the error messages
     functionParamSection->SetValue(FUNCTION_MATCHER_PARAM_NAME, paramName);
+    if(isNameUsedByMock(paramName))
+    {
+      paramName.insert(0, MOCK_FRAMEWORK_NAME "_param_");
+    }
+    functionParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
 
     // Add the {C/CPP}_ONLY_SECTION in functionParamSection after all the value have been set in functionParamSection
     // to allow the value set (e.g. FUNCTION PARAM_TYPE) to be available in those section as well.
-- 
2.43.0


From 64f60e60e250bc65604c04dd22e82adca8c6661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 13/50] fix: signed char parameters and return values are
 mocked as char, and the mock doesn't compile

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 4254e2c..6c3731a 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -718,6 +718,11 @@ private:
       }
       else
 #endif
+      if(isSignedCharType(type))
+      {
+        cType = std::make_shared<CType>(CTYPE_SCHAR);
+      }
+      else
       {
         cType = std::make_shared<CType>(CTYPE_CHAR);
       }
@@ -1024,6 +1029,14 @@ private:
     return rv;
   }
 
+  bool isSignedCharType(const clang::Type &type)
+  {
+    const clang::BuiltinType *bt = type.getAs<clang::BuiltinType>();
+
+    // The kind of a plain char is Char_S or Char_U
+    return bt->getKind() == clang::BuiltinType::SChar;
+  }
+
   bool isShortType(const clang::Type &type)
   {
     const clang::BuiltinType *bt = type.getAs<clang::BuiltinType>();
-- 
2.43.0


From e9c9e5b82b221a79214b9d263f77f598691d42c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 14/50] fix: output arguments of pointers to typedefs of void
 or of incomplete types have no size, and the mock doesn't compile

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 29c6b4e..0698730 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1681,8 +1681,9 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
-        const ComposableType* composableTypeField = pointedType->asComposableType();
-        if(pointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared()))
+        const TypeItf* untypedefPointedType = getUnqualifiedAndUntypedefType(pointedType);
+        const ComposableType* composableTypeField = untypedefPointedType->asComposableType();
+        if(untypedefPointedType->getCType() == CTYPE_VOID || (composableTypeField && composableTypeField->isForwardDeclared()))
         {
           subdict = newPtrParamSection->AddSectionDictionary(FUNCTION_VOID_PTR_OUT_SECTION);
         }
-- 
2.43.0


From 9070fe8de49564ac40ee4c608e0560033ba3fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 15/50] fix: the mock of a function with a pointer to a typedef
 of a function pointer doesn't compile

---
 .../CodeGeneratorCTemplate.cpp                | 35 ++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 0698730..92288ac 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1000,6 +1000,25 @@ const TypeItf* getUnqualifiedAndUntypedefType(const TypeItf* p_type)
   return p_type;
 }
 
+/*!
+ * \brief Returns the function type pointed to, unless a typedef stands for it: only then
+ * the parameters of the function type are part of the declaration.
+ */
+const FunctionType* getNonTypedefFunctionType(const TypeItf* p_type)
+{
+  const Pointer* pointerType = p_type->asPointer();
+  if(pointerType)
+  {
+    return getNonTypedefFunctionType(pointerType->getPointedType());
+  }
+  const QualifiedType* qualifiedType = p_type->asQualifiedType();
+  if(qualifiedType)
+  {
+    return getNonTypedefFunctionType(qualifiedType->getUnqualifiedType());
+  }
+  return p_type->asFunctionType();
+}
+
 const TypedefType* getTypeDefType(const TypeItf* p_type)
 {
   const TypedefType* typeDefType = p_type->asTypedefType();
@@ -1506,8 +1525,8 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   functionSectionDict->SetValue(FUNCTION_NON_QUALIFIED_RETURN_VALUE, nonQualDereferencedRetTypeStr);
   if(nonQualifiedReturnValuePointer)
   {
-    const TypeItf *returnValuePointerPointedType = getRawType(nonQualifiedReturnValuePointer);
-    const FunctionType *functionType = returnValuePointerPointedType->asFunctionType();
+    getRawType(nonQualifiedReturnValuePointer);
+    const FunctionType *functionType = getNonTypedefFunctionType(nonQualifiedReturnValuePointer);
     if(functionType)
     {
       generateDeclarationOfUsedType(p_parentDictionary, functionType, false);
@@ -1531,8 +1550,8 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
     returnValParamDict->SetValue(FUNCTION_DEREFERENCED_RETURN_VALUE, getDereferencedType(*rvType).getFullDeclarationName());
     if(nonQualifiedReturnValuePointer)
     {
-      const TypeItf *returnValuePointerPointedType = getRawType(nonQualifiedReturnValuePointer);
-      const FunctionType *functionType = returnValuePointerPointedType->asFunctionType();
+      getRawType(nonQualifiedReturnValuePointer);
+      const FunctionType *functionType = getNonTypedefFunctionType(nonQualifiedReturnValuePointer);
       if(functionType)
       {
         generateDeclarationOfUsedType(p_parentDictionary, functionType, false);
@@ -1569,8 +1588,8 @@ void CodeGeneratorCTemplate::generateExtraDecl(ctemplate::TemplateDictionary *di
   const Pointer *nonQualifiedReturnValueTypePointer = returnValueType->unqualify()->asPointer();
   if(nonQualifiedReturnValueTypePointer)
   {
-    const TypeItf *returnValuePointedType = getRawType(nonQualifiedReturnValueTypePointer);
-    const FunctionType *recursiveFunctionType = returnValuePointedType->asFunctionType();
+    getRawType(nonQualifiedReturnValueTypePointer);
+    const FunctionType *recursiveFunctionType = getNonTypedefFunctionType(nonQualifiedReturnValueTypePointer);
     if(recursiveFunctionType)
     {
       ctemplate::TemplateDictionary *inInDict = extraDeclDict->AddSectionDictionary(std::string(sectionName) + "INSIDE");
@@ -1623,8 +1642,8 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     else
     {
       functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, argType);
-      const TypeItf *paramPtrPointedType = getRawType(nonQualifiedParamPtrType);
-      const FunctionType *ft = paramPtrPointedType->asFunctionType();
+      getRawType(nonQualifiedParamPtrType);
+      const FunctionType *ft = getNonTypedefFunctionType(nonQualifiedParamPtrType);
       if(ft)
       {
         generateDeclarationOfUsedType(m_rootDictionary, ft, false);
-- 
2.43.0


From d72a83fa6c56067a136dd5d4122c22d62c0340c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 16/50] fix: keep the ellipsis of variadic function types, and
 accept function types without prototype

---
 .../include/CodeGeneratorCTemplate.h                 |  1 +
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp    | 12 +++++++++---
 src/easyMockGenerate/src/FunctionType.cpp            |  4 ++++
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp   |  9 +++++----
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 6f67809..20aae24 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -75,6 +75,7 @@ private:
   void fillInMacroDefinition(const ElementToMockContext& p_elem);
   void generateFunctionSection(ctemplate::TemplateDictionary* p_parentDictionary, const std::shared_ptr<const FunctionDeclaration> &f);
   void generateFunctionAttributes(const std::shared_ptr<const FunctionDeclaration> &f, ctemplate::TemplateDictionary *functionSectionDict);
+  void generateVariadicSection(ctemplate::TemplateDictionary *p_functionSectionDict, const Function& p_function);
   void generateFunctionParamSection(ctemplate::TemplateDictionary *dict, const Parameter::Vector& functionParam);
   //p_uniquePrepend and p_declPrepend must never become a reference because the string appended in recursive calls must reverted when the recursive call returns
   void generateAllFieldStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const ComposableType *p_composedType, std::string p_uniquePrepend, std::string p_declPrepend);
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 92288ac..cd07afd 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1561,11 +1561,16 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   }
   const Parameter::Vector& funParams = p_elemToMock->getFunctionsParameters();
   generateFunctionParamSection(functionSectionDict, funParams);
-  if(p_elemToMock->isVariadic())
+  generateVariadicSection(functionSectionDict, *p_elemToMock);
+}
+
+void CodeGeneratorCTemplate::generateVariadicSection(ctemplate::TemplateDictionary *p_functionSectionDict, const Function& p_function)
+{
+  if(p_function.isVariadic())
   {
-    ctemplate::TemplateDictionary *variadicSection = functionSectionDict->AddSectionDictionary(VARIADIC_SECTION);
+    ctemplate::TemplateDictionary *variadicSection = p_functionSectionDict->AddSectionDictionary(VARIADIC_SECTION);
     std::string variadicString;
-    if(funParams.size() > 0)
+    if(p_function.getFunctionsParameters().size() > 0)
     {
       variadicString.append(", ");
     }
@@ -1582,6 +1587,7 @@ void CodeGeneratorCTemplate::generateExtraDecl(ctemplate::TemplateDictionary *di
   extraDeclDict->SetFilename(templateFileName);
 
   generateFunctionParamSection(extraDeclDict, functionType->getFunctionsParameters());
+  generateVariadicSection(extraDeclDict, *functionType);
 
   const ReturnValue *rv = functionType->getReturnValue();
   const TypeItf *returnValueType = rv->getType();
diff --git a/src/easyMockGenerate/src/FunctionType.cpp b/src/easyMockGenerate/src/FunctionType.cpp
index 0b15cb5..f89a3cb 100644
--- a/src/easyMockGenerate/src/FunctionType.cpp
+++ b/src/easyMockGenerate/src/FunctionType.cpp
@@ -39,6 +39,10 @@ std::string FunctionType::getDeclarationPostfix(bool p_naked) const
     returnStr.append(p.getDeclareString());
     firstParam = false;
   }
+  if(isVariadic())
+  {
+    returnStr.append(firstParam ? "..." : ", ...");
+  }
   returnStr.push_back(')');
   return returnStr;
 }
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 6c3731a..b6e6ad8 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -673,7 +673,7 @@ private:
     {
       type = getFromUnionType(clangType, structKnownType, isEmbeddedInOtherType);
     }
-    else if (clangType.isFunctionProtoType())
+    else if (clangType.isFunctionType())
     {
       type = getFromFunctionPrototype(clangType, structKnownType);
     }
@@ -808,14 +808,14 @@ private:
    */
   std::shared_ptr<TypeItf> getFromFunctionPrototype(const clang::Type &type, structKnownTypeMap &structKnownType)
   {
+    const clang::QualType &rvQualType = type.getAs<clang::FunctionType>()->getReturnType();
+    // Not set when the parameters aren't declared: int (*f)()
     const clang::FunctionProtoType *fp = type.getAs<clang::FunctionProtoType>();
 
-    const clang::QualType &rvQualType = fp->getReturnType();
-
     std::shared_ptr<TypeItf> rvType = getEasyMocktype(rvQualType, structKnownType, false);
     ReturnValue rv(std::move(rvType));
 
-    unsigned nbParams = fp->getNumParams();
+    unsigned nbParams = fp ? fp->getNumParams() : 0;
     Parameter::Vector vectParam;
     for(unsigned paramIdx = 0; paramIdx < nbParams; paramIdx++)
     {
@@ -826,6 +826,7 @@ private:
       vectParam.push_back(std::move(p));
     }
     auto f = std::make_shared<FunctionType>(std::move(rv), std::move(vectParam));
+    f->setVariadic(fp && fp->isVariadic());
 
     return f;
   }
-- 
2.43.0


From 5803e53f3f395f413db956afdad248e8db2efb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 17/50] fix: comments within a declaration must not take parts
 of its type away

---
 .../src/LLVMParser/LLVMParser.cpp             | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index b6e6ad8..ddab5c7 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -576,21 +576,34 @@ private:
     return vectParam;
   }
 
-  std::string removeComments(std::string declareString)
+  std::string removeComments(const std::string& declareString)
   {
-    static std::regex oneLineCommentRegex{"//.*\n"};
-    declareString = std::regex_replace(declareString, oneLineCommentRegex, "");
-    for(auto& c : declareString)
+    std::string rv;
+    size_t pos = 0;
+    while(pos < declareString.size())
     {
-      if(c == '\n')
+      size_t endPos = pos;
+      if(declareString.compare(pos, 2, "//") == 0)
       {
-        c = ' ';
+        endPos = declareString.find('\n', pos);
       }
+      else if(declareString.compare(pos, 2, "/*") == 0)
+      {
+        endPos = declareString.find("*/", pos + 2);
+        endPos = endPos == std::string::npos ? endPos : endPos + 2;
+      }
+      if(endPos != pos)
+      {
+        // A comment separates like a space does
+        rv.push_back(' ');
+        pos = endPos;
+        continue;
+      }
+      rv.push_back(declareString[pos] == '\n' ? ' ' : declareString[pos]);
+      pos++;
     }
-    static std::regex commentRegex{"/\\*.*\\*/"};
-    declareString = std::regex_replace(declareString, commentRegex, "");
 
-    return declareString;
+    return rv;
   }
 
   std::string getDeclareString(const clang::SourceLocation& startLoc, const clang::SourceLocation& endLoc, bool fieldDecl)
@@ -598,7 +611,7 @@ private:
     clang::CharSourceRange charSourceRange = clang::Lexer::getAsCharRange(startLoc, *m_SM, *m_LO);
     charSourceRange.setEnd(endLoc);
     clang::StringRef strRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
-    std::string declareString = strRef.str();
+    std::string declareString = removeComments(strRef.str());
     /*
      * When a declaration is inlined, we ignore the whole declaration in this way
      */
@@ -634,7 +647,6 @@ private:
         declareString.pop_back();
       }
     }
-    declareString = removeComments(std::move(declareString));
     declareString = trim(std::move(declareString));
 
     return declareString;
@@ -1106,7 +1118,7 @@ private:
       const clang::QualType &pointeeType = type.getPointeeType();
       return isFunctionType(pointeeType);
     }
-    return type.isFunctionProtoType();
+    return type.isFunctionType();
   }
 
   bool isBoolType(const clang::Type &type)
-- 
2.43.0


From 568d187ec586257ce93c81816089c779e10982fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 18/50] fix: the mock of a function returning a typedef of void
 doesn't compile

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index cd07afd..e5df5aa 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1534,7 +1534,7 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
     }
   }
 
-  bool isRvVoid = rvType->isCType() && rvType->getCType() == CTYPE_VOID && !rvType->unqualify()->isPointer();
+  bool isRvVoid = getUnqualifiedAndUntypedefType(rvType)->getCType() == CTYPE_VOID;
   if (!isRvVoid)
   {
     ctemplate::TemplateDictionary *returnValParamDict = functionSectionDict->AddSectionDictionary(FUNCTION_RETURN_VALUE_PARAM_SECTION);
-- 
2.43.0


From 933af8add772eab9f2ca45532863989f5026a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 19/50] fix: parameters that start with a macro and are arrays
 or have no name lose a part of their type

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index ddab5c7..51dd1e7 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -564,8 +564,12 @@ private:
        *
        * See VoidFunUnnamedPtrParam test for reproduction scenario.
        * See VoidFunEnumFactory (unnamed param) test for reproduction scenario.
+       *
+       * The text in front of the name isn't the whole type of an array, and without name the type
+       * isn't told apart.
        */
-      if(beginLoc.isMacroID() || parameterRawType->isImplicit())
+      const bool isTypeBeforeName = !paramName.empty() && !param->getOriginalType()->isArrayType();
+      if((beginLoc.isMacroID() && isTypeBeforeName) || parameterRawType->isImplicit())
       {
         std::string declareString = getDeclareString(beginLoc, param->getEndLoc(), false);
         setDeclaratorDeclareString(paramQualType, &p, declareString);
-- 
2.43.0


From 72544bcffaedcc037c65545d010b0a7156ed623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 20/50] fix: _Bool is mocked as int, and the mock doesn't
 compile

---
 src/easyMockGenerate/include/EasyMockGenerateTypes.h | 4 ++++
 src/easyMockGenerate/src/EasyMockGenerateTypes.cpp   | 2 ++
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp   | 6 +++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/include/EasyMockGenerateTypes.h b/src/easyMockGenerate/include/EasyMockGenerateTypes.h
index 642ed23..df560c0 100644
--- a/src/easyMockGenerate/include/EasyMockGenerateTypes.h
+++ b/src/easyMockGenerate/include/EasyMockGenerateTypes.h
@@ -73,6 +73,10 @@ typedef enum
    * \brief <tt> unsigned __int128 </tt> type
    */
   CTYPE_UINT128,
+  /*!
+   * \brief @c _Bool type
+   */
+  CTYPE_BOOL,
   /*!
    * \brief @c void type
    */
diff --git a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
index e9171d5..6c581e9 100644
--- a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
+++ b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
@@ -20,6 +20,7 @@ const char *easyMock_arrayCTypeStr[] =
   "long double",
   "__int128",
   "unsigned __int128",
+  "_Bool",
   "void",
   "invalid"
 };
@@ -44,6 +45,7 @@ const char *easyMock_printfFormat[] =
   "Lf",
   "lf%lf",
   "Lf%Lf",
+  "d",
   "voidInvalidPrintfFormat",
   "invalidPrintfFormat"
 };
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 51dd1e7..9098625 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -773,7 +773,11 @@ private:
     }
     else if(isBoolType(type))
     {
-      cType = std::make_shared<CType>(CTYPE_INT);
+      cType = std::make_shared<CType>(CTYPE_BOOL);
+      if(m_LO->CPlusPlus)
+      {
+        cType->setName("bool");
+      }
     }
     else if(isInt128Type(type))
     {
-- 
2.43.0


From e31594cc9a7e686882de7f2ac6ba2d39f49d2629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 21/50] fix: the mock of a function with its name in spaced
 parentheses doesn't compile

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 9098625..dcccb78 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -513,6 +513,12 @@ private:
     // The specifiers of the declaration aren't part of the type
     declString = std::regex_replace(declString, std::regex{"\\b" + specifiers + "\\b"}, "");
     declString = trim(declString);
+    // The name of the function may be in parentheses
+    while(!declString.empty() && declString.back() == '(')
+    {
+      declString.pop_back();
+      declString = trim(declString);
+    }
     setDeclaratorDeclareString(rvQualType, &rv, declString);
 
     return rv;
-- 
2.43.0


From e3c3da9c3c2fb8537929537b4c85ddfe75781d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 22/50] fix: a const given by a typedef is lost, and pointers
 to it get an output argument

---
 .../CodeGeneratorCTemplate.cpp                | 11 +++++++++-
 .../src/LLVMParser/LLVMParser.cpp             | 20 +++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index e5df5aa..7bc21b8 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -983,6 +983,15 @@ inline std::string getAnonymousName(const TypeItf* p_type)
   return GENERATED_ANONYMOUS_TYPE_PREFIX + std::to_string(p_type->getHash());
 }
 
+/*!
+ * \brief Returns whether a type is const, be it because of the typedef it is declared with.
+ */
+inline bool isConstOrTypedefOfConst(const TypeItf* p_type)
+{
+  const TypedefType* typedefType = p_type->asTypedefType();
+  return p_type->isConst() || (typedefType && isConstOrTypedefOfConst(typedefType->getTypee()));
+}
+
 const TypeItf* getUnqualifiedAndUntypedefType(const TypeItf* p_type)
 {
   const QualifiedType* qualifiedType = p_type->asQualifiedType();
@@ -1692,7 +1701,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     if(nonQualifiedParamPtrType)
     {
       const TypeItf* pointedType = nonQualifiedParamPtrType->getMostPointedType();
-      if(!pointedType->isConst() &&
+      if(!isConstOrTypedefOfConst(pointedType) &&
          !pointedType->isImplicit() &&
          !pointedType->isFunctionType())
       {
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index dcccb78..a8ceafc 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -805,7 +805,7 @@ private:
     std::shared_ptr<TypeItf> returnedType = cType;
     if(!typedefName.empty())
     {
-      returnedType = std::make_shared<TypedefType>(typedefName, std::move(returnedType));
+      returnedType = std::make_shared<TypedefType>(typedefName, getTypee(type, std::move(returnedType)));
     }
 
     return returnedType;
@@ -875,7 +875,7 @@ private:
     std::shared_ptr<TypeItf> toReturn = enumType;
     if(!typedefName.empty())
     {
-      toReturn = std::make_shared<TypedefType>(typedefName, std::move(toReturn));
+      toReturn = std::make_shared<TypedefType>(typedefName, getTypee(type, std::move(toReturn)));
     }
     return toReturn;
   }
@@ -1011,7 +1011,7 @@ private:
     std::shared_ptr<TypeItf> toReturn = sType;
     if(!typedDefName.empty())
     {
-      toReturn = std::make_shared<TypedefType>(typedDefName, std::move(toReturn));
+      toReturn = std::make_shared<TypedefType>(typedDefName, getTypee(p_type, std::move(toReturn)));
       structKnownType.erase(typedDefName);
     }
     if(!typeName.empty())
@@ -1040,7 +1040,7 @@ private:
     std::string typedDefName = getTypedefName(type);
     if(!typedDefName.empty())
     {
-      returnedTyped = std::make_shared<TypedefType>(typedDefName, std::move(returnedTyped));
+      returnedTyped = std::make_shared<TypedefType>(typedDefName, getTypee(type, std::move(returnedTyped)));
     }
 
     return returnedTyped;
@@ -1190,6 +1190,18 @@ private:
     }
     return typedDefName;
   }
+
+  /*!
+   * \brief Adds the const the typedef gives to the type it stands for.
+   */
+  std::shared_ptr<TypeItf> getTypee(const clang::Type &type, std::shared_ptr<TypeItf> typee)
+  {
+    if(type.getAs<clang::TypedefType>()->desugar().isConstQualified())
+    {
+      typee = std::make_shared<ConstQualifiedType>(std::move(typee));
+    }
+    return typee;
+  }
 };
 
 class FunctionDeclASTConsumer : public clang::ASTConsumer
-- 
2.43.0


From fc8a8274f61b1be37998b40296ff1e445be667ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 23/50] fix: functions of a declaration with several
 declarators lose their return type

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index a8ceafc..b927525 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -519,6 +519,11 @@ private:
       declString.pop_back();
       declString = trim(declString);
     }
+    if(!m_LO->CPlusPlus && declString.find(',') != std::string::npos)
+    {
+      // int f(void), *g(void); -> the declaration of the previous ones is in there as well
+      declString.clear();
+    }
     setDeclaratorDeclareString(rvQualType, &rv, declString);
 
     return rv;
-- 
2.43.0


From bc9c1e010fef14a95198040676b69f6d70f96cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 24/50] fix: the mock of a function with a parameter named like
 a type it uses doesn't compile

---
 .../include/CodeGeneratorCTemplate.h          |  2 +-
 .../CodeGeneratorCTemplate.cpp                | 47 ++++++++++++++++---
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 20aae24..ab6a37c 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -76,7 +76,7 @@ private:
   void generateFunctionSection(ctemplate::TemplateDictionary* p_parentDictionary, const std::shared_ptr<const FunctionDeclaration> &f);
   void generateFunctionAttributes(const std::shared_ptr<const FunctionDeclaration> &f, ctemplate::TemplateDictionary *functionSectionDict);
   void generateVariadicSection(ctemplate::TemplateDictionary *p_functionSectionDict, const Function& p_function);
-  void generateFunctionParamSection(ctemplate::TemplateDictionary *dict, const Parameter::Vector& functionParam);
+  void generateFunctionParamSection(ctemplate::TemplateDictionary *dict, const Function& function);
   //p_uniquePrepend and p_declPrepend must never become a reference because the string appended in recursive calls must reverted when the recursive call returns
   void generateAllFieldStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const ComposableType *p_composedType, std::string p_uniquePrepend, std::string p_declPrepend);
   void generateBodyStructCompare(ctemplate::TemplateDictionary *p_compareFunDict, const char* p_sectionToAdd, const ComposableType *p_structType, const ComposableFieldItf *p_curField, const ComposableFieldItf *p_previousField, std::string p_uniquePrepend, std::string p_declPrepend);
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 7bc21b8..f84ac94 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -977,6 +977,39 @@ inline bool isNameUsedByMock(const std::string& p_name)
   return mockNames.find(p_name) != mockNames.end() || p_name.compare(0, sizeof(MOCK_OUT_PREFIX) - 1, MOCK_OUT_PREFIX) == 0;
 }
 
+bool isNameOfUsedType(const std::string& p_name, const Function& p_function, bool p_isCpp);
+
+bool isNameOfUsedType(const std::string& p_name, const TypeItf* p_type, bool p_isCpp)
+{
+  if(const QualifiedType* qualifiedType = p_type->asQualifiedType())
+  {
+    return isNameOfUsedType(p_name, qualifiedType->getUnqualifiedType(), p_isCpp);
+  }
+  if(const Pointer* pointerType = p_type->asPointer())
+  {
+    return isNameOfUsedType(p_name, pointerType->getPointedType(), p_isCpp);
+  }
+  if(const Reference* referenceType = p_type->asReference())
+  {
+    return isNameOfUsedType(p_name, referenceType->getPointedType(), p_isCpp);
+  }
+  if(const FunctionType* functionType = dynamic_cast<const FunctionType*>(p_type))
+  {
+    return isNameOfUsedType(p_name, *functionType, p_isCpp);
+  }
+  return p_type->getName() == p_name && (p_isCpp || p_type->isTypedDef());
+}
+
+/*!
+ * \brief Returns whether a parameter would hide a type needed to declare the mock.
+ */
+bool isNameOfUsedType(const std::string& p_name, const Function& p_function, bool p_isCpp)
+{
+  const Parameter::Vector& parameters = p_function.getFunctionsParameters();
+  return isNameOfUsedType(p_name, p_function.getReturnValue()->getType(), p_isCpp) ||
+      std::any_of(parameters.begin(), parameters.end(), [&](const Parameter& p) { return isNameOfUsedType(p_name, p.getType(), p_isCpp); });
+}
+
 inline std::string getAnonymousName(const TypeItf* p_type)
 {
   static const std::string GENERATED_ANONYMOUS_TYPE_PREFIX { "easymock_generated_anonymous_type_hash_" };
@@ -1568,8 +1601,7 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
       }
     }
   }
-  const Parameter::Vector& funParams = p_elemToMock->getFunctionsParameters();
-  generateFunctionParamSection(functionSectionDict, funParams);
+  generateFunctionParamSection(functionSectionDict, *p_elemToMock);
   generateVariadicSection(functionSectionDict, *p_elemToMock);
 }
 
@@ -1595,7 +1627,7 @@ void CodeGeneratorCTemplate::generateExtraDecl(ctemplate::TemplateDictionary *di
   ctemplate::TemplateDictionary *extraDeclDict = dict->AddIncludeDictionary(sectionName);
   extraDeclDict->SetFilename(templateFileName);
 
-  generateFunctionParamSection(extraDeclDict, functionType->getFunctionsParameters());
+  generateFunctionParamSection(extraDeclDict, *functionType);
   generateVariadicSection(extraDeclDict, *functionType);
 
   const ReturnValue *rv = functionType->getReturnValue();
@@ -1613,15 +1645,16 @@ void CodeGeneratorCTemplate::generateExtraDecl(ctemplate::TemplateDictionary *di
   }
 }
 
-void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDictionary *p_functionSectionDict, const Parameter::Vector& p_functionParam)
+void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDictionary *p_functionSectionDict, const Function& p_function)
 {
   bool ptrSectionAdded = false;
-  if (p_functionParam.size() > 0)
+  const Parameter::Vector& functionParam = p_function.getFunctionsParameters();
+  if (functionParam.size() > 0)
   {
     //This specific section to show the comma ',' conditionally for the expect and return function generation
     p_functionSectionDict->AddSectionDictionary(FUNCTION_PARAM_LIST_SECTION);
   }
-  for (const auto& fParam: p_functionParam)
+  for (const auto& fParam: functionParam)
   {
     ctemplate::TemplateDictionary* functionParamSection = p_functionSectionDict->AddSectionDictionary(FUNCTION_PARAM_SECTION);
     const TypeItf *paramType = fParam.getType();
@@ -1673,7 +1706,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     }
     // For easyMock_matcher_* and the error messages
     functionParamSection->SetValue(FUNCTION_MATCHER_PARAM_NAME, paramName);
-    if(isNameUsedByMock(paramName))
+    if(isNameUsedByMock(paramName) || isNameOfUsedType(paramName, p_function, m_isCpp))
     {
       paramName.insert(0, MOCK_FRAMEWORK_NAME "_param_");
     }
-- 
2.43.0


From a0e8283c977aee41b3f01c047774eb247d33625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 25/50] fix: enumerators with the same value, a negative or a
 64-bit one are lost or changed in the generated types

---
 src/easyMockGenerate/include/Enum.h | 5 +++--
 src/easyMockGenerate/src/Enum.cpp   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/include/Enum.h b/src/easyMockGenerate/include/Enum.h
index 714131e..4101880 100644
--- a/src/easyMockGenerate/include/Enum.h
+++ b/src/easyMockGenerate/include/Enum.h
@@ -8,7 +8,8 @@
 
 #include <cstdint>
 #include <string>
-#include <map>
+#include <utility>
+#include <vector>
 
 /*!
  * \brief This class represents an enum and the values it contains
@@ -25,7 +26,7 @@ public:
   /*!
    * \brief Type used to store enum values
    */
-  using listOfValuesType = std::map<unsigned int, std::string>;
+  using listOfValuesType = std::vector<std::pair<int64_t, std::string>>;
 
   /*!
    * \brief Creates an enum
diff --git a/src/easyMockGenerate/src/Enum.cpp b/src/easyMockGenerate/src/Enum.cpp
index 9c3d7b6..3574891 100644
--- a/src/easyMockGenerate/src/Enum.cpp
+++ b/src/easyMockGenerate/src/Enum.cpp
@@ -12,7 +12,7 @@ m_cachedHash{0}
 
 void Enum::addEnumValue(int64_t p_value, const std::string& p_enumStr)
 {
-  m_listOfValues.emplace(p_value, p_enumStr);
+  m_listOfValues.emplace_back(p_value, p_enumStr);
 }
 
 const Enum::listOfValuesType& Enum::getValues() const
-- 
2.43.0


From 9fdf9729347c8183ade1d9e832c374a4d1e8b4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 26/50] fix: a redefined macro is generated with its first
 definition

---
 src/easyMockGenerate/src/ElementToMockContext.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/ElementToMockContext.cpp b/src/easyMockGenerate/src/ElementToMockContext.cpp
index 05e21b1..e083d33 100644
--- a/src/easyMockGenerate/src/ElementToMockContext.cpp
+++ b/src/easyMockGenerate/src/ElementToMockContext.cpp
@@ -12,8 +12,8 @@ void ElementToMockContext::addMacroDefine(std::string p_id, std::vector<std::str
 
 void ElementToMockContext::addMacroDefine(std::string p_id, std::vector<std::string> p_parameters, std::string p_definition, std::string p_originFile)
 {
-  std::string copy_id = p_id;
-  m_macroDefinition.try_emplace(std::move(p_id), std::move(copy_id), std::move(p_parameters), std::move(p_definition), std::move(p_originFile));
+  MacroDefinition macroDefinition{p_id, std::move(p_parameters), std::move(p_definition), std::move(p_originFile)};
+  m_macroDefinition.insert_or_assign(std::move(p_id), std::move(macroDefinition));
 }
 
 void ElementToMockContext::deleteMacroDefine(const std::string &p_id)
-- 
2.43.0


From 054925ed197fe7eb7bc139addaa519b572a3bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 27/50] fix: named variadic macros and function-like macros
 without parameter are generated as other macros

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index b927525..ee6a41d 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1267,6 +1267,16 @@ public:
           parameters.emplace_back(paramStr);
         }
       }
+      if(macroInfo->isGNUVarargs())
+      {
+        // #define M(args...)
+        parameters.back().append("...");
+      }
+      if(parameters.empty())
+      {
+        // #define M() isn't #define M
+        parameters.emplace_back("");
+      }
     }
     unsigned numToken = macroInfo->getNumTokens();
     for(unsigned i = 0; i < numToken; i++)
-- 
2.43.0


From f6acb1fc2b461f6fdb8bfd8d786081857ab0cb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 28/50] fix: function pointers within a function pointer type
 are generated without their parameters

---
 src/easyMockGenerate/src/FunctionType.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/easyMockGenerate/src/FunctionType.cpp b/src/easyMockGenerate/src/FunctionType.cpp
index f89a3cb..1a9bf97 100644
--- a/src/easyMockGenerate/src/FunctionType.cpp
+++ b/src/easyMockGenerate/src/FunctionType.cpp
@@ -25,6 +25,15 @@ std::string FunctionType::getDeclarationPrefix(bool p_naked) const
   return m_returnType.getType()->getDeclarationPrefix(p_naked) + std::string {"("};
 }
 
+/*
+ * A pointer to function isn't complete without what comes after the name: void (*)(int)
+ */
+static std::string getPostfixOf(const TypeItf* p_type)
+{
+  const FunctionType* functionType = p_type->containsTypeDef() ? nullptr : p_type->getRawType()->asFunctionType();
+  return functionType ? functionType->getDeclarationPostfix() : std::string{};
+}
+
 std::string FunctionType::getDeclarationPostfix(bool p_naked) const
 {
   std::string returnStr {")(" };
@@ -37,6 +46,7 @@ std::string FunctionType::getDeclarationPostfix(bool p_naked) const
       returnStr.append(", ");
     }
     returnStr.append(p.getDeclareString());
+    returnStr.append(getPostfixOf(p.getType()));
     firstParam = false;
   }
   if(isVariadic())
@@ -44,6 +54,7 @@ std::string FunctionType::getDeclarationPostfix(bool p_naked) const
     returnStr.append(firstParam ? "..." : ", ...");
   }
   returnStr.push_back(')');
+  returnStr.append(getPostfixOf(m_returnType.getType()));
   return returnStr;
 }
 
-- 
2.43.0


From 478d8d631205f849b1daf5d5de38ee9e872da20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 29/50] fix: members declared after another one in the same
 declaration get the type of the first one

---
 .../src/LLVMParser/LLVMParser.cpp             | 40 ++++++++++++++++---
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index ee6a41d..5b1c703 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -460,7 +460,7 @@ private:
      */
     clang::SourceLocation beginSourceLocation = func->getBeginLoc();
     clang::SourceLocation startOfFunNameLocation = func->getNameInfo().getBeginLoc();
-    std::string declString = getDeclareString(beginSourceLocation, startOfFunNameLocation, false);
+    std::string declString = getDeclareString(beginSourceLocation, startOfFunNameLocation);
     /*
      * Loop through all the function attributes and determine whether they are declared using a macro.
      * If they are declared using a macro, just remove the macro call from the declString.
@@ -554,7 +554,7 @@ private:
   {
     Parameter::Vector vectParam;
     unsigned nbParam = func->getNumParams();
-    std::string funcDecl = getDeclareString(func->getBeginLoc(), func->getEndLoc(), false);
+    std::string funcDecl = getDeclareString(func->getBeginLoc(), func->getEndLoc());
 
     for(unsigned paramIdx = 0; paramIdx < nbParam; paramIdx++)
     {
@@ -582,7 +582,7 @@ private:
       const bool isTypeBeforeName = !paramName.empty() && !param->getOriginalType()->isArrayType();
       if((beginLoc.isMacroID() && isTypeBeforeName) || parameterRawType->isImplicit())
       {
-        std::string declareString = getDeclareString(beginLoc, param->getEndLoc(), false);
+        std::string declareString = getDeclareString(beginLoc, param->getEndLoc());
         setDeclaratorDeclareString(paramQualType, &p, declareString);
       }
       vectParam.push_back(std::move(p));
@@ -621,12 +621,13 @@ private:
     return rv;
   }
 
-  std::string getDeclareString(const clang::SourceLocation& startLoc, const clang::SourceLocation& endLoc, bool fieldDecl)
+  std::string getDeclareString(const clang::SourceLocation& startLoc, const clang::SourceLocation& endLoc, const clang::QualType* fieldType = nullptr)
   {
     clang::CharSourceRange charSourceRange = clang::Lexer::getAsCharRange(startLoc, *m_SM, *m_LO);
     charSourceRange.setEnd(endLoc);
     clang::StringRef strRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
     std::string declareString = removeComments(strRef.str());
+    bool isOneOfSeveral = false;
     /*
      * When a declaration is inlined, we ignore the whole declaration in this way
      */
@@ -637,8 +638,9 @@ private:
     }
     else
     {
-      if(fieldDecl)
+      if(fieldType)
       {
+        isOneOfSeveral = declareString.find(',') != std::string::npos;
         auto trimToFirstInstanceOf = [&declareString](char charToTest)
         {
           size_t commaPos = declareString.find_first_of(charToTest, 0);
@@ -663,10 +665,36 @@ private:
       }
     }
     declareString = trim(std::move(declareString));
+    if(isOneOfSeveral && !isTypeOfDeclarator(declareString, *fieldType))
+    {
+      declareString.clear();
+    }
 
     return declareString;
   }
 
+  /*
+   * int a, *b; -> the text is the type of the first declarator, which isn't the one of b
+   */
+  bool isTypeOfDeclarator(const std::string& declareString, clang::QualType declaratorType)
+  {
+    const size_t firstStar = declareString.find('*');
+    const bool isPlain = declareString.find('(') == std::string::npos &&
+            (firstStar == std::string::npos || declareString.find_first_not_of("* ", firstStar) == std::string::npos);
+    std::string::difference_type nbPointers = 0;
+    while(declaratorType->isArrayType())
+    {
+      declaratorType = declaratorType->getAsArrayTypeUnsafe()->getElementType();
+    }
+    while(const auto* pointerType = llvm::dyn_cast<clang::PointerType>(declaratorType.getTypePtr()))
+    {
+      nbPointers++;
+      declaratorType = pointerType->getPointeeType();
+    }
+
+    return isPlain && std::count(declareString.begin(), declareString.end(), '*') == nbPointers;
+  }
+
   std::shared_ptr<TypeItf> getEasyMocktype(const clang::QualType &clangQualType, structKnownTypeMap &structKnownType, bool isEmbeddedInOtherType)
   {
     const clang::Type &clangType = *clangQualType.getTypePtr();
@@ -1008,7 +1036,7 @@ private:
             arraySize = -1;
           }
           ComposableField sf{std::move(fieldType), fName, {.arraySize = arraySize}};
-          setDeclaratorDeclareString(qualType, &sf, getDeclareString(FD->getBeginLoc(), FD->getEndLoc(), true));
+          setDeclaratorDeclareString(qualType, &sf, getDeclareString(FD->getBeginLoc(), FD->getEndLoc(), &qualType));
           sType->addField(std::move(sf));
         }
       }
-- 
2.43.0


From ad87c5ebd5590152c6549ad50c74e35ef8d79026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 30/50] fix: types with the name of another tag or typedef are
 mixed up, and recursive typedefs are lost

---
 .../src/LLVMParser/LLVMParser.cpp             | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 5b1c703..b17f81c 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -931,25 +931,33 @@ private:
       }
       case CLASS:
       {
-        contTypeDecl.append("class");
+        contTypeDecl.append("class ");
         break;
       }
     }
 
     std::string typeName = RD->getNameAsString();
     std::string typedDefName = getTypedefName(p_type);
+    // A tag may be the name of another typedef
+    const std::string tagKey = contTypeDecl + typeName;
 
     if(structKnownType.find(typedDefName) != structKnownType.end())
     {
       return structKnownType.at(typedDefName);
     }
-    if(structKnownType.find(typeName) != structKnownType.end())
+    if(structKnownType.find(tagKey) != structKnownType.end())
     {
-      return structKnownType.at(typeName);
+      auto knownType = structKnownType.at(tagKey);
+      if(!typedDefName.empty())
+      {
+        return std::make_shared<TypedefType>(typedDefName, getTypee(p_type, std::move(knownType)));
+      }
+      return knownType;
     }
 
-    std::string declToCheck = typeName + std::string{"_"} + typedDefName;
-    if(declToCheck.compare("_") != 0)
+    std::string declToCheck = tagKey + std::string{" "} + typedDefName;
+    const bool isNamed = !typeName.empty() || !typedDefName.empty();
+    if(isNamed)
     {
       if(m_cachedStruct.find(declToCheck) != m_cachedStruct.end())
       {
@@ -1000,7 +1008,7 @@ private:
     }
     if(!typeName.empty())
     {
-      structKnownType.insert({typeName, std::make_shared<IncompleteType>(*sType, incType)});
+      structKnownType.insert({tagKey, std::make_shared<IncompleteType>(*sType, incType)});
     }
 
     // If the type doesn't have a complete definition, it is forward declared.
@@ -1049,10 +1057,10 @@ private:
     }
     if(!typeName.empty())
     {
-      structKnownType.erase(typeName);
+      structKnownType.erase(tagKey);
     }
 
-    if(declToCheck.compare("_") != 0)
+    if(isNamed)
     {
       if(m_cachedStruct.find(declToCheck) == m_cachedStruct.end())
       {
-- 
2.43.0


From d7e41be1772fe67bea825cc826860b374b79dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 31/50] fix: bit-fields of an enum or qualified type abort the
 generator

---
 .../CTemplateGenerator/CodeGeneratorCTemplate.cpp  |  4 ++--
 src/easyMockGenerate/src/ComposableBitfield.cpp    | 14 +++-----------
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp |  6 +++---
 3 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index f84ac94..80867b4 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2105,9 +2105,9 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
               generateDeclarationOfUsedType(p_parentDictionary, composableFieldType, false);
             }
           },
-          [](const auto &)
+          [this, &p_parentDictionary](const auto &otherField)
           {
-            //Nothing to do for types other than ComposableField
+            generateDeclarationOfUsedType(p_parentDictionary, otherField.getType(), false);
           }
         },fItf);
       }
diff --git a/src/easyMockGenerate/src/ComposableBitfield.cpp b/src/easyMockGenerate/src/ComposableBitfield.cpp
index f0702c7..461dbca 100644
--- a/src/easyMockGenerate/src/ComposableBitfield.cpp
+++ b/src/easyMockGenerate/src/ComposableBitfield.cpp
@@ -16,17 +16,9 @@ ComposableFieldItf{std::move(p_type), std::move(p_name)},
 m_size{p_size},
 m_cachedHash{0}
 {
-  TypeItf* typeItf = getType();
-  assert(typeItf);
-  TypedefType* typedefType = typeItf->asTypedefType();
-  if(typedefType)
-  {
-    assert(typedefType->getMostDefinedTypee()->isCType());
-  }
-  else
-  {
-    assert(typeItf->isCType());
-  }
+  assert(getType());
+  const TypeItf* rawType = getType()->getRawType();
+  assert(rawType->isCType() || rawType->isEnum());
 }
 
 bool ComposableBitfield::operator==(const ComposableBitfield &other) const
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index b17f81c..55f63bd 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -1026,10 +1026,10 @@ private:
 
         if (FD->isBitField())
         {
-          TypedefType *typedefFieldType = fieldType->asTypedefType();
-          if (!fieldType->isCType() && (typedefFieldType && !typedefFieldType->getMostDefinedTypee()->isCType()))
+          const TypeItf *rawFieldType = fieldType->getRawType();
+          if (!rawFieldType->isCType() && !rawFieldType->isEnum())
           {
-            fprintf(stderr, "Type must be CType for bitfields");
+            fprintf(stderr, "Type must be CType or enum for bitfields");
             typePtr->dump();
             assert(false);
           }
-- 
2.43.0


From 1cfd8311a8646deb0d740897b4e1aef785cfb165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 32/50] fix: flexible array members are generated as plain
 members

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 80867b4..d69381a 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2301,6 +2301,10 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
           fieldName.append(std::to_string(curCompField->getArraySize()));
           fieldName.push_back(']');
         }
+        else if(curCompField && curCompField->isUnboundSpecifiedArray())
+        {
+          fieldName.append("[0]");
+        }
         if(curField.isComposableBitfield())
         {
           const ComposableBitfield *curComposableBitfield = dynamic_cast<const ComposableBitfield*>(&curField);
-- 
2.43.0


From 632f752966b00bf6c0ac8fbeed8d14804c9a1eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 33/50] fix: members of a typedef of a function pointer are
 generated with a second, wrong, declarator

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index d69381a..789aee9 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2316,7 +2316,7 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
         if(nonQualifiedFieldPtrType)
         {
           const FunctionType *ft = getRawType(nonQualifiedFieldPtrType)->asFunctionType();
-          if (ft)
+          if (ft && !nonQualifiedFieldPtrType->containsTypeDef())
           {
             generateDeclarationOfUsedType(m_rootDictionary, ft, false);
             generateExtraDecl(curFieldDict, EXTRA_DECL_SECTION, EXTRA_DECL_TEMPLATE_NAME, ft);
-- 
2.43.0


From 5cc74ae98286f920199b4fcb6f2293c994852d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:34 +0000
Subject: [PATCH 34/50] fix: typedefs are generated in front of the types they
 are made of, or with the name of an anonymous type misplaced

---
 .../include/CodeGeneratorCTemplate.h          |  1 +
 .../CodeGeneratorCTemplate.cpp                | 52 +++++++++++++++----
 2 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index ab6a37c..11249f1 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -93,6 +93,7 @@ private:
   void setStructCompareStringFormat(ctemplate::TemplateDictionary *p_errorDict, const TypeItf* p_curFieldType);
   bool isTypeGenerated(const TypeItf* p_type, bool p_insert);
   void generateSimpleTypeDef(const TypeItf* p_type);
+  void generateTypedefsOf(const TypeItf* p_type);
   void generateEnum(const TypeItf* p_type);
   std::string getAnonymousTypedefUniqueName(const TypeItf* p_type);
   template <class T>
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 789aee9..8d1fcfa 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -858,13 +858,6 @@ const char headerFileTemplate[] =
           "#endif //" GENERATED_TYPE_FORWARD_DECLARATION_GUARD_NAME CARRIAGE_RETURN
           TEMPLATE_END_SECTION(GENERATED_TYPE_FORWARD_DECLARATION_SECTION)
 
-          TEMPLATE_BEG_SECTION(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION)
-          "#ifndef " GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
-          "#define " GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
-          "typedef " GENERATED_TYPE_SIMPLE_TYPEDEF_TYPEE_TEMPLATE_VAR " " GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_TEMPLATE_VAR ";" CARRIAGE_RETURN
-          "#endif //" GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
-          TEMPLATE_END_SECTION(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION)
-
           TEMPLATE_BEG_SECTION(GENERATED_TYPE_ENUM_SECTION)
           "#ifndef " GENERATED_TYPE_ENUM_GUARD_NAME CARRIAGE_RETURN
           "#define " GENERATED_TYPE_ENUM_GUARD_NAME CARRIAGE_RETURN
@@ -877,6 +870,13 @@ const char headerFileTemplate[] =
           "#endif //" GENERATED_TYPE_ENUM_GUARD_NAME CARRIAGE_RETURN
           TEMPLATE_END_SECTION(GENERATED_TYPE_ENUM_SECTION)
 
+          TEMPLATE_BEG_SECTION(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION)
+          "#ifndef " GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
+          "#define " GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
+          "typedef " GENERATED_TYPE_SIMPLE_TYPEDEF_TYPEE_TEMPLATE_VAR " " GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_TEMPLATE_VAR ";" CARRIAGE_RETURN
+          "#endif //" GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME CARRIAGE_RETURN
+          TEMPLATE_END_SECTION(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION)
+
           TEMPLATE_BEG_SECTION(GENERATED_TYPE_SECTION)
           "#ifndef " GENERATED_TYPE_DECLARE_MACRO_GUARD_NAME CARRIAGE_RETURN
           "#define " GENERATED_TYPE_DECLARE_MACRO_GUARD_NAME CARRIAGE_RETURN
@@ -2601,6 +2601,8 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
   m_generatedTypeTypedDefSection.emplace(typedefType);
 
   const TypeItf* typeeType = typedefType->getTypee();
+  // What the typedef is made of must come before it
+  generateTypedefsOf(typeeType);
   const std::string& typedefName = typedefType->getName();
   /*
    * getFullDeclarationName gives all all the necessary qualifiers without the
@@ -2609,22 +2611,25 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
   std::string localType { typeeType->getFullDeclarationName(true) };
   const TypeItf *rawType = getRawType(typeeType);
   const FunctionType *functionType = rawType->asFunctionType();
-  bool isRawTypeFunctionType = functionType != nullptr;
+  bool isRawTypeFunctionType = functionType != nullptr && !typeeType->containsTypeDef();
   ctemplate::TemplateDictionary *typeDefDict = m_rootDictionary->AddSectionDictionary(GENERATED_TYPE_SIMPLE_TYPEDEF_SECTION);
   typeDefDict->SetValue(GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME_NAME, typedefName);
 
   if(!isRawTypeFunctionType)
   {
-    if (rawType->getName().empty())
+    if (rawType->isAnonymous() && !typeeType->containsTypeDef())
     {
-      localType += std::string{" "} + getAnonymousName(rawType);
+      // The name comes after the keyword: struct <name> const*
+      const ComposableType* composableType = rawType->asComposableType();
+      const std::string keyword { composableType ? composableType->getComposableTypeKeyword() : "enum" };
+      localType.insert(localType.find(keyword) + keyword.length(), std::string{" "} + getAnonymousName(rawType));
     }
     typeDefDict->SetValue(GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_VAR, typedefName);
   }
   else
   {
     generateDeclarationOfUsedType(m_rootDictionary, functionType, false);
-    localType += typedefName;
+    localType += ' ' + typedefName;
     localType += functionType->getDeclarationPostfix();
     /*
      * For function type we do not fill GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_VAR and use we
@@ -2636,6 +2641,31 @@ void CodeGeneratorCTemplate::generateSimpleTypeDef(const TypeItf* p_type)
   typeDefDict->SetValue(GENERATED_TYPE_SIMPLE_TYPEDEF_TYPEE_VAR, localType);
 }
 
+void CodeGeneratorCTemplate::generateTypedefsOf(const TypeItf* p_type)
+{
+  const FunctionType* functionType = p_type->asFunctionType();
+  if(p_type->isTypedDef())
+  {
+    generateSimpleTypeDef(p_type);
+  }
+  else if(p_type->isPointer())
+  {
+    generateTypedefsOf(p_type->asPointer()->getPointedType());
+  }
+  else if(p_type->isQualified())
+  {
+    generateTypedefsOf(p_type->asQualifiedType()->getUnqualifiedType());
+  }
+  else if(functionType)
+  {
+    generateTypedefsOf(functionType->getReturnValue()->getType());
+    for(const auto& param : functionType->getFunctionsParameters())
+    {
+      generateTypedefsOf(param.getType());
+    }
+  }
+}
+
 void CodeGeneratorCTemplate::generateEnum(const TypeItf* p_type)
 {
   const Enum* enumType = p_type->asEnum();
-- 
2.43.0


From 9aa7eb6e1355f7760e03720bfbb11fed2af47c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 35/50] fix: attributes in front of and within the return type
 of a function take it away

---
 .../src/LLVMParser/LLVMParser.cpp             | 81 +++++++++++++------
 1 file changed, 55 insertions(+), 26 deletions(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 55f63bd..4ee0cc1 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -375,37 +375,66 @@ private:
     return parametersList;
   }
 
-  void removeFromString(std::string &declString, std::string macroStr, bool hasParameter)
+  /*
+   * Returns the position behind the parentheses that start at pos, or pos if there are none
+   */
+  size_t skipParentheses(const std::string& str, size_t pos)
   {
-    if(macroStr.empty())
+    size_t curPos = str.find_first_not_of(" \t\r\n", pos);
+    if(curPos == std::string::npos || str[curPos] != '(')
     {
-      return;
+      return pos;
     }
-    auto isIdentifierChar = [](unsigned char c) { return std::isalnum(c) || c == '_'; };
-    const bool startsWithIdentifier = isIdentifierChar(macroStr.front());
-    const bool endsWithIdentifier = isIdentifierChar(macroStr.back());
-    /*
-     * It is needed to escape all the special characters so that they aren't interpreted by the std::regex
-     * and to only remove the macro when it isn't part of a longer identifier.
-     */
-    static std::regex specialCharRegex{"[\\^$.*+?()\\[\\]{}|\\\\]"};
-    macroStr = std::regex_replace(macroStr, specialCharRegex, "\\$&");
-    if(startsWithIdentifier)
+    unsigned nbOpened = 0;
+    bool isInString = false;
+    for(; curPos < str.size(); curPos++)
     {
-      macroStr.insert(0, "\\b");
+      const char curChar = str[curPos];
+      if(curChar == '"')
+      {
+        isInString = !isInString;
+      }
+      else if(isInString)
+      {
+        curPos += curChar == '\\' ? 1 : 0;
+      }
+      else if(curChar == '(')
+      {
+        nbOpened++;
+      }
+      else if(curChar == ')' && --nbOpened == 0)
+      {
+        return curPos + 1;
+      }
     }
-    if(endsWithIdentifier)
+    return pos;
+  }
+
+  /*
+   * Removes the text, when it isn't part of a longer identifier, and the parentheses behind it if there must be.
+   */
+  void removeFromString(std::string &declString, const std::string& text, bool hasParentheses)
+  {
+    if(text.empty())
     {
-      macroStr.append("\\b");
+      return;
     }
-    /*
-     * The macro string doesn't contain any parameter. Matching any parameter is added by hand.
-     */
-    if(hasParameter)
-    {
-      macroStr.append("\\(.*\\)");
+    auto isIdentifierChar = [](unsigned char c) { return std::isalnum(c) || c == '_'; };
+    size_t pos = 0;
+    while((pos = declString.find(text, pos)) != std::string::npos)
+    {
+      const size_t textEnd = pos + text.size();
+      const bool isPartOfIdentifier =
+              (pos > 0 && isIdentifierChar(text.front()) && isIdentifierChar(declString[pos - 1])) ||
+              (textEnd < declString.size() && isIdentifierChar(text.back()) && isIdentifierChar(declString[textEnd]));
+      const size_t endPos = hasParentheses ? skipParentheses(declString, textEnd) : textEnd;
+      if(isPartOfIdentifier || (hasParentheses && endPos == textEnd))
+      {
+        pos = textEnd;
+        continue;
+      }
+      declString.erase(pos, endPos - pos);
     }
-    declString = std::regex_replace(declString, std::regex{macroStr}, "");
   }
 
   void removeAttr(std::string &declString, const clang::Attr* attr)
@@ -435,7 +464,7 @@ private:
         attributeStringRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
         macroStr = attributeStringRef.str();
       }
-      removeFromString(declString, std::move(macroStr), false);
+      removeFromString(declString, macroStr, false);
     }
   }
 
@@ -499,7 +528,7 @@ private:
         std::smatch match;
         if(macroStr.empty() || std::regex_match(macroStr, match, removeAttrRegex) || std::regex_match(macroStr, match, specifiersRegex))
         {
-          removeFromString(declString, std::move(currentTokenStr), md.hasParameters());
+          removeFromString(declString, currentTokenStr, md.hasParameters());
         }
       }
       if(rawToken.is(clang::tok::eof))
@@ -509,7 +538,7 @@ private:
       itrSource = rawToken.getEndLoc();
     }
 
-    declString = std::regex_replace(declString, removeAttrRegex, "");
+    removeFromString(declString, "__attribute__", true);
     // The specifiers of the declaration aren't part of the type
     declString = std::regex_replace(declString, std::regex{"\\b" + specifiers + "\\b"}, "");
     declString = trim(declString);
-- 
2.43.0


From 7de83c3171940c9cce9008fe5a6f9d26758e6a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 36/50] fix: noreturn given by a macro defined as another macro
 stays in the mock

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 4ee0cc1..adb873f 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -525,6 +525,12 @@ private:
       {
         const MacroDefinition& md = m_ctxt.getMacroDefinition(currentTokenStr);
         std::string macroStr = md.getDefinition();
+        // A macro may be defined as another one
+        std::unordered_set<std::string> followedMacros{currentTokenStr};
+        while(m_ctxt.hasMacroDefine(macroStr) && followedMacros.insert(macroStr).second)
+        {
+          macroStr = m_ctxt.getMacroDefinition(macroStr).getDefinition();
+        }
         std::smatch match;
         if(macroStr.empty() || std::regex_match(macroStr, match, removeAttrRegex) || std::regex_match(macroStr, match, specifiersRegex))
         {
-- 
2.43.0


From 595569ad5819e55e5e4c98f23529fada8d7b90dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 37/50] fix: the mock of a function with a generated attribute
 with a string does not compile

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 8d1fcfa..5fea370 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -431,7 +431,8 @@ FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 #define INSIDE_CLASS_FUNCTION_DECLARATION FUNCTION_ACCESS_SPECIFIER ": " FUNCTION_RETURN_VALUE_TYPE " " FUNCTION_NAME FUNCTION_PARAMETERS IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") ";"
 
 #define FUNCTION_PARAMETERS "("  FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_SECTION_EXISTS(VARIADIC_SECTION, VARIADIC_TEMPLATE_VAR) ")"
-#define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
+#define TEMPLATE_FUNCTION_SIGNATURE FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
+#define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST TEMPLATE_FUNCTION_SIGNATURE
 #define MOCKED_FUN_CLASS(F_NAME) "mocked_" F_NAME
 #define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_NAME)
 
@@ -761,7 +762,7 @@ const char templateText[] =
         FUNCTION_INIT_ALL_MOCK_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(FUNCTION_SECTION)
-        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", \"" TEMPLATE_FUNCTION_TO_BE_MOCKED "\", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
+        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", \"" TEMPLATE_FUNCTION_SIGNATURE "\", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_SECTION)
         "}"
         CARRIAGE_RETURN
-- 
2.43.0


From 29ede09bdd38cfbad5f9c92c75910fc966cc2c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 38/50] fix: parameters of generated attributes are lost or
 changed (given by macros, quotes of sections, second format, commas in
 strings)

---
 .../CodeGeneratorCTemplate.cpp                |   3 +-
 .../src/LLVMParser/LLVMParser.cpp             | 135 +++++++++++++-----
 2 files changed, 100 insertions(+), 38 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 5fea370..360e79f 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -1471,7 +1471,8 @@ void CodeGeneratorCTemplate::generateFunctionAttributes(const std::shared_ptr<co
       for(const std::string& funAttrParam : funAttrParams)
       {
         ctemplate::TemplateDictionary *funAttrParamDict = funAttrParamsList->AddSectionDictionary(FUNCTION_ATTR_PARAMETER_LIST);
-        funAttrParamDict->SetValue(FUNCTION_PARAM_NAME, funAttrParam);
+        // The name of a section is known without its quotes
+        funAttrParamDict->SetValue(FUNCTION_PARAM_NAME, name == "section" ? '"' + funAttrParam + '"' : funAttrParam);
       }
     }
   }
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index adb873f..10f429f 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -280,7 +280,7 @@ private:
         continue;
       }
       std::string attrName = identifierInfo->getName().str();
-      FunctionAttribute::ParametersList parametersList = getFunAttrParamList(clangFunc, attr);
+      FunctionAttribute::ParametersList parametersList = getFunAttrParamList(attr);
       FunctionAttribute functionAttribute{std::move(attrName), std::move(parametersList)};
 
       easyMockFun.addAttribute(std::move(functionAttribute));
@@ -308,7 +308,85 @@ private:
     return parametersList;
   }
 
-  FunctionAttribute::ParametersList getFunAttrParamList(const clang::FunctionDecl* clangFunc, const clang::Attr *attr)
+  bool isFromMacro(const clang::Attr *attr)
+  {
+    return attr->getRange().getBegin().isMacroID() || attr->getRange().getEnd().isMacroID();
+  }
+
+  std::string getExpressionString(const clang::Expr *expr)
+  {
+    std::string expressionString;
+    llvm::raw_string_ostream expressionStream{expressionString};
+    expr->printPretty(expressionStream, nullptr, m_context->getPrintingPolicy());
+    expressionStream.flush();
+    return expressionString;
+  }
+
+  /*
+   * Returns the attribute until its closing parenthesis: format(printf, 1, 2
+   */
+  std::string getAttributeString(const clang::Attr *attr)
+  {
+    if(!isFromMacro(attr))
+    {
+      const clang::CharSourceRange charSourceRange = clang::CharSourceRange::getCharRange(attr->getRange());
+      return clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO).str();
+    }
+    // The text of a macro isn't the one of the attribute: its parameters aren't replaced
+    std::string attributeString;
+    llvm::raw_string_ostream attributeStream{attributeString};
+    attr->printPretty(attributeStream, m_context->getPrintingPolicy());
+    attributeStream.flush();
+    attributeString = trim(std::move(attributeString));
+    static const std::string attributeBegin{"__attribute__(("};
+    static const std::string attributeEnd{"))"};
+    if(attributeString.compare(0, attributeBegin.size(), attributeBegin) == 0)
+    {
+      attributeString.erase(0, attributeBegin.size());
+      attributeString.erase(attributeString.size() - attributeEnd.size());
+    }
+    if(!attributeString.empty() && attributeString.back() == ')')
+    {
+      attributeString.pop_back();
+    }
+    return attributeString;
+  }
+
+  FunctionAttribute::ParametersList splitAttributeParameters(const std::string& attributeString)
+  {
+    FunctionAttribute::ParametersList parametersList{};
+    const size_t parenthesisPos = attributeString.find_first_of('(');
+    if(parenthesisPos == std::string::npos)
+    {
+      return parametersList;
+    }
+    bool isInString = false;
+    std::string curParam;
+    for(size_t pos = parenthesisPos + 1; pos < attributeString.size(); pos++)
+    {
+      const char curChar = attributeString[pos];
+      if(curChar == ',' && !isInString)
+      {
+        parametersList.push_back(trim(curParam));
+        curParam.clear();
+        continue;
+      }
+      curParam.push_back(curChar);
+      if(curChar == '\\' && isInString && pos + 1 < attributeString.size())
+      {
+        curParam.push_back(attributeString[++pos]);
+      }
+      else if(curChar == '"')
+      {
+        isInString = !isInString;
+      }
+    }
+    parametersList.push_back(trim(curParam));
+
+    return parametersList;
+  }
+
+  FunctionAttribute::ParametersList getFunAttrParamList(const clang::Attr *attr)
   {
     FunctionAttribute::ParametersList parametersList{};
     /*
@@ -322,53 +400,36 @@ private:
      * to the code.
      * This fallback case works for the majority of the case we have seen so far.
      */
-    const clang::FormatAttr *formatAttr = attr->getKind() == clang::attr::Kind::Format ? clangFunc->getAttr<clang::FormatAttr>() : nullptr;
-    const clang::SectionAttr *sectionAttr = attr->getKind() == clang::attr::Kind::Section ? clangFunc->getAttr<clang::SectionAttr>() : nullptr;
+    const clang::FormatAttr *formatAttr = llvm::dyn_cast<clang::FormatAttr>(attr);
+    const clang::SectionAttr *sectionAttr = llvm::dyn_cast<clang::SectionAttr>(attr);
+    const clang::AssumeAlignedAttr *assumeAlignedAttr = llvm::dyn_cast<clang::AssumeAlignedAttr>(attr);
     if(formatAttr)
     {
       parametersList = getFormatAttrParamList(formatAttr);
     }
+    else if(assumeAlignedAttr && isFromMacro(attr))
+    {
+      // clang prints the addresses of these expressions
+      parametersList.push_back(getExpressionString(assumeAlignedAttr->getAlignment()));
+      if(assumeAlignedAttr->getOffset())
+      {
+        parametersList.push_back(getExpressionString(assumeAlignedAttr->getOffset()));
+      }
+    }
     else if(sectionAttr)
     {
       parametersList = getSectionAttrParamList(sectionAttr);
     }
     else
     {
-      clang::SourceRange sourceRange = attr->getRange();
-      clang::SourceLocation sourceBegin = sourceRange.getBegin();
-      clang::SourceLocation sourceEnd = sourceRange.getEnd();
-      if(sourceBegin.isMacroID())
-      {
-        sourceBegin = m_SM->getSpellingLoc(sourceBegin);
-      }
-      if(sourceEnd.isMacroID())
+      parametersList = splitAttributeParameters(getAttributeString(attr));
+      if(isFromMacro(attr))
       {
-        sourceEnd = m_SM->getSpellingLoc(sourceEnd);
-      }
-      clang::CharSourceRange charSourceRange{};
-      charSourceRange.setBegin(sourceBegin);
-      charSourceRange.setEnd(sourceEnd);
-      clang::StringRef attributeStringRef = clang::Lexer::getSourceText(charSourceRange, *m_SM, *m_LO);
-      std::string attributeString = attributeStringRef.str();
-      size_t curPos = attributeString.find_first_of('(');
-      while(curPos != std::string::npos)
-      {
-        curPos += 1;
-        size_t commaPos = attributeString.find_first_of(',', curPos);
-        if(commaPos != std::string::npos)
-        {
-          size_t paramLen = commaPos - curPos;
-          std::string curParam = attributeString.substr(curPos,paramLen);
-          curPos += paramLen; //Put the position on the comma
-          curParam = trim(curParam);
-          parametersList.push_back(curParam);
-        }
-        else
+        // clang prints the optional parameters that aren't there: warn_unused_result(""), sentinel(0, 0)
+        const std::string absentParameter{llvm::isa<clang::SentinelAttr>(attr) ? "0" : "\"\""};
+        while(!parametersList.empty() && parametersList.back() == absentParameter)
         {
-          std::string curParam = attributeString.substr(curPos);
-          curParam = trim(curParam);
-          parametersList.push_back(curParam);
-          curPos = std::string::npos;
+          parametersList.pop_back();
         }
       }
     }
-- 
2.43.0


From 6015357fcb80ca7ec553c86e564784cc4f1e78ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:49 +0000
Subject: [PATCH 39/50] fix: a class with a member function returning it
 crashes the generator

---
 src/easyMockGenerate/src/ComposableType.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/ComposableType.cpp b/src/easyMockGenerate/src/ComposableType.cpp
index b2f3fcb..150e547 100644
--- a/src/easyMockGenerate/src/ComposableType.cpp
+++ b/src/easyMockGenerate/src/ComposableType.cpp
@@ -45,8 +45,8 @@ std::size_t ComposableType::getHash() const noexcept
   boost::hash_combine(seed, m_is_forward_declared);
   for(const auto& function : m_functions)
   {
-    //const auto f_ptr = function.lock();
-    boost::hash_combine(seed, *function);
+    // The types of a function may be made of this very type
+    boost::hash_combine(seed, function->getFunctionPrototype());
   }
 
   return seed;
-- 
2.43.0


From a79bde86873d33bcdae841607821d563c7b3fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:49 +0000
Subject: [PATCH 40/50] fix: the return type of a C++ function loses its & or
 keeps virtual

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 10f429f..0f09bb5 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -561,7 +561,7 @@ private:
     }
     static std::regex removeAttrRegex{"__attribute__[[:space:]]*\\([[:space:]]*\\(.*\\)[[:space:]]*\\)"};
 
-    static const std::string specifiers{"(extern|static|inline|__inline|__inline__|_Noreturn|__extension__)"};
+    static const std::string specifiers{"(extern|static|inline|virtual|__inline|__inline__|_Noreturn|__extension__)"};
     static std::regex specifiersRegex{specifiers + "([[:space:]]+" + specifiers + ")*"};
 
     /*
@@ -755,6 +755,7 @@ private:
               declareString.back() != '\r' &&
               declareString.back() != '\t' &&
               declareString.back() != '*' &&
+              declareString.back() != '&' &&
               declareString.back() != ')')
       {
         declareString.pop_back();
-- 
2.43.0


From cceae4d69abaed62e42ed9588c3c8e64499c5bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:49 +0000
Subject: [PATCH 41/50] fix: constructors, operators, deleted, template and
 unnamed namespace functions have mocks that do not compile

---
 src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 0f09bb5..90cddb9 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -141,6 +141,12 @@ public:
 
   std::shared_ptr<FunctionDeclaration> getFunctionDeclaration(const clang::FunctionDecl* func)
   {
+    if(llvm::isa<clang::CXXConstructorDecl>(func) || llvm::isa<clang::CXXDestructorDecl>(func) ||
+       llvm::isa<clang::CXXConversionDecl>(func) || func->isOverloadedOperator() || func->isDeleted() || func->isDependentContext())
+    {
+      // There is nothing to call ExpectAndReturn with
+      return nullptr;
+    }
     const std::string funName = getFunctionName(func);
     if(!m_mockOnlyList.empty() && std::find(std::begin(m_mockOnlyList), std::end(m_mockOnlyList), funName) == std::end(m_mockOnlyList))
     {
@@ -218,7 +224,7 @@ public:
     }
     bool isInline = currentDecl->isInlined();
     bool doesThisDeclHasABody = currentDecl->doesThisDeclarationHaveABody();
-    bool isStatic = currentDecl->isStatic();
+    bool isStatic = currentDecl->isStatic() || func->isInAnonymousNamespace();
     bool isReplaceable = true;
     for(const clang::FunctionDecl* redecl : func->redecls())
     {
-- 
2.43.0


From 4d78bee5c0daf810df5fd99bae03b06bc19d55d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:49 +0000
Subject: [PATCH 42/50] fix: C++ mocks of functions with const pointer,
 function pointer or reference to pointer parameters do not compile

---
 .../CodeGeneratorCTemplate.cpp                | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 360e79f..2b82dc2 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -76,6 +76,7 @@
 #define FUNCTION_PARAM_SECTION_SEPARATOR FUNCTION_PARAM_SECTION "_separator"
 #define FUNCTION_PARAM_PTR_SECTION_SEPARATOR FUNCTION_PARAM_PTR_SECTION "_separator"
 #define FUNCTION_PARAM_TYPE "FUNCTION_PARAM_TYPE"
+#define FUNCTION_PARAM_MATCHER_TYPE "FUNCTION_PARAM_MATCHER_TYPE"
 #define FUNCTION_PARAM_NON_QUALIFIED_TYPE "FUNCTION_PARAM_NON_QUALIFIED_TYPE"
 #define FUNCTION_PARAM_DEREFERENCED_TYPE "FUNCTION_PARAM_DEREFERENCED_TYPE"
 #define PARAMETER_RAW_TYPE "PARAMETER_RAW_TYPE"
@@ -257,6 +258,7 @@
 #define MATCHER_NAME TEMPLATE_VAR(FUNCTION_MATCHER_PARAM_NAME)
 #define PARAMETER_OUT_SIZE_VAR PARAMETER_NAME(MOCK_OUT_PREFIX) "_size"
 #define PARAMETER_TYPE TEMPLATE_VAR(FUNCTION_PARAM_TYPE)
+#define PARAMETER_MATCHER_TYPE TEMPLATE_VAR(FUNCTION_PARAM_MATCHER_TYPE)
 #define PARAMETER_NON_QUALIFIED_TYPE TEMPLATE_VAR(FUNCTION_PARAM_NON_QUALIFIED_TYPE)
 #define PARAMETER_DEREFERENCED_TYPE TEMPLATE_VAR(FUNCTION_PARAM_DEREFERENCED_TYPE)
 #define TEMPLATE_PARAMETER_RAW_TYPE TEMPLATE_VAR(PARAMETER_RAW_TYPE)
@@ -349,7 +351,7 @@ SPACES "std::reference_wrapper<" DEREFERENCED_PARAM_TYPE "> " PARAM_NAME "{ defa
     IF_SECTION_EXISTS(C_ONLY_SECTION, \
     "EasyMock_Matcher ") \
     IF_SECTION_EXISTS(CPP_ONLY_SECTION, \
-    "::EasyMock::EasyMock_Matcher_Cpp<" PARAMETER_TYPE "> ") \
+    "::EasyMock::EasyMock_Matcher_Cpp<" PARAMETER_MATCHER_TYPE "> ") \
     FUNCTION_PARAM_MATCH_VAR \
     TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION_SEPARATOR)\
       ", " \
@@ -580,7 +582,7 @@ const char templateText[] =
           "    EasyMock_Matcher " FUNCTION_MOCK_DATA_CUR_MATCH_VAR ";"
         )
         IF_SECTION_EXISTS(CPP_ONLY_SECTION,
-          "    ::EasyMock::EasyMock_Matcher_Cpp<" PARAMETER_TYPE "> " FUNCTION_MOCK_DATA_CUR_MATCH_VAR ";"
+          "    ::EasyMock::EasyMock_Matcher_Cpp<" PARAMETER_MATCHER_TYPE "> " FUNCTION_MOCK_DATA_CUR_MATCH_VAR ";"
         )
         CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_PARAM_SECTION)
@@ -1679,19 +1681,15 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
     if(nonQualifiedParamRefType)
     {
       functionParamSection->AddSectionDictionary(REFERENCE_MEMBER_SECTION);
-      functionParamSection->SetValue(PARAMETER_RAW_TYPE, rawType->getName());
+      functionParamSection->SetValue(PARAMETER_RAW_TYPE, dereferencedNonQualifiedArgType);
     }
     else
     {
       functionParamSection->AddSectionDictionary(REGULAR_MEMBER_SECTION);
     }
-    if(!nonQualifiedParamPtrType)
-    {
-      functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, dereferencedNonQualifiedArgType);
-    }
-    else
+    std::string nonQualifiedArgType = dereferencedNonQualifiedArgType;
+    if(nonQualifiedParamPtrType)
     {
-      functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, argType);
       getRawType(nonQualifiedParamPtrType);
       const FunctionType *ft = getNonTypedefFunctionType(nonQualifiedParamPtrType);
       if(ft)
@@ -1699,7 +1697,13 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         generateDeclarationOfUsedType(m_rootDictionary, ft, false);
         generateExtraDecl(functionParamSection, EXTRA_DECL_SECTION, EXTRA_DECL_TEMPLATE_NAME, ft);
       }
+      // In C++, an object with a const member can't be default constructed
+      if(ft || !m_isCpp)
+      {
+        nonQualifiedArgType = argType;
+      }
     }
+    functionParamSection->SetValue(FUNCTION_PARAM_NON_QUALIFIED_TYPE, nonQualifiedArgType);
     std::string paramName = fParam.getName();
     if(paramName.empty())
     {
@@ -1713,6 +1717,9 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
       paramName.insert(0, MOCK_FRAMEWORK_NAME "_param_");
     }
     functionParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
+    // The type of a function pointer can't be written without its name
+    const bool isFunctionPtr = nonQualifiedParamPtrType && getNonTypedefFunctionType(nonQualifiedParamPtrType);
+    functionParamSection->SetValue(FUNCTION_PARAM_MATCHER_TYPE, isFunctionPtr ? "decltype(" + paramName + ")" : argType);
 
     // Add the {C/CPP}_ONLY_SECTION in functionParamSection after all the value have been set in functionParamSection
     // to allow the value set (e.g. FUNCTION PARAM_TYPE) to be available in those section as well.
@@ -1747,7 +1754,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         }
         ctemplate::TemplateDictionary* newPtrParamSection = p_functionSectionDict->AddSectionDictionary(FUNCTION_PARAM_PTR_SECTION);
         //No need to add the FUNCTION_PARAM_NON_QUALIFIED_TYPE because we will not generate output pointer for const
-        newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, argType);
+        newPtrParamSection->SetValue(FUNCTION_PARAM_TYPE, nonQualifiedArgType);
         newPtrParamSection->SetValue(FUNCTION_PARAM_NAME, paramName);
         ctemplate::TemplateDictionary* subdict = nullptr;
         const TypeItf* untypedefPointedType = getUnqualifiedAndUntypedefType(pointedType);
@@ -1760,7 +1767,7 @@ void CodeGeneratorCTemplate::generateFunctionParamSection(ctemplate::TemplateDic
         {
           subdict = newPtrParamSection->AddSectionDictionary(FUNCTION_NON_VOID_PTR_OUT_SECTION);
         }
-        subdict->SetValue(FUNCTION_PARAM_TYPE, argType);
+        subdict->SetValue(FUNCTION_PARAM_TYPE, nonQualifiedArgType);
         subdict->SetValue(FUNCTION_PARAM_NAME, paramName);
       }
     }
-- 
2.43.0


From 8a9ab8261002ba3073761ffe58bd36aaca7b1a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:49 +0000
Subject: [PATCH 43/50] fix: C++ functions in nested namespaces, overloaded, or
 with the name of one of another namespace or class, have no mock, or one that
 does not compile

---
 .../include/CodeGeneratorCTemplate.h          |  3 +
 src/easyMockGenerate/include/Function.h       |  5 ++
 .../include/FunctionDeclaration.h             |  5 ++
 .../CodeGeneratorCTemplate.cpp                | 79 +++++++++++++++----
 src/easyMockGenerate/src/Function.cpp         |  6 ++
 .../src/FunctionDeclaration.cpp               | 11 +++
 .../src/LLVMParser/LLVMParser.cpp             | 11 +--
 7 files changed, 96 insertions(+), 24 deletions(-)

diff --git a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
index 11249f1..bd805f4 100644
--- a/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
+++ b/src/easyMockGenerate/include/CodeGeneratorCTemplate.h
@@ -8,6 +8,7 @@
 
 #include <CodeGeneratorItf.h>
 #include <ctemplate/template.h>
+#include <map>
 #include <string>
 #include <unordered_set>
 #include <unordered_map>
@@ -110,6 +111,8 @@ private:
 
   std::unordered_set<std::string> m_generatedComparator;
   unsigned int m_nbUnamedParam;
+  std::unordered_map<std::string, unsigned int> m_nbFunctionsByName;
+  std::map<std::string, std::string> m_mockedClasses;
   ctemplate::TemplateDictionary *m_rootDictionary;
   ctemplate::TemplateDictionary *m_generateMockedTypeSection;
   EasyMock::HashablePointerUnorderedMap<const TypeItf*, const TypedefType*> m_typeToTypedef;
diff --git a/src/easyMockGenerate/include/Function.h b/src/easyMockGenerate/include/Function.h
index 54e082e..c4f2d6b 100644
--- a/src/easyMockGenerate/include/Function.h
+++ b/src/easyMockGenerate/include/Function.h
@@ -68,6 +68,11 @@ public:
    */
   std::string getFunctionPrototype() const;
 
+  /*!
+   * \brief Returns the namespaces the function is in, ready to be put in front of a name, e.g. "ns1::ns2::"
+   */
+  virtual std::string getScope() const;
+
   /*!
    * \copydoc ::Function::getFunctionsParameters()
    */
diff --git a/src/easyMockGenerate/include/FunctionDeclaration.h b/src/easyMockGenerate/include/FunctionDeclaration.h
index 05e0737..1b9a7ac 100644
--- a/src/easyMockGenerate/include/FunctionDeclaration.h
+++ b/src/easyMockGenerate/include/FunctionDeclaration.h
@@ -101,6 +101,11 @@ public:
    */
   std::shared_ptr<const Namespace> getNamespace() const;
 
+  /*!
+   * \copydoc ::Function::getScope
+   */
+  std::string getScope() const override;
+
   virtual ~FunctionDeclaration();
   static const FunctionDeclaration& toFunctionDeclaration(const ElementToMock& elem)
   {
diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 2b82dc2..8739d4e 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -7,6 +7,7 @@
 #include <cstring>
 #include "CodeGeneratorCTemplate.h"
 #include <boost/filesystem.hpp>
+#include <boost/functional/hash.hpp>
 #include <unordered_set>
 
 #include "TypeItf.h"
@@ -220,6 +221,7 @@
   IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "namespace " FUNCTION_CLASS_NAME CARRIAGE_RETURN "{" CARRIAGE_RETURN ) \
   "namespace " FUNCTION_NAME CARRIAGE_RETURN \
   "{" \
+  IF_SECTION_EXISTS(MOCKED_CLASS_SECTION, CARRIAGE_RETURN "using ::" MOCKED_CLASS_NAME ";") \
   )
 
 #define NAMESPACE_IF_CPP_END \
@@ -265,6 +267,14 @@
 #define FUNCTION_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_RETURN_VALUE)
 #define FUNCTION_TO_RETURN_VALUE_TYPE TEMPLATE_VAR(FUNCTION_TO_RETURN_VALUE)
 #define FUNCTION_NAME TEMPLATE_VAR(FUNCTION_NAME_VAR)
+#define FUNCTION_UNIQUE_NAME_VAR "FUNCTION_UNIQUE_NAME_VAR"
+#define FUNCTION_UNIQUE_NAME TEMPLATE_VAR(FUNCTION_UNIQUE_NAME_VAR)
+#define FUNCTION_NAMESPACE_VAR "FUNCTION_NAMESPACE_VAR"
+#define FUNCTION_NAMESPACE TEMPLATE_VAR(FUNCTION_NAMESPACE_VAR)
+#define MOCKED_CLASS_SECTION "MOCKED_CLASS_SECTION"
+#define MOCKED_CLASS_NAME_VAR "MOCKED_CLASS_NAME_VAR"
+#define MOCKED_CLASS_NAME TEMPLATE_VAR(MOCKED_CLASS_NAME_VAR)
+#define FUNCTION_INSTANCE_SEPARATOR_SECTION "FUNCTION_INSTANCE_SEPARATOR_SECTION"
 #define FUNCTION_ACCESS_SPECIFIER TEMPLATE_VAR(FUNCTION_ACCESS_SPECIFIER_VAR)
 
 #define FUNCTION_NON_QUALIFIED_RETURN_VALUE "FUNCTION_NON_QUALIFIED_RETURN_VALUE"
@@ -370,8 +380,8 @@ SPACES "std::reference_wrapper<" DEREFERENCED_PARAM_TYPE "> " PARAM_NAME "{ defa
 IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectAndReturn("
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM \
-IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "::" FUNCTION_CLASS_NAME "* instance" \
-                  IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", ") \
+IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "::" FUNCTION_NAMESPACE FUNCTION_CLASS_NAME "* instance" \
+                  IF_SECTION_EXISTS(FUNCTION_INSTANCE_SEPARATOR_SECTION, ", ") \
                   ) \
 FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_TO_RETURN_VALUE_TYPE " to_return" TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)) IF_SECTION_EXISTS(FUNCTION_PARAM_LIST_SECTION, ", ") FUNCTION_MATCHER_LIST
 
@@ -382,7 +392,7 @@ FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_RETURN_VALUE(IF_SECTION_EXIST
 IF_SECTION_EXISTS(C_ONLY_SECTION, FUNCTION_NAME "_") "ExpectReturnAndOutput"
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME \
-FUNCTION_NAME "_ExpectReturnAndOutput_common"
+FUNCTION_UNIQUE_NAME "_ExpectReturnAndOutput_common"
 
 #define FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE_PARAM \
 FUNCTION_EXPECT_RETURN_AND_OUTPUT_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_PARAM_LIST(FUNCTION_PARAM_PTR_SECTION, MOCK_OUT_PREFIX)
@@ -415,13 +425,13 @@ MOCK_FRAMEWORK_NAME "_verifyAllMocksInThisHeader"
 "static easyMock_bool " VERIFY_ALL_MOCK_FUNCTION_NAME "()"
 
 #define FUNCTION_MOCK_DATA_TYPE \
-FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_data"
+FUNCTION_CLASS_NAME "_" FUNCTION_UNIQUE_NAME "_data"
 
 #define FUNCTION_MOCK_DATA_RETURN_VALUE_VARIABLE \
-FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_returnValue"
+FUNCTION_CLASS_NAME "_" FUNCTION_UNIQUE_NAME "_returnValue"
 
 #define FUNCTION_MOCK_DATA_CUR_MATCH_VAR \
-FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
+FUNCTION_CLASS_NAME "_" FUNCTION_UNIQUE_NAME "_match_" PARAMETER_NAME("")
 
 #define CURRENT_DATA_CALL "currentDataCall"
 #define CURRENT_DATA_CALL_MEMBER(member) CURRENT_DATA_CALL "." member
@@ -433,10 +443,11 @@ FUNCTION_CLASS_NAME "_" FUNCTION_NAME "_match_" PARAMETER_NAME("")
 #define INSIDE_CLASS_FUNCTION_DECLARATION FUNCTION_ACCESS_SPECIFIER ": " FUNCTION_RETURN_VALUE_TYPE " " FUNCTION_NAME FUNCTION_PARAMETERS IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const") ";"
 
 #define FUNCTION_PARAMETERS "("  FUNCTION_PARAM_LIST(FUNCTION_PARAM_SECTION, "") IF_SECTION_EXISTS(VARIADIC_SECTION, VARIADIC_TEMPLATE_VAR) ")"
-#define TEMPLATE_FUNCTION_SIGNATURE FUNCTION_RETURN_VALUE_TYPE " " IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
+#define TEMPLATE_FUNCTION_SIGNATURE_IN_SCOPE(SCOPE) FUNCTION_RETURN_VALUE_TYPE " " SCOPE IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, FUNCTION_CLASS_NAME "::") FUNCTION_NAME FUNCTION_PARAMETERS TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) IF_SECTION_EXISTS(IS_FUNCTION_CLASS_CONST, " const")
+#define TEMPLATE_FUNCTION_SIGNATURE TEMPLATE_FUNCTION_SIGNATURE_IN_SCOPE("")
 #define TEMPLATE_FUNCTION_TO_BE_MOCKED FUNCTION_ATTRIBUTE_DECLARATION_LIST TEMPLATE_FUNCTION_SIGNATURE
 #define MOCKED_FUN_CLASS(F_NAME) "mocked_" F_NAME
-#define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_NAME)
+#define TEMPLATE_MOCKED_FUN_CLASS MOCKED_FUN_CLASS(FUNCTION_UNIQUE_NAME)
 
 #define COMPOSED_TYPED_COMPARE_SECTION_DECL_NAME_VAR TEMPLATE_VAR(COMPOSED_TYPED_DECL_STRING)
 #define COMPOSED_TYPED_COMPARE_SECTION_UNIQUE_NAME_VAR TEMPLATE_VAR(COMPOSED_TYPED_UNIQUE_NAME)
@@ -569,7 +580,7 @@ const char templateText[] =
         IF_SECTION_EXISTS(C_ONLY_SECTION, "typedef ")
         "struct " IF_SECTION_EXISTS(CPP_ONLY_SECTION, FUNCTION_MOCK_DATA_TYPE) " {" CARRIAGE_RETURN
         IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME,
-          "    ::" FUNCTION_CLASS_NAME "* instance;" CARRIAGE_RETURN
+          "    ::" FUNCTION_NAMESPACE FUNCTION_CLASS_NAME "* instance;" CARRIAGE_RETURN
         )
         TEMPLATE_BEG_SECTION(FUNCTION_PARAM_SECTION)
         IF_SECTION_EXISTS(REFERENCE_MEMBER_SECTION,
@@ -603,7 +614,7 @@ const char templateText[] =
         IF_SECTION_EXISTS(C_ONLY_SECTION, "static MockedFunction " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_SECTION_EXISTS(CPP_ONLY_SECTION, "static MockedCppFunction<" FUNCTION_MOCK_DATA_TYPE "> " TEMPLATE_MOCKED_FUN_CLASS ";" CARRIAGE_RETURN)
         IF_RETURN_VALUE(
-          "static " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " dummyRes_" FUNCTION_NAME TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
+          "static " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " dummyRes_" FUNCTION_UNIQUE_NAME TEMPLATE_INCL_SECTION(EXTRA_DECL_SECTION)
           IF_SECTION_EXISTS(CPP_ONLY_SECTION, "{}")
           ";"
           CARRIAGE_RETURN
@@ -617,11 +628,11 @@ const char templateText[] =
         CARRIAGE_RETURN
         IF_RETURN_VALUE(
           IF_SECTION_EXISTS(REFERENCE_RETURN_SECTION,
-              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> default_res { dummyRes_" FUNCTION_NAME " };" CARRIAGE_RETURN
+              "    std::reference_wrapper<" FUNCTION_DEREFERENCED_RETURN_VALUE_TYPE "> default_res { dummyRes_" FUNCTION_UNIQUE_NAME " };" CARRIAGE_RETURN
           )
           IF_SECTION_EXISTS(REGULAR_RETURN_SECTION,
               "    " FUNCTION_NON_QUALIFIED_RETURN_VALUE_TYPE " default_res" TEMPLATE_INCL_SECTION(EXTRA_TOP_LEVEL_DECL_SECTION) ";" CARRIAGE_RETURN
-              "    easyMock_memcpy((void*)&default_res, (void*)&dummyRes_" FUNCTION_NAME ", sizeof(default_res));" CARRIAGE_RETURN
+              "    easyMock_memcpy((void*)&default_res, (void*)&dummyRes_" FUNCTION_UNIQUE_NAME ", sizeof(default_res));" CARRIAGE_RETURN
           )
           CARRIAGE_RETURN
         )
@@ -705,7 +716,7 @@ const char templateText[] =
         FUNCTION_EXPECT_AND_RETURN_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", "))
+                IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_INSTANCE_SEPARATOR_SECTION, ", "))
                 FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_HARDCODED_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, "easyMock_null")
               ");" CARRIAGE_RETURN
         "}" CARRIAGE_RETURN
@@ -714,7 +725,7 @@ const char templateText[] =
              FUNCTION_EXPECT_RETURN_AND_OUTPUT_SIGNATURE CARRIAGE_RETURN
              "{" CARRIAGE_RETURN
              "    " FUNCTION_EXPECT_RETURN_AND_OUTPUT_COMMON_NAME "("
-                      IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_PARAM_SECTION, ", "))
+                      IF_SECTION_EXISTS(IS_FUNCTION_CLASS_NAME, "instance" IF_SECTION_EXISTS(FUNCTION_INSTANCE_SEPARATOR_SECTION, ", "))
                       FUNCTION_EXPECT_RETURN_COMMON_CALL_PARAM IF_SECTION_EXISTS(FUNCTION_PARAM_PTR_LIST_SECTION, ", ") FUNCTION_PARAM_CALL(FUNCTION_PARAM_PTR_SECTION, MOCK_OUT_PREFIX)
                   ");" CARRIAGE_RETURN
              "}" CARRIAGE_RETURN
@@ -764,7 +775,7 @@ const char templateText[] =
         FUNCTION_INIT_ALL_MOCK_SIGNATURE CARRIAGE_RETURN
         "{" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(FUNCTION_SECTION)
-        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", \"" TEMPLATE_FUNCTION_SIGNATURE "\", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
+        "    MockedFunction_init(&" TEMPLATE_MOCKED_FUN_CLASS ", \"" TEMPLATE_FUNCTION_SIGNATURE_IN_SCOPE(FUNCTION_NAMESPACE) "\", sizeof(" FUNCTION_MOCK_DATA_TYPE ") );" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(FUNCTION_SECTION)
         "}"
         CARRIAGE_RETURN
@@ -1389,6 +1400,14 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
   //Whatever can't be part of an identifier can't be part of the include guard
   std::replace_if( fileNameWithoutExtUpper.begin(), fileNameWithoutExtUpper.end(), [](unsigned char c) { return !std::isalnum(c); }, '_');
   m_rootDictionary->SetValue(MOCKED_FILE_NAME_WITHOUT_EXT_UPPER, fileNameWithoutExtUpper);
+  for(const auto& fun : fList)
+  {
+    const auto parentData = fun->getParentData();
+    if(parentData)
+    {
+      m_mockedClasses.insert({parentData->getName(), fun->getScope()});
+    }
+  }
   std::unordered_set<std::size_t> generatedElements;
   for (const auto& fun: fList)
   {
@@ -1439,7 +1458,14 @@ void CodeGeneratorCTemplate::fillInTemplateVariables(const std::string &p_mocked
       {
         continue;
       }
+      // Functions of different namespaces or classes may be the same otherwise
       std::size_t rawHash = fun->getRawHash();
+      boost::hash_combine(rawHash, fun->getScope());
+      if(fun->getParentData())
+      {
+        boost::hash_combine(rawHash, fun->getParentData()->getName());
+        boost::hash_combine(rawHash, fun->isClassConst());
+      }
       if(generatedElements.find(rawHash) != generatedElements.end())
       {
         continue;
@@ -1551,6 +1577,25 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   }
 
   functionSectionDict->SetValue(FUNCTION_NAME_VAR, *p_elemToMock->getName());
+  functionSectionDict->SetValue(FUNCTION_NAMESPACE_VAR, p_elemToMock->getScope());
+  std::string uniqueName(*p_elemToMock->getName());
+  if(m_isCpp && p_parentDictionary == m_rootDictionary)
+  {
+    // Other functions may have the same name: overloads or functions of other namespaces or classes
+    const unsigned int nbSameName = m_nbFunctionsByName[uniqueName]++;
+    if(nbSameName > 0)
+    {
+      uniqueName.append("_easyMock" + std::to_string(nbSameName));
+    }
+  }
+  functionSectionDict->SetValue(FUNCTION_UNIQUE_NAME_VAR, uniqueName);
+  // Within namespace EasyMock, the namespace of a mocked class hides the class itself
+  for(const auto& [mockedClassName, mockedClassScope] : m_mockedClasses)
+  {
+    const bool isParent = parentData && parentData->getName() == mockedClassName;
+    const std::string& scope = isParent ? p_elemToMock->getScope() : mockedClassScope;
+    functionSectionDict->AddSectionDictionary(MOCKED_CLASS_SECTION)->SetValue(MOCKED_CLASS_NAME_VAR, scope + mockedClassName);
+  }
   std::string upperString(*p_elemToMock->getName());
   std::transform(upperString.begin(), upperString.end(), upperString.begin(), ::toupper);
   functionSectionDict->SetValue(FUNCTION_NAME_UPPER, upperString);
@@ -1581,6 +1626,10 @@ void CodeGeneratorCTemplate::generateFunctionSection(ctemplate::TemplateDictiona
   }
 
   bool isRvVoid = getUnqualifiedAndUntypedefType(rvType)->getCType() == CTYPE_VOID;
+  if(!isRvVoid || !p_elemToMock->getFunctionsParameters().empty())
+  {
+    functionSectionDict->AddSectionDictionary(FUNCTION_INSTANCE_SEPARATOR_SECTION);
+  }
   if (!isRvVoid)
   {
     ctemplate::TemplateDictionary *returnValParamDict = functionSectionDict->AddSectionDictionary(FUNCTION_RETURN_VALUE_PARAM_SECTION);
diff --git a/src/easyMockGenerate/src/Function.cpp b/src/easyMockGenerate/src/Function.cpp
index e2a113a..435aa40 100644
--- a/src/easyMockGenerate/src/Function.cpp
+++ b/src/easyMockGenerate/src/Function.cpp
@@ -234,6 +234,11 @@ bool Function::operator!=(const Function& other) const
   return (*this == other) == false;
 }
 
+std::string Function::getScope() const
+{
+  return {};
+}
+
 std::string Function::getFunctionPrototype() const
 {
   std::string rv_funcProto;
@@ -269,6 +274,7 @@ std::string Function::getFunctionPrototype() const
   }
   rv_funcProto.append(m_returnType.getDeclareString());
   rv_funcProto.push_back(' ');
+  rv_funcProto.append(getScope());
   auto lockedParentData = m_parentData.lock();
   if(lockedParentData)
   {
diff --git a/src/easyMockGenerate/src/FunctionDeclaration.cpp b/src/easyMockGenerate/src/FunctionDeclaration.cpp
index e32c514..6fe6cec 100644
--- a/src/easyMockGenerate/src/FunctionDeclaration.cpp
+++ b/src/easyMockGenerate/src/FunctionDeclaration.cpp
@@ -77,6 +77,17 @@ std::shared_ptr<const Namespace> FunctionDeclaration::getNamespace() const
   return m_namespace;
 }
 
+std::string FunctionDeclaration::getScope() const
+{
+  std::string scope;
+  for(const Namespace* curNamespace = m_namespace.get(); !curNamespace->isGlobal(); curNamespace = curNamespace->m_parent.get())
+  {
+    scope.insert(0, curNamespace->m_name + "::");
+  }
+
+  return scope;
+}
+
 bool FunctionDeclaration::operator==(const FunctionDeclaration& other) const
 {
   bool funEqual = Function::operator==(other);
diff --git a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
index 90cddb9..642f21e 100644
--- a/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
+++ b/src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp
@@ -638,16 +638,9 @@ private:
       return getGlobalNamespace();
     }
     const clang::DeclContext* parentContext = declContext->getParent();
-    for(auto lookup : declContext->lookups())
+    if(const auto* namespaceDecl = llvm::dyn_cast<clang::NamespaceDecl>(declContext))
     {
-      for (auto namedDecl: lookup)
-      {
-        if(namedDecl->getKind() == clang::Decl::Kind::Namespace)
-        {
-          const auto enclosingNamespace = getNamespace(parentContext);
-          return std::make_shared<const Namespace>(namedDecl->getNameAsString(), enclosingNamespace);
-        }
-      }
+      return std::make_shared<const Namespace>(namespaceDecl->getNameAsString(), getNamespace(parentContext));
     }
     return getNamespace(parentContext);
   }
-- 
2.43.0


From 5d8a9ef8a872ee325f3c63f48193841af072db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 44/50] fix: asComposableField() gives no field for a field and
 a bit-field as one

---
 src/easyMockGenerate/src/ComposableFieldItf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/easyMockGenerate/src/ComposableFieldItf.cpp b/src/easyMockGenerate/src/ComposableFieldItf.cpp
index 461b98e..b437194 100644
--- a/src/easyMockGenerate/src/ComposableFieldItf.cpp
+++ b/src/easyMockGenerate/src/ComposableFieldItf.cpp
@@ -18,7 +18,7 @@ bool ComposableFieldItf::isComposableField() const
 
 const ComposableField* ComposableFieldItf::asComposableField() const
 {
-  if(!isComposableBitfield())
+  if(!isComposableField())
   {
     return nullptr;
   }
-- 
2.43.0


From b4c490314d54fd7de4b55a5089e1b5c56cc3dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 45/50] fix: equal CType objects have different hashes

---
 src/easyMockGenerate/src/EasyMock_CType.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/easyMockGenerate/src/EasyMock_CType.cpp b/src/easyMockGenerate/src/EasyMock_CType.cpp
index 1d1d807..c64f9f1 100644
--- a/src/easyMockGenerate/src/EasyMock_CType.cpp
+++ b/src/easyMockGenerate/src/EasyMock_CType.cpp
@@ -141,7 +141,6 @@ std::size_t CType::getHash() const noexcept
   }
   std::size_t seed { TypeItf::getHash() };
   boost::hash_combine(seed, static_cast<uint32_t>(m_cType));
-  boost::hash_combine(seed, m_initAsNakedChar);
 
   return seed;
 }
-- 
2.43.0


From 8b0fa4cd23ade0dd54606272fabc0135ba77b73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:45 +0000
Subject: [PATCH 46/50] fix: incomplete types of different keywords are equal

---
 src/easyMockGenerate/include/IncompleteType.h |  5 +++++
 src/easyMockGenerate/src/IncompleteType.cpp   | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/easyMockGenerate/include/IncompleteType.h b/src/easyMockGenerate/include/IncompleteType.h
index 51db28c..9171df5 100644
--- a/src/easyMockGenerate/include/IncompleteType.h
+++ b/src/easyMockGenerate/include/IncompleteType.h
@@ -80,6 +80,11 @@ public:
   virtual ~IncompleteType();
 
 protected:
+  /*!
+   * \copydoc TypeItf::isEqual
+   */
+  bool isEqual(const TypeItf& p_other) const override;
+
 private:
   Type m_type;
   std::size_t m_cachedHash;
diff --git a/src/easyMockGenerate/src/IncompleteType.cpp b/src/easyMockGenerate/src/IncompleteType.cpp
index 272ee46..807b749 100644
--- a/src/easyMockGenerate/src/IncompleteType.cpp
+++ b/src/easyMockGenerate/src/IncompleteType.cpp
@@ -41,6 +41,17 @@ std::string IncompleteType::getDeclarationPrefix(bool) const
   return toReturn;
 }
 
+bool IncompleteType::isEqual(const TypeItf& p_other) const
+{
+  bool parentEq = TypeItf::isEqual(p_other);
+  if(!parentEq)
+  {
+    return false;
+  }
+  const IncompleteType& other = dynamic_cast<const IncompleteType&>(p_other);
+  return m_type == other.m_type;
+}
+
 std::size_t IncompleteType::getHash() const noexcept
 {
   if(m_cachedHash != 0)
-- 
2.43.0


From 957aff4b032599482b8f12f33fd082070005d620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:02 +0000
Subject: [PATCH 47/50] fix: flexible array members of records are generated as
 plain members

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 8739d4e..8b90f21 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2341,6 +2341,10 @@ ctemplate::TemplateDictionary* CodeGeneratorCTemplate::generateDeclarationOfComp
             curFieldName.append(std::to_string(curCompField->getArraySize()));
             curFieldName.push_back(']');
           }
+          else if(curCompField && curCompField->isUnboundSpecifiedArray())
+          {
+            curFieldName.append("[0]");
+          }
           subAnonymousDeclDict->AddSectionDictionary(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_SECTION)->SetValue(COMPOSABLE_TYPE_INLINE_DECL_FIELD_NAME_VAR, curFieldName);
         }
       }
-- 
2.43.0


From f6c02758088dcea918b2413fefa8556bc0af3820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:13 +0000
Subject: [PATCH 48/50] fix: comparators print the 128 bits integers as doubles

---
 .../CodeGeneratorCTemplate.cpp                | 21 ++++++++++++++++---
 .../src/EasyMockGenerateTypes.cpp             |  4 ++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index 8b90f21..d99f38e 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -74,6 +74,7 @@
 #define STRUCT_COMPARE_FIELD "STRUCT_COMPARE_FIELD"
 #define STRUCT_COMPARE_TYPE "STRUCT_COMPARE_TYPE"
 #define STRUCT_COMPARE_PRINTF_FORMAT "STRUCT_COMPARE_PRINTF_FORMAT"
+#define STRUCT_COMPARE_INT128_SECTION "STRUCT_COMPARE_INT128_SECTION"
 #define FUNCTION_PARAM_SECTION_SEPARATOR FUNCTION_PARAM_SECTION "_separator"
 #define FUNCTION_PARAM_PTR_SECTION_SEPARATOR FUNCTION_PARAM_PTR_SECTION "_separator"
 #define FUNCTION_PARAM_TYPE "FUNCTION_PARAM_TYPE"
@@ -455,6 +456,15 @@ FUNCTION_CLASS_NAME "_" FUNCTION_UNIQUE_NAME "_match_" PARAMETER_NAME("")
 #define STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR TEMPLATE_VAR(STRUCT_COMPARE_FIELD)
 #define STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR TEMPLATE_VAR(STRUCT_COMPARE_PRINTF_FORMAT)
 #define STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR TEMPLATE_VAR(STRUCT_COMPARE_TYPE)
+/*
+ * printf() doesn't know the 128 bits integers: their two halves are printed
+ */
+#define STRUCT_COMPARE_ERROR_FORMAT \
+IF_SECTION_EXISTS(STRUCT_COMPARE_INT128_SECTION, "0x") "%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR
+#define STRUCT_COMPARE_ERROR_VALUE(OBJECT) \
+IF_SECTION_EXISTS(STRUCT_COMPARE_INT128_SECTION, "(unsigned long long)(" OBJECT STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR " >> 64), (unsigned long long)") \
+IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") \
+OBJECT STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR
 
 #define COMPOSED_TYPED_COMPARE_FUNCTION_SIGNATURE \
 "int cmp_" COMPOSED_TYPED_COMPARE_SECTION_UNIQUE_NAME_VAR "(const void *currentCall_ptr, const void *expectedCall_ptr, const char *paramName, char *errorMessage )"
@@ -540,7 +550,7 @@ const char templateText[] =
         "    if(" STRUCT_COMPARE_PARAM_SECTION_COMPARE_CONDITION_VAR ")" CARRIAGE_RETURN
         "    {" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(STRUCT_COMPARE_ERROR)
-        "        easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName, " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ", " IF_SECTION_EXISTS(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION, "(" ERROR_PRINTF_VAL_SPECIFIC_CAST_TEMPLATE_VAR ")") "expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ");" CARRIAGE_RETURN
+        "        easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' with value '" STRUCT_COMPARE_ERROR_FORMAT "', was expecting '" STRUCT_COMPARE_ERROR_FORMAT "'\", paramName, " STRUCT_COMPARE_ERROR_VALUE("currentCall_val->") ", " STRUCT_COMPARE_ERROR_VALUE("expectedCall_val->") ");" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(STRUCT_COMPARE_ERROR)
         "        return -1;" CARRIAGE_RETURN
         "    }" CARRIAGE_RETURN
@@ -556,7 +566,7 @@ const char templateText[] =
         "        if(" STRUCT_COMPARE_PARAM_SECTION_COMPARE_CONDITION_VAR ")" CARRIAGE_RETURN
         "        {" CARRIAGE_RETURN
         TEMPLATE_BEG_SECTION(STRUCT_COMPARE_ERROR)
-        "            easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field array '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' " PRINT_CMP_ARRAY_IDX " with value '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "', was expecting '%" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_PRINTF_FORMAT_VAR "'\", paramName" PRINT_CMP_ARRAY_IDX_value ",  currentCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ", expectedCall_val->" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR ");" CARRIAGE_RETURN
+        "            easyMock_snprintf(errorMessage, 256 , \"Parameter '%s' which is a" COMPOSED_TYPE_TEMPLATE_VAR " of type '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_STRUCT_TYPE_VAR "' has field array '" STRUCT_COMPARE_ERROR_SECTION_STRUCT_COMPARE_FIELD_VAR "' " PRINT_CMP_ARRAY_IDX " with value '" STRUCT_COMPARE_ERROR_FORMAT "', was expecting '" STRUCT_COMPARE_ERROR_FORMAT "'\", paramName" PRINT_CMP_ARRAY_IDX_value ", " STRUCT_COMPARE_ERROR_VALUE("currentCall_val->") ", " STRUCT_COMPARE_ERROR_VALUE("expectedCall_val->") ");" CARRIAGE_RETURN
         TEMPLATE_END_SECTION(STRUCT_COMPARE_ERROR)
         "            return -1;" CARRIAGE_RETURN
         "        }" CARRIAGE_RETURN
@@ -2027,7 +2037,12 @@ void CodeGeneratorCTemplate::setStructCompareStringFormat(ctemplate::TemplateDic
   }
   else if(p_curFieldType->isCType())
   {
-    p_errorDict->SetValue(STRUCT_COMPARE_PRINTF_FORMAT, easyMock_printfFormat[p_curFieldType->getCType()]);
+    const easyMock_cTypes_t cType = p_curFieldType->getCType();
+    if(cType == CTYPE_INT128 || cType == CTYPE_UINT128)
+    {
+      p_errorDict->AddSectionDictionary(STRUCT_COMPARE_INT128_SECTION);
+    }
+    p_errorDict->SetValue(STRUCT_COMPARE_PRINTF_FORMAT, easyMock_printfFormat[cType]);
   }
   else
   {
diff --git a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
index 6c581e9..85f12e8 100644
--- a/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
+++ b/src/easyMockGenerate/src/EasyMockGenerateTypes.cpp
@@ -43,8 +43,8 @@ const char *easyMock_printfFormat[] =
   "f",
   "lf",
   "Lf",
-  "lf%lf",
-  "Lf%Lf",
+  "llx%016llx", // The two halves
+  "llx%016llx",
   "d",
   "voidInvalidPrintfFormat",
   "invalidPrintfFormat"
-- 
2.43.0


From e25a7292b42845421cbb0f4d2d8b2bc4d6bc7055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:29 +0000
Subject: [PATCH 49/50] fix: comparators print the enumerators beyond int as
 other values

---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index d99f38e..f0a0542 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -2033,7 +2033,9 @@ void CodeGeneratorCTemplate::setStructCompareStringFormat(ctemplate::TemplateDic
   }
   else if(p_curFieldType->isEnum())
   {
-    p_errorDict->SetValue(STRUCT_COMPARE_PRINTF_FORMAT, "d");
+    // The enumerators may not fit in an int
+    p_errorDict->AddSectionDictionary(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION)->SetValue(ERROR_PRINTF_VAL_SPECIFIC_CAST_VAR, "long long");
+    p_errorDict->SetValue(STRUCT_COMPARE_PRINTF_FORMAT, "lld");
   }
   else if(p_curFieldType->isCType())
   {
@@ -2099,7 +2101,7 @@ void CodeGeneratorCTemplate::generateBasicTypeField(const ComposableFieldItf *p_
   }
   errorDict->SetValue(STRUCT_COMPARE_TYPE, compareType);
   const TypeItf *curFieldType = p_curField->getType();
-  if(p_curField->isComposableBitfield())
+  if(p_curField->isComposableBitfield() && !getUnqualifiedAndUntypedefType(curFieldType)->isEnum())
   {
     ctemplate::TemplateDictionary* castSection = errorDict->AddSectionDictionary(ERROR_PRINTF_VAL_SPECIFIC_CAST_SECTION);
     castSection->SetValue(ERROR_PRINTF_VAL_SPECIFIC_CAST_VAR, p_curField->getType()->getFullDeclarationName());
-- 
2.43.0


From 3d3c8ee82c827e439e39ed9a797dc18ce704ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:20 +0000
Subject: [PATCH 50/50] fix: guards of generated types confuse a typedef with a
 type and depend on the typedef a record is used through

An enum, or a record, and a typedef could share one guard, so that only the
first of them was declared. The guard of an anonymous record depended on
whether its typedef had been met, so that headers generated one by one could
not be included together.
---
 .../src/CTemplateGenerator/CodeGeneratorCTemplate.cpp      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
index f0a0542..a89a07d 100644
--- a/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
+++ b/src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp
@@ -160,7 +160,7 @@
 #define GENERATED_TYPE_SIMPLE_TYPEDEF_TYPEE_TEMPLATE_VAR TEMPLATE_VAR(GENERATED_TYPE_SIMPLE_TYPEDEF_TYPEE_VAR)
 #define GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_VAR "GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_VAR"
 #define GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_TEMPLATE_VAR TEMPLATE_VAR(GENERATED_TYPE_SIMPLE_TYPEDEF_TYPED_VAR)
-#define GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME MOCK_FRAMEWORK_NAME_UPPER "_" GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME_NAME_VAR "_GENERATED"
+#define GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME MOCK_FRAMEWORK_NAME_UPPER "_typedef_" GENERATED_TYPE_SIMPLE_TYPEDEF_GUARD_NAME_NAME_VAR "_GENERATED"
 
 #define GENERATED_TYPE_ENUM_SECTION "GENERATED_TYPE_ENUM_SECTION"
 #define GENERATED_TYPE_ENUM_NAME_VAR "GENERATED_TYPE_ENUM_NAME_VAR"
@@ -170,7 +170,7 @@
 #define GENERATED_TYPE_ENUM_VALUE_NAME_TEMPLATE_VAR TEMPLATE_VAR("GENERATED_TYPE_ENUM_VALUE_NAME_VAR")
 #define GENERATED_TYPE_ENUM_VALUE_VALUE_VAR "GENERATED_TYPE_ENUM_VALUE_VALUE_VAR"
 #define GENERATED_TYPE_ENUM_VALUE_VALUE_TEMPLATE_VAR TEMPLATE_VAR("GENERATED_TYPE_ENUM_VALUE_VALUE_VAR")
-#define GENERATED_TYPE_ENUM_GUARD_NAME MOCK_FRAMEWORK_NAME_UPPER "_" GENERATED_TYPE_ENUM_NAME_TEMPLATE_VAR "_GENERATED"
+#define GENERATED_TYPE_ENUM_GUARD_NAME MOCK_FRAMEWORK_NAME_UPPER "_enum_" GENERATED_TYPE_ENUM_NAME_TEMPLATE_VAR "_GENERATED"
 
 #define COMPOSABLE_TYPE_DECLARE_TYPE_SECTION "COMPOSABLE_TYPE_DECLARE_TYPE_SECTION"
 #define TYPE_DECLARATION_VAR "TYPE_DECLARATION_VAR"
@@ -2196,7 +2196,8 @@ void CodeGeneratorCTemplate::generateDeclarationOfUsedType(ctemplate::TemplateDi
       std::string finalTypeName{typeName};
       if (finalTypeName.empty())
       {
-        finalTypeName = getAnonymousTypedefUniqueName(p_type);
+        // The name the type is declared with, whichever typedef it is used through
+        finalTypeName = getAnonymousName(p_type);
       }
       guardName.append(finalTypeName);
       generatedType_section->SetValue(GENERATED_TYPE_DECLARE_TYPENAME_VAR, guardName);
-- 
2.43.0

