// Reads argument vectors (count, then one token per line) and prints what the command line parser made of them.
#include <CmdLineParser.h>
#include <algorithm>
#include <iostream>
#include <string>
#include <vector>
static void str(const std::string& s)
{
  std::cout << '"';
  for(char c : s)
  {
    if(c == '"' || c == '\\') std::cout << '\\' << c;
    else if((unsigned char)c < 32) std::cout << ' ';
    else std::cout << c;
  }
  std::cout << '"';
}
template<class T> static void list(const char* k, const T& t)
{
  std::cout << "\"" << k << "\":[";
  bool first = true;
  for(const auto& x : t) { if(!first) std::cout << ','; first = false; str(x); }
  std::cout << "]";
}
int main()
{
  std::string line;
  while(std::getline(std::cin, line))
  {
    std::vector<std::string> toks(std::stoul(line));
    for(auto& t : toks) std::getline(std::cin, t);
    std::vector<const char*> argv{"EasyMockGenerate"};
    for(auto& t : toks) argv.push_back(t.c_str());
    argv.push_back(nullptr);
    CmdLineParser p;
    EasyMockOptions o = p.getParsedArguments((int)argv.size() - 1, argv.data());
    std::cout << "{\"op\":\"parse\",\"kind\":\"" << (!o.m_helpMessage.empty() ? "help" : !o.m_errorMessage.empty() ? "error" : "ok") << "\",\"msg\":";
    str(o.m_errorMessage);
    std::cout << ",\"helpok\":" << (o.m_helpMessage == g_helpMessage ? "true" : "false");
    std::cout << ",\"single\":{\"-i\":"; str(o.m_inputHeaderFile);
    std::cout << ",\"-o\":"; str(o.m_outputDir);
    std::cout << ",\"--cwd\":"; str(o.m_changeWorkingDir);
    std::cout << "},\"multi\":{"; list("--mock-only", o.m_mockOnlyList);
    std::cout << ","; list("--ignore-generation-of", o.m_ignoreFunList);
    std::cout << ","; list("--ignore-field-generation-of", o.m_ignoreTypeList);
    std::cout << ","; list("--generate-comparator-of", o.m_comparatorList);
    std::cout << ","; list("--generate-attribute", o.m_generateAttrList);
    std::cout << "},";
    std::vector<std::string> f;
    if(o.m_generateTypes) f.push_back("--generate-types");
    if(o.m_generateIncludedFunctions) f.push_back("--generate-included-functions");
    if(o.m_mockCpp) f.push_back("--mock-cpp");
    if(o.m_ignoreParserError) f.push_back("--ignore-parser-error");
    list("flags", f);
    std::cout << ","; list("extra", o.m_extraArgs);
    std::cout << "}\n";
  }
}
