// The command-line tools of /repo, linked into the simulator and called like functions.
#pragma once
#include <string.h>
#include <iostream>
#include <ext/stdio_sync_filebuf.h>
#include "core.h"
extern "C" { int tool_cachesim_main(int, char **); int tool_distUtil_main(int, char **); int tool_traceConv_main(int, char **); int tool_traceFilter_main(int, char **); int tool_tracePrint_main(int, char **); int tool_traceAnalyzer_main(int, char **); }
namespace dst {
typedef int (*ToolMain)(int, char **);
struct ToolRun { int how = 0; int code = 0; std::string out; bool ok() const { return (how == 0 || how == 2) && code == 0; } std::string show() const { char b[64]; snprintf(b, sizeof b, how == 1 ? "aborted" : "exit status %d", code); return b; } };
// runs main(argv...) with its standard output in the file "console.txt" of the scratch directory
static inline ToolRun run_tool(ToolMain m, const std::vector<std::string> &args) {
  std::vector<char *> av; for (auto &a : args) { char *s = (char *)malloc(a.size() + 1); memcpy(s, a.c_str(), a.size() + 1); av.push_back(s); } av.push_back(nullptr);
  fflush(stdout); FILE *old = stdout, *f = fopen("console.txt", "w"); if (!f) harness_error("console.txt");
  stdout = f; ToolRun r; int rc = 0; __gnu_cxx::stdio_sync_filebuf<char> sb(f); std::streambuf *ob = std::cout.rdbuf(&sb);   // std::cout follows standard output
  r.how = guarded([&] { rc = m((int)av.size() - 1, av.data()); }, &r.code);
  if (r.how == 0) r.code = rc & 255;
  if (r.how != 1) fflush(nullptr);   // what the C library does at exit; its errors go unnoticed
  std::cout.rdbuf(ob); stdout = old; fclose(f);
  if (FILE *g = fopen("console.txt", "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, g)) > 0) r.out.append(b, n); fclose(g); }
  return r;
}
}
