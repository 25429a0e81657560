#include "core.h"
namespace dst {
struct PropInfo { const char *id; int runs; int secs; int tsecs; const char *rule; const char *real; const char *stub; };
#define REALC "eviction algorithms, hash tables and cache base code of /repo, compiled from the working tree with per-access instrumentation"
#define REALS "simulator.c, trace readers, eviction algorithms and hash tables of /repo, compiled from the working tree with per-access instrumentation"
#define STUBS "GLib thread pool, mutexes, sleeping, clocks and core count (simulated scheduler), allocator contents"
#define STUBC "allocator contents, clocks, library PRNG seed (simulated)"
#define REALR "every reader in libCacheSim/traceReader, libcsv, the installed libzstd, samplers"
#define STUBR "file delivery: fopen streams, open/fstat/mmap results and short reads come from the simulator; allocator contents"
#define REALA "dist.c, profilerLRU.c, splay tree, trace readers and samplers of /repo"
#define REALT "the command-line tools in libCacheSim/bin with the readers, caches and simulator they use, compiled from the working tree and called in process"
#define STUBT "files, standard output, thread pool, clocks, core count and allocator contents (simulated); fork and exec of the tool"
extern const PropInfo g_props[];
const PropInfo g_props[] = {
  {"H01", 50000, 20, 600, "Seeded client histories over every algorithm.", REALC, STUBC},
  {"H02", 50000, 20, 600, "Seeded client histories over every algorithm.", REALC, STUBC},
  {"H03", 50000, 20, 600, "Seeded client histories over every algorithm.", REALC, STUBC},
  {"H04", 50000, 20, 600, "Seeded client histories over every algorithm.", REALC, STUBC},
  {"H05", 50000, 20, 600, "Seeded client histories over every algorithm.", REALC, STUBC},
  {"H06", 50000, 20, 600, "Seeded client histories over policies with a reference model.", REALC, STUBC},
  {"H07", 50000, 20, 600, "Seeded client histories, repeated and interleaved.", REALC, STUBC},
  {"H08", 50000, 20, 600, "Seeded client histories, clone points and sizes.", REALC, STUBC},
  {"H09", 50000, 20, 600, "Seeded client histories and admission rules.", REALC, STUBC},
  {"S01", 50000, 32, 600, "Seeded caches, traces, thread counts and interleavings.", REALS, STUBS},
  {"S02", 50000, 32, 600, "Seeded caches, traces, thread counts and interleavings.", REALS, STUBS},
  {"S03", 50000, 32, 600, "Seeded caches, traces, interleavings, two concurrent simulations.", REALS, STUBS},
  {"S04", 50000, 32, 600, "Seeded warm-up configurations, traces and interleavings.", REALS, STUBS},
  {"R01", 50000, 20, 600, "Seeded formats, traces, chunk sizes, compression frames.", REALR, STUBR},
  {"R02", 50000, 20, 600, "Seeded formats, traces and tear points.", REALR, STUBR},
  {"R03", 50000, 20, 600, "Seeded formats, traces and navigation histories.", REALR, STUBR},
  {"R04", 50000, 20, 600, "Seeded formats, traces and failing calls.", REALR, STUBR},
  {"R05", 50000, 20, 600, "Seeded formats, traces, samplers and ratios.", REALR, STUBR},
  {"A01", 50000, 20, 600, "Seeded traces, formats, samplers and reader positions.", REALA, STUBR},
  {"A02", 50000, 32, 600, "Seeded traces, formats, samplers, reader positions and sizes.", REALA, STUBR},
  {"H10", 50000, 20, 600, "Seeded histories under each prefetcher: runs, recurring patterns, removals, evictions, clones; object ids and sizes around and beyond 32 bits.", REALC, STUBC},
  {"H11", 50000, 20, 600, "Seeded client histories over the remaining policies and main-cache choices.", REALC, STUBC},
  {"H13", 50000, 20, 600, "Seeded client histories, parameters, sizes and random seeds of the policies beside the documented ones.", REALC, STUBC},
  {"H14", 50000, 20, 600, "Seeded client histories, each run once through get() and once through the lower-level calls it is documented to be made of.", REALC, STUBC},
  {"H12", 4000, 32, 600, "Seeded workloads, object ids, random seeds, capacities and parameters of policies that sample, learn or age.", REALC, STUBC},
#ifdef SUPPORT_TTL
  {"T01", 50000, 20, 600, "Seeded client histories with expirations over the policies that look objects up in the common way.", REALC " (SUPPORT_TTL=ON)", STUBC},
#endif
  {"O01", 50000, 20, 600, "Seeded distance arrays, failing or short writes and reads, torn files.", REALA, STUBR},
  {"U01", 50000, 32, 600, "Seeded traces, formats, caches, options, thread schedules and failing calls.", REALT, STUBT},
  {"U02", 50000, 20, 600, "Seeded traces, formats, options and failing calls.", REALT, STUBT},
  {"U03", 50000, 32, 600, "Seeded traces, formats, options and failing calls.", REALT, STUBT},
  {"U04", 50000, 20, 600, "Seeded traces, formats, options and failing calls.", REALT, STUBT},
  {"U05", 50000, 20, 600, "Seeded traces, formats, options and failing calls.", REALT, STUBT},
  {"U06", 50000, 32, 600, "Seeded traces, formats, options and failing calls.", REALT, STUBT},
  {nullptr, 0, 0, 0, nullptr, nullptr, nullptr}};
}
