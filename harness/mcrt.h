// Controlled scheduler and happens-before checker for code that is compiled
// with -fsanitize=thread but linked without its runtime: mcrt.cpp implements
// the hooks the compiler inserts. One thread runs at a time. Threads can be
// switched at visible operations: atomics, static initialisation, locks,
// mc_yield and, optionally, allocations. Plain accesses are checked for races
// with vector clocks. An execution follows a given list of decisions.
#pragma once
#include <cstddef>
#include <cstdint>

constexpr int kMaxThreads = 3;
constexpr int kMaxPoints = 20000;
constexpr int kMaxOut = 4096;

enum McKind : std::uint8_t { kAtomic = 1, kLock, kYield, kAlloc, kForced };

struct McPoint
{
  std::uint64_t addr;
  std::uint8_t thread;     // about to run the operation (the last one that ran, if forced)
  std::uint8_t enabled;    // bit per thread
  std::uint8_t chosen;
  std::uint8_t kind;
  std::uint8_t write;
};

struct McShared
{
  // input
  int nprefix;
  std::uint8_t prefix[kMaxPoints];
  int alloc_points;
  // output
  int npoints;
  McPoint points[kMaxPoints];
  int deadlock, overflow, diverged, finished;
  int race;
  char race_text[1000];
  std::uint64_t race_pc[2];
  std::uint64_t plain;             // plain accesses checked
  std::uint64_t out_hash[kMaxThreads];
  char out[kMaxThreads][kMaxOut];
};

using McProgram = void (*)(int thread, void * arg);

// Runs n threads (numbered from 0) to completion. Call in a process of its own.
void mc_run(McShared * s, int n, McProgram f, void * arg);
void mc_yield();
// inside a thread: no scheduling, no checking
void mc_pause(bool on);
