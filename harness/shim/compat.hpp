// Force-included in every translation unit of /repo and of the harness.
// Ubuntu's Ipopt 3.11.9 lacks OptionsList::SetBoolValue.
#pragma once
#define HAVE_CSTDDEF 1
#define SetBoolValue(name, value) SetStringValue((name), (value) ? "yes" : "no")
// Entropy seams of /repo/Randutils (its own override macros).
extern "C" unsigned long gsim_cpu_entropy(void);
extern "C" unsigned gsim_pid(void);
#define RANDUTILS_CPU_ENTROPY gsim_cpu_entropy()
#define RANDUTILS_GETPID gsim_pid()
#ifndef GRAZER_VERSION
#define GRAZER_VERSION simulated
#endif
