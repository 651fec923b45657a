#pragma once
#include <string>
#include <stddef.h>
namespace sim {
void heapStart();
extern void (*g_allocHook)(); // called before an allocation or release of the simulated proxy (not with ASan)
void heapGeneration(int g);   // what is allocated from now on belongs to this generation
size_t heapBlocks();
size_t heapBytes();
size_t heapBlocksOf(int g);
int objectCount();
int objectsOfQt();
std::string objectsOf(int g);
void heapReport(int g);       // SIM_HEAPTRACE: where the blocks come from, on stderr
}
