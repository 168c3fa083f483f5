#include "probe.h"
#ifndef PROBE_WINDOWS_H
#define PROBE_WINDOWS_H
typedef uint32_t DWORD; typedef unsigned char BYTE; typedef uint16_t WORD; typedef int BOOL;
#define ERROR_INSUFFICIENT_BUFFER 122u
typedef enum { RelationProcessorCore, RelationNumaNode, RelationCache, RelationProcessorPackage, RelationGroup, RelationAll = 0xffff } LOGICAL_PROCESSOR_RELATIONSHIP;
typedef enum { CacheUnified, CacheInstruction, CacheData, CacheTrace } PROCESSOR_CACHE_TYPE;
typedef struct { uint64_t Mask; WORD Group; WORD Reserved[3]; } GROUP_AFFINITY;
typedef struct { BYTE Level; BYTE Associativity; WORD LineSize; DWORD CacheSize; PROCESSOR_CACHE_TYPE Type; BYTE Reserved[18]; WORD GroupCount; GROUP_AFFINITY GroupMask; } CACHE_RELATIONSHIP;
typedef struct { BYTE Flags; BYTE EfficiencyClass; BYTE Reserved[20]; WORD GroupCount; GROUP_AFFINITY GroupMask[1]; } PROCESSOR_RELATIONSHIP;
typedef struct { LOGICAL_PROCESSOR_RELATIONSHIP Relationship; DWORD Size; union { PROCESSOR_RELATIONSHIP Processor; CACHE_RELATIONSHIP Cache; }; } SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, *PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX;
#define GetLogicalProcessorInformationEx(r, b, l) pr_glpi(r, b, l)
#define GetLastError() pr_lasterr()
#endif
