// VDK's mutexes, which record what is done to each.
#pragma once
#include <limits.h>
#define _ADI_THREADS 1
namespace VDK {
typedef unsigned MutexID;
MutexID CreateMutex();
void DestroyMutex(MutexID);
void AcquireMutex(MutexID);
void ReleaseMutex(MutexID);
}
