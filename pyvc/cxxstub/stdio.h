#pragma once
#include <stddef.h>
struct FILE;
extern FILE *stderr;
extern "C" int fprintf(FILE *, const char *, ...);
