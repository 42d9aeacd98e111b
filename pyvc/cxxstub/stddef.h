#pragma once
typedef unsigned long size_t;
#define NULL __null
