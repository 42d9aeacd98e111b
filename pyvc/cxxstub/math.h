#pragma once
extern "C" double pow(double, double);
