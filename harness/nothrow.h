// symbolic_search is instrumented without exception support: its throw statements end the program
#pragma once
#include <bits/stdc++.h>
#include <math.h>
#include <stdlib.h>
#include "cuddObj.hh"
#define throw std::abort(),
