// included before SearchEngine.cpp: the search itself is replaced by the harness, which inspects what it was given
#include "flags.h"
#include <sys/time.h>
#include <iostream>
#include <iomanip>
#include "ProgressionNetwork.h"
#include "search/fringes/OneQueueWAStarFringe.h"
#include "search/PriorityQueueSearch.h"
#include "VisitedList.h"
namespace progression { template <> void PriorityQueueSearch::search<VisitedList, OneQueueWAStarFringe>(Model *, searchNode *, int, bool, bool, Heuristic **, int, VisitedList &, OneQueueWAStarFringe &); }
