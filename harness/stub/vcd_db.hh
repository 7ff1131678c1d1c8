// The trace is the harness's; the SQLite database of the tool isn't part of the code under test.
#pragma once
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <stack>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "../waveform/waveform.hh"
