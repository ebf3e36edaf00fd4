#pragma once
#include <string>
#include <vector>
struct CaseSetup { unsigned style = 0, flags = 0, shape = 0, width = 60, label = 0; bool auto_exit = false, by_steps = false; std::string text = "Some text."; };
