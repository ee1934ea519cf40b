#define SIM_REGEX_TEMPLATE template
#include <string>
#include <regex>
