#include "sim.h"
namespace sim {
std::vector<Property>& table() { static std::vector<Property> t; return t; }
const std::vector<Property>& properties() { return table(); }
}
