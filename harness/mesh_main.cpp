// Runs the sections registered by every translation unit (one per physics and space dimension).
#include "mesh.hpp"
void vp::explore() { for(auto& f : vpm::parts()) f(); }
