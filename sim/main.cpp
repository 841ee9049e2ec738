#include "sim.h"
namespace sim
{
    SIM_API int sim_main(int, char**);
}
int main(int argc, char** argv) { return sim::sim_main(argc, argv); }
